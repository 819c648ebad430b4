"""Every operation applied to (almost) every combination of values, as small programs whose outcome the
reference interpreter states. `wild` combinations have no stated outcome and are run for safety only."""
import diff, lang
from lang import Printer


def V(n): return ('var', n)
def I(n): return ('int', n) if n >= 0 else ('un', '-', ('int', -n)) if n != lang.INT_MIN else \
    ('bin', '-', ('un', '-', ('int', lang.INT_MAX)), ('int', 1))
def F(x): return ('float', x) if str(x)[0] != '-' else ('un', '-', ('float', -x))
def S(b): return ('str', [b])
def M(o, n): return ('member', o, n)
def C(f, *a): return ('call', f, list(a))
def std(n, *a): return C(M(V('std'), n), *a)
def host(n, *a): return C(M(V('host'), n), *a)
def fn(body, params=()): return ('func', None, list(params), body, True)
def B(*sts): return ('block', list(sts))
def E(e): return ('expr', e)
def const(n, e): return ('decl', 'const', [(n, e)])
def var(n, e): return ('decl', 'var', [(n, e)])


VALUES = {
    'null': ('null',), 'true': ('bool', True), 'false': ('bool', False),
    'i0': I(0), 'i1': I(1), 'im1': I(-1), 'i2': I(2), 'i300': I(300), 'ibig': I(1 << 62), 'imax': I(lang.INT_MAX),
    'imin': I(lang.INT_MIN),
    'f0': F(0.0), 'fm0': F(-0.0), 'fhalf': F(0.5), 'f1': F(1.0), 'f03': F(0.3), 'fm15': F(-1.5), 'f2p53': F(9007199254740992.0),
    'fbig': F(1e22), 'inf': M(V('std'), 'INFINITY'),
    's_': S(b''), 'sa': S(b'a'), 'sabc': S('abc\u00fc\n'.encode()), 's1': S(b'1'),
    'sl': C(M(S(b'xaby'), 'slice'), I(1), I(2)), 'sla': C(M(S(b'bab'), 'slice'), I(1), I(1)),
    'ya': ('sym', 'a'), 'yb': ('sym', 'b1'),
    't0': ('tuple', []), 't1': ('tuple', [I(1)]), 't2': ('tuple', [I(1), S(b'x')]),
    'a0': ('array', []), 'a3': ('array', [I(7), ('null',), F(2.5)]),
    'm0': ('map', []), 'm3': ('map', [(I(1), S(b'one')), (S(b'a'), I(2)), (('sym', 'a'), ('array', []))]),
    'st0': ('set', []), 'st3': ('set', [I(1), S(b'a'), ('sym', 'b1')]),
    'r0': ('record', []), 'r2': ('record', [('a', I(1)), ('b', S(b'r'))]),
    'mk': C(M(('map', [(I(1), S(b'v')), (I(2), S(b'w'))]), 'keys')),
    'mv': C(M(('map', [(I(1), S(b'v')), (I(2), S(b'w'))]), 'values')),
    'bf': std('new_buffer', I(3)), 'bf0': std('new_buffer', I(0)), 'bu': std('to_utf8', S(b'\x00xyz')),
    'sb': std('new_string_builder'),
    'fu0': fn(I(5)), 'fu1': fn(V('x'), ['x']), 'nat': M(V('host'), 'sum'), 'nats': M(V('std'), 'type_of'),
    'bm': M(('array', [I(1), I(2)]), 'size'),
    'ok': std('success', I(3)), 'er': std('error', S(b'bad')),
    'ex': C(M(std('catch_panic', fn(std('panic', S(b'boom')))), 'error')),
    'ty': M(V('std'), 'Integer'), 'mod': V('std'),
}
# values without a stated textual form or behaviour: safety only
WILD = {
    'co': std('launch', fn(('null',))), 'cur': std('current_coroutine'), 'tok': std('coroutine_token'),
    'nan': ('bin', '-', M(V('std'), 'INFINITY'), M(V('std'), 'INFINITY')), 'sch': std('schema_of', ('record', [('a', I(1))])),
    'natobj': host('native', I(5)), 'clo': host('closure'),
}
NUM = ['i0', 'i1', 'im1', 'i2', 'i300', 'ibig', 'imax', 'imin', 'f0', 'fm0', 'fhalf', 'f1', 'fm15', 'f2p53', 'fbig', 'inf']

a, b, c = V('a'), V('b'), V('c')
UNARY = {
    'neg': ('un', '-', a), 'pos': ('un', '+', a), 'not': ('un', '!', a), 'bitnot': ('un', '~', a), 'text': ('str', [b'<', a, b'>']),
    'repr': std('debug_repr', a), 'reprp': std('debug_repr', a, ('bool', True)), 'nestrepr': std('debug_repr', ('array', [a, ('tuple', [a])])),
    'type': std('type_of', a), 'if': ('if', a, B(E(I(1))), B(E(I(2)))), 'coal': ('coal', a, S(b'other')),
    'and': ('and', a, S(b'other')), 'or': ('or', a, S(b'other')), 'notnot': ('un', '!', ('un', '!', a)),
    'iter': C(V('collect'), a), 'destr': ('assign', '=', ('tuple', [V('x'), V('y')]), a), 'call0': C(a),
    'f0': ('tfield', a, 0), 'f1': ('tfield', a, 1), 'ma': M(a, 'a'), 'of0': ('opttfield', a, 0), 'oma': ('optmember', a, 'a'),
    'ocall': ('optcall', a, []), 'omsize': ('call', ('optmember', a, 'size'), []),
    'sb': C(M(std('new_string_builder'), 'append'), a), 'utf8': std('to_utf8', a), 'print': std('print', a, a),
    'panic': std('panic', a), 'assert': B(('assert', a, None), E(I(1))), 'assertm': B(('assert', ('bool', False), a), E(I(1))),
    'succ': std('success', a), 'sqrt': std('sqrt', a), 'abs': std('abs', a), 'floor': std('floor', a), 'ceil': std('ceil', a),
    'eqself': ('bin', '==', a, a), 'neself': ('bin', '!=', a, a), 'catch': std('catch_panic', a), 'launch': std('launch', a),
    'schema': std('schema_of', a), 'round': std('round', a), 'log': std('log', a), 'sin': std('sin', a), 'asin': std('asin', a),
    'while': B(var('n', I(0)), ('while', ('and', a, ('bin', '<', V('n'), I(3))), B(E(('assign', '+=', V('n'), I(1))))), E(V('n'))),
}
for _m in ('size', 'clear', 'keys', 'values', 'message', 'trace', 'to_string', 'is_success', 'is_error', 'value', 'error', 'type',
           'name', 'nope', 'coroutine', 'valid'):
    if _m != 'trace':
        UNARY['m_' + _m] = C(M(a, _m))
UNARY['s_append'] = ('assign', '=', M(a, 'a'), I(9))
UNARY['s_t0'] = ('assign', '=', ('tfield', a, 0), I(9))
BINARY = {'op' + o: ('bin', o, a, b) for o in ('+', '-', '*', '/', '%', '**', '<', '<=', '>', '>=', '==', '!=')}
BITS = {'op' + o: ('bin', o, a, b) for o in ('<<', '>>', '&', '|', '^')}
BINARY.update({
    'and': ('and', a, b), 'or': ('or', a, b), 'coal': ('coal', a, b), 'index': ('index', a, b), 'oindex': ('optindex', a, b),
    'call1': C(a, b), 'mapk': ('index', ('map', [(a, S(b'hit'))]), b), 'setk': C(M(('set', [a]), 'contains'), b),
    'map2': C(M(('map', [(a, I(1)), (b, I(2))]), 'size')), 'set2': C(M(('set', [a, b]), 'size')),
    'str': ('str', [a, b'-', b]), 'sbapp': B(const('sb', std('new_string_builder')), E(C(M(V('sb'), 'append'), a, b)),
                                             E(C(M(V('sb'), 'to_string')))),
    'eqsym': ('bin', '==', ('bin', '==', a, b), ('bin', '==', b, a)),
    'lessgr': ('bin', '==', ('bin', '<', a, b), ('bin', '>', b, a)),
    'pow': std('pow', a, b),
    # functions that are not written in the language accept more arguments than they need
    'catch2': std('catch_panic', a, b), 'type2': std('type_of', a, b), 'utf82': std('to_utf8', a, b), 'succ2': std('success', a, b),
    'sqrt2': std('sqrt', a, b), 'repr3': std('debug_repr', a, ('bool', False), b), 'schema2': std('schema_of', a, b),
    'size2': C(M(a, 'size'), b), 'value2': C(M(a, 'value'), b), 'panic2': std('panic', a, b),
})
for _m in ('append', 'contains', 'insert', 'remove', 'slice_first', 'slice_last', 'append_byte'):
    BINARY['m_' + _m] = C(M(a, _m), b)
for _o in ('+=', '-=', '*=', '/=', '%=', '**='):
    BINARY['as' + _o] = B(var('n', a), E(('assign', _o, V('n'), b)), E(V('n')))
TERNARY = {'store': ('assign', '=', ('index', a, b), c), 'slice': C(M(a, 'slice'), b, c),
           'cstore': ('assign', '+=', ('index', a, b), c)}
INDEXES = ['null', 'i0', 'i1', 'im1', 'i2', 'imax', 'imin', 'f1', 'sa', 'ya', 'a0', 'sla']
ALL = {**UNARY, **BINARY, **TERNARY}

T = lambda n: M(V('std'), n)
isa = lambda n: ('bin', '==', V('t'), T(n))
PRELUDE = [
    ('import', ['std']), ('import', ['host']),
    E(('func', 'collect', ['v'], B(var('r', ('array', [])), ('foreach', 'e', V('v'), B(E(C(M(V('r'), 'append'), V('e'))))),
                                   E(('return', V('r')))), False)),
    E(('func', 'show', ['v'], B(
        const('t', std('type_of', V('v'))),
        E(('if', isa('Result'), B(E(('if', C(M(V('v'), 'is_success')), B(E(('return', ('tuple', [('sym', 'ok'), C(V('show'), C(M(V('v'), 'value')))])))), None)),
                                  E(('return', ('tuple', [('sym', 'err'), C(M(V('v'), 'error'))])))), None)),
        E(('if', ('or', ('or', isa('Map'), isa('Set')), ('or', isa('MapKeyView'), isa('MapValueView'))),
           B(E(('return', ('tuple', [C(V('collect'), V('v'))])))), None)),
        E(('if', isa('StringBuilder'), B(E(('return', C(M(V('v'), 'to_string'))))), None)),
        E(('return', V('v')))), False)),
]


def stmt(key, op, vals):
    """One combination as a block statement."""
    sts = [const(n, v) for n, v in zip('abc', vals)]
    pre = [('decl', 'var', [('x', I(0)), ('y', I(0))])] if op[0] == 'assign' and op[2][0] == 'tuple' else []
    body = fn(op) if op[0] != 'block' else fn(op)
    show = [C(V('show'), V(n)) for n, v in zip('abc', vals)]
    return B(*sts, *pre, const('r', std('catch_panic', body)),
             E(host('log', S(key.encode()), C(V('show'), V('r')), *show, *([V('x'), V('y')] if pre else []))))


def opaque(v):
    return host('id', v)


def subst(e, m):
    """Replaces variables by expressions."""
    if isinstance(e, tuple):
        if len(e) == 2 and e[0] == 'var' and e[1] in m:
            return m[e[1]]
        return tuple(subst(x, m) for x in e)
    if isinstance(e, list):
        return [subst(x, m) for x in e]
    return e


def literal_stmt(key, op, vals):
    """The operands stand directly in the expression: the compiler may evaluate it."""
    return B(E(host('log', S(key.encode()), C(V('show'), std('catch_panic', fn(subst(op, dict(zip('abc', vals)))))))))


def local_stmt(key, op, vals):
    """The operands are constants of the function that evaluates the expression."""
    body = B(*[const(n, v) for n, v in zip('abc', vals)], E(('return', op)))
    return B(E(host('log', S(key.encode()), C(V('show'), std('catch_panic', ('func', None, [], body, False))))))


def opaque_stmt(key, op, vals):
    """The operands become known at run time only."""
    return local_stmt(key, op, [opaque(v) for v in vals])


def plain_stmt(key, op, vals):
    return stmt(key, op, vals)


def module(stmts):
    fs, names = [], []
    for i in range(0, len(stmts), 40):
        n = 'part%d' % (i // 40)
        names.append(n)
        fs.append(E(('func', n, [], B(*[E(s) for s in stmts[i:i + 40]]), False)))
    main = ('export', E(('func', 'main', [], B(*[E(C(V(n))) for n in names]), False)))
    return PRELUDE + fs + [main]


def combos(ops, values=None):
    """(key, op, [values]) for all operations named in ops."""
    vals = {k: VALUES.get(k) or WILD[k] for k in (values or VALUES)}
    for o in ops:
        if o in UNARY:
            for k, v in vals.items():
                yield '%s(%s)' % (o, k), UNARY[o], [v]
        if o in BINARY or o in BITS:
            for k, v in vals.items():
                for k2, v2 in vals.items():
                    yield '%s(%s,%s)' % (o, k, k2), BINARY.get(o) or BITS[o], [v, v2]
        if o in TERNARY:
            for k, v in vals.items():
                for k2 in INDEXES:
                    for k3 in ('null', 'i1', 'i2', 'i300', 'im1', 'sa'):
                        yield '%s(%s,%s,%s)' % (o, k, k2, k3), TERNARY[o], [v, VALUES[k2], VALUES[k3]]


def _probe(args):
    """Which of a list of combinations the interpreter can state; returns the expected events of each."""
    out = []
    for form, (key, op, vals) in args:
        m = lang.interpret([('main', module([FORMS[form](key, op, vals)]))], trace=False)
        out.append(m.events[:-1] if m.events is not None else None)
    return out


FORMS = {'plain': plain_stmt, 'literal': literal_stmt, 'local': local_stmt, 'opaque': opaque_stmt}


def programs(items, forms=('plain',), size=240, seed=0):
    """Groups the combinations with a stated outcome into programs: ([Prog], [wild combinations])."""
    items = list(items)
    base = forms[0]
    chunks = [[(base, x) for x in items[i:i + 50]] for i in range(0, len(items), 50)]
    exp = [e for ch in diff.pool_map(_probe, chunks, 1) for e in ch]
    good = [(it, e) for it, e in zip(items, exp) if e is not None]
    wild = [it for it, e in zip(items, exp) if e is None]
    progs = []
    for form in forms:
        for i in range(0, len(good), size):
            part = good[i:i + size]
            p = diff.Prog()
            p.id, p.seed, p.profile, p.opts = 'zoo-%s-%d' % (form, i), 0, 'zoo', {}
            p.ast = module([FORMS[form](k, op, vals) for (k, op, vals), _ in part])
            p.src = Printer().module(p.ast)
            p.events = [x for _, e in part for x in e] + [['done', 0, ['ok', None]]]
            p.why = None
            progs.append(p)
    return progs, wild


def judge(check, progs, res, what):
    """Like diff.judge, but names every single combination that differs."""
    for p in progs:
        r = res[p.id]
        if r.get('crash') is not None or r.get('timeout') or r.get('missing') or r.get('skipped'):
            check.count('no_result')
            continue
        d = diff.difference(p.events, r) if not r.get('events') else None
        if d:
            check.violation('%s:%s' % (what, diff.kind(d)), '%s: %s' % (p.id, d), {'source': p.src, 'difference': d})
            continue
        got = {e[1]: e for e in r['events'] if e[0] == 'l'}
        for e in p.events:
            if e[0] == 'l':
                g = got.get(e[1])
                check.observe((p.id.split('-')[1], str(g)))
                if g is not None and lang.matches(e, g):
                    check.count('agreeing_' + p.id.split('-')[1])
                else:
                    op = e[1].split('(')[0]
                    check.violation('%s:%s' % (what, op), '%s %s: expected %s observed %s' % (p.id, e[1], e[2:], g and g[2:]),
                                    {'combination': e[1], 'expected': str(e), 'observed': g, 'source': p.src})
        if r['events'][-1:] != p.events[-1:] and not lang.matches(p.events[-1], r['events'][-1]):
            check.violation('%s:end' % what, '%s: last event %s' % (p.id, str(r['events'][-1:])[:300]), {'source': p.src})


def wild_sources(items, size=150):
    items = list(items)
    return [Printer().module(module([stmt(k, op, vals) for k, op, vals in items[i:i + size]]))
            for i in range(0, len(items), size)]
