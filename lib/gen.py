"""Random generator of valid programs (type directed, bounded loops and recursion)."""
import random
from lang import INT_MAX, INT_MIN

INTERESTING_INTS = [0, 1, 2, 3, 5, 7, 10, 63, 64, 100, 127, 128, 255, 256, 1000, 65535, 65536, 2**31 - 1, 2**31,
                    2**32, 2**53, 2**53 + 1, 2**62, 2**62 - 1, 2**61, INT_MAX, INT_MAX - 1]
STRINGS = [b'', b'a', b'b', b'abc', b'ab', b'bc', b'hello world', 'äöü'.encode(), 'x\u20acy'.encode(), b'$', b'"', b"'",
           b'\\', b'\n', b'{}', b'a b', b'${x}', '\U0001F600'.encode(), b'tab\t', b'%d', b'\x01\x7f']
SYMS = ['foo', 'bar', 'a', 'success', 'x_1']
FIELDS = ['a', 'b', 'c', 'name', 'x', 'size', 'value']


class Var:
    __slots__ = ('name', 'type', 'mut', 'level', 'loop')

    def __init__(self, name, type, mut, level):
        self.name, self.type, self.mut, self.level = name, type, mut, level


class Gen:
    def __init__(self, seed, **o):
        self.r = random.Random(seed)
        self.o = dict(size=30, depth=4, panics=0.02, defers=0.06, coro=0.0, swaps=0.05, trace=0.10, closures=0.08,
                      loose=0.02, nfuncs=3, floats=True, catch=0.05, alloc=0.0, globals_=4, loops=0.10, never=0.04,
                      assign_expr=0.03, shadow=0.05, params=4, strings=True, consts=0.3, natives=0.05, gc=0.0)
        self.o.update(o)
        self.n = 0
        self.scopes = [[]]      # list of lists of Var
        self.level = 0          # function nesting
        self.loop = 0           # loop nesting in the current function
        self.fn_ret = [None]    # return types
        self.funcs = []         # module functions (name, params, ret)
        self.fuel = [None]
        self.nodefer = 0
        self.noctl = 0
        self.budget = 0

    # -- helpers
    def p(self, x):
        return self.r.random() < x

    def fresh(self, pre='v'):
        self.n += 1
        return '%s%d' % (pre, self.n)

    def add(self, name, t, mut=True):
        v = Var(name, t, mut, self.level)
        self.scopes[-1].append(v)
        return v

    def visible(self):
        seen, out = set(), []
        for sc in reversed(self.scopes):
            for v in reversed(sc):
                if v.name not in seen:
                    seen.add(v.name)
                    out.append(v)
        return out

    def vars_of(self, t, mut=False):
        return [v for v in self.visible() if v.type == t and (v.mut or not mut)]

    # -- types
    def simple_type(self):
        return self.r.choices(['int', 'bool', 'str', 'float', 'sym'],
                              [10, 3, 5 if self.o['strings'] else 0, 2 if self.o['floats'] else 0, 0.5])[0]

    def key_type(self):
        return self.r.choices(['int', 'str', 'bool', 'sym'], [6, 4 if self.o['strings'] else 0, 1, 1])[0]

    def type(self, d=2):
        if d <= 0 or self.p(0.55):
            return self.simple_type()
        k = self.r.choices(['opt', 'tuple', 'array', 'map', 'set', 'rec', 'fn', 'res'], [2, 3, 3, 2, 1, 2, 3, 1])[0]
        if k == 'opt':
            return ('opt', self.type(d - 1) if self.p(.3) else self.simple_type())
        if k == 'tuple':
            return ('tuple',) + tuple(self.type(d - 1) for _ in range(self.r.randint(1, 4)))
        if k == 'array':
            return ('array', self.type(d - 1))
        if k == 'map':
            return ('map', self.key_type(), self.type(d - 1))
        if k == 'set':
            return ('set', self.key_type())
        if k == 'rec':
            return ('rec',) + tuple((n, self.type(d - 1)) for n in self.r.sample(FIELDS, self.r.randint(1, 3)))
        if k == 'res':
            return ('res', self.type(d - 1))
        return ('fn', tuple(self.type(d - 2) for _ in range(self.r.choice([0, 0, 1, 1, 2]))), self.type(d - 1))

    # -- literals
    def intlit(self):
        x = self.r.random()
        if x < 0.75:
            n = self.r.randint(0, 9)
        elif x < 0.9:
            n = self.r.choice(INTERESTING_INTS[:16])
        elif self.p(self.o['panics'] * 10):
            n = self.r.choice(INTERESTING_INTS)
        else:
            n = self.r.randint(0, 1000)
        e = ('int', n)
        if self.p(0.1):
            e = ('un', '-', e)
        return e

    def lit(self, t, d=2):
        r = self.r
        if t == 'int':
            return self.intlit()
        if t == 'float':
            return ('float', r.choice([0.0, 0.5, 1.0, 1.5, 2.25, 3.75, 100.125, 0.1, 1e10, 12345.678]))
        if t == 'bool':
            return ('bool', self.p(0.5))
        if t == 'str':
            return ('str', [r.choice(STRINGS)])
        if t == 'sym':
            return ('sym', r.choice(SYMS))
        if t == 'null':
            return ('null',)
        k = t[0]
        if k == 'opt':
            return ('null',) if self.p(0.5) else self.expr(t[1], d - 1)
        if k == 'tuple':
            return ('tuple', [self.expr(x, d - 1) for x in t[1:]])
        if k == 'array':
            return ('array', [self.expr(t[1], d - 1) for _ in range(r.randint(0, 4))])
        if k == 'set':
            return ('set', [self.expr(t[1], d - 1) for _ in range(r.randint(0, 4))])
        if k == 'map':
            return ('map', [(self.expr(t[1], d - 1), self.expr(t[2], d - 1)) for _ in range(r.randint(0, 3))])
        if k == 'rec':
            return ('record', [(n, self.expr(x, d - 1)) for n, x in t[1:]])
        if k == 'res':
            return ('call', ('member', ('var', 'std'), r.choice(['success', 'success', 'error'])), [self.expr(t[1], d - 1)])
        if k == 'fn':
            return self.lambda_(t, d)
        raise ValueError(t)

    def lambda_(self, t, d, name=None, body_size=None):
        params = [self.fresh('p') for _ in t[1]]
        saved = (self.loop, self.nodefer, self.noctl)
        self.loop, self.nodefer, self.noctl = 0, 0, 0
        self.level += 1
        self.scopes.append([])
        if name:
            pass
        for n, x in zip(params, t[1]):
            self.add(n, x)
        self.fn_ret.append(t[2])
        if self.p(0.55) or d <= 0 or self.budget <= 0:
            body, isexpr = self.expr(t[2], max(d - 1, 0)), True
        else:
            body, isexpr = self.fn_body(t[2], body_size or self.r.randint(1, 4), d - 1), False
        self.fn_ret.pop()
        self.scopes.pop()
        self.level -= 1
        self.loop, self.nodefer, self.noctl = saved
        return ('func', name, params, body, isexpr)

    def fn_body(self, ret, n, d):
        """A block that ends by returning a value of type ret."""
        self.scopes.append([])
        stmts = self.stmts(n, d)
        stmts.append(('expr', ('return', self.expr(ret, d))))
        self.scopes.pop()
        return ('block', stmts)

    # -- expressions
    def call_std(self, n, *a):
        return ('call', ('member', ('var', 'std'), n), list(a))

    def call_host(self, n, *a):
        return ('call', ('member', ('var', 'host'), n), list(a))

    def expr(self, t, d):
        self.budget -= 1
        r = self.r
        e = self.expr_(t, d)
        o = self.o
        if d > 0 and self.p(o['trace']):
            if self.p(0.6):
                e = ('call', ('var', 'tr'), [('int', r.randint(0, 99)), e])
            else:
                e = self.call_host('id', e)
        if d > 0 and self.p(o['coro']):
            e = self.call_host(r.choice(['later', 'later', 'async_id']), e)
        if d > 0 and self.p(o['natives'] / 3):
            ps = self.lambda_(('fn', (), t), d - 1)
            e = self.call_host('call0', ps) if self.p(0.4) else self.call_host('call', ps)
        return e

    def expr_(self, t, d):
        r, o = self.r, self.o
        if d > 0 and self.p(o['loose']):
            return self.expr_(self.simple_type(), d - 1)
        opts, w = [], []

        def opt(weight, f):
            opts.append(f)
            w.append(weight)
        vs = self.vars_of(t)
        if vs:
            opt(6, lambda: ('var', r.choice(vs[:6] if self.p(.7) else vs).name))
        if d <= 0 or self.budget <= 0:
            if vs and self.p(0.7):
                return ('var', r.choice(vs).name)
            if isinstance(t, tuple) and d < -3:
                pass
            return self.lit(t, d) if not (isinstance(t, tuple) and t[0] == 'fn') else self.lambda_(t, min(d, 0))
        opt(3 if not isinstance(t, tuple) else 4, lambda: self.lit(t, d))
        # containers that hold a t
        acc = self.accessors(t)
        if acc:
            opt(4, lambda: r.choice(acc)())
        # conditionals and blocks as values
        opt(1.2, lambda: ('if', self.cond(d - 1), self.value_block(t, d - 1), self.else_part(t, d - 1)))
        opt(0.5, lambda: self.value_block(t, d - 1))
        # calls
        fs = [f for f in self.funcs if f[2] == t]
        if fs and self.budget > 5:
            opt(3, lambda: self.call_func(r.choice(fs), d - 1))
        fvs = [v for v in self.visible() if isinstance(v.type, tuple) and v.type[0] == 'fn' and v.type[2] == t]
        if fvs:
            def callvar():
                v = r.choice(fvs)
                args = [self.expr(x, d - 1) for x in v.type[1]]
                if self.p(o['natives'] * 2):
                    return self.call_host('call', ('var', v.name), *args)
                if self.p(0.1):
                    return ('optcall', ('var', v.name), args)
                return ('call', ('var', v.name), args)
            opt(4, callvar)
        opt(o['closures'] * 6, lambda: self.iife(t, d - 1))
        if self.noctl == 0 and o['assign_expr']:
            mv = self.vars_of(t, True)
            if mv:
                opt(o['assign_expr'] * 12, lambda: ('assign', '=', ('var', r.choice(mv).name), self.expr(t, d - 1)))
        opt(0.5, lambda: ('coal', self.expr(('opt', t), d - 1), self.expr(t, d - 1)))
        if o['catch']:
            opt(o['catch'] * 5, lambda: self.caught(t, d - 1))
        if o['never'] and self.noctl == 0:
            opt(o['never'] * 6, lambda: self.never(t, d - 1))
        # operators
        if t == 'int':
            opt(6, lambda: self.arith('int', d - 1))
            opt(1, lambda: ('un', r.choice(['-', '-', '+']), self.expr('int', d - 1)))
            opt(1, lambda: self.size_of(d - 1))
            opt(o['natives'] * 10, lambda: self.call_host('sum', *[self.expr('int', d - 1) for _ in range(r.randint(0, 5))]))
            mv = self.vars_of('int', True)
            if mv and self.noctl == 0:
                opt(o['assign_expr'] * 10, lambda: ('assign', r.choice(['+=', '-=', '*=']), ('var', r.choice(mv).name),
                                                   self.expr('int', d - 1)))
        elif t == 'float':
            opt(5, lambda: self.arith('float', d - 1))
            opt(1, lambda: ('un', '-', self.expr('float', d - 1)))
        elif t == 'bool':
            opt(5, lambda: self.cond(d - 1))
            opt(1, lambda: ('un', '!', self.expr(self.simple_type(), d - 1)))
        elif t == 'str':
            opt(4, lambda: self.interp(d - 1))
        elif isinstance(t, tuple) and t[0] == 'opt':
            opt(3, lambda: self.expr(t[1], d - 1))
            opt(2, lambda: self.opt_access(t, d - 1))
            opt(1, lambda: ('and', self.cond(d - 1), self.expr(t[1], d - 1)) if False else ('null',))
        elif isinstance(t, tuple) and t[0] == 'array' and self.p(o['natives'] * 4):
            opt(2, lambda: self.call_host('repeat', ('int', r.randint(0, 3)), self.lambda_(('fn', (), t[1]), d - 1)))
        if not isinstance(t, tuple):
            opt(0.5, lambda: (r.choice(['and', 'or']), self.expr(t, d - 1), self.expr(t, d - 1)))
        return r.choices(opts, w)[0]()

    def accessors(self, t):
        out = []
        for v in self.visible()[:14]:
            ty = v.type
            if not isinstance(ty, tuple):
                continue
            if ty[0] == 'tuple':
                for i, x in enumerate(ty[1:]):
                    if x == t:
                        out.append(lambda v=v, i=i: ('tfield', ('var', v.name), i))
            elif ty[0] == 'rec':
                for n, x in ty[1:]:
                    if x == t:
                        out.append(lambda v=v, n=n: ('member', ('var', v.name), n))
            elif ty[0] == 'array' and ty[1] == t:
                out.append(lambda v=v: ('if', ('bin', '>', ('call', ('member', ('var', v.name), 'size'), []), ('int', 0)),
                                        ('block', [('expr', ('index', ('var', v.name), ('int', 0)))]),
                                        ('block', [('expr', self.lit(t, 0))])))
            elif ty[0] == 'map' and ('opt', ty[2]) == t:
                out.append(lambda v=v, ty=ty: ('index', ('var', v.name), self.expr(ty[1], 1)))
            elif ty[0] == 'set' and t == 'bool':
                out.append(lambda v=v, ty=ty: ('call', ('member', ('var', v.name), 'contains'), [self.expr(ty[1], 1)]))
        return out

    def value_block(self, t, d):
        self.scopes.append([])
        st = self.stmts(self.r.choice([0, 0, 0, 1, 2]), d) if d > 0 else []
        st.append(('expr', self.expr(t, d)))
        self.scopes.pop()
        return ('block', st)

    def else_part(self, t, d):
        if self.p(0.25) and d > 0:
            return ('if', self.cond(d - 1), self.value_block(t, d - 1), self.else_part(t, d - 1))
        return self.value_block(t, d)

    def size_of(self, d):
        vs = [v for v in self.visible() if isinstance(v.type, tuple) and v.type[0] in ('array', 'map', 'set', 'tuple')
              or v.type == 'str']
        if not vs:
            return self.intlit()
        return ('call', ('member', ('var', self.r.choice(vs).name), 'size'), [])

    def arith(self, t, d):
        r = self.r
        ops = ['+', '+', '+', '-', '-', '*', '/', '%']
        if self.p(self.o['panics'] * 4):
            ops.append('**')
        op = r.choice(ops)
        a = self.expr(t if t == 'int' else r.choice(['int', 'float', 'float']), d)
        b = self.expr(t if t == 'int' or a[0] != 'float' and self.p(.7) else r.choice(['int', 'float']), d)
        if t == 'float':
            b = self.expr('float', d)
        if op in '/%' and t == 'int' and not self.p(self.o['panics'] * 4):
            b = ('int', r.randint(1, 9))
        if op == '**':
            b = ('int', r.randint(0, 5))
        if op == '*' and t == 'int' and not self.p(self.o['panics'] * 6):
            b = ('int', r.randint(0, 3))
        return ('bin', op, a, b)

    def cond(self, d):
        r = self.r
        if d <= 0:
            vs = self.vars_of('bool')
            if vs and self.p(0.6):
                return ('var', r.choice(vs).name)
            return ('bin', r.choice(['<', '>', '==']), self.expr('int', 0), self.expr('int', 0))
        x = r.random()
        if x < 0.45:
            t = r.choice(['int', 'int', 'float']) if self.o['floats'] else 'int'
            return ('bin', r.choice(['<', '<=', '>', '>=', '==', '!=']), self.expr('int', d - 1), self.expr(t, d - 1))
        if x < 0.6:
            t = self.simple_type()
            return ('bin', r.choice(['==', '!=']), self.expr(t, d - 1), self.expr(t, d - 1))
        if x < 0.75:
            return (r.choice(['and', 'or']), self.cond(d - 1), self.cond(d - 1))
        if x < 0.83:
            return ('un', '!', self.cond(d - 1))
        if x < 0.9:
            return ('bin', r.choice(['==', '!=']), self.expr(('opt', self.simple_type()), d - 1), ('null',))
        return self.expr('bool', d)

    def interp(self, d):
        parts = []
        for _ in range(self.r.randint(1, 4)):
            if self.p(0.5):
                parts.append(self.r.choice(STRINGS))
            else:
                parts.append(self.expr(self.r.choice(['int', 'str', 'bool', 'int', 'sym'] + (['float'] if self.o['floats'] else [])), d))
        merged = []
        for q in parts:
            if isinstance(q, bytes) and merged and isinstance(merged[-1], bytes):
                merged[-1] += q
            else:
                merged.append(q)
        return ('str', merged)

    def call_func(self, f, d):
        name, params, ret = f
        fuel = self.fuel[-1]
        if fuel is None:
            fa = ('int', self.r.randint(0, 3))
        else:
            fa = ('bin', '-', ('var', fuel), ('int', 1))
        return ('call', ('var', name), [fa] + [self.expr(x, d) for x in params])

    def iife(self, t, d):
        ps = tuple(self.simple_type() for _ in range(self.r.randint(0, 2)))
        f = self.lambda_(('fn', ps, t), d)
        return ('call', ('paren', f) if self.p(1) else f, [self.expr(x, d) for x in ps])

    def caught(self, t, d):
        """catch_panic with a default."""
        f = self.lambda_(('fn', (), t), d)
        v = self.fresh('r')
        return ('block', [('decl', 'const', [(v, self.call_std('catch_panic', f))]),
                          ('expr', ('if', ('call', ('member', ('var', v), 'is_success'), []),
                                    ('block', [('expr', ('call', ('member', ('var', v), 'value'), []))]),
                                    ('block', [('expr', self.call_host('log', ('str', [b'caught']), ('var', v))),
                                               ('expr', self.expr(t, d - 1))])))])

    def leave(self, d):
        """An expression that leaves the current construct."""
        opts = []
        if self.loop > 0:
            opts += [('break',), ('continue',)]
        if self.fn_ret[-1] is not None:
            opts.append(None)
        if not opts:
            return None
        x = self.r.choice(opts)
        return ('return', self.expr(self.fn_ret[-1], d)) if x is None else x

    def never(self, t, d):
        lv = self.leave(d)
        if lv is None:
            return self.lit(t, d)
        return ('if', self.cond(d), ('block', [('expr', lv)]), self.value_block(t, d)) if self.p(0.7) else \
            ('coal', self.expr(('opt', t), d), lv)

    def opt_access(self, t, d):
        inner = t[1]
        vs = [v for v in self.visible() if isinstance(v.type, tuple) and v.type[0] == 'opt'
              and isinstance(v.type[1], tuple)]
        cands = []
        for v in vs:
            b = v.type[1]
            if b[0] == 'rec':
                for n, x in b[1:]:
                    if x == inner:
                        cands.append(lambda v=v, n=n: ('optmember', ('var', v.name), n))
            if b[0] == 'tuple':
                for i, x in enumerate(b[1:]):
                    if x == inner:
                        cands.append(lambda v=v, i=i: ('opttfield', ('var', v.name), i))
            if b[0] == 'map' and b[2] == inner:
                cands.append(lambda v=v, b=b: ('optindex', ('var', v.name), self.expr(b[1], d)))
            if b[0] == 'fn' and b[2] == inner:
                cands.append(lambda v=v, b=b: ('optcall', ('var', v.name), [self.expr(x, d) for x in b[1]]))
            if b[0] in ('array', 'map', 'set') and inner == 'int':
                cands.append(lambda v=v: ('call', ('optmember', ('var', v.name), 'size'), []))
        if cands:
            return self.r.choice(cands)()
        rt = ('rec', ('a', inner))
        return ('optmember', ('paren', self.expr(('opt', rt), d)) if False else self.expr(('opt', rt), d), 'a')

    # -- statements
    def stmts(self, n, d):
        out = []
        for _ in range(n):
            if self.budget <= 0:
                break
            s = self.stmt(d)
            if s is not None:
                out.extend(s if isinstance(s, list) else [s])
        return out

    def block(self, n, d, extra=None):
        self.scopes.append([])
        st = self.shadowing() if self.p(self.o['shadow']) else []
        st += self.stmts(n, d)
        if extra:
            st += extra
        self.scopes.pop()
        return ('block', st)

    def shadowing(self):
        vs = [v for v in self.visible() if v.level == self.level and v.name[0] == 'v']
        if not vs:
            return []
        v = self.r.choice(vs)
        t = self.simple_type()
        hidden = self.scopes
        # the initialiser must not mention the name that is being shadowed
        self.scopes = [[x for x in s if x.name != v.name] for s in self.scopes]
        init = self.expr(t, 1)
        self.scopes = hidden
        self.add(v.name, t)
        return [('decl', 'var', [(v.name, init)])]

    def stmt(self, d):
        r, o = self.r, self.o
        self.budget -= 1
        opts, w = [], []

        def opt(weight, f):
            opts.append(f)
            w.append(weight)
        opt(10, lambda: self.s_decl(d))
        opt(6, lambda: self.s_assign(d))
        opt(4, lambda: self.s_log(d))
        opt(o['swaps'] * 40, lambda: self.s_swap(d))
        opt(3, lambda: self.s_mutate(d))
        opt(1.5, lambda: ('expr', self.expr(self.type(1), d)) if True else None)
        if d > 0:
            opt(4, lambda: self.s_if(d))
            opt(o['loops'] * 30, lambda: self.s_loop(d))
            opt(0.7, lambda: ('expr', self.block(r.randint(1, 3), d - 1)))
            opt(o['closures'] * 20, lambda: self.s_func(d))
            if o['catch']:
                opt(o['catch'] * 20, lambda: self.s_catch(d))
            if not self.nodefer:
                opt(o['defers'] * 30, lambda: ('defer', self.defer_expr(d - 1)))
            if self.noctl == 0:
                opt(o['never'] * 20, lambda: self.s_leave(d))
            opt(0.4, lambda: self.s_uninit(d))
        opt(o['panics'] * 15, lambda: ('expr', self.call_std('panic', ('str', [b'p%d' % r.randint(0, 99)]))) if self.p(.5) else
            ('expr', ('if', self.cond(1), ('block', [('expr', self.call_std('panic', ('str', [b'q%d' % r.randint(0, 99)])))]), None)))
        opt(0.5, lambda: ('assert', self.cond(1) if self.p(o['panics'] * 5) else ('bool', True),
                          self.expr('str', 1) if self.p(.5) else None))
        if o['alloc']:
            opt(o['alloc'] * 20, lambda: self.s_alloc(d))
        if o['gc']:
            opt(o['gc'] * 20, lambda: ('expr', self.call_host('gc')))
        if o['coro']:
            opt(o['coro'] * 20, lambda: ('expr', self.call_std('dispatch')))
            opt(o['coro'] * 15, lambda: self.s_launch(d))
        return r.choices(opts, w)[0]()

    def defer_expr(self, d):
        self.noctl += 1
        self.nodefer += 1
        x = self.r.random()
        if x < 0.6:
            e = self.call_host('log', ('str', [b'd%d' % self.r.randint(0, 99)]), *([self.expr('int', d)] if self.p(.4) else []))
        elif x < 0.6 + self.o['panics'] * 3:
            e = self.call_std('panic', ('str', [b'dp%d' % self.r.randint(0, 9)]))
        elif x < 0.85:
            self.scopes.append([])
            st = []
            for _ in range(self.r.randint(1, 3)):
                s = self.stmt(min(d, 1))
                if s is not None:
                    st.extend(s if isinstance(s, list) else [s])
            self.scopes.pop()
            e = ('block', st + [('expr', ('int', 1))])
        else:
            e = self.expr('int', d)
        self.noctl -= 1
        self.nodefer -= 1
        return e

    def s_decl(self, d):
        r = self.r
        kind = 'const' if self.p(self.o['consts']) else 'var'
        if self.p(0.12):
            ts = tuple(self.type(1) for _ in range(r.randint(1, 4)))
            e = self.expr(('tuple',) + ts, d)
            names = [self.fresh() for _ in ts]
            for n, t in zip(names, ts):
                self.add(n, t, kind == 'var')
            return ('decl', kind, [(tuple(names), e)])
        binds = []
        for _ in range(r.choice([1, 1, 1, 1, 2, 3])):
            t = self.type()
            e = self.expr(t, d)
            n = self.fresh()
            binds.append((n, e))
            self.add(n, t, kind == 'var')
        return ('decl', kind, binds)

    def s_assign(self, d):
        r = self.r
        mv = [v for v in self.visible() if v.mut]
        if not mv:
            return self.s_decl(d)
        v = r.choice(mv[:10])
        if v.type == 'int' and self.p(0.5):
            op = r.choice(['+=', '-=', '*=', '/=', '%='])
            e = self.expr('int', d) if op in ('+=', '-=') else ('int', r.randint(1, 4))
            return ('expr', ('assign', op, ('var', v.name), e))
        return ('expr', ('assign', '=', ('var', v.name), self.expr(v.type, d)))

    def s_log(self, d):
        vs = self.visible()
        if vs and self.p(0.7):
            k = min(len(vs), self.r.randint(1, 5))
            vs = [v for v in self.r.sample(vs, k) if self.loggable(v.type)]
            return ('expr', self.call_host('log', *[('var', v.name) for v in vs]))
        return ('expr', self.call_host('log', self.expr(self.simple_type(), d)))

    def loggable(self, t):
        return True

    def s_swap(self, d):
        mv = [v for v in self.visible() if v.mut]
        by = {}
        for v in mv:
            by.setdefault(v.type, []).append(v)
        groups = [g for g in by.values() if len(g) >= 2]
        if not groups:
            return self.s_assign(d)
        g = self.r.choice(groups)
        k = min(len(g), self.r.randint(2, 5))
        vs = self.r.sample(g, k)
        src = vs[1:] + vs[:1] if self.p(0.6) else [self.r.choice(g) for _ in vs]
        rhs = [('var', v.name) for v in src]
        if self.p(0.2):
            rhs[self.r.randrange(k)] = self.expr(vs[0].type, d)
        if self.p(0.2):
            # sequential shuffle through a temporary
            t = self.fresh()
            self.add(t, vs[0].type, False)
            out = [('decl', 'const', [(t, ('var', vs[0].name))])]
            for a, b in zip(vs, vs[1:]):
                out.append(('expr', ('assign', '=', ('var', a.name), ('var', b.name))))
            out.append(('expr', ('assign', '=', ('var', vs[-1].name), ('var', t))))
            return out
        return ('expr', ('assign', '=', ('tuple', [('var', v.name) for v in vs]), ('tuple', rhs)))

    def s_mutate(self, d):
        r = self.r
        vs = [v for v in self.visible() if isinstance(v.type, tuple) and v.type[0] in ('array', 'map', 'set', 'tuple', 'rec')]
        if not vs:
            return self.s_decl(d)
        v = r.choice(vs)
        t, ref = v.type, ('var', v.name)
        m = lambda n, *a: ('expr', ('call', ('member', ref, n), list(a)))
        if t[0] == 'array':
            if self.p(0.7):
                return m('append', self.expr(t[1], d))
            if self.p(0.15):
                return m('clear')
            return ('expr', ('if', ('bin', '>', ('call', ('member', ref, 'size'), []), ('int', 0)), ('block', [
                ('expr', ('assign', '=', ('index', ref, ('int', 0)), self.expr(t[1], d)))]), None))
        if t[0] == 'map':
            if self.p(0.7):
                return ('expr', ('assign', '=', ('index', ref, self.expr(t[1], d)), self.expr(t[2], d)))
            return m('remove', self.expr(t[1], d)) if self.p(.8) else m('clear')
        if t[0] == 'set':
            return m(r.choice(['insert', 'insert', 'remove']), self.expr(t[1], d))
        if t[0] == 'tuple':
            i = r.randrange(len(t) - 1)
            if t[i + 1] == 'int' and self.p(0.3):
                return ('expr', ('assign', '+=', ('tfield', ref, i), self.expr('int', d)))
            return ('expr', ('assign', '=', ('tfield', ref, i), self.expr(t[i + 1], d)))
        n, x = r.choice(t[1:])
        if x == 'int' and self.p(0.3):
            return ('expr', ('assign', r.choice(['+=', '-=']), ('member', ref, n), self.expr('int', d)))
        return ('expr', ('assign', '=', ('member', ref, n), self.expr(x, d)))

    def s_if(self, d):
        r = self.r
        extra = None
        if self.noctl == 0 and self.p(self.o['never'] * 5):
            lv = self.leave(d - 1)
            extra = [('expr', lv)] if lv else None
        c = self.cond(d - 1)
        a = self.block(r.randint(0 if extra else 1, 3), d - 1, extra)
        b = None
        if self.p(0.45):
            b = self.block(r.randint(1, 3), d - 1) if self.p(0.7) else self.s_if(d - 1)[1] if d > 1 else self.block(1, d - 1)
        return ('expr', ('if', c, a, b))

    def s_leave(self, d):
        lv = self.leave(d - 1)
        if lv is None:
            return None
        if self.p(0.85):
            return ('expr', ('if', self.cond(d - 1), ('block', [('expr', lv)]), None))
        return ('expr', lv) if self.p(0.3) else None

    def s_loop(self, d):
        r = self.r
        x = r.random()
        iters = r.randint(1, 4)
        if x < 0.35:
            i = self.fresh('i')
            self.scopes.append([])
            self.add(i, 'int', False)
            self.loop += 1
            # additional loop carried variables
            body = self.block(r.randint(1, 4), d - 1)
            self.loop -= 1
            self.scopes.pop()
            return ('for', ('decl', 'var', [(i, ('int', 0))]), ('bin', '<', ('var', i), ('int', iters)),
                    ('assign', '+=', ('var', i), ('int', 1)), body)
        if x < 0.6:
            i = self.fresh('i')
            self.add(i, 'int', False)
            self.loop += 1
            self.scopes.append([])
            body = self.block(r.randint(1, 4), d - 1)
            self.scopes.pop()
            self.loop -= 1
            inc = ('expr', ('assign', '+=', ('var', i), ('int', 1)))
            body = ('block', [inc] + body[1])
            c = ('bin', '<', ('var', i), ('int', iters))
            if self.p(0.3):
                c = ('and', c, self.cond(d - 1))
            return [('decl', 'var', [(i, ('int', 0))]), ('while', c, body)]
        if x < 0.7:
            # endless loop left by break
            i = self.fresh('i')
            self.add(i, 'int', False)
            self.loop += 1
            body = self.block(r.randint(1, 3), d - 1)
            self.loop -= 1
            body = ('block', [('expr', ('assign', '+=', ('var', i), ('int', 1))),
                              ('expr', ('if', ('bin', '>', ('var', i), ('int', iters)), ('block', [('expr', ('break',))]), None))]
                    + body[1])
            loop = ('while', ('bool', True), body) if self.p(.5) else ('for', None, None, None, body)
            return [('decl', 'var', [(i, ('int', 0))]), loop]
        # for each
        vs = [v for v in self.visible() if isinstance(v.type, tuple) and v.type[0] in ('array', 'map', 'set')]
        if vs and self.p(0.6):
            v = r.choice(vs)
            src, t = ('var', v.name), v.type
        else:
            t = r.choice([('array', self.simple_type()), ('set', 'int'), ('map', 'int', 'int'),
                          ('array', ('tuple', 'int', 'str'))])
            src = self.lit(t, d - 1)
        frozen = src[1] if src[0] == 'var' else None
        self.scopes.append([])
        if t[0] == 'map':
            if self.p(0.7):
                a, b = self.fresh('k'), self.fresh('k')
                pat = (a, b)
                self.add(a, t[1], False)
                self.add(b, t[2], False)
            else:
                pat = self.fresh('k')
                self.add(pat, ('tuple', t[1], t[2]), False)
        elif t[0] == 'array' and isinstance(t[1], tuple) and t[1][0] == 'tuple' and self.p(0.6):
            pat = tuple(self.fresh('k') for _ in t[1][1:])
            for n, x in zip(pat, t[1][1:]):
                self.add(n, x, False)
        else:
            pat = self.fresh('k')
            self.add(pat, t[1], False)
        hidden = self.scopes
        if frozen:
            # do not modify the container while iterating over it
            self.scopes = [[x for x in s if x.name != frozen] for s in self.scopes]
        self.loop += 1
        body = self.block(r.randint(1, 3), d - 1)
        self.loop -= 1
        self.scopes = hidden
        self.scopes.pop()
        return ('foreach', pat, src, body)

    def s_func(self, d):
        t = ('fn', tuple(self.simple_type() for _ in range(self.r.randint(0, 3))), self.type(1))
        n = self.fresh('f')
        f = self.lambda_(t, d - 1, n)
        self.add(n, t, False)
        return ('expr', f)

    def s_catch(self, d):
        f = self.lambda_(('fn', (), self.simple_type()), d, None)
        v = self.fresh('r')
        more = [('int', 1)] * (self.r.random() < .15)  # (it ignores further arguments)
        return [('decl', 'const', [(v, self.call_std('catch_panic', f, *more))]), ('expr', self.call_host('log', ('var', v)))]

    def s_uninit(self, d):
        t = self.type(1)
        n = self.fresh()
        c = self.cond(d - 1)
        a, b = self.expr(t, d - 1), self.expr(t, d - 1)
        self.add(n, t)
        asg = lambda e: ('block', [('expr', ('assign', '=', ('var', n), e))])
        return [('decl', 'var', [(n, None)]), ('expr', ('if', c, asg(a), asg(b)))]

    def s_alloc(self, d):
        i, a = self.fresh('i'), self.fresh('v')
        n = self.r.choice([3, 8, 20, 50])
        e = self.r.choice([('tuple', [('var', i), ('var', i)]), ('str', [b'x', ('var', i)]),
                           ('array', [('var', i)]), ('map', [(('var', i), ('str', [b'v', ('var', i)]))]),
                           ('func', None, [], ('var', i), True), ('record', [('a', ('var', i))]),
                           ('bin', '*', ('var', i), ('int', 2**40 + 1)), ('bin', '/', ('var', i), ('float', 3.0))])
        keep = self.p(0.5)
        self.add(a, '?', False)
        body = [('expr', ('call', ('member', ('var', a), 'append'), [e]))] if keep else \
            [('expr', ('assign', '=', ('var', a), e))]
        return [('decl', 'var', [(a, ('array', []))]),
                ('for', ('decl', 'var', [(i, ('int', 0))]), ('bin', '<', ('var', i), ('int', n)),
                 ('assign', '+=', ('var', i), ('int', 1)), ('block', body))] + (
            [('expr', self.call_host('log', ('call', ('member', ('var', a), 'size'), [])))] if keep else [])

    def s_launch(self, d):
        t = self.simple_type()
        f = self.lambda_(('fn', (), t), d - 1)
        return ('expr', self.call_std('launch', f))

    # -- programs
    def program(self):
        o, r = self.o, self.r
        out = [('import', ['std']), ('import', ['host'])]
        out.append(('expr', ('func', 'tr', ['k', 'x'], ('block', [
            ('expr', self.call_host('log', ('str', [b't']), ('var', 'k'))), ('expr', ('return', ('var', 'x')))]), False)))
        self.budget = 40
        # module level constants and variables
        for _ in range(r.randint(0, o['globals_'])):
            kind = 'const' if self.p(0.4) else 'var'
            t = self.type()
            save = (o['trace'], o['never'])
            o['never'] = 0
            self.level = 0
            self.noctl += 1
            self.nodefer += 1
            e = self.expr(t, 2)
            self.noctl -= 1
            self.nodefer -= 1
            o['trace'], o['never'] = save
            n = self.fresh('g')
            out.append(('decl', kind, [(n, e)]))
            self.add(n, t, kind == 'var')
        fs = []
        for _ in range(r.randint(1, o['nfuncs'])):
            fs.append((self.fresh('fun'), tuple(self.type(1) for _ in range(r.randint(0, o['params']))), self.type(1)))
        self.funcs = fs
        for name, params, ret in fs:
            out.append(('expr', self.function(name, params, ret, r.randint(2, max(3, o['size'] // 4)))))
        main = self.function('main', (), 'int', o['size'], main=True)
        out.append(('export', ('expr', main)))
        return out

    def function(self, name, params, ret, n, main=False):
        self.level = 1
        names = [self.fresh('p') for _ in params]
        self.scopes.append([])
        for pn, t in zip(names, params):
            self.add(pn, t)
        self.fn_ret.append(ret)
        self.budget = n * 12
        if main:
            self.fuel.append(None)
            pre, ps = [], []
        else:
            fu = self.fresh('z')
            self.fuel.append(fu)
            ps = [fu]
            save, self.funcs = self.funcs, []
            pre = [('expr', ('if', ('bin', '<=', ('var', fu), ('int', 0)),
                             ('block', [('expr', ('return', self.expr(ret, 1)))]), None))]
            self.funcs = save
        self.scopes.append([])
        st = pre + self.stmts(n, self.o['depth'])
        if main:
            st.append(('expr', self.call_host('log', *[('var', v.name) for v in self.visible() if v.type != '?'][:12])))
        st.append(('expr', ('return', self.expr(ret, 2))))
        self.scopes.pop()
        self.scopes.pop()
        self.fuel.pop()
        self.fn_ret.pop()
        return ('func', name, ps + names, ('block', st), False)
