"""Abstract syntax of the language, a printer with layout variants, and a reference interpreter.

Expressions are tuples ('kind', ...); see Printer.expr for the list. Strings are Python bytes.
The interpreter is the specification used as oracle: it shares no code with the implementation.
"""
import math, random, struct, threading, sys
from collections import deque

sys.setrecursionlimit(20000)
threading.stack_size(64 << 20)

INT_MIN, INT_MAX = -2**63, 2**63 - 1

# ------------------------------------------------------------------------------------------
# Printing

BINPREC = {'||': 1, '&&': 2, '??': 3, '|': 4, '^': 5, '&': 6, '==': 7, '!=': 7, '<': 8, '<=': 8, '>': 8,
           '>=': 8, '<<': 9, '>>': 9, '+': 10, '-': 10, '*': 11, '/': 11, '%': 11, '**': 12}
UNARY, POSTFIX, PRIMARY = 13, 14, 15


def quote(b, q='"', esc=None):
    """Escapes bytes (must be valid UTF-8 for non ASCII content) inside quotes q."""
    out = []
    for ch in b.decode('utf-8'):
        o = ord(ch)
        if ch == '\n':
            out.append('\\n')
        elif ch == '\r':
            out.append('\\r')
        elif ch == '\t':
            out.append('\\t')
        elif ch in '\\$':
            out.append('\\' + ch)
        elif ch == q:
            out.append('\\' + ch)
        elif o < 32 or o == 127:
            out.append('\\x%02x' % o)
        elif esc and esc.random() < 0.08:
            if ch in "'\"":
                out.append('\\' + ch)
            elif o < 256 and esc.random() < 0.5:
                out.append('\\x%02X' % o)
            else:
                out.append('\\u{%x}' % o)
        else:
            out.append(ch)
    return ''.join(out)


class Printer:
    """Turns syntax trees into source text. With `rnd`, layout and redundant syntax vary."""

    def __init__(self, rnd=None, parens=0.0, rename=None):
        self.rnd, self.parens = rnd, parens
        self.rename = rename or {}

    # -- layout helpers
    def sp(self):
        """Optional whitespace."""
        if not self.rnd:
            return ''
        x = self.rnd.random()
        if x < 0.55:
            return ''
        return self.space()

    def space(self):
        """Mandatory whitespace."""
        if not self.rnd:
            return ' '
        x = self.rnd.random()
        if x < 0.6:
            return ' '
        return self.rnd.choice(['  ', '\t', '\n', ' \n  ', ' /* c */', ' /* a /* n */ */ ', ' // line }{"\n', '\r\n',
                                ' /*"*/', ' /**/ ', '\n\n'])

    def name(self, n):
        return self.rename.get(n, n)

    def comma(self, items, trailing_ok=True):
        s = (self.sp() + ',' + (self.sp() or ' ')).join(items)
        if trailing_ok and items and self.rnd and self.rnd.random() < 0.25:
            s += self.sp() + ','
        return s

    def at(self, e, prec):
        """Prints e so that it can stand where precedence >= prec is required."""
        s, p = self.expr(e)
        if p < prec or (self.rnd and self.rnd.random() < self.parens):
            return '(' + self.sp() + s + self.sp() + ')'
        return s

    def any(self, e):
        return self.at(e, 0)

    def binop(self, op, l, r, prec, right=False):
        a = self.at(l, prec + (1 if right else 0))
        b = self.at(r, prec + (0 if right else 1))
        s = ' ' if not self.rnd or self.rnd.random() < 0.5 else self.space()
        return a + s + op + (s if not self.rnd else (self.space() if self.rnd.random() < .5 else ' ')) + b

    def operand(self, e, prec):
        return self.at(e, prec)

    def header(self, e):
        """An expression in a position where a block follows."""
        s = self.any(e)
        depth, i, q = 0, 0, None
        danger = e[0] in ('return', 'break', 'continue')
        while i < len(s):
            c = s[i]
            if q:
                if c == '\\':
                    i += 1
                elif c == q:
                    q = None
            elif s.startswith('//', i):
                i = s.find('\n', i)
            elif s.startswith('/*', i):
                level, i = 1, i + 2
                while level:
                    if s.startswith('/*', i):
                        level, i = level + 1, i + 2
                    elif s.startswith('*/', i):
                        level, i = level - 1, i + 2
                    else:
                        i += 1
                continue
            elif c in '"\'':
                q = c
            elif c in '([':
                depth += 1
            elif c in ')]':
                depth -= 1
            elif c == '{' and depth == 0:
                danger = True
                break
            i += 1
        return '(' + s + ')' if danger else s

    def strlit(self, parts):
        q = '"'
        if self.rnd and self.rnd.random() < 0.3:
            q = "'"
        out, i = [q], 0
        for k, p in enumerate(parts):
            if isinstance(p, bytes):
                out.append(quote(p, q, self.rnd))
            else:
                nxt = parts[k + 1] if k + 1 < len(parts) else b''
                simple = p[0] == 'var' and self.rnd and self.rnd.random() < 0.5 and not (
                    isinstance(nxt, bytes) and nxt[:1].decode('latin-1').replace('_', 'a').isalnum()) \
                    and not (isinstance(nxt, bytes) and nxt[:1] >= b'\x80')
                if simple:
                    out.append('$' + self.name(p[1]))
                else:
                    out.append('${' + self.any(p) + '}')
        out.append(q)
        return ''.join(out)

    def path(self, e):
        """Operand of a postfix operation."""
        s, p = self.expr(e)
        if p < POSTFIX or e[0] in ('int', 'float') or (self.rnd and self.rnd.random() < self.parens):
            return '(' + s + ')'
        return s

    def expr(self, e):
        k = e[0]
        if k == 'null':
            return 'null', PRIMARY
        if k == 'bool':
            return ('true' if e[1] else 'false'), PRIMARY
        if k == 'int':
            n = e[1]
            assert n >= 0
            if self.rnd and self.rnd.random() < 0.2:
                f = self.rnd.choice(['0x%x', '0x%X', '0o%o', 'bin', 'us'])
                if f == 'bin':
                    return bin(n), PRIMARY
                if f == 'us':
                    return '{:_}'.format(n), PRIMARY
                return f % n, PRIMARY
            return str(n), PRIMARY
        if k == 'float':
            s = repr(e[1])
            if 'e' in s or 'inf' in s or 'nan' in s:
                import decimal
                s = format(decimal.Decimal(s), 'f')
            if '.' not in s:
                s += '.0'
            return s, PRIMARY
        if k == 'str':
            parts = e[1]
            if self.rnd and all(isinstance(p, bytes) for p in parts) and parts and self.rnd.random() < 0.2:
                t = b''.join(parts).decode('utf-8')
                c = self.rnd.randrange(len(t) + 1)
                return (self.strlit([t[:c].encode()]) + self.space() + self.strlit([t[c:].encode()])), PRIMARY
            return self.strlit(parts), PRIMARY
        if k == 'sym':
            return '#' + e[1], PRIMARY
        if k == 'var':
            return self.name(e[1]), PRIMARY
        if k == 'raw':
            return e[1], e[2]
        if k == 'paren':
            return '(' + self.any(e[1]) + ')', PRIMARY
        if k == 'un':
            s = self.at(e[2], UNARY)
            sep = ' ' if s[:1] in '+-~!' else self.sp()
            return e[1] + sep + s, UNARY
        if k == 'bin':
            p = BINPREC[e[1]]
            return self.binop(e[1], e[2], e[3], p, e[1] == '**'), p
        if k == 'and':
            return self.binop('&&', e[1], e[2], 2), 2
        if k == 'or':
            return self.binop('||', e[1], e[2], 1), 1
        if k == 'coal':
            return self.binop('??', e[1], e[2], 3), 3
        if k == 'assign':
            return self.at(e[2], 1) + ' ' + e[1] + (self.space() if self.rnd else ' ') + self.at(e[3], 0), 0
        if k in ('call', 'optcall'):
            return self.path(e[1]) + ('?' if k == 'optcall' else '') + '(' + self.sp() + self.comma(
                [self.any(a) for a in e[2]]) + self.sp() + ')', POSTFIX
        if k in ('member', 'optmember'):
            return self.path(e[1]) + ('?.' if k == 'optmember' else '.') + e[2], POSTFIX
        if k in ('tfield', 'opttfield'):
            s = self.path(e[1])
            return s + ('?.' if k == 'opttfield' else '.') + str(e[2]), POSTFIX
        if k in ('index', 'optindex'):
            return self.path(e[1]) + ('?' if k == 'optindex' else '') + '[' + self.any(e[2]) + ']', POSTFIX
        if k == 'tuple':
            if len(e[1]) == 1:
                return '(' + self.any(e[1][0]) + ',)', PRIMARY
            return '(' + self.comma([self.any(x) for x in e[1]]) + ')', PRIMARY
        if k == 'array':
            return '[' + self.sp() + self.comma([self.any(x) for x in e[1]]) + self.sp() + ']', PRIMARY
        if k == 'set':
            return 'set' + self.sp() + '{' + self.comma([self.any(x) for x in e[1]]) + '}', PRIMARY
        if k == 'map':
            return 'map' + self.sp() + '{' + self.comma(
                [self.any(a) + ':' + self.sp() + self.any(b) for a, b in e[1]]) + '}', PRIMARY
        if k == 'record':
            if not e[1]:
                return '(:)', PRIMARY
            return '(' + self.comma([n + ': ' + self.any(x) for n, x in e[1]]) + ')', PRIMARY
        if k == 'func':
            return self.func(e), -1
        if k == 'block':
            return self.block(e), -1
        if k == 'if':
            return self.if_(e), -1
        if k == 'return':
            return 'return' + (self.space() + self.any(e[1]) if e[1] is not None else ''), -1
        if k in ('break', 'continue'):
            return k, PRIMARY
        raise ValueError(k)

    def func(self, e):
        _, name, params, body, isexpr = e
        s = 'func' + (self.space() + self.name(name) if name else '') + self.sp() + '(' + self.comma(
            [self.name(p) for p in params]) + ')' + (self.sp() or ' ')
        if isexpr:
            return s + '= ' + self.any_bodyexpr(body)
        return s + self.block(body)

    def any_bodyexpr(self, e):
        s, p = self.expr(e)
        if e[0] in ('block',):
            return s
        return s

    def block(self, b):
        assert b[0] == 'block'
        out = ['{' + self.sp()]
        prev = None
        for st in b[1]:
            text = self.stmt(st)
            if prev and prev[0] == 'expr' and out[-1].endswith('}') and not (text[0].isalpha() or text[0] == '_'):
                out.append(';')  # otherwise the previous expression would continue here
            out.append((self.sp() or ' ') + text)
            prev = st
        return ''.join(out) + (self.sp() or ' ') + '}'

    def if_(self, e):
        s = 'if' + self.space() + self.header(e[1]) + (self.sp() or ' ') + self.block(e[2])
        if e[3] is not None:
            s += (self.sp() or ' ') + 'else' + self.space() + (
                self.if_(e[3]) if e[3][0] == 'if' else self.block(e[3]))
        return s

    def pattern(self, p):
        if isinstance(p, str):
            return self.name(p)
        return '(' + ', '.join(self.name(x) for x in p) + (',' if len(p) == 1 else '') + ')'

    def decl(self, st):
        _, kind, binds = st
        return kind + self.space() + self.comma(
            [self.pattern(p) + (' = ' + self.any(i) if i is not None else '') for p, i in binds], False)

    def stmt(self, st):
        k = st[0]
        end = self.sp() + ';' if self.rnd else ';'
        if k == 'expr':
            e = st[1]
            s, _ = self.expr(e)
            if e[0] in ('if', 'block', 'func') and not (e[0] == 'func' and e[4]):
                return s + (end if self.rnd and self.rnd.random() < 0.5 else '')
            first = s.lstrip()
            if e[0] != 'func' and first.startswith(('{', 'if', 'func', 'for', 'while', 'var ', 'const ', 'defer', 'assert')) and not first.startswith(tuple(
                    x + c for x in ('if', 'func', 'for', 'while', 'defer', 'assert') for c in 'abcdefghijklmnopqrstuvwxyz_0123456789')):
                s = '(' + s + ')'
            return s + end
        if k == 'decl':
            return self.decl(st) + end
        if k == 'while':
            return 'while' + self.space() + self.header(st[1]) + ' ' + self.block(st[2])
        if k == 'for':
            _, d, c, step, body = st
            hd = (self.decl(d) if d else '') + ';' + (' ' + self.header(c) if c else '') + ';' + (
                ' ' + self.header(step) if step else '')
            return 'for' + self.space() + hd + ' ' + self.block(body)
        if k == 'foreach':
            return 'for' + self.space() + self.pattern(st[1]) + ' in ' + self.header(st[2]) + ' ' + self.block(st[3])
        if k == 'defer':
            return 'defer' + self.space() + self.any(st[1]) + end
        if k == 'assert':
            return 'assert(' + self.any(st[1]) + (', ' + self.any(st[2]) if st[2] is not None else '') + ')' + end
        if k == 'import':
            return 'import' + self.space() + '.'.join(st[1]) + end
        if k == 'export':
            return 'export' + self.space() + self.stmt(st[1])
        if k == 'rawstmt':
            return st[1]
        raise ValueError(k)

    def module(self, stmts):
        sep = '\n'
        return ''.join(self.sp() + self.stmt(s) + sep for s in stmts) + (self.sp() if self.rnd else '')


# ------------------------------------------------------------------------------------------
# Values

class Any:
    """Wildcard in expected events."""

    def __init__(self, free=False):
        self.free = free

    def __repr__(self):
        return '<any>'


ANY = Any()       # some text or object
FREE = Any(True)      # anything, or nothing


class Obj:
    __slots__ = ()


class TTuple(Obj):
    __slots__ = ('v',)

    def __init__(self, v): self.v = v


class TArray(Obj):
    __slots__ = ('v',)

    def __init__(self, v): self.v = v


class TBuf(Obj):
    __slots__ = ('v',)

    def __init__(self, v): self.v = v


class TRecord(Obj):
    __slots__ = ('v',)

    def __init__(self, v): self.v = v  # dict name -> value, declared order


class TMap(Obj):
    __slots__ = ('d', 'mods')

    def __init__(self):
        self.d = {}      # hash key -> [key, value]
        self.mods = 0


class TSet(Obj):
    __slots__ = ('d',)

    def __init__(self): self.d = {}


class MapView(Obj):
    __slots__ = ('m', 'which')

    def __init__(self, m, which): self.m, self.which = m, which


class TSlice(Obj):
    __slots__ = ('b',)

    def __init__(self, b): self.b = b


class TBuilder(Obj):
    __slots__ = ('b',)

    def __init__(self, b=b''): self.b = bytearray(b)


class TSym(Obj):
    __slots__ = ('n',)

    def __init__(self, n): self.n = n


class TExc(Obj):
    __slots__ = ('msg', 'trace')

    def __init__(self, msg, trace): self.msg, self.trace = msg, trace


class TRes(Obj):
    __slots__ = ('ok', 'v')

    def __init__(self, ok, v): self.ok, self.v = ok, v


class TType(Obj):
    __slots__ = ('n',)

    def __init__(self, n): self.n = n


class TModule(Obj):
    __slots__ = ('name', 'env')

    def __init__(self, name, env): self.name, self.env = name, env


class Closure(Obj):
    __slots__ = ('name', 'params', 'body', 'isexpr', 'env')

    def __init__(self, name, params, body, isexpr, env):
        self.name, self.params, self.body, self.isexpr, self.env = name, params, body, isexpr, env


class Native(Obj):
    __slots__ = ('name', 'argc', 'fn', 'frame')

    def __init__(self, name, argc, fn, frame=False):
        self.name, self.argc, self.fn, self.frame = name, argc, fn, frame


class Bound(Obj):
    __slots__ = ('fn', 'this')

    def __init__(self, fn, this): self.fn, self.this = fn, this


class TToken(Obj):
    __slots__ = ('co',)

    def __init__(self, co): self.co = co


class Panic(Exception):
    def __init__(self, exc):
        self.exc = exc


class Ret(Exception):
    def __init__(self, v): self.v = v


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class Kill(BaseException):
    pass


class StepLimit(BaseException):
    pass


class Unsupported(BaseException):
    """The program left the specified fragment: it has no verdict."""


class Env:
    __slots__ = ('v', 'p')

    def __init__(self, p):
        self.v, self.p = {}, p

    def find(self, n):
        e = self
        while e is not None:
            if n in e.v:
                return e.v
            e = e.p
        raise Unsupported('unbound ' + n)


def truthy(v):
    return not (v is None or v is False)


def is_int(v):
    return type(v) is int


def is_num(v):
    return type(v) is int or type(v) is float


def text_of(v):
    return v if type(v) is bytes else v.b


def is_text(v):
    return type(v) is bytes or type(v) is TSlice


def values_equal(a, b):
    if is_num(a) and is_num(b):
        return a == b
    if is_text(a) and is_text(b):
        return text_of(a) == text_of(b)
    if type(a) is TSym and type(b) is TSym:
        return a.n == b.n
    if type(a) is TType and type(b) is TType:
        return a.n == b.n
    if type(a) is bool or type(b) is bool or a is None or b is None:
        return a is b
    return a is b


def hkey(v):
    """Key of the abstract map."""
    if v is None or type(v) is bool:
        return ('c', v)
    if type(v) is int:
        return ('n', v)
    if type(v) is float:
        if math.isnan(v):
            raise Unsupported('NaN key')
        if v == math.floor(v) and -2.0**63 <= v < 2.0**63 if math.isfinite(v) else False:
            return ('n', int(v))
        return ('f', v)
    if type(v) is TType:
        return ('t', v.n)
    if is_text(v):
        return ('s', text_of(v))
    if type(v) is TSym:
        return ('y', v.n)
    return ('o', id(v))


def fmt_float(f, alt=False):
    """Shortest round trip text; `alt` is the debug representation, which marks it as a float."""
    if math.isnan(f):
        raise Unsupported('text of NaN')  # the sign of a NaN is not specified
    if math.isinf(f):
        return 'inf' if f > 0 else '-inf'
    r = repr(f)
    m = r.lower().split('e')
    neg = r.startswith('-')
    digits, exp = m[0].lstrip('-'), int(m[1]) if len(m) > 1 else 0
    ip, _, fp = digits.partition('.')
    if fp == '0':
        fp = ''
    ds = (ip + fp).lstrip('0')
    lead = len((ip + fp)) - len((ip + fp).lstrip('0'))
    pointpos = len(ip) + exp - lead  # decimal point position relative to ds
    if not ds:
        s = '0'
        pointpos = 1
        ds = '0'
    ds = ds.rstrip('0') or '0'
    # fmt: exponent notation if exp < -4 or >= 16
    e10 = pointpos - 1
    if -4 <= e10 < 16:
        if pointpos <= 0:
            s = '0.' + '0' * (-pointpos) + ds
        elif pointpos >= len(ds):
            s = ds + '0' * (pointpos - len(ds)) + ('.0' if alt else '')
        else:
            s = ds[:pointpos] + '.' + ds[pointpos:]
    else:
        s = ds[0] + ('.' + ds[1:] if len(ds) > 1 else ('.' if alt else '')) + 'e' + ('-' if e10 < 0 else '+') + '%02d' % abs(e10)
    return ('-' if neg else '') + s


def to_text(v):
    if v is None:
        return b'null'
    if type(v) is bool:
        return b'true' if v else b'false'
    if type(v) is int:
        return str(v).encode()
    if type(v) is float:
        return fmt_float(v).encode()
    if is_text(v):
        return text_of(v)
    if type(v) is TSym:
        return b'#' + v.n.encode()
    if type(v) is TExc:
        if isinstance(v.msg, Any):
            raise Unsupported('text of a builtin message')
        return b'Exception: ' + v.msg
    raise Unsupported('text of ' + type(v).__name__)


def repr_escape(b):
    out = []
    i = 0
    s = b.decode('utf-8')
    for ch in s:
        o = ord(ch)
        if ch in '\n\r\t':
            out.append({'\n': '\\n', '\r': '\\r', '\t': '\\t'}[ch])
        elif ch in '$\'"\\':
            out.append('\\' + ch)
        elif 32 <= o < 127:
            out.append(ch)
        elif o <= 0xff:
            out.append('\\x%02X' % o)
        else:
            out.append('\\u{%X}' % o)
    return ''.join(out)


def debug_repr(v, pretty=False, depth=0, stack=()):
    if type(v) is bytes:
        return '"' + repr_escape(v) + '"'
    if v is None or type(v) in (bool, int) or type(v) is TSym:
        return to_text(v).decode()
    if type(v) is float:
        return fmt_float(v, True)
    ind = '    ' * (depth + 1)

    def items(open_, close, parts, trailing=False):
        if not parts:
            return open_ + close
        if pretty:
            return open_ + '\n' + ',\n'.join(ind + p for p in parts) + (',' if trailing else '') + '\n' + '    ' * depth + close
        return open_ + ', '.join(parts) + (',' if trailing else '') + close
    # cycles are reported by the ancestors only
    for anc, (o, c) in stack:
        if anc is v:
            return '{...}'

    def sub(x, oc):
        return debug_repr(x, pretty, depth + 1, stack + ((v, oc),))
    if type(v) is TTuple:
        return items('(', ')', [sub(x, ('(', ')')) for x in v.v], len(v.v) == 1)
    if type(v) is TArray:
        return items('[', ']', [sub(x, ('[', ']')) for x in v.v])
    if type(v) is TRecord:
        if not v.v:
            return '(:)'
        return items('(', ')', ['%s: %s' % (k, sub(x, ('(', ')'))) for k, x in v.v.items()])
    if type(v) is TMap:
        return items('map{', '}', ['%s: %s' % (sub(k, ('map{', '}')), sub(x, ('map{', '}'))) for k, x in v.d.values()])
    if type(v) is TSet:
        return items('set{', '}', [sub(x, ('set{', '}')) for x in v.d.values()])
    raise Unsupported('repr of ' + type(v).__name__)


# ------------------------------------------------------------------------------------------
# The reference interpreter

class Coro:
    def __init__(self, m, fn, args, index=None):
        self.m, self.fn, self.args, self.index = m, fn, args, index
        self.sem = threading.Semaphore(0)
        self.thread = None
        self.done = False
        self.result = None
        self.killed = False
        self.stack = []       # names of active functions, outermost first
        self.inbox = None     # ('ok', v) or ('panic', exc)
        self.token = None     # the current resume token (created on demand)
        self.panics = []


class Machine:
    def __init__(self, max_steps=60000, trace=True, lifo=False, max_depth=200):
        self.max_steps, self.steps = max_steps, 0
        self.trace, self.lifo, self.max_depth = trace, lifo, max_depth
        self.events = []
        self.ready = deque()
        self.coros = []
        self.pending = deque()
        self.main_sem = threading.Semaphore(0)
        self.completions = self.started = 0
        self.cur = None
        self.modules = {}
        self.failure = None
        self.finalized = []
        self.install()
        self.visit = {k[2:]: getattr(self, k) for k in dir(self) if k.startswith('x_')}
        self.stmts = {k[2:]: getattr(self, k) for k in dir(self) if k.startswith('s_')}

    # -- panics
    def trace_text(self):
        if not self.trace:
            return None
        return ('Coroutine-1:\n' + ('\n'.join('  - ' + n for n in reversed(self.cur.stack)) or '  <empty call stack>')).encode()

    def exc(self, msg):
        return TExc(msg, self.trace_text() if self.trace else None)

    def panic(self, msg=ANY):
        raise Panic(self.exc(msg))

    def tick(self):
        self.steps += 1
        if self.steps > self.max_steps:
            raise StepLimit()

    # -- expressions
    def ev(self, e, env):
        self.steps += 1
        if self.steps > self.max_steps:
            raise StepLimit()
        return self.visit[e[0]](e, env)

    def x_null(self, e, env): return None
    def x_bool(self, e, env): return e[1]
    def x_int(self, e, env): return e[1]
    def x_float(self, e, env): return e[1]
    def x_sym(self, e, env): return TSym(e[1])
    def x_paren(self, e, env): return self.ev(e[1], env)

    def x_str(self, e, env):
        vals = [p if isinstance(p, bytes) else self.ev(p, env) for p in e[1]]
        return b''.join(to_text(v) for v in vals)

    def x_var(self, e, env):
        return env.find(e[1])[e[1]]

    def x_un(self, e, env):
        v = self.ev(e[2], env)
        op = e[1]
        if op == '!':
            return not truthy(v)
        if op == '~':
            if not is_int(v):
                self.panic()
            return ~v
        if not is_num(v):
            self.panic()
        if op == '+':
            return v
        if is_int(v):
            if v == INT_MIN:
                self.panic()
            return -v
        return -v

    def x_bin(self, e, env):
        a = self.ev(e[2], env)
        b = self.ev(e[3], env)
        return self.binary(e[1], a, b)

    def binary(self, op, a, b):
        if op == '==':
            return values_equal(a, b)
        if op == '!=':
            return not values_equal(a, b)
        if op in ('<', '<=', '>', '>='):
            if a is None or b is None:
                x, y = (0 if a is None else 1), (0 if b is None else 1)
            else:
                if not (is_num(a) and is_num(b)):
                    self.panic()
                x, y = a, b
                if type(x) is float or type(y) is float:
                    x, y = float(x), float(y)
            return {'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}[op]
        if not (is_num(a) and is_num(b)):
            self.panic()
        r = arith(op, a, b)
        if r is None:
            self.panic()
        return r

    def x_and(self, e, env):
        a = self.ev(e[1], env)
        return self.ev(e[2], env) if truthy(a) else a

    def x_or(self, e, env):
        a = self.ev(e[1], env)
        return a if truthy(a) else self.ev(e[2], env)

    def x_coal(self, e, env):
        a = self.ev(e[1], env)
        return a if a is not None else self.ev(e[2], env)

    # assignment
    def target(self, t, env):
        k = t[0]
        if k == 'var':
            return ('var', env, t[1])
        if k == 'member':
            return ('member', self.ev(t[1], env), t[2])
        if k == 'tfield':
            return ('index', self.ev(t[1], env), t[2], True)
        if k == 'index':
            o = self.ev(t[1], env)
            return ('index', o, self.ev(t[2], env), False)
        raise Unsupported('target ' + k)

    def store(self, t, v):
        if t[0] == 'var':
            t[1].find(t[2])[t[2]] = v
        elif t[0] == 'member':
            o = t[1]
            if type(o) is TRecord and t[2] in o.v:
                o.v[t[2]] = v
            else:
                self.panic()
        else:
            o, i = t[1], t[2]
            if t[3] and type(o) is not TTuple:
                self.panic()
            if type(o) in (TArray, TTuple):
                if not is_int(i) or not 0 <= i < len(o.v):
                    self.panic()
                o.v[i] = v
            elif type(o) is TBuf:
                if not is_int(i) or not 0 <= i < len(o.v) or not is_int(v) or not 0 <= v <= 255:
                    self.panic()
                o.v[i] = v
            elif type(o) is TMap:
                k = hkey(i)
                if k in o.d:
                    o.d[k][1] = v
                else:
                    o.d[k] = [i, v]
            else:
                self.panic()

    def load(self, t):
        if t[0] == 'var':
            return t[1].find(t[2])[t[2]]
        if t[0] == 'member':
            return self.member(t[1], t[2])
        return self.index(t[1], t[2], t[3])

    def x_assign(self, e, env):
        _, op, lhs, rhs = e
        while lhs[0] == 'paren':
            lhs = lhs[1]
        if op == '=':
            if lhs[0] == 'tuple':
                ts = [self.target(t, env) for t in lhs[1]]
                v = self.ev(rhs, env)
                for i, t in enumerate(ts):
                    self.store(t, self.index(v, i, True))
                return v
            t = self.target(lhs, env)
            v = self.ev(rhs, env)
            self.store(t, v)
            return v
        t = self.target(lhs, env)
        a = self.load(t)
        b = self.ev(rhs, env)
        r = self.binary(op[:-1], a, b)
        self.store(t, r)
        return r

    # paths: optional access skips the rest of the chain
    def x_call(self, e, env): return self.chain(e, env)
    def x_optcall(self, e, env): return self.chain(e, env)
    def x_member(self, e, env): return self.chain(e, env)
    def x_optmember(self, e, env): return self.chain(e, env)
    def x_tfield(self, e, env): return self.chain(e, env)
    def x_opttfield(self, e, env): return self.chain(e, env)
    def x_index(self, e, env): return self.chain(e, env)
    def x_optindex(self, e, env): return self.chain(e, env)

    class Skip(Exception):
        pass

    def chain(self, e, env):
        try:
            return self.link(e, env)
        except Machine.Skip:
            return None

    PATHS = frozenset(('call', 'optcall', 'member', 'optmember', 'tfield', 'opttfield', 'index', 'optindex'))

    def base(self, e, env):
        if e[0] in self.PATHS:
            return self.link(e, env)
        return self.ev(e, env)

    def link(self, e, env):
        self.tick()
        k = e[0]
        opt = k.startswith('opt')
        k = k[3:] if opt else k
        if k == 'call':
            f = e[1]
            if f[0] in ('member', 'optmember'):
                # method call: the instance is evaluated, the method is looked up, then the arguments
                o = self.base(f[1], env)
                if f[0] == 'optmember' and o is None:
                    raise Machine.Skip()
                m = self.member(o, f[2])
                if opt and m is None:
                    raise Machine.Skip()
                args = [self.ev(a, env) for a in e[2]]
                return self.call(m, args)
            fn = self.base(f, env)
            if opt and fn is None:
                raise Machine.Skip()
            args = [self.ev(a, env) for a in e[2]]
            return self.call(fn, args)
        o = self.base(e[1], env)
        if opt and o is None:
            raise Machine.Skip()
        if k == 'member':
            return self.member(o, e[2])
        if k == 'tfield':
            return self.index(o, e[2], True)
        i = self.ev(e[2], env)
        return self.index(o, i, False)

    def index(self, o, i, tup):
        if tup and type(o) is not TTuple:
            self.panic()
        if type(o) in (TArray, TTuple, TBuf):
            if not is_int(i) or not 0 <= i < len(o.v):
                self.panic()
            return o.v[i]
        if type(o) is TMap:
            ent = o.d.get(hkey(i))
            return ent[1] if ent else None
        self.panic()

    def member(self, o, n):
        if type(o) is TRecord:
            if n not in o.v:
                self.panic()
            return o.v[n]
        if type(o) is TModule:
            if n not in o.env.v:
                if o.name in ('std', 'host'):
                    raise Unsupported('builtin ' + n)
                self.panic()
            return o.env.v[n]
        m = METHODS.get((type(o), n))
        if m is None:
            if type(o) is TType:
                raise Unsupported('type member')
            self.panic()
        return Bound(m, o)

    def x_tuple(self, e, env): return TTuple([self.ev(x, env) for x in e[1]])
    def x_array(self, e, env): return TArray([self.ev(x, env) for x in e[1]])

    def x_record(self, e, env):
        vals = [(n, self.ev(x, env)) for n, x in e[1]]
        return TRecord(dict(vals))

    def x_set(self, e, env):
        s = TSet()
        for v in [self.ev(x, env) for x in e[1]]:
            s.d.setdefault(hkey(v), v)
        return s

    def x_map(self, e, env):
        m = TMap()
        vals = []
        for k, v in e[1]:
            kv = self.ev(k, env)
            vals.append((kv, self.ev(v, env)))
        for k, v in vals:
            h = hkey(k)
            if h in m.d:
                m.d[h][1] = v
            else:
                m.d[h] = [k, v]
        return m

    def x_func(self, e, env):
        _, name, params, body, isexpr = e
        if name:
            env = Env(env)
            c = Closure(name, params, body, isexpr, env)
            env.v[name] = c
            return c
        return Closure(name, params, body, isexpr, env)

    def x_block(self, e, env):
        return self.run_block(e, env)

    def x_if(self, e, env):
        if truthy(self.ev(e[1], env)):
            return self.run_block(e[2], env)
        if e[3] is not None:
            return self.ev(e[3], env)
        return None

    def x_return(self, e, env):
        raise Ret(self.ev(e[1], env) if e[1] is not None else None)

    def x_break(self, e, env): raise Brk()
    def x_continue(self, e, env): raise Cont()

    # -- scopes
    def run_block(self, b, env, scope=None):
        """Runs a block; its value is that of its last expression statement."""
        env = scope or Env(env)
        defers = []
        val = None
        try:
            for st in b[1]:
                self.steps += 1
                if self.steps > self.max_steps:
                    raise StepLimit()
                if st[0] == 'expr':
                    val = self.visit[st[1][0]](st[1], env)
                else:
                    self.stmts[st[0]](st, env, defers)
                    val = None
        except (Panic, Ret, Brk, Cont) as x:
            if defers:
                self.unwind(defers, x)
            raise
        if defers:
            self.unwind(defers, None)
        return val

    def unwind(self, defers, leaving):
        """Runs deferred expressions, latest first. `leaving`: the exception that left the scope."""
        while defers:
            d, env = defers.pop()
            if isinstance(leaving, Panic):
                depth = len(self.cur.stack)
                try:
                    self.ev(d, env)
                except Panic:
                    pass  # secondary: the original panic stays the reported one
                except (Ret, Brk, Cont) as x:
                    # control flow out of a deferred expression while panicking
                    raise Unsupported('leaving a deferred expression while panicking')
            else:
                try:
                    self.ev(d, env)
                except (Panic, Ret, Brk, Cont) as x:
                    self.unwind(defers, x)
                    raise

    # -- statements
    def bind(self, p, v, env):
        if isinstance(p, str):
            env.v[p] = v
        else:
            for i, n in enumerate(p):
                env.v[n] = self.index(v, i, True)

    def s_decl(self, st, env, defers):
        for p, init in st[2]:
            if init is None:
                for n in ([p] if isinstance(p, str) else p):
                    env.v[n] = None
            else:
                self.bind(p, self.ev(init, env), env)

    def s_expr(self, st, env, defers):
        self.ev(st[1], env)

    def s_while(self, st, env, defers):
        while truthy(self.ev(st[1], env)):
            try:
                self.run_block(st[2], env)
            except Brk:
                return
            except Cont:
                pass

    def s_for(self, st, env, defers):
        _, d, c, step, body = st
        outer = Env(env)
        if d:
            self.s_decl(d, outer, None)
        while c is None or truthy(self.ev(c, outer)):
            try:
                self.run_block(body, outer)
            except Brk:
                return
            except Cont:
                pass
            if step is not None:
                self.ev(step, outer)

    def s_foreach(self, st, env, defers):
        it = self.iterate(self.ev(st[2], env))
        while True:
            self.tick()
            try:
                v = next(it)
            except StopIteration:
                return
            sc = Env(env)
            self.bind(st[1], v, sc)
            try:
                self.run_block(st[3], sc)
            except Brk:
                return
            except Cont:
                pass

    def iterate(self, o):
        t = type(o)
        if t in (TArray, TTuple):
            def gen():
                i = 0
                while i < len(o.v):
                    yield o.v[i]
                    i += 1
            return gen()
        if t is TMap:
            return self.guard(o.d, lambda e: TTuple([e[0], e[1]]))
        if t is TSet:
            return self.guard(o.d, lambda e: e)
        if t is MapView:
            w = o.which
            return self.guard(o.m.d, lambda e: e[w])
        if is_text(o):
            return iter([c.encode('utf-8') for c in text_of(o).decode('utf-8')]) if False else \
                iter([bytes([c]) for c in text_of(o)])
        self.panic()

    def guard(self, d, f):
        """Iteration in insertion order; modification of the keys while iterating is not specified."""
        keys = list(d)
        for k in keys:
            yield f(d[k]) if k in d else None
            if list(d) != keys:
                raise Unsupported('modified while iterating')

    def s_defer(self, st, env, defers):
        defers.append((st[1], env))

    def s_assert(self, st, env, defers):
        if truthy(self.ev(st[1], env)):
            return
        if st[2] is not None:
            self.ev(st[2], env)
        self.panic()

    # -- calls
    def call(self, fn, args):
        self.tick()
        if type(fn) is Bound:
            return self.call_native(fn.fn, [fn.this] + args)
        if type(fn) is Closure:
            if len(args) != len(fn.params):
                self.panic()
            st = self.cur.stack
            if len(st) > self.max_depth:
                raise StepLimit()
            st.append(fn.name or '<UNNAMED>')
            try:
                env = Env(fn.env)
                for p, a in zip(fn.params, args):
                    env.v[p] = a
                if fn.isexpr:
                    return self.ev(fn.body, env)
                self.run_block(fn.body, env)
                return None
            except Ret as r:
                return r.v
            finally:
                st.pop()
        if type(fn) is Native:
            return self.call_native(fn, args)
        self.panic()

    def call_native(self, fn, args):
        if len(args) < fn.argc:
            self.panic()
        self.cur.stack.append(fn.name)
        try:
            return fn.fn(self, args)
        finally:
            self.cur.stack.pop()

    # -- coroutines
    def spawn(self, fn, args, index=None):
        co = Coro(self, fn, args, index)
        self.coros.append(co)
        self.ready.append(co)
        return co

    def body(self, co):
        co.sem.acquire()
        try:
            if co.killed:
                return
            try:
                v = self.call(co.fn, co.args)
                co.result = TRes(True, v)
            except Panic as p:
                co.result = TRes(False, p.exc)
            co.done = True
            co.token = None
            if co.index is not None:
                self.events.append(['done', co.index, self.ser(co.result)])
        except Kill:
            return
        except BaseException as x:
            self.failure = x
        self.main_sem.release()

    def switch(self, co):
        self.cur = co
        if co.thread is None:
            co.thread = threading.Thread(target=self.body, args=(co,), daemon=True)
            co.thread.start()
        co.sem.release()
        self.main_sem.acquire()
        self.cur = None

    def suspend(self):
        """Called on a coroutine's thread: waits until the coroutine is made ready and run again."""
        co = self.cur
        if co.thread is None:
            raise Unsupported('suspended while initialising a module')
        self.main_sem.release()
        co.sem.acquire()
        if co.killed:
            raise Kill()
        kind, v = co.inbox
        co.inbox = None
        if kind == 'ok':
            return v
        raise Panic(TExc(v, FREE if self.trace else None))  # created by the host: its trace is not specified

    def make_ready(self, co, kind, v):
        co.token = None       # tokens handed out so far cannot be used again
        co.inbox = (kind, v)
        self.ready.append(co)

    def token_of(self, co):
        if co.token is None:
            co.token = TToken(co)
        return co.token

    def resume_token(self, t, kind='ok', v=None):
        """A token resumes its coroutine if it is the current one and the coroutine is waiting."""
        if t.co.token is not t or t.co is self.cur:
            return False
        self.make_ready(t.co, kind, v)
        return True

    def complete_one(self):
        """The host completes one pending asynchronous operation."""
        if not self.pending:
            return False
        order = 1 if self.lifo is True else int(self.lifo)
        n = len(self.pending)
        k = n - 1 if order == 1 else (self.completions * 7 + 3) % n if order == 2 else 0
        self.completions += 1
        token, kind, v, times = self.pending[k]
        del self.pending[k]
        for _ in range(times):
            if not self.resume_token(token, kind, v):
                self.events.append(['token_error', 'ERROR_INTERNAL', ANY])
        return True

    def run(self, entries, batch=1):
        return self.run_phases([entries], batch)[0]

    def run_phases(self, phases, batch=1):
        """Every phase starts the given (fn, args) pairs as top level coroutines and runs until idle."""
        out = []
        try:
            for entries in phases:
                started = [self.spawn(fn, args, i) for i, (fn, args) in enumerate(entries)]
                while True:
                    if self.ready:
                        self.switch(self.ready.popleft())
                        if self.failure:
                            raise self.failure
                    elif self.pending:
                        for _ in range(batch):
                            self.complete_one()
                    else:
                        break
                out.append([c.done for c in started])
        finally:
            for co in self.coros:
                if co.thread and co.thread.is_alive() and not co.done:
                    co.killed = True
                    co.sem.release()
        return out

    # -- serialisation (the same form the driver produces)
    def ser(self, v):
        if v is None or type(v) in (bool, int):
            return v
        if type(v) is float:
            return ['f', 'nan' if math.isnan(v) else v]
        if type(v) is bytes:
            return v.decode('latin-1')
        if type(v) is TTuple:
            return ['t'] + [self.ser(x) for x in v.v]
        if type(v) is TArray:
            return ['a'] + [self.ser(x) for x in v.v]
        if type(v) is TRecord:
            return ['r'] + [[k, self.ser(x)] for k, x in v.v.items()]
        if type(v) is TRes:
            return ['ok' if v.ok else 'err', self.ser(v.v)]
        if type(v) is TExc:
            return ['x', ANY if isinstance(v.msg, Any) else v.msg.decode('latin-1'),
                    v.trace if isinstance(v.trace, Any) else v.trace.decode('latin-1') if v.trace is not None else None]
        if type(v) is TBuf:
            return ['b', bytes(v.v).decode('latin-1')]
        if type(v) is TSym:
            return ['k', ANY, '#' + v.n]
        if type(v) is TSlice:
            return ['k', ANY, v.b.decode('latin-1')]
        return ['k', ANY, ANY]

    # -- builtin modules
    def install(self):
        self.host = Env(None)
        self.std = Env(None)

        def h(name, argc, frame=False):
            def deco(f):
                self.host.v[name] = Native(name, argc, f, frame)
            return deco

        def s(name, argc, frame=False, show=None):
            def deco(f):
                self.std.v[name] = Native(show or name, argc, f, frame)
            return deco

        @h('log', 0)
        def _(m, a):
            m.events.append(['l'] + [m.ser(x) for x in a])

        @h('id', 1)
        def _(m, a):
            return a[0]

        @h('panic', 1)
        def _(m, a):
            m.panic(a[0] if type(a[0]) is bytes else ANY)

        @h('sum', 0)
        def _(m, a):
            if any(isinstance(x, float) for x in a):
                raise Unsupported('float argument')
            r = sum((x if is_int(x) else 0) * (i + 1) for i, x in enumerate(a))
            return (r + 2**63) % 2**64 - 2**63

        @h('closure', 0)
        def _(m, a):
            return 4711

        @h('gc', 0)
        def _(m, a):
            return None

        @h('async_id', 1)
        def _(m, a):
            # completed immediately: no suspension
            return a[0]

        @h('later', 1, frame=True)
        def _(m, a):
            m.pending.append((m.token_of(m.cur), 'ok', a[0], 1))
            return m.suspend()

        @h('twice', 1, frame=True)
        def _(m, a):
            m.pending.append((m.token_of(m.cur), 'ok', a[0], 2))
            return m.suspend()

        @h('never', 0, frame=True)
        def _(m, a):
            return m.suspend()

        @h('stray', 1)
        def _(m, a):
            m.pending.append((m.token_of(m.cur), 'ok', a[0], 1))
            m.cur.token = None
            return a[0]

        @h('stray_panic', 1)
        def _(m, a):
            m.pending.append((m.token_of(m.cur), 'ok', a[0], 1))
            m.cur.token = None
            m.panic(a[0])

        @h('complete', 0)
        def _(m, a):
            return m.complete_one()

        @h('start', 1)
        def _(m, a):
            m.started += 1
            m.spawn(a[0], a[1:], 999 + m.started)
            return 999 + m.started

        @h('later_panic', 1, frame=True)
        def _(m, a):
            m.pending.append((m.token_of(m.cur), 'panic', a[0], 1))
            return m.suspend()

        @h('call', 1, frame=True)
        def _(m, a):
            return m.call(a[0], a[1:])

        @h('call0', 1, frame=True)
        def _(m, a):
            return m.call(a[0], [])

        @h('repeat', 2, frame=True)
        def _(m, a):
            return TArray([m.call(a[1], []) for _ in range(a[0] if is_int(a[0]) else 0)])

        def script(closure):
            def g(m, a):
                steps, loc, pc, result = a[0].v, [None] * 3, 0, None
                while True:
                    entry = pc
                    if pc >= len(steps):
                        return None
                    again = False
                    ret, result = result, None
                    while pc < len(steps):
                        st = steps[pc].v
                        pc += 1
                        op = st[0]
                        if op == b'log':
                            m.events.append(['n', entry, m.ser(closure)] + [m.ser(x) for x in a[1:]] + ['|'] + [m.ser(x) for x in loc])
                        elif op == b'set' or op == b'take':
                            v = ret if op == b'take' else st[2]
                            if st[1] < 3:
                                loc[st[1]] = v
                            else:
                                m.events.append([op.decode() + '_error', 'ERROR_OUT_OF_BOUNDS'])
                        elif op == b'inv':
                            if not isinstance(st[1], (Closure, Native, Bound)) or not (st[2] is None or type(st[2]) is TTuple):
                                m.events.append(['invoke_error', 'ERROR_BAD_TYPE'])
                                continue
                            r = m.call(st[1], list(st[2].v) if st[2] is not None else [])
                            result, pc, again = r, st[3], True
                            break
                        elif op == b'goto':
                            pc, again = st[1], True
                            break
                        elif op == b'ret':
                            return st[1]
                        elif op == b'retl':
                            return loc[st[1]]
                        elif op == b'panic':
                            m.panic(st[1])
                        elif op == b'end':
                            return None
                    if not again:
                        return None
                    m.tick()
            return g
        self.host.v['script'] = Native('script', 1, script(4711), True)

        def echo(closure, later=False, none=False):
            def g(m, a):
                v = TTuple([closure] + list(a))
                if later:
                    m.pending.append((m.token_of(m.cur), 'ok', v, 1))
                    return m.suspend()
                return None if none else v
            return g

        @h('make', 4)
        def _(m, a):
            kind, name, argc, cl = a[:4]
            f = script(cl) if kind == 5 else echo(cl, kind == 2, kind == 4)
            return Native(name.decode(), argc, f, kind in (2, 5))

        @s('print', 0)
        def _(m, a):
            m.events.append(['p', (b' '.join(to_text(x) for x in a) + b'\n').decode('latin-1')])

        @s('panic', 1)
        def _(m, a):
            if type(a[0]) is TExc:
                raise Panic(a[0])
            text = to_text(a[0])
            top = m.cur.stack.pop()  # the native's own frame is not part of the trace
            try:
                m.panic(text)
            finally:
                m.cur.stack.append(top)

        @s('catch_panic', 1, frame=True, show='<catch panic>')
        def _(m, a):
            try:
                return TRes(True, m.call(a[0], []))
            except Panic as p:
                return TRes(False, p.exc)

        @s('success', 1)
        def _(m, a):
            return TRes(True, a[0])

        @s('error', 1)
        def _(m, a):
            return TRes(False, a[0])

        @s('type_of', 1)
        def _(m, a):
            return TType(type_name(a[0]))

        @s('new_string_builder', 0)
        def _(m, a):
            return TBuilder()

        @s('new_buffer', 1)
        def _(m, a):
            if not is_int(a[0]) or a[0] < 0:
                m.panic()
            return TBuf(bytearray(a[0]))

        @s('debug_repr', 1)
        def _(m, a):
            return debug_repr(a[0], len(a) > 1 and truthy(a[1])).encode()

        @s('to_utf8', 1)
        def _(m, a):
            if type(a[0]) is not bytes:
                raise Unsupported('to_utf8')
            return TBuf(bytearray(a[0]))

        @s('launch', 1)
        def _(m, a):
            co = m.spawn(a[0], a[1:])
            return co

        @s('dispatch', 0, frame=True)
        def _(m, a):
            m.make_ready(m.cur, 'ok', None)
            return m.suspend()

        @s('coroutine_token', 0)
        def _(m, a):
            return m.token_of(m.cur)

        @s('current_coroutine', 0)
        def _(m, a):
            return m.cur

        @s('yield_coroutine', 0, frame=True)
        def _(m, a):
            return m.suspend()

        def mathfn(name, f):
            def g(m, a):
                if not is_num(a[0]):
                    m.panic()
                return f(float(a[0]))
            self.std.v[name] = Native(name, 1, g)
        mathfn('abs', abs)
        mathfn('sqrt', lambda x: math.sqrt(x) if x >= 0 else math.nan)
        mathfn('round', lambda x: math.copysign(math.floor(abs(x) + 0.5), x) if math.isfinite(x) and abs(x) < 2**52 else x)

        @s('pow', 2)
        def _(m, a):
            if not is_num(a[0]) or not is_num(a[1]):
                m.panic()
            return arith('**', float(a[0]), float(a[1]))
        mathfn('floor', lambda x: math.copysign(float(math.floor(x)), x) if math.isfinite(x) else x)
        mathfn('ceil', lambda x: math.copysign(float(math.ceil(x)), x) if math.isfinite(x) else x)

        self.std.v['INFINITY'] = math.inf
        self.std.v['PI'], self.std.v['TAU'], self.std.v['E'] = math.pi, 2 * math.pi, math.e
        for t in ('Array', 'Boolean', 'Float', 'Function', 'Integer', 'Map', 'Null', 'Record', 'Set', 'String',
                  'Tuple', 'Exception', 'Result', 'Buffer', 'StringBuilder', 'StringSlice', 'Symbol',
                  'MapKeyView', 'MapValueView', 'Coroutine', 'CoroutineToken', 'Module', 'Type'):
            self.std.v[t] = TType(t)

    def load_module(self, name, stmts):
        """Builds the module environment; initialisers run on first use."""
        env = Env(None)
        self.modules[name] = TModule(name, env)
        return env

    def init_module(self, name, stmts):
        env = self.modules[name].env
        for st in stmts:
            while st[0] == 'export':
                st = st[1]
            if st[0] == 'import':
                n = '.'.join(st[1])
                env.v[st[1][-1]] = TModule('std', self.std) if n == 'std' else \
                    TModule('host', self.host) if n == 'host' else self.modules[n]
        for st in stmts:
            while st[0] == 'export':
                st = st[1]
            if st[0] == 'expr' and st[1][0] == 'func':
                _, fname, params, body, isexpr = st[1]
                env.v[fname] = Closure(fname, params, body, isexpr, env)
        for st in stmts:
            while st[0] == 'export':
                st = st[1]
            if st[0] == 'decl':
                self.s_decl(st, env, None)


# function bodies see block scopes: a named function statement declares its name in the block
def _x_block_func(self, e, env):
    _, name, params, body, isexpr = e
    c = Closure(name, params, body, isexpr, env)
    if name:
        env.v[name] = c
    return c


Machine.x_func = _x_block_func


def type_name(v):
    if v is None:
        return 'Null'
    if type(v) is MapView:
        return 'MapValueView' if v.which else 'MapKeyView'
    return {bool: 'Boolean', int: 'Integer', float: 'Float', bytes: 'String', TTuple: 'Tuple', TArray: 'Array',
            TRecord: 'Record', TMap: 'Map', TSet: 'Set', TExc: 'Exception', TRes: 'Result', TBuf: 'Buffer',
            TSym: 'Symbol', Closure: 'Function', Native: 'Function', Bound: 'Function', TBuilder: 'StringBuilder',
            TSlice: 'StringSlice', TType: 'Type', TModule: 'Module', Coro: 'Coroutine', TToken: 'CoroutineToken'}.get(type(v), '?')


def arith(op, a, b):
    """None means panic."""
    if type(a) is int and type(b) is int:
        if op == '+':
            r = a + b
        elif op == '-':
            r = a - b
        elif op == '*':
            r = a * b
        elif op == '/':
            if b == 0:
                return None
            r = abs(a) // abs(b)
            if (a < 0) != (b < 0):
                r = -r
        elif op == '%':
            if b == 0 or (a == INT_MIN and b == -1):
                return None
            r = abs(a) % abs(b)
            if a < 0:
                r = -r
        elif op == '**':
            if b < 0:
                if a == 0:
                    return None
                r = 1 if a == 1 else (1 if b % 2 == 0 else -1) if a == -1 else 0
            elif abs(a) >= 2 and b > 64:
                return None
            elif abs(a) < 2:
                r = 1 if b == 0 else a if a in (0, 1) else (1 if b % 2 == 0 else -1)
            else:
                r = a ** b
        else:
            raise Unsupported(op)
        return r if INT_MIN <= r <= INT_MAX else None
    a, b = float(a), float(b)
    if op == '+':
        return a + b
    if op == '-':
        return a - b
    if op == '*':
        return a * b
    if op == '/':
        if b == 0:
            if a == 0 or math.isnan(a):
                return math.nan
            return math.copysign(math.inf, a) * math.copysign(1, b)
        return a / b
    if op == '%':
        if b == 0 or math.isinf(a) or math.isnan(a) or math.isnan(b):
            return math.nan
        return math.fmod(a, b)
    if op == '**':
        try:
            return math.pow(a, b)
        except OverflowError:
            if a < 0 and b == int(b) and int(b) % 2 == 1:
                return -math.inf
            return math.inf
        except ValueError:
            if a == 0:
                if b == int(b) and int(b) % 2 == 1:
                    return math.copysign(math.inf, a)
                return math.inf
            return math.nan
    raise Unsupported(op)


METHODS = {}


def _method(t, name, argc):
    def deco(f):
        METHODS[(t, name)] = Native(name, argc + 1, lambda m, a: f(m, *a) if name != 'append' or t is not TBuilder else f(m, *a))
        return f
    return deco


def _ignore_extra(f, n):
    return lambda m, *a: f(m, *a[:n])


def _reg(t, name, argc, f):
    METHODS[(t, name)] = Native(name, argc + 1, lambda m, a, f=f, n=argc + 1: f(m, *a[:n]))


for _t in (TArray, TTuple, TBuf):
    _reg(_t, 'size', 0, lambda m, o: len(o.v))
_reg(TToken, 'valid', 0, lambda m, o: o.co.token is o)
_reg(TToken, 'resume', 0, lambda m, o: m.resume_token(o))
_reg(TToken, 'coroutine', 0, lambda m, o: o.co)
_reg(TArray, 'append', 1, lambda m, o, v: o.v.append(v))
_reg(TArray, 'clear', 0, lambda m, o: o.v.clear())
_reg(TMap, 'size', 0, lambda m, o: len(o.d))
_reg(TMap, 'contains', 1, lambda m, o, k: hkey(k) in o.d)
_reg(TMap, 'keys', 0, lambda m, o: MapView(o, 0))
_reg(TMap, 'values', 0, lambda m, o: MapView(o, 1))
_reg(TMap, 'clear', 0, lambda m, o: o.d.clear())
_reg(TMap, 'remove', 1, lambda m, o, k: o.d.pop(hkey(k), None) and None)
_reg(TSet, 'size', 0, lambda m, o: len(o.d))
_reg(TSet, 'contains', 1, lambda m, o, k: hkey(k) in o.d)
_reg(TSet, 'clear', 0, lambda m, o: o.d.clear())


def _set_insert(m, o, v):
    k = hkey(v)
    if k in o.d:
        return False
    o.d[k] = v
    return True


_reg(TSet, 'insert', 1, _set_insert)
_reg(TSet, 'remove', 1, lambda m, o, v: o.d.pop(hkey(v), None) and None)


def _clampslice(m, b, start, size):
    if not is_int(start) or not is_int(size):
        m.panic()
    raise Unsupported('slice')


for _t in (bytes, TSlice):
    _reg(_t, 'size', 0, lambda m, o: len(text_of(o)))

    def _contains(m, o, x):
        if not is_text(x):
            m.panic()
        return text_of(x) in text_of(o)
    _reg(_t, 'contains', 1, _contains)

    def _first(m, o, n):
        if not is_int(n):
            m.panic()
        n = max(0, n)
        return TSlice(text_of(o)[:n])

    def _last(m, o, n):
        if not is_int(n):
            m.panic()
        n = max(0, n)
        b = text_of(o)
        return TSlice(b[max(0, len(b) - n):])

    def _slice(m, o, a, n):
        if not is_int(a) or not is_int(n):
            m.panic()
        b = text_of(o)
        a, n = max(0, a), max(0, n)
        return TSlice(b[a:a + n])
    _reg(_t, 'slice_first', 1, _first)
    _reg(_t, 'slice_last', 1, _last)
    _reg(_t, 'slice', 2, _slice)
_reg(TSlice, 'to_string', 0, lambda m, o: o.b)


def _sb_append(m, a):
    o = a[0]
    for x in a[1:]:
        o.b += to_text(x)


METHODS[(TBuilder, 'append')] = Native('append', 1, _sb_append)
_reg(TBuilder, 'clear', 0, lambda m, o: o.b.clear())
_reg(TBuilder, 'size', 0, lambda m, o: len(o.b))
_reg(TBuilder, 'to_string', 0, lambda m, o: bytes(o.b))


def _sb_contains(m, o, x):
    if not is_text(x):
        m.panic()
    return text_of(x) in bytes(o.b)


_reg(TBuilder, 'contains', 1, _sb_contains)


def _sb_byte(m, o, x):
    if not is_int(x) or not 0 <= x <= 255:
        m.panic()
    o.b.append(x)


_reg(TBuilder, 'append_byte', 1, _sb_byte)
_reg(TRes, 'is_success', 0, lambda m, o: o.ok)
_reg(TRes, 'is_error', 0, lambda m, o: not o.ok)


def _res_value(m, o):
    if not o.ok:
        m.panic()
    return o.v


def _res_error(m, o):
    if o.ok:
        m.panic()
    return o.v


_reg(TRes, 'value', 0, _res_value)
_reg(TRes, 'error', 0, _res_error)
_reg(TRes, 'type', 0, lambda m, o: TSym('success' if o.ok else 'error'))


def _exc_msg(m, o):
    if isinstance(o.msg, Any):
        raise Unsupported('builtin message')
    return o.msg


_reg(TExc, 'message', 0, _exc_msg)
_reg(TExc, 'trace', 0, lambda m, o: o.trace)


# ------------------------------------------------------------------------------------------
# Comparison of expected and observed events

def matches(exp, act):
    if isinstance(exp, Any):
        return exp.free or act is not None and act != ''
    if isinstance(exp, list):
        if not isinstance(act, list) or len(exp) != len(act):
            return False
        if exp and exp[0] == 'r' and act[0] == 'r':
            # the order of record fields is not specified
            return all(matches(x, y) for x, y in zip(sorted(exp[1:], key=lambda f: f[0]), sorted(act[1:], key=lambda f: f[0])))
        if exp and exp[0] == 'f' and len(exp) == 2:
            if act[0] != 'f':
                return False
            if exp[1] == 'nan' or act[1] == 'nan':
                return exp[1] == act[1]
            a = float.fromhex(act[1])
            return struct.pack('<d', exp[1]) == struct.pack('<d', a)
        return all(matches(x, y) for x, y in zip(exp, act))
    if type(exp) is bool or type(act) is bool or exp is None or act is None:
        return exp is act
    return type(exp) is type(act) and exp == act


def first_difference(exp, act):
    for i, (x, y) in enumerate(zip(exp, act)):
        if not matches(x, y):
            return 'event %d: expected %r, observed %r' % (i, x, y)
    if len(exp) != len(act):
        n = min(len(exp), len(act))
        return 'expected %d events, observed %d; next expected %r, next observed %r' % (
            len(exp), len(act), exp[n:n + 1], act[n:n + 1])
    return None


def interpret(modules, entry=('main', 'main'), args=(), **kw):
    """modules: [(name, stmts)] in dependency order. Returns the expected events or None."""
    m = Machine(**kw)
    for name, stmts in modules:
        m.load_module(name, stmts)
    boot = Coro(m, None, [])
    m.cur = boot
    m.why = None
    boot.stack.append('<module_init>')
    try:
        for name, stmts in modules:
            m.init_module(name, stmts)
        m.cur = None
        fn = m.modules[entry[0]].env.v[entry[1]]
        m.run([(fn, list(args))])
    except (Panic, StepLimit, Unsupported, RecursionError, OverflowError, UnicodeDecodeError) as x:
        m.why = repr(x)
        m.events = None
    return m
