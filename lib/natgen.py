"""Programs that mix script functions with synchronous, asynchronous and resumable native functions."""
import random
from schedule import STD, HOST, M, V, I, S, E, LAM


class Nat:
    def __init__(self, seed, depth=4, waits=True):
        self.r = random.Random(seed)
        self.depth, self.waits = depth, waits
        self.n = 0
        self.fns = []   # names of module level native functions with their kind and argc

    def fresh(self, p='v'):
        self.n += 1
        return p + str(self.n)

    def log(self, *a):
        self.n += 1
        return E(HOST('log', S('%d' % self.n), *a))

    def leaf(self):
        r = self.r
        return r.choice([I(r.randint(0, 99)), S(r.choice('abc')), ('null',), ('bool', True), ('array', [I(r.randint(0, 9))]),
                         ('tuple', [I(1), S('t')]), ('float', r.choice([0.5, 2.25])), ('str', [b's', I(r.randint(0, 9))])])

    def val(self, d):
        return self.call(d - 1) if d > 0 and self.r.random() < .45 else self.leaf()

    def fn(self, d):
        """An expression that evaluates to a function without required parameters."""
        r = self.r
        x = r.random()
        if x < .12:
            return ('member', V('std'), 'dispatch')
        if x < .2:
            return ('member', ('array', [self.val(d)]), 'size')   # a bound method
        if x < .28:
            return HOST('make', I(r.choice([0, 1, 3, 4] + [2] * self.waits)), S('mk'), I(0), self.val(d))
        return LAM(self.body(d))

    def body(self, d):
        r = self.r
        st = []
        for _ in range(r.randint(0, 2)):
            x = r.random()
            if x < .3:
                st.append(self.log(self.val(d)))
            elif x < .5:
                st.append(('defer', HOST('log', S('d'), self.val(min(d, 1)))))
            elif x < .6:
                st.append(E(STD('dispatch')))
            elif x < .7:
                v = self.fresh()
                st += [('decl', 'var', [(v, self.val(d))]), self.log(V(v))]
            elif x < .78:
                st.append(E(('if', ('bool', r.random() < .5), ('block', [E(STD('panic', S('p%d' % self.n)))]), None)))
            else:
                st.append(self.log())
        if r.random() < .85:
            st.append(E(('return', self.val(d))))
        return st

    def args(self, d, lo=0, hi=3):
        return [self.val(d) for _ in range(self.r.randint(lo, hi))]

    def script(self, d):
        r = self.r
        steps = []
        n = r.randint(1, 7)
        T = lambda *x: ('tuple', list(x))
        for k in range(n):
            x = r.random()
            if x < .25:
                steps.append(T(S('log')))
            elif x < .40:
                steps.append(T(S('set'), I(r.choice([0, 1, 2, 2, 3, 7])), self.val(d - 1)))
            elif x < .65:
                bad = r.random()
                f = self.fn(d - 1) if bad > .12 else self.leaf()
                a = ('null',) if r.random() < .5 else ('tuple', [])
                if r.random() < .3 and bad > .12:
                    f = ('func', None, ['a', 'b'], ('block', [self.log(V('a'), V('b')), E(('return', V('a')))]), False)
                    a = ('tuple', [self.leaf() for _ in range(r.choice([2, 2, 2, 1, 3]))])
                elif .12 < bad < .18:
                    a = I(3)
                nxt = k + 1 if r.random() < .8 else r.randint(k + 1, n + 1)
                steps.append(T(S('inv'), f, a, I(nxt)))
                if nxt == k + 1 and r.random() < .7:
                    steps.append(T(S('take'), I(r.choice([0, 1, 2, 3]))))
                    n += 1
            elif x < .75:
                steps.append(T(S('goto'), I(r.randint(len(steps) + 1, len(steps) + 3))))
            elif x < .83:
                steps.append(T(S('gc')))
            elif x < .88:
                steps.append(T(S('ret'), self.val(d - 1)))
            elif x < .92:
                steps.append(T(S('panic'), S('sp%d' % self.n)))
            elif x < .95:
                steps.append(T(S('end')))
            else:
                steps.append(T(S('log')))
        # targets of `inv` must be later steps: recompute them
        fixed = []
        for i, s in enumerate(steps):
            if s[1][0] == S('inv') and s[1][3][1] <= i:
                s = ('tuple', s[1][:3] + [I(i + 1)])
            elif s[1][0] == S('goto') and s[1][1][1] <= i:
                s = ('tuple', [S('goto'), I(i + 1)])
            fixed.append(s)
        fixed.append(T(S('retl'), I(r.randint(0, 2))) if r.random() < .7 else T(S('log')))
        return ('array', fixed)

    def call(self, d):
        r = self.r
        x = r.random()
        if d <= 0 or x < .08:
            return HOST('id', self.leaf())
        if x < .30:
            f = HOST('script', self.script(d), *self.args(d - 1, 0, 2))
            return f
        if x < .44 and self.fns:
            name, argc = r.choice(self.fns)
            return ('call', V(name), self.args(d - 1, max(0, argc - (r.random() < .15)), argc + r.choice([0, 0, 1, 2])))
        if x < .50:
            return ('call', HOST('make', I(5), S('dyn'), I(1), self.val(d - 1)), [self.script(d - 1)] + self.args(d - 1, 0, 1))
        if x < .56:
            return HOST('call', self.fn(d - 1))
        if x < .60:
            return HOST('call0', self.fn(d - 1))
        if x < .64:
            return HOST('repeat', I(r.randint(0, 3)), self.fn(d - 1))
        if x < .69:
            return HOST('async_id', self.val(d - 1))
        if x < .76:
            return HOST('later', self.val(d - 1)) if self.waits else HOST('closure')
        if x < .80:
            return STD('catch_panic', LAM([E(('return', HOST('later_panic', S('lp')) if self.waits else HOST('panic', S('pp'))))]))
        if x < .90:
            return STD('catch_panic', self.fn(d - 1))
        if x < .94:
            # native function as the member of a record
            return ('call', ('member', ('record', [('f', ('member', V('host'), 'id'))]), 'f'), [self.val(d - 1)])
        if x < .97:
            return ('call', ('paren', LAM(self.body(d - 1))), [])
        return HOST('call', ('member', V('host'), r.choice(['sum', 'closure', 'log'])), *[I(r.randint(0, 9)) for _ in range(r.randint(0, 3))])

    def program(self):
        r = self.r
        out = [('import', ['std']), ('import', ['host'])]
        waits, self.waits = self.waits, False
        for k in range(r.randint(1, 4)):
            kind, argc = r.choice([0, 1, 2, 3, 4]), r.choice([0, 0, 1, 2, 5])
            n = 'nf%d' % k
            out.append(('decl', 'const', [(n, HOST('make', I(kind), S(n), I(argc), self.leaf()))]))
        names = [(o[2][0][0], o[2][0][1][2][2][1]) for o in out[2:]]
        self.waits = waits
        if not waits:
            names = [x for x, o in zip(names, out[2:]) if o[2][0][1][2][0][1] != 2]
        self.fns = names
        for k in range(r.randint(0, 2)):
            body = [self.log(STD('catch_panic', LAM([E(('return', self.call(self.depth)))]))) for _ in range(r.randint(1, 3))]
            out.append(E(('func', 'side%d' % k, [], ('block', body + [E(('return', I(k)))]), False)))
        sides = [o for o in out if o[0] == 'expr']
        main = [E(STD('launch', V('side%d' % k))) for k in range(len(sides))]
        for _ in range(r.randint(2, 5)):
            e = self.call(self.depth)
            main.append(self.log(e) if r.random() < .3 else self.log(STD('catch_panic', LAM([E(('return', e))]))))
        main.append(E(('return', self.call(self.depth - 1))))
        out.append(('export', E(('func', 'main', [], ('block', main), False))))
        return out
