"""Scheduling scripts: coroutines that start each other, keep resume tokens, yield, wait for the host,
panic and defer. The expected event log comes from the reference interpreter."""
import random

STD = lambda n, *a: ('call', ('member', ('var', 'std'), n), list(a))
HOST = lambda n, *a: ('call', ('member', ('var', 'host'), n), list(a))
M = lambda o, n, *a: ('call', ('member', o, n), list(a))
V = lambda n: ('var', n)
I = lambda n: ('int', n)
S = lambda t: ('str', [t.encode()])
E = lambda e: ('expr', e)
LAM = lambda st: ('func', None, [], ('block', st), False)


class Sched:
    def __init__(self, seed, workers=4, ops=9, nested=0.25, host=True, misuse=True):
        self.r = random.Random(seed)
        self.nw, self.ops, self.nested, self.host, self.misuse = workers, ops, nested, host, misuse
        self.n = 0

    def fresh(self, p='v'):
        self.n += 1
        return p + str(self.n)

    def val(self):
        r = self.r
        return r.choice([I(r.randint(0, 99)), S(r.choice('abcdef')), ('array', [I(r.randint(0, 9))]), ('null',),
                         ('tuple', [V('id'), I(r.randint(0, 9))]), ('str', [b'v', V('id')])])

    def log(self, *a):
        self.n += 1
        return E(HOST('log', S('w%d.%d' % (self.w, self.n)), V('id'), *a))

    def use_token(self):
        """Statement about the token `t` taken from the shared list."""
        r = self.r
        t = self.fresh('t')
        k = self.fresh('k')
        acts = [[self.log(M(V(t), 'resume'))], [self.log(M(V(t), 'valid'))],
                [self.log(M(V(t), 'valid'), M(V(t), 'resume'), M(V(t), 'valid'), M(V(t), 'resume'))],
                [self.log(('bin', '==', M(V(t), 'coroutine'), STD('current_coroutine')))],
                [self.log(('bin', '==', V(t), STD('coroutine_token')))],
                [self.log(M(V(t), 'resume')), E(STD('dispatch')), self.log(M(V(t), 'resume'))]]
        # newest or arbitrary token
        idx = ('bin', '-', V(k), I(1)) if r.random() < .5 else ('bin', '%', I(r.randint(0, 40)), V(k))
        return ('expr', ('block', [
            ('decl', 'const', [(k, M(V('toks'), 'size'))]),
            E(('if', ('bin', '>', V(k), I(0)), ('block', [('decl', 'const', [(t, ('index', V('toks'), idx))])] + r.choice(acts)), None))]))

    def all_tokens(self):
        """Resumes every token in the list."""
        t = self.fresh('t')
        body = [E(M(V(t), 'resume'))] if self.r.random() < .5 else [self.log(M(V(t), 'resume'), M(V(t), 'valid'))]
        return ('foreach', t, V('toks'), ('block', body))

    def keep(self):
        return E(M(V('toks'), 'append', STD('coroutine_token')))

    def worker_ref(self):
        """A worker started later in the chain, so that the number of coroutines is bounded."""
        if self.w + 1 >= self.nw:
            return None
        return 'w%d' % self.r.randint(self.w + 1, self.nw - 1)

    def wait(self):
        r = self.r
        kinds = ['dispatch', 'yield', 'kyield']
        if self.host:
            kinds += ['later', 'klater', 'klater', 'later_panic', 'never', 'twice']
            if self.misuse:
                kinds += ['stray', 'stray_panic']
        k = r.choice(kinds)
        if k == 'dispatch':
            return [], STD('dispatch')
        if k == 'yield':
            return ([self.keep()] if r.random() < .8 else []), STD('yield_coroutine')
        if k == 'kyield':
            return [self.keep()], STD('yield_coroutine')
        if k == 'klater':
            return [self.keep()], HOST('later', self.val())
        if k == 'later_panic':
            return [], STD('catch_panic', LAM([E(HOST('later_panic', S('lp')))]))
        if k == 'never':
            return [self.keep()], HOST('never')
        if k == 'stray_panic':
            return [], STD('catch_panic', LAM([E(HOST('stray_panic', S('sp')))]))
        return [], HOST(k, self.val())

    def native(self):
        """A native function used as the function of a coroutine."""
        r = self.r
        c = [('dispatch', 'std', []), ('yield_coroutine', 'std', []), ('panic', 'std', [S('np')]),
             ('catch_panic', 'std', [('member', V('std'), 'dispatch')]), ('coroutine_token', 'std', [])]
        if self.host:
            c += [('later', 'host', [self.val()]), ('later_panic', 'host', [S('q')]), ('id', 'host', [self.val()]),
                  ('call', 'host', [('member', V('std'), 'dispatch')]),
                  ('call0', 'host', [('member', V('std'), 'dispatch')]),
                  ('repeat', 'host', [I(2), ('member', V('std'), 'dispatch')])]
            if self.misuse:
                c += [('stray', 'host', [I(3)])]
        f, m, a = r.choice(c)
        return ('member', V(m), f), a

    def stmt(self, d):
        r = self.r
        x = r.random()
        if x < 0.30:
            pre, e = self.wait()
            if d > 0 and r.random() < self.nested:
                # wait inside nested frames
                k = r.randint(0, 5 if self.host else 2)
                if k == 0:
                    e = STD('catch_panic', LAM(pre + [self.log(S('in')), ('expr', ('return', e))]))
                elif k == 1:
                    e = ('call', ('paren', LAM(pre + [('defer', HOST('log', S('d'), V('id'))), ('expr', ('return', e))])), [])
                elif k == 2:
                    e = ('call', V('deep'), [I(r.randint(1, 30)), LAM(pre + [('expr', ('return', e))])])
                elif k == 3:
                    e = HOST('call0', LAM(pre + [('expr', ('return', e))]))
                elif k == 4:
                    e = HOST('call', LAM(pre + [('expr', ('return', e))]))
                else:
                    e = HOST('repeat', I(r.randint(0, 3)), LAM(pre + [('expr', ('return', e))]))
                pre = []
            return pre + [self.log(e)]
        if x < 0.48:
            return [self.use_token()]
        if x < 0.53:
            return [self.all_tokens()]
        if x < 0.60:
            return [self.keep()]
        if x < 0.75:
            w = self.worker_ref()
            if w is None or r.random() < .3:
                f, a = self.native()
            else:
                f, a = V(w), [('bin', '+', ('bin', '*', V('id'), I(10)), I(r.randint(1, 9)))]
            if self.host and r.random() < .5:
                return [self.log(HOST('start', f, *a))]
            return [E(STD('launch', f, *a))]
        if x < 0.79 and self.host:
            return [self.log(HOST('complete'))]
        if x < 0.84:
            pre, e = self.wait()
            return pre + [('defer', e)] if e[1][2] != 'catch_panic' and e[1][2] != 'stray_panic' else [self.keep()]
        if x < 0.87:
            return [('defer', HOST('log', S('df%d' % self.n), V('id')))]
        if x < 0.90:
            v = self.fresh('x')
            return [('decl', 'var', [(v, I(0))]),
                    ('while', ('bin', '<', V(v), I(r.randint(1, 4))), ('block', [
                        E(('assign', '+=', V(v), I(1)))] + (self.stmt(d - 1) if d > 0 else [E(STD('dispatch'))]) + [self.log(V(v))]))]
        if x < 0.94 and d > 0:
            c = ('bin', '==', ('bin', '%', V('id'), I(r.randint(2, 3))), I(0))
            a = self.stmts(r.randint(1, 3), d - 1)
            return [E(('if', c, ('block', a), ('block', self.stmts(1, d - 1)) if r.random() < .5 else None))]
        if x < 0.96:
            return [E(('if', ('bin', '==', ('bin', '%', V('id'), I(4)), I(r.randint(0, 3))),
                       ('block', [E(r.choice([STD('panic', S('p')), ('return', self.val())]))]), None))]
        if x < 0.98:
            v = self.fresh('l')
            return [('decl', 'var', [(v, self.val())]), E(STD('launch', LAM([self.log(V(v)), E(STD('dispatch')),
                    E(('assign', '=', V(v), I(self.r.randint(0, 9)))), self.log(V(v))]))), E(STD('dispatch')), self.log(V(v))]
        return [self.log()]

    def stmts(self, n, d):
        out = []
        for _ in range(n):
            out += self.stmt(d)
        return out

    def program(self):
        r = self.r
        out = [('import', ['std'])] + ([('import', ['host'])])
        out.append(('decl', 'const', [('toks', ('array', []))]))
        out.append(E(('func', 'deep', ['n', 'f'], ('block', [
            E(('if', ('bin', '<=', V('n'), I(0)), ('block', [E(('return', ('call', V('f'), [])))]), None)),
            ('decl', 'const', [('r', ('call', V('deep'), [('bin', '-', V('n'), I(1)), V('f')]))]),
            E(('return', V('r')))]), False)))
        for w in range(self.nw - 1, -1, -1):
            self.w = w
            body = self.stmts(r.randint(2, self.ops), 2)
            if r.random() < .7:
                body.append(E(('return', r.choice([V('id'), self.val()]))))
            f = E(('func', 'w%d' % w, ['id'], ('block', body), False))
            out.append(f)
        self.w = 0
        entries = []
        for k in range(r.choice([1, 1, 2, 3])):
            w = r.randint(0, min(1, self.nw - 1))
            self.w = w
            body = [('decl', 'const', [('id', I(k + 1))])] + self.stmts(r.randint(0, 4), 1) + [
                E(('return', ('call', V('w%d' % w), [V('id')])))]
            out.append(('export', E(('func', 'm%d' % k, [], ('block', body), False))))
            entries.append('m%d' % k)
        # a last entry that resumes whatever is still waiting, several times
        self.w = 0
        out.append(('export', E(('func', 'rescue', [], ('block', [('decl', 'const', [('id', I(0))]),
            self.all_tokens(), E(STD('dispatch')), self.all_tokens(), E(STD('dispatch')), self.log(M(V('toks'), 'size'))]), False))))
        phases = r.choice([[entries], [entries], [[e] for e in entries], [entries, entries[:1]]])
        return out, phases + [['rescue']] * r.choice([0, 1, 2])
