"""C26: call depth. Generated recursive programs (many shapes of frames and calls) run to depths on both sides of every
growth step of the coroutine stack and up to millions of frames; the values computed on the way back depend on every
parameter and local of every frame and are compared with values computed here. Unbounded recursion must end in an error
that the host sees while all other coroutines keep working."""
import random
import diff, steady

M = 1000003


class Shape:
    """func rec(n, p0..): locals are set before the deeper call and used after it."""

    def __init__(self, r, kind, params, locs, bottom):
        self.kind, self.params, self.locs, self.bottom = kind, params, locs, bottom
        self.c = [r.randint(1, 97) for _ in range(params + locs + 2)]
        self.rot = r.randrange(params) if params else 0

    def source(self, name="rec", other=None):
        ps = ["p%d" % i for i in range(self.params)]
        head = "func %s(%s) {\n" % (name, ", ".join(["n"] + ps))
        t = head + "  if (n == 0) { %s }\n" % self.bottom_source(ps)
        src = ["n"] + ps
        for i in range(self.locs):
            t += "  var l%d = (n * %d + %s + %d) %% %d;\n" % (i, self.c[i], src[i % len(src)], i, M)
        nxt = ps[self.rot:] + ps[:self.rot]
        if nxt and self.locs:
            nxt[0] = "l%d" % (self.locs - 1)
        args = ", ".join(["n - 1"] + nxt)
        target = other or name
        k = self.kind
        if k in ("direct", "mutual"):
            t += "  const r = %s(%s);\n" % (target, args)
        elif k == "closure":
            t += "  var seen = n; const g = func(m) { seen += 1; return %s(%s); };\n  const r = g(n - 1) + seen - n - 1;\n" % (
                target, ", ".join(["m"] + nxt))
        elif k == "native":
            t += "  const r = host.call(%s, %s);\n" % (target, args)
        elif k == "catch":
            t += "  const r = std.catch_panic(func() = %s(%s)).value();\n" % (target, args)
        elif k == "defer":
            t += "  defer unwound += 1;\n  const r = %s(%s);\n" % (target, args)
        elif k == "table":
            t += "  const r = [%s, %s][1](%s);\n" % (target, target, args)
        elif k == "nested":
            t += "  const r = [n, %s, n][1] + pick(n, n) - n;\n" % ("%s(%s)" % (target, args))
        elif k == "field":
            t += "  const o = (go: %s, n: n);\n  const f = o.go;\n  const r = f(%s) + o.n - n;\n" % (target, args)
        terms = ["r * 31"] + ["l%d * %d" % (i, self.c[-1 - i % 2] + i) for i in range(self.locs)] + \
                ["p%d * %d" % (i, i + 2) for i in range(self.params)] + ["n"]
        t += "  return (%s) %% %d;\n}\n" % (" + ".join(terms), M)
        return t

    def bottom_source(self, ps):
        v = " + ".join(["7"] + ps)
        return {"value": "return %s;" % v,
                "gc": "host.gc(); return %s;" % v,
                "suspend": "return host.later(%s);" % v,
                "yield": "const t = std.coroutine_token(); std.launch(func() { t.resume(); return 0; }); std.yield_coroutine(); return %s;" % v,
                "dispatch": "std.dispatch(); return %s;" % v,
                "launch": "std.launch(func() { host.log(side(300)); return 0; }); std.dispatch(); return %s;" % v,
                "panic": 'std.panic("bottom");'}[self.bottom]

    def value(self, n, args):
        """What rec(n, args...) returns."""
        levels = []
        p = list(args)
        while n > 0:
            src = [n] + p
            ls = [(n * self.c[i] + src[i % len(src)] + i) % M for i in range(self.locs)]
            levels.append((n, p, ls))
            nxt = p[self.rot:] + p[:self.rot]
            if nxt and self.locs:
                nxt[0] = ls[-1]
            p = nxt
            n -= 1
        r = 7 + sum(p)
        for n, p, ls in reversed(levels):
            s = r * 31 + n
            for i, l in enumerate(ls):
                s += l * (self.c[-1 - i % 2] + i)
            for i, q in enumerate(p):
                s += q * (i + 2)
            r = s % M
        return r


PRE = """import std; import host;
var unwound = 0;
func pick(a, b) = a;
func side(n) { if (n == 0) { return 0; } return side(n - 1) + 1; }
"""
KINDS = ["direct", "mutual", "closure", "native", "catch", "defer", "table", "nested", "field"]
BOTTOMS = ["value", "value", "gc", "suspend", "yield", "dispatch", "launch", "panic"]


def sources(shape, calls):
    t = PRE
    if shape.kind == "mutual":
        t += shape.source("even", "odd") + shape.source("odd", "even")
        first = "even"
    else:
        t += shape.source()
        first = "rec"
    for i, (n, args) in enumerate(calls):
        call = "%s(%s)" % (first, ", ".join(str(x) for x in [n] + list(args)))
        if shape.bottom == "panic":
            t += "export func call%d() { const r = std.catch_panic(func() = %s); return (r.is_error(), r.error().message(), unwound); }\n" % (i, call)
        else:
            t += "export func call%d() { const r = %s; return (r, unwound); }\n" % (i, call)
    return t


def expected(shape, calls):
    out, unwound = [], 0
    for n, args in calls:
        if shape.kind == "defer":
            unwound += n
        if shape.bottom == "panic":
            message = "cannot access value on failure result" if shape.kind == "catch" and n > 0 else "bottom"
            out.append(["ok", ["t", True, message, unwound]])
        else:
            out.append(["ok", ["t", shape.value(n, args), unwound]])
    return out


def growth(c, exe, n_shapes, deep, suffix, gc):
    cases, want = [], {}
    for i in range(n_shapes):
        r = random.Random("%s/%s/%d" % (c.seed, suffix, i))
        kind = KINDS[i % len(KINDS)]
        bottom = BOTTOMS[(i // len(KINDS)) % len(BOTTOMS)]
        s = Shape(r, kind, r.choice([0, 1, 1, 2, 3, 5, 12, 40]), r.choice([0, 0, 1, 2, 3, 6, 20, 90]), bottom)
        # small depths cover each growth step (512 bytes and up, doubling), large ones everything at once
        depths = list(range(0, r.choice([12, 30, 70]))) if r.random() < .6 else [r.randint(0, 400) for _ in range(10)]
        cap = deep // (4 + s.params + s.locs)
        depths += [r.randint(400, max(500, cap)) for _ in range(2)] + [cap]
        calls = [(d, [r.randrange(1000) for _ in range(s.params)]) for d in depths]
        src = sources(s, calls)
        cid = "%s%d" % (suffix, i)
        vm = {"trace": r.random() < .3, "page": r.choice([65536, 0])}
        if gc:
            vm["gc"] = [2, r.choice([20, 100, 500]), c.seed + i]
        phases = [[{"module": "main", "fn": "call%d" % k}] for k in range(len(calls))]
        if r.random() < .3:
            phases = [[e for ph in phases for e in ph]]  # all of them at the same time
            if kind == "defer":
                phases = [[e] for ph in phases for e in ph]
        cases.append({"id": cid, "modules": [{"name": "main", "files": [["main", src]]}], "phases": phases, "vm": vm})
        want[cid] = (s, calls, expected(s, calls))
    res = c.run_cases(exe, cases, alarm=60)
    for k in cases:
        s, calls, exp = want[k["id"]]
        ev = res[k["id"]].get("events")
        if ev is None:
            if res[k["id"]].get("crash") is None and not res[k["id"]].get("timeout"):
                c.violation("start", "%s: %s" % (k["id"], str(res[k["id"]])[:400]), k)
            continue
        single = len(k["phases"]) == 1
        done = [e for e in ev if e[0] == "done"]
        if single:
            got = {e[1]: e[2] for e in done}
            got = [got.get(i) for i in range(len(exp))]
        else:
            got = [e[2] for e in done]
        logs = [e[1] for e in ev if e[0] == "l"]
        side = s.bottom == "launch"
        if got != exp:
            j = next((j for j in range(len(exp)) if j >= len(got) or got[j] != exp[j]), 0)
            c.violation("frames:" + s.kind, "%s: %s calls, %d parameters, %d locals, depth %d, at the bottom %s: %s instead of %s" % (
                k["id"], s.kind, s.params, s.locs, calls[j][0], s.bottom, str(got[j:j + 1])[:200], exp[j]), k)
        elif logs != ([300] * len(calls) if side else []):
            c.violation("side", "%s: side coroutines: %s" % (k["id"], logs[:5]), k)
        else:
            c.count("calls" + suffix, len(calls))
            c.count("frames" + suffix, sum(d for d, _ in calls))
            c.count("deepest" + suffix, 0)
            c.counters["deepest" + suffix] = max(c.counters["deepest" + suffix], max(d for d, _ in calls))
            c.observe((s.kind, s.bottom, s.params, s.locs, exp[-1]), n=len(calls))
            c.sample("%s calls, %d parameters, %d locals, %s at the bottom, depths %s: %s" % (
                s.kind, s.params, s.locs, s.bottom, [d for d, _ in calls][-4:], exp[-1]), limit=4)


OVERFLOW = {
    "direct": "func inf(n) { depth = n; return inf(n + 1) + 1; }",
    "wide": "func inf(n) { depth = n; %s const r = inf(n + 1); return r + %s; }" % (
        " ".join("var a%d = n + %d;" % (i, i) for i in range(60)), " + ".join("a%d" % i for i in range(60))),
    "params": "func inf(n, %s) { depth = n; return inf(n + 1, %s) + 1; }" % (
        ", ".join("p%d" % i for i in range(30)), ", ".join("p%d" % i for i in range(30))),
    "mutual": "func inf(n) { depth = n; return [n, other(n + 1)][1]; } func other(n) { depth = n; return inf(n + 1) + 1; }",
    "native": "func inf(n) { depth = n; return host.call(inf, n + 1) + 1; }",
    "catch": "func inf(n) { depth = n; return std.catch_panic(func() = inf(n + 1)); }",
    "defer": "func inf(n) { depth = n; defer unwound += 1; return inf(n + 1) + 1; }",
    "handler": "func inf(n) { depth = n; defer inf2(n); std.panic(\"x\"); } func inf2(n) { return inf(n + 1); }",
    "closure": "func inf(n) { depth = n; const f = func() = inf(n + 1); return f() + 1; }",
}
# bytes of stack that one level certainly does not exceed
LEVEL = {"direct": 300, "wide": 1400, "params": 900, "mutual": 300, "native": 600, "catch": 800, "defer": 400, "handler": 700, "closure": 600}
STACK = 1 << 23  # less than what the largest stack can hold


def overflow(c, exe, suffix, gc, kinds, rounds):
    cases = []
    for kind, text in OVERFLOW.items():
        if kind not in kinds:
            continue
        call = "inf(1%s)" % "".join(", %d" % i for i in range(30)) if kind == "params" else "inf(1)"
        src = """import std; import host;
var depth = 0; var unwound = 0;
%s
func ok(n) { if (n == 0) { return 0; } return ok(n - 1) + 1; }
export func bad() { host.log("start"); const r = %s; host.log("end", depth); return 0; }
export func caught() { const r = std.catch_panic(func() = %s); host.log("end", depth); return 0; }
export func before() { const r = host.later(5); return ok(2000) + r; }
export func after() { return ok(3000); }
export func state() { host.log("depth", depth, unwound); return ok(100); }
""" % (text, call, call)
        for fn in ("bad", "caught"):
            ph = [[{"module": "main", "fn": x} for x in ("before", fn, "after")],
                  [{"module": "main", "fn": "state"}]]
            for _ in range(rounds - 1):
                ph += [[{"module": "main", "fn": x} for x in (fn, "after")], [{"module": "main", "fn": "state"}]]
            vm = {"trace": False}
            if gc:
                vm["gc"] = [2, 5000, c.seed]
            cases.append({"id": "o%s-%s-%s" % (suffix, kind, fn), "modules": [{"name": "main", "files": [["main", src]]}],
                          "phases": ph, "vm": vm})
    res = c.run_cases(exe, cases, alarm=60)
    for k in cases:
        r = res[k["id"]]
        ev = r.get("events")
        if ev is None:
            if r.get("crash") is None and not r.get("timeout"):
                c.violation("start", "%s: %s" % (k["id"], str(r)[:400]), k)
            continue
        kind = k["id"].split("-")[-2]
        errors = [e for e in ev if e[0] == "run_error"]
        done = [e for e in ev if e[0] == "done"]
        depths = [e[2] for e in ev if e[0] == "l" and e[1] == "depth"]
        ends = [e for e in ev if e[0] == "l" and e[1] == "end"]
        values = sorted(e[2][1] for e in done if e[2][0] == "ok" and isinstance(e[2][1], int))
        problem = None
        if ends:
            problem = "the recursion came to an end: %s" % ends[:2]
        elif len(errors) != rounds:
            problem = "expected an error per recursion of the run function, got %s" % errors[:3]
        elif values != [100] * rounds + [2005] + [3000] * rounds:
            problem = "other coroutines: %s" % str(done)[:300]
        elif len(depths) != rounds or min(depths) < STACK // LEVEL[kind]:
            problem = "reached depths %s, at least %d must be possible" % (depths, STACK // LEVEL[kind])
        elif r["stats"]["leaked"] or r["stats"]["peak"] > 400 << 20:
            problem = "memory: %s" % r["stats"]
        if problem:
            c.violation("overflow:" + kind, "%s: %s" % (k["id"], problem), k)
        else:
            c.observe(("overflow", kind, depths[0]), n=rounds)
            c.count("overflows", rounds)
            c.sample("unbounded recursion (%s): depth %d, then %s; other coroutines returned %s" % (kind, depths[0], errors[0][1:], values), limit=6)


def run(c):
    c.rule = "shape of the recursion (kind of call, parameters, locals, what happens at the bottom) and result; what a long-running frame does, objects and memory"
    kinds = list(OVERFLOW)
    plain = c.build("plain", "tdrv")
    growth(c, plain, c.scale(144, 4000), c.scale(40000, 600000), "", False)
    growth(c, plain, c.scale(72, 1500), c.scale(6000, 20000), "-gc", True)
    overflow(c, plain, "", False, kinds, c.scale(1, 3))
    steady.frames(c, plain, random.Random(c.seed), c.scale(60, 1500), c.scale([2000, 60000], [2000, 100000, 700000]))
    asan = c.build("asan", "tdrv")
    growth(c, asan, c.scale(72, 1500), c.scale(6000, 30000), "-asan", True)
    overflow(c, asan, "-asan", c.thorough, kinds if c.thorough else ["direct", "wide", kinds[2 + c.seed % 7]], 1)
