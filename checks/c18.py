"""C18: module loading, initialisation order, imports and exports."""
import json, random


class Graph:
    """A random import graph with module sources, and a history of loads and requests."""

    def __init__(self, seed):
        r = self.r = random.Random(seed)
        self.id = "g-%d" % seed
        n = self.n = r.choice([1, 2, 3, 4, 5, 6, 8, 12])
        names = []
        for i in range(n):
            names.append(r.choice(["m%d", "lib.m%d", "a.b.m%d", "m0x.m%d"]) % i)
        self.names = names
        cyc = r.random() < .35
        self.deps = []
        dens = r.choice([.15, .3, .5])
        for i in range(n):
            d = [j for j in range(n) if j < i and r.random() < dens]
            if cyc and r.random() < .2:
                d.append(r.randrange(n))          # possibly itself or a later module
            d = list(dict.fromkeys(d))
            r.shuffle(d)
            self.deps.append(d)
        perm = list(range(n))
        r.shuffle(perm)                            # module numbers say nothing about the order
        self.deps = [[perm[j] for j in self.deps[perm.index(i)]] for i in range(n)]
        self.missing = {i for i in range(n) if r.random() < .06}   # imports a module that is never loaded
        self.fail = {i: r.choice([1, 1, 2, 99]) for i in range(n) if r.random() < .15}
        self.yields = {i for i in range(n) if r.random() < .04}
        self.side = {i for i in range(n) if r.random() < .2}
        self.nodeps_use = {i for i in range(n) if r.random() < .15}   # imports without using them while initialising
        self.own = [r.randint(1, 50) for _ in range(n)]
        self.bump_in_init = {i for i in range(n) if r.random() < .5}
        order = list(range(n))
        r.shuffle(order)
        self.order = order
        pre = self.pre = n if r.random() < .6 else r.randint(0, n)
        hist = [("load", i) for i in order[pre:]]
        k = r.randint(2, 3 + n)
        reqs = []
        for _ in range(k):
            x = r.random()
            m = r.randrange(n)
            reqs.append(("req", m, "main" if x < .6 else "total" if x < .7 else "own" if x < .78 else "nope" if x < .85
                         else "inner" if x < .95 else "absent"))
            if r.random() < .3:
                reqs.append(reqs[-1])
        # duplicates: loading a module a second time
        if r.random() < .3:
            reqs.append(("load", r.choice(order)))
        for h in hist:
            reqs.insert(r.randint(0, len(reqs)), h)
        self.history = reqs

    def alias(self, i):
        return self.names[i].split(".")[-1]

    def source(self, i):
        r = random.Random(i * 77 + self.own[i])
        imports = ["import std;", "import host;", "import st;"] + ["import %s;" % self.names[j] for j in self.deps[i]]
        if i in self.missing:
            imports.append("import never.loaded%d;" % i)
        r.shuffle(imports)
        o = imports + ["const i0 = host.log(\"init\", %d);" % i]
        o.append("const attempt = st.attempt(%d);" % i)
        if i in self.side:
            o.append("const i1 = [std.launch(func() { host.log(\"side\", %d); }), std.dispatch()];" % i)
        if i in self.yields:
            o.append("const i2 = std.yield_coroutine();")
        o.append("var counter = %d;" % (self.own[i] * 100))
        o.append("const own = %d;" % self.own[i])
        use = [] if i in self.nodeps_use else self.deps[i]
        o.append("export const total = %s;" % " + ".join(["own"] + ["%s.total" % self.alias(j) for j in use]))
        o.append("export func bump() { counter += 1; return counter; }")
        if i in self.bump_in_init:
            for j in use:
                o.append("const b%d = %s.bump();" % (j, self.alias(j)))
        o.append("export const refs = [%s];" % ", ".join(self.alias(j) for j in use))
        if i in self.fail:
            o.append("const f = if (attempt <= %d) { std.panic(\"failing\"); } else { 1; };" % self.fail[i])
        o.append("const i9 = host.log(\"ready\", %d, total);" % i)
        body = ["host.log(\"main\", %d, total, counter, own);" % i]
        for j in self.deps[i]:
            a = self.alias(j)
            body.append("host.log(\"dep\", %d, %s.total, %s.bump(), %s.refs.size(), std.catch_panic(func() { return %s.own; }).type());" % (j, a, a, a, a))
            for q, k in enumerate(self.deps[j]):
                if k in self.deps[i] and j not in self.nodeps_use:
                    body.append("host.log(\"same\", %s.refs[%d] == %s);" % (a, q, self.alias(k)))
        o.append("export func main() { %s return total; }" % " ".join(body))
        # asks for every export while a coroutine is running
        o.append("export func inner() { %s return null; }" % " ".join(
            "host.log(\"get\", %d, host.get_export(\"%s\", \"total\"));" % (k, self.names[k]) for k in self.probe(i)))
        return "\n".join(o)

    def probe(self, i):
        r = random.Random(i * 31 + self.own[i])
        return sorted(r.sample(range(self.n), min(self.n, 3)))

    ST = ("import host; const counts = map{}; export func attempt(i) {"
          " const n = if (counts.contains(i)) { counts[i] + 1; } else { 1; }; counts[i] = n; return n; }")

    def case(self, suffix="", vm=None):
        mods = [{"name": "st", "files": [["st", self.ST]]}] + [
            {"name": self.names[i], "files": [["f", self.source(i)]]} for i in self.order]
        pos = {i: k + 1 for k, i in enumerate(self.order)}
        phases = []
        for h in self.history:
            if h[0] == "load":
                phases.append([{"load": pos[h[1]]}])
            else:
                phases.append([{"module": self.names[h[1]] if h[2] != "absent" else "absent.module",
                                "fn": "main" if h[2] == "absent" else h[2]}])
        return {"id": self.id + suffix, "modules": mods, "preload": self.pre + 1, "phases": phases, "vm": vm or {}}

    # -- the monitor: replays the recorded events against the specification
    def check(self, events):
        """None or (kind, detail)."""
        self.ev, self.pos = events, 0
        self.loaded = set(self.order[:self.pre])
        self.inited, self.attempts = set(), {i: 0 for i in range(self.n)}
        self.counter, self.total = {}, {}
        self.observed = {"initialisations": 0, "errors": 0}
        try:
            for h in self.history:
                if h[0] == "load":
                    self.expect(["load", self.order.index(h[1]) + 1,
                                 "TIRO_OK" if h[1] not in self.loaded else "ERROR_MODULE_EXISTS"], "load")
                    self.loaded.add(h[1])
                else:
                    self.request(h[1], h[2])
            if self.pos != len(events):
                raise Bad("surplus", "unexpected events %s" % events[self.pos:self.pos + 3])
        except Bad as b:
            return b.args
        return None

    def next(self):
        return self.ev[self.pos] if self.pos < len(self.ev) else None

    def expect(self, e, what):
        a = self.next()
        if a != e:
            raise Bad(what, "event %d: expected %s, observed %s" % (self.pos, e, a))
        self.pos += 1

    def reach(self, m):
        """Modules that are not initialised and are needed for m, and the problems among them."""
        seen, problems = set(), set()
        state = {}

        def visit(i):
            if i in self.inited:
                return
            if i not in self.loaded:
                problems.add("missing")
                return
            if state.get(i) == 1:
                problems.add("cycle")
                return
            if i in seen:
                return
            seen.add(i)
            state[i] = 1
            if i in self.missing:
                problems.add("missing")
            for j in self.deps[i]:
                visit(j)
            state[i] = 2
        visit(m)
        return seen, problems

    def request(self, m, what):
        mod = self.names[m] if what != "absent" else "absent.module"
        fn = "main" if what == "absent" else what
        if what == "absent" or m not in self.loaded:
            return self.error(mod, fn, "ERROR_MODULE_NOT_FOUND")
        need, problems = self.reach(m)
        failed = False
        while True:
            e = self.next()
            if not e or e[:2] != ["l", "init"]:
                break
            i = e[2]
            if i not in need:
                raise Bad("not-needed", "module %d is initialised but not needed for %d" % (i, m))
            if i in self.inited:
                raise Bad("twice", "module %d is initialised again" % i)
            for j in self.deps[i]:
                if j not in self.inited:
                    raise Bad("order", "module %d is initialised before its import %d" % (i, j))
            if i in self.missing:
                raise Bad("missing-import", "module %d is initialised without one of its imports" % i)
            if failed:
                raise Bad("continued", "initialisation continues after a failure")
            if not self.init(i):
                failed = True
        if failed or problems:
            self.observed["errors"] += 1
            return self.error(mod, fn, "ERROR_MODULE_NOT_FOUND" if not failed and problems == {"missing"} else None)
        left = [i for i in need if i not in self.inited]
        if left:
            raise Bad("uninitialised", "code runs although %s are not initialised" % left)
        if what in ("own", "nope"):
            return self.error(mod, fn, "ERROR_EXPORT_NOT_FOUND")
        if what == "total":   # not a function: starting a coroutine is refused
            e = self.next()
            if not e or e[0] != "coroutine_error":
                raise Bad("coroutine", "observed %s" % e)
            self.pos += 1
            return
        if what == "inner":
            for k in self.probe(m):
                if k not in self.loaded:
                    self.expect(["l", "get", k, "ERROR_MODULE_NOT_FOUND"], "get")
                elif k in self.inited:
                    self.expect(["l", "get", k, self.total[k]], "get")
                else:
                    e = self.next()
                    if not e or e[:3] != ["l", "get", k] or not str(e[3]).startswith("ERROR_"):
                        raise Bad("get-uninitialised", "observed %s" % e)
                    self.pos += 1
            self.expect(["done", 0, ["ok", None]], "result")
            return
        self.expect(["l", "main", m, self.total[m], self.counter[m], self.own[m]], "main")
        for j in self.deps[m]:
            self.counter[j] += 1
            refs = 0 if j in self.nodeps_use else len(self.deps[j])
            self.expect(["l", "dep", j, self.total[j], self.counter[j], refs, ["k", None, "#error"]], "dep")
            for k in self.deps[j]:
                if k in self.deps[m] and j not in self.nodeps_use:
                    self.expect(["l", "same", True], "same-instance")
        self.expect(["done", 0, ["ok", self.total[m]]], "result")

    def error(self, mod, fn, rc):
        e = self.next()
        if not e or e[0] != "export_error" or e[1:3] != [mod, fn] or (rc and e[3] != rc):
            raise Bad("error:%s" % rc, "expected an error (%s) for %s.%s, observed %s" % (rc, mod, fn, e))
        self.pos += 1

    def init(self, i):
        self.observed["initialisations"] += 1
        self.expect(["l", "init", i], "init")
        self.attempts[i] += 1
        if i in self.side:
            self.expect(["l", "side", i], "side")
        if i in self.yields:
            return False
        use = [] if i in self.nodeps_use else self.deps[i]
        self.counter[i] = self.own[i] * 100
        self.total[i] = self.own[i] + sum(self.total[j] for j in use)
        if i in self.bump_in_init:
            for j in use:
                self.counter[j] += 1
        if i in self.fail and self.attempts[i] <= self.fail[i]:
            return False
        self.expect(["l", "ready", i, self.total[i]], "ready")
        self.inited.add(i)
        return True


class Bad(Exception):
    pass


def norm(e):
    """Symbols are serialised with their kind; only the text matters."""
    return [["k", None, x[2]] if isinstance(x, list) and x and x[0] == "k" else x for x in e]


def chain(n, vm=None):
    """A linear chain of n modules; the first imports the second and so on."""
    mods = []
    for i in range(n):
        imp = "import c%d; " % (i + 1) if i + 1 < n else ""
        mods.append({"name": "c%d" % i, "files": [["f", imp + "import host; export const v = %s; export func main() { host.log(v); }"
                                                   % ("c%d.v + 1" % (i + 1) if i + 1 < n else "1")]]})
    return mods


def run(c):
    c.rule = ("random import graphs (chains, diamonds, cycles, missing modules, initialisers that fail once or always, that "
              "suspend or start coroutines) with random histories of loads and requests; a monitor replays the log: every "
              "initialiser runs after all imports, at most once successfully, only when needed, errors are repeated, values and "
              "module identity agree; distinct = event logs")
    exe = c.build("asan" if c.thorough else "plain", "tdrv")
    graphs = [Graph(random.Random("%s/%d" % (c.seed, i)).randrange(1 << 40)) for i in range(c.scale(1200, 20000))]
    for suffix, vm, sel in (("", {}, graphs), ("-gc", {"gc": [2, 6, c.seed]}, graphs[::4])):
        res = c.run_cases(exe, [g.case(suffix, vm) for g in sel])
        for g in sel:
            r = res.get(g.id + suffix)
            if not r or r.get("events") is None or r.get("crash") is not None:
                c.count("no_result")
                continue
            bad = [x for x in r["compile"] if x["rc"] != "TIRO_OK"]
            if bad:
                c.violation("rejected", "%s: %s" % (g.id, bad[0]), {"case": g.case()})
                continue
            ev = [norm(e) for e in r["events"]]
            b = g.check(ev)
            c.observe(json.dumps(ev))
            c.count("histories")
            for k, v in g.observed.items():
                c.count(k, v)
            if b:
                c.violation("module:" + b[0], "%s: %s" % (g.id, b[1]), {"case": g.case(), "events": ev})
    # long import chains: the documented limit is reported, and the deeper part still works
    for n in (50, 2000, 2048, 2049, 2300):
        ms = chain(n)
        ph = [[{"module": "c0", "fn": "main"}], [{"module": "c%d" % (n // 2), "fn": "main"}], [{"module": "c0", "fn": "main"}]]
        r = c.run_cases(exe, [{"id": "chain-%d" % n, "modules": ms, "phases": ph, "vm": {}}], alarm=100).get("chain-%d" % n)
        if not r or r.get("events") is None:
            c.count("no_result")
            continue
        ev = [e[:1] if e[0] == "export_error" else e for e in r["events"]]
        good = [["l", n], ["done", 0, ["ok", None]]]
        half = [["l", n - n // 2], ["done", 0, ["ok", None]]]
        want = [good + half + good, [["export_error"]] + half + good]
        c.observe("chain-%d" % n)
        if ev not in want:
            c.violation("chain", "chain of %d modules: %s" % (n, r["events"][:6]), {"n": n})
    c.sample(graphs[0].case())
