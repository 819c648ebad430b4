"""Histories of operations on module level data, each executed in a coroutine of its own, with allocation failures
injected into the operations. After every operation all data is dumped (without faults): an operation that
completes has its full effect and result, one that fails has executed a prefix of its elementary steps."""
import copy, random

PRE = """
import std;
import host;
var m = map{};
var s = set{};
var a = [];
var x = 0;
var sb = std.new_string_builder();
var rec = (p: 0, q: 0);
var buf = std.new_buffer(16);
var fns = [];
var tok = null;
func pairs() { var r = []; for (k, v) in m { r.append((k, v)); } return r; }
func items() { var r = []; for e in s { r.append(e); } return r; }
func called() { var r = []; for f in fns { r.append(f(0)); } return r; }
export func dump() {
    host.log(pairs(), items(), a, x, sb.to_string(), (rec.p, rec.q), buf, called(), m.size(), s.size(), a.size());
    var n = 0;
    for (k, v) in m { if m[k] == v { n += 1; } }
    for e in s { if s.contains(e) { n += 1; } }
    host.log(n);
}
export func other() {
    var r = 0;
    for var i = 0; i < 6; i += 1 { r += host.later(i); const q = [i, "o${i}"]; r += q.size(); }
    return r;
}
export func waiter() { return host.later(71) + 6; }
"""


class State:
    def __init__(self):
        self.m, self.s, self.a, self.x, self.sb = {}, {}, [], 0, ""
        self.rec, self.buf, self.fns = [0, 0], [0] * 16, []

    def dump(self):
        val = lambda v: v
        return [["l", ["a"] + [["t", k, val(v)] for k, v in self.m.items()], ["a"] + list(self.s), ["a"] + list(self.a),
                 self.x, self.sb, ["t"] + list(self.rec), ["b", "".join(map(chr, self.buf))],
                 ["a"] + list(self.fns), len(self.m), len(self.s), len(self.a)],
                ["l", len(self.m) + len(self.s)]]


def value(r):
    """source text, expected value"""
    k = r.randrange(7)
    i = r.randrange(1000)
    if k == 0:
        return str(i), i
    if k == 1:
        return '"s%d"' % i, "s%d" % i
    if k == 2:
        return "(%d, [%d])" % (i, i), ["t", i, ["a", i]]
    if k == 3:
        return "[%d, \"y\"]" % i, ["a", i, "y"]
    if k == 4:
        return "\"a${%d + 1}b\"" % i, "a%db" % (i + 1)
    if k == 5:
        return "std.success((%d, null))" % i, ["ok", ["t", i, None]]
    return "null", None


def operation(r, st, k):
    """-> (statements, result source, expected result or function of state, [steps])"""
    t, v = value(r)
    key = "k%d" % r.randrange(14)
    c = r.randrange(22)
    if c in (0, 1, 2):
        return "m[\"%s\"] = %s;" % (key, t), "1", 1, [lambda q: q.m.__setitem__(key, v)]
    if c == 3:
        return "m.remove(\"%s\");" % key, "2", 2, [lambda q: q.m.pop(key, None)]
    if c in (4, 5):
        return "s.insert(\"%s\");" % key, "3", 3, [lambda q: q.s.setdefault(key)]
    if c == 6:
        return "s.remove(\"%s\");" % key, "4", 4, [lambda q: q.s.pop(key, None)]
    if c in (7, 8):
        n = r.choice((1, 1, 2, 5))
        return "".join("a.append(%s);" % t for _ in range(n)), "a.size()", lambda q: len(q.a), [lambda q: q.a.append(v)] * n
    if c == 9 and st.a:
        i = r.randrange(len(st.a))
        return "if a.size() > %d { a[%d] = %s; }" % (i, i, t), "5", 5, [lambda q: q.a.__setitem__(i, v) if i < len(q.a) else None]
    if c == 10:
        n = r.choice((1, 3, 40))
        text = "".join(r.choice("abc") for _ in range(n))
        return "sb.append(\"%s\"); sb.append(\"-\");" % text, "6", 6, [
            lambda q: setattr(q, 'sb', q.sb + text), lambda q: setattr(q, 'sb', q.sb + "-")]
    if c == 11:
        return "x = %s;" % t, "7", 7, [lambda q: setattr(q, 'x', v)]
    if c == 12:
        return "rec.p = %s; rec.q = [rec.p];" % t, "8", 8, [lambda q: q.rec.__setitem__(0, v),
                                                            lambda q: q.rec.__setitem__(1, ["a", q.rec[0]])]
    if c == 13:
        i = r.randrange(16)
        b = r.randrange(128)
        return "buf[%d] = %d;" % (i, b), "9", 9, [lambda q: q.buf.__setitem__(i, b)]
    if c == 14:
        n = r.randrange(100)
        return ("fns.append({ var z = %d; const f = func(d) { z += d; return z; }; f(1); f; });" % n), "10", 10, \
            [lambda q: q.fns.append(n + 1)]
    if c == 15 and st.fns:
        i = r.randrange(len(st.fns))
        return "if fns.size() > %d { fns[%d](3); }" % (i, i), "11", 11, [
            lambda q: q.fns.__setitem__(i, q.fns[i] + 3) if i < len(q.fns) else None]
    if c == 16:
        return ("const q%d = std.catch_panic(func() { defer a.append(8); m[\"%s\"] = %s; std.panic(\"p\"); });" % (k, key, t),
                "q%d.type() == #error" % k, True, [lambda q: q.m.__setitem__(key, v), lambda q: q.a.append(8)])
    if c == 17:
        return "std.launch(func() { a.append(%s); });" % t, "12", 12, [lambda q: q.a.append(v)]
    if c == 18:
        return "const w%d = host.later(%d); a.append(w%d);" % (k, k, k), "w%d" % k, k, [lambda q: q.a.append(k)]
    if c == 19:
        return "m.clear(); m[\"n\"] = %s;" % t, "13", 13, [lambda q: q.m.clear(), lambda q: q.m.__setitem__("n", v)]
    if c == 20:
        return "const g%d = std.debug_repr(m); const h%d = \"${a.size()} and ${x} and \" + \"\"; " % (k, k) if False else \
            "const g%d = std.debug_repr(m); const h%d = \"${a.size()} items ${s.size()}\";" % (k, k), "h%d" % k, \
            lambda q: "%d items %d" % (len(q.a), len(q.s)), []
    return ("for e in [1, 2, 3] { s.insert(\"%s${e}\"); }" % key, "14", 14,
            [(lambda q, e=e: q.s.setdefault(key + str(e))) for e in (1, 2, 3)])


class History:
    def __init__(self, seed, length=30):
        r = random.Random(seed)
        self.ops, src = [], [PRE]
        st = State()
        for k in range(length):
            body, res, exp, steps = operation(r, st, k)
            src.append("export func op%d() { %s return %s; }" % (k, body, res))
            self.ops.append((exp, steps, "std.launch" in body))
            for f in steps:
                f(st)
        self.src = "\n".join(src)
        self.others = [r.random() < 0.3 for _ in self.ops]
        self.waiter = r.random() < 0.5

    def case(self, cid, faults, vm=None):
        """faults: {op index: [at, rate, seed]}"""
        phases = []
        for k in range(len(self.ops)):
            ph = [{"fault": faults.get(k, [0, 0, 0])}, {"module": "main", "fn": "op%d" % k}]
            if self.others[k]:
                ph.append({"module": "main", "fn": "other"})
            phases.append(ph)
            phases.append([{"fault": [0, 0, 0]}, {"module": "main", "fn": "dump"}])
        return {"id": cid, "modules": [{"name": "main", "files": [["main", self.src]]}], "phases": phases,
                "vm": dict({"trace": False, "page": 65536}, **(vm or {})), "max_events": 100000}

    def allocations(self, res):
        """allocations of every operation in a run without faults"""
        marks = [e[1] for e in res["events"] if e[0] == "fault"]
        return [marks[2 * k + 1] - marks[2 * k] for k in range(len(self.ops))]


ERRORS = ("run_error", "coroutine_error", "export_error", "callback_error", "start_error", "host_error", "token_error")


def follow(h, res):
    """Compares a run with the model. Yields (kind, ok, detail) for every operation."""
    segs, cur = [], None
    for e in res["events"]:
        if e[0] == "fault":
            cur = [e]
            segs.append(cur)
        elif cur is not None:
            cur.append(e)
    if len(segs) != 2 * len(h.ops):
        yield "end", False, "history ended early"
        return
    st = State()
    for k, (exp, steps, launches) in enumerate(h.ops):
        work, dump = segs[2 * k], segs[2 * k + 1]
        hit = dump[0][2] - work[0][2]
        errors = [e for e in work if e[0] in ERRORS]
        done = {e[1]: e[2] for e in work if e[0] == "done"}
        bad = [e for e in errors if "ERROR_ALLOC" not in e[1:] and e[0] != "token_error"]
        if bad:
            yield "error", False, "op%d: an allocation failure was reported as %s" % (k, bad[0])
            return
        if errors and not hit:
            yield "error", False, "op%d: %s without a failed allocation" % (k, errors[0])
            return
        stray = [e for e in work[1:] if e[0] not in ERRORS and e[0] != "done"]
        if stray:
            yield "event", False, "op%d: unexpected event %s" % (k, str(stray[0])[:200])
            return
        after = copy.deepcopy(st)
        allowed = [st]
        for f in steps:
            after = copy.deepcopy(after)
            f(after)
            allowed.append(after)
        complete = 1 in done
        host = any(e[0] == "host_error" for e in work)
        if not complete and not errors:
            yield "lost", False, "op%d neither completed nor failed" % k
            return
        if complete and not host:
            want = exp(after) if callable(exp) else exp
            if done[1] != ["ok", want]:
                yield "result", False, "op%d returned %s, expected %s (failed allocations: %d)" % (k, str(done[1])[:200], str(want)[:200], hit)
                return
            if not launches or not hit:
                allowed = [after]
        if h.others[k] and not errors and done.get(2) != ["ok", 27]:
            yield "other", False, "op%d: the other coroutine ended with %s" % (k, done.get(2))
            return
        if h.others[k] and 2 in done and not host and done[2] != ["ok", 27]:
            yield "other", False, "op%d: the other coroutine returned %s" % (k, done[2])
            return
        missing = (not complete) + (h.others[k] and 2 not in done)
        if missing > len(errors):
            yield "lost", False, "op%d: %d coroutines did not complete, %d errors were reported" % (k, missing, len(errors))
            return
        seen = dump[1:]
        if not seen or seen[-1] != ["done", 1, ["ok", None]]:
            yield "dump", False, "after op%d (failed allocations: %d) the data cannot be read: %s" % (k, hit, str(seen)[:400])
            return
        for q in allowed:
            if q.dump() == seen[:2]:
                st = q
                break
        else:
            yield "state", False, "after op%d (failed allocations: %d, completed: %s) observed %s, allowed %s" % (
                k, hit, complete, str(seen[:2])[:500], " or ".join(str(q.dump())[:500] for q in allowed[:3]))
            return
        yield ("completed" if complete else "failed") + ("" if not hit else " under fault"), True, (k, len(steps), hit > 0)
