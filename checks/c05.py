"""C05: allocation failures (injected and real) against a model of all data, the heap limit and later operation."""
import random
import exhaust
import fault
import lang

HELLO = """
import std; import host;
var m = map{};
export func main() { m["a"] = [1, "x"]; for var i = 0; i < 40; i += 1 { m[i] = "v${i}"; } return (m.size(), m["a"], m[39]); }
"""
HELLO_RESULT = ["done", 0, ["ok", ["t", 41, ["a", 1, "x"], "v39"]]]

AUX = """
import std;
export const text = "value ${1 + 1}";
export const table = map{"a": 1, #sym: (p: 1, q: 2), 3: [1, 2, 3]};
var count = 0;
export func bump() { count += 1; return (count, text, table["a"], table[#sym].q); }
"""
MAIN = """
import std; import host; import aux;
export const c = [aux.bump(), aux.text];
export func main() { return (aux.text, aux.table[3][2], c.size()); }
export func plain() { return 5; }
"""
MAIN_RESULT = ["ok", ["t", "value 2", 3, 2]]


def histories(c, exe, tag, count, runs, stress):
    hs = [fault.History(c.seed * 7919 + i, c.scale(26, 40)) for i in range(count)]
    ref = c.run_cases(exe, [h.case("%sr%d" % (tag, i), {}) for i, h in enumerate(hs)])
    plan, cases = {}, []
    for i, h in enumerate(hs):
        r = ref["%sr%d" % (tag, i)]
        if "events" not in r:
            if r.get("crash") is None:
                c.violation("reference", str(r)[:600], h.src)
            continue
        alloc = None
        for kind, good, what in fault.follow(h, r):
            if not good:
                c.violation("nofault:" + kind, "history %d: %s" % (i, what), h.src)
                break
        else:
            alloc = h.allocations(r)
        if alloc is None:
            continue
        for j in range(runs):
            q = random.Random("%s %d %d %d" % (tag, c.seed, i, j))
            if j % 8 == 7:
                rate = q.choice((6, 15, 40))
                faults = {k: [0, rate, q.randrange(1 << 30)] for k in range(len(h.ops)) if q.random() < 0.6}
            else:
                faults = {k: [q.randint(1, alloc[k] + 1), 0, 0] for k in range(len(h.ops)) if alloc[k] and q.random() < 0.55}
            vm = {"gc": [1, q.choice((1, 3, 8)), 0]} if stress and j % 4 == 0 else None
            cid = "%s%d.%d" % (tag, i, j)
            plan[cid] = h
            cases.append(h.case(cid, faults, vm))
    res = c.run_cases(exe, cases)
    for cid, h in plan.items():
        r = res[cid]
        if "events" not in r:
            c.count("no_result")
            continue
        for kind, good, what in fault.follow(h, r):
            if not good:
                c.violation(kind, "%s: %s" % (cid, what), {"case": next(x for x in cases if x["id"] == cid)})
                break
            c.count("op " + kind)
            c.observe((kind, h.src[:0], what[1:], hash(h.ops[what[0]][0]) if not callable(h.ops[what[0]][0]) else 0))
        stats(c, cid, r)
        c.count("faults injected", r["stats"]["faults"])


def stats(c, cid, r, limit=None):
    s = r["stats"]
    if s["leaked"]:
        c.violation("leak", "%s: %d bytes are still held after the vm was freed" % (cid, s["leaked"]), r.get("id"))
    if s["over_limit"]:
        c.violation("limit", "%s: the heap exceeded its limit" % cid, r.get("id"))
    if limit and s["peak"] > limit:
        c.violation("limit", "%s: held %d bytes, limit %d" % (cid, s["peak"], limit), r.get("id"))
    if s["bad_free_size"]:
        c.violation("free size", "%s: memory was returned with a wrong size" % cid, r.get("id"))
    if s["callbacks"] != s["cleanups"]:
        c.violation("cleanup", "%s: %d callbacks registered, %d cleaned up" % (cid, s["callbacks"], s["cleanups"]), r.get("id"))


def exhaustion(c, exe, tag, kinds, sizes, gc=None):
    plan, cases = {}, []
    for kind in kinds:
        for max_size, page in sizes:
            cid = "%s:%s:%d:%d" % (tag, kind, max_size, page)
            plan[cid] = (kind, max_size)
            cases.append(exhaust.case(cid, kind, max_size, page, gc))
    res = c.run_cases(exe, cases, alarm=60)
    for cid, (kind, limit) in plan.items():
        r = res[cid]
        if "events" not in r:
            if "vm_new" in r or "load_std" in r:
                c.violation("startup", "%s: %s" % (cid, str(r)[:300]), cid)
            c.count("no_result")
            continue
        ev = r["events"]
        case = next(x for x in cases if x["id"] == cid)
        full = [e for e in ev if (e[0] == "run_error" and e[1] == "ERROR_ALLOC")
                or (e[0] == "done" and e[2] == ["err", ["x", "ERROR_ALLOC", None]])]
        rest = [e for e in ev if e not in full]
        want = [["done", 0, ["ok", 0]], ["done", 0, ["ok", 0]], ["done", 0, ["ok", exhaust.VERIFY]],
                ["done", 0, ["ok", 0]], ["done", 0, ["ok", exhaust.WORK]], ["done", 0, ["ok", exhaust.WORK]]]
        if len(full) != 1:
            c.violation("exhaust:" + kind, "%s: the allocation failure was not reported exactly once: %s" % (cid, str(ev)[:600]), case)
        elif rest != want:
            bad = next((x for x in zip(rest, want) if x[0] != x[1]), (rest, want))
            c.violation("exhaust:" + kind, "%s: after running out of memory: observed %s, expected %s" % (cid, str(bad[0])[:500], str(bad[1])[:300]), case)
        stats(c, cid, r, limit)
        c.observe((kind, limit, len(full)))
        c.count("exhaust " + kind)


def startup(c, exe, limits, faults):
    """vm creation and module loading with too little memory"""
    base = {"modules": [{"name": "main", "files": [["main", HELLO]]}], "phases": [[{"module": "main", "fn": "main"}]]}
    cases = [dict(base, id="max%d" % m, vm={"trace": False, "page": 65536, "max": m}) for m in limits]
    cases += [dict(base, id="early%d" % k, vm={"trace": False, "page": 65536, "fault_early": [k, 1]}) for k in faults]
    res = c.run_cases(exe, cases)
    for x in cases:
        r = res[x["id"]]
        if r.get("crash") is not None or r.get("timeout"):
            continue
        outcome = "started"
        if "vm_new" in r:
            outcome = "vm_new"
            if not r["vm_new"].startswith("ERROR_ALLOC"):
                c.violation("startup", "%s: tiro_vm_new reported %s" % (x["id"], r["vm_new"]), x)
        else:
            for k in ("vm_new_fault", "load_std"):
                if k in r and r[k] != "ERROR_ALLOC":
                    c.violation("startup", "%s: %s reported %s" % (x["id"], k, r[k]), x)
            if r.get("held_after_failure"):
                c.violation("startup", "%s: %d bytes held after tiro_vm_new failed" % (x["id"], r["held_after_failure"]), x)
            if x["id"].startswith("early"):
                if r.get("load_std_retry", "TIRO_OK") != "TIRO_OK":
                    c.violation("startup", "%s: loading the standard library again reported %s" % (x["id"], r["load_std_retry"]), x)
                elif r["events"] != [HELLO_RESULT]:
                    c.violation("startup", "%s: %s" % (x["id"], str(r["events"])[:400]), x)
                outcome = "vm_new fault" if "vm_new_fault" in r else "load_std fault" if "load_std" in r else "no fault"
            elif "load_std" in r or "load_host" in r:
                outcome = "load"
            else:
                ok = r["events"] == [HELLO_RESULT]
                errs = [e for e in r["events"] if e[0] in fault.ERRORS]
                outcome = "result" if ok else "error"
                bad_load = [l for l in r["load"] if l != "TIRO_OK" and not l.startswith("ERROR_ALLOC")]
                if bad_load or (not ok and not (r["load"] != ["TIRO_OK"] or (errs and all("ERROR_ALLOC" in e for e in errs)))):
                    c.violation("startup", "%s: load %s events %s" % (x["id"], r["load"], str(r["events"])[:400]), x)
            stats(c, x["id"], r, x["vm"].get("max"))
        c.count("startup " + outcome)
        c.observe((x["id"], outcome))


def modules(c, exe, points):
    """loading and initialising modules while allocations fail"""
    mods = [{"name": "aux", "files": [["aux", AUX]]}, {"name": "main", "files": [["main", MAIN]]}]
    F = lambda at: {"fault": [at, 0, 0]}
    main = {"module": "main", "fn": "main"}
    cases = []
    for at in points:
        cases.append({"id": "load%d" % at, "modules": mods, "preload": 0, "vm": {"trace": False}, "phases": [
            [F(at), {"load": 0}, {"load": 1}, F(0)], [{"load": 0}, {"load": 1}], [main], [main]]})
        cases.append({"id": "init%d" % at, "modules": mods, "vm": {"trace": False}, "phases": [
            [F(at), main], [F(0), main], [main]]})
    res = c.run_cases(exe, cases)
    for x in cases:
        r = res[x["id"]]
        if "events" not in r:
            continue
        ev = r["events"]
        dones = [e for e in ev if e[0] == "done"]
        errs = [e for e in ev if e[0] in fault.ERRORS]
        hit = r["stats"]["faults"]
        if any("ERROR_ALLOC" not in e for e in errs) or len(errs) > hit:
            c.violation("modules", "%s: %s" % (x["id"], str(errs)[:400]), x)
        if x["id"].startswith("load"):
            rcs = [e[1:] for e in ev if e[0] == "load"]
            first, second = dict(map(tuple, rcs[:2])), dict(map(tuple, rcs[2:]))
            for i in (0, 1):
                if first[i] not in ("TIRO_OK", "ERROR_ALLOC") or (first[i] != "TIRO_OK" and not hit):
                    c.violation("modules", "%s: loading module %d reported %s" % (x["id"], i, first[i]), x)
                if second[i] != ("ERROR_MODULE_EXISTS" if first[i] == "TIRO_OK" else "TIRO_OK"):
                    c.violation("modules", "%s: loading module %d reported %s, then %s" % (x["id"], i, first[i], second[i]), x)
            want = 2
        else:
            want = 2 if errs else 3
        if len(dones) != want or any(e[2] != MAIN_RESULT for e in dones):
            c.violation("modules", "%s: failed allocations %d, events %s" % (x["id"], hit, str(ev)[:700]), x)
        stats(c, x["id"], r)
        c.count("module fault" if hit else "module no fault")
        c.observe((x["id"], hit, tuple(str(e[1:4]) for e in errs)))


HUGE = """
import std; import host;
const data = [map{"a": (1, 2)}, "text", [1, 2, 3]];
export func main(kind, sizes) {
    const r = [];
    for s in sizes { r.append(host.big(kind, s)); host.gc(); }
    return (r, (data[0]["a"], data[0].size(), data[1], data[2]));
}
export func std_buffer(size) { const b = std.new_buffer(size); return b.size(); }
export func after() { const l = []; for var i = 0; i < 3000; i += 1 { l.append((i, "x${i}")); } return (l.size(), l[2999].1, std.new_buffer(100000).size()); }
"""


def huge(c, exe, limits):
    sizes = []
    for b in range(28, 63):
        for d in (-17, -1, 0, 1, 100):
            sizes.append((1 << b) + d)
    sizes += [(1 << 36) * 3 + 100, (1 << 36) + 16 * 5, (1 << 60) + 3, (1 << 59) + 1, (1 << 63) - 1, (1 << 63) - 64, (1 << 63) - 200]
    sizes.sort()
    cases = []
    for limit in limits:
        for kind in range(4):
            use = [s for s in sizes if s > limit] if kind in (0, 3) else [s for s in sizes if s * 8 > limit]
            cases.append({"id": "huge%d.%d" % (limit, kind), "modules": [{"name": "main", "files": [["main", HUGE]]}],
                          "vm": {"trace": False, "page": 65536, "max": limit},
                          "phases": [[{"module": "main", "fn": "main", "args": ["t", kind, ["a"] + use]}], [{"module": "main", "fn": "after"}]]})
        for n, s in enumerate([x for x in sizes if x > limit][::7]):
            cases.append({"id": "std%d.%d" % (limit, n), "modules": [{"name": "main", "files": [["main", HUGE]]}],
                          "vm": {"trace": False, "page": 65536, "max": limit},
                          "phases": [[{"module": "main", "fn": "std_buffer", "args": ["t", s]}], [{"module": "main", "fn": "after"}]]})
    res = c.run_cases(exe, cases)
    for x in cases:
        r = res[x["id"]]
        if "events" not in r:
            continue
        ev = r["events"]
        after = ["done", 0, ["ok", ["t", 3000, "x2999", 100000]]]
        if x["id"].startswith("huge"):
            n = len(x["phases"][0][0]["args"][2]) - 1
            want = ["done", 0, ["ok", ["t", ["a"] + ["ERROR_ALLOC"] * n, ["t", ["t", 1, 2], 1, "text", ["a", 1, 2, 3]]]]]
            good = ev[:1] == [want]
            c.count("huge requests", n)
        else:
            good = len(ev) == 2 and ev[0][:2] == ["run_error", "ERROR_ALLOC"]
            c.count("huge requests")
        if not good or ev[-1] != after:
            c.violation("huge", "%s: %s" % (x["id"], str(ev)[:600]), x)
        stats(c, x["id"], r)
        c.observe((x["id"], str(ev[0])[:200]))


def run(c):
    c.rule = "distinct (operation, outcome) pairs under allocation failure and distinct outcomes per limit"
    plain = c.build("plain", "tdrv")
    asan = c.build("asan", "tdrv")
    histories(c, plain, "h", c.scale(24, 200), c.scale(56, 160), True)
    histories(c, asan, "a", c.scale(6, 40), c.scale(24, 80), True)
    q = random.Random(c.seed)
    sizes = [(900000, 65536), (1200000 + q.randrange(20000), 65536)]
    if c.thorough:
        sizes += [(1300000, 131072), (2100000, 262144), (800000 + q.randrange(100000), 65536), (1000000 + q.randrange(100000), 65536)]
    exhaustion(c, plain, "x", list(exhaust.FILLERS), sizes)
    exhaustion(c, asan, "xa", q.sample(sorted(exhaust.FILLERS), c.scale(5, len(exhaust.FILLERS))), sizes[:1])
    startup(c, plain, range(1, 300000, c.scale(3001, 401)), range(1, c.scale(900, 1400), c.scale(5, 1)))
    modules(c, plain, range(1, c.scale(160, 260)))
    modules(c, asan, range(1 + c.seed % 7, 160, c.scale(7, 1)))
    huge(c, plain, [3000000, 50000000])
    huge(c, asan, [3000000])
    # The system refuses these requests although the limit would permit them: accounting must stay correct.
    limit = (8 << 30) + 100000
    case = {"id": "system", "modules": [{"name": "main", "files": [["main", HUGE]]}], "vm": {"trace": False, "page": 65536, "max": limit},
            "rlimit_mb": 2000,
            "phases": [[{"module": "main", "fn": "main", "args": ["t", 0, ["a"] + [4 << 30] * 4]}], [{"module": "main", "fn": "after"}]]}
    r = c.run_cases(plain, [case])["system"]
    if "events" in r:
        ev = r["events"]
        if ev[-1] != ["done", 0, ["ok", ["t", 3000, "x2999", 100000]]] or ev[0][2][1][1] != ["a"] + ["ERROR_ALLOC"] * 4:
            c.violation("system", str(ev)[:600], case)
        stats(c, "system", r)
