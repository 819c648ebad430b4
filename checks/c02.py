"""C02: the same program under many collection schedules, page sizes and amounts of prior garbage."""
import random
import diff

GARBAGE = """
import std;
import host;
export func main() {
    var keep = [];
    for var i = 0; i < 400; i += 1 {
        const a = [i, "x$i", (i, i * 2), map{i: "v$i"}, set{i}, (k: i, l: [i]), func() = i];
        if (i % 7 == 0) { keep.append(a); }
        if (i % 50 == 0) { std.new_buffer(20000); }
    }
    return keep.size();
}
"""

SCHEDULES = {
    "every": {"gc": [1, 1, 0]},
    "every3": {"gc": [1, 3, 0], "page": 65536},
    "random": {"gc": [2, 9, 5], "page": 65536},
    "early": {"gc": [1, 2, 0], "gc_early": True, "page": 262144},
    "none": {"page": 65536},
}


def case(p, name, seed):
    vm = dict(SCHEDULES[name])
    if name == "random":
        vm["gc"] = [2, 2 + seed % 13, seed & 0xFFFF]
    cs = diff.case(p, "-" + name, vm=vm)
    return cs


def run(c):
    c.rule = ("random allocation-heavy, closure, coroutine, native-call and panic programs, each executed under five "
              "collection schedules (at every / every 2nd / every 3rd allocation, at random allocations, "
              "never) with three page sizes and with prior garbage on the heap; freed cells are overwritten; every "
              "run must produce the event log of the reference interpreter, which has no heap; distinct = event logs")
    exe = c.build("plain", "tdrv")
    k = c.scale(1, 10)
    progs, skipped = diff.programs({"alloc": 100 * k, "coro": 90 * k, "natives": 70 * k, "closures": 60 * k,
                                    "mixed": 60 * k, "panic": 50 * k}, c.seed)
    c.count("skipped_programs", skipped)
    cases = []
    for p in progs:
        for n in SCHEDULES:
            cs = case(p, n, p.seed)
            if n in ("none", "random"):
                cs["modules"].insert(0, {"name": "garbage", "files": [["garbage", GARBAGE]]})
                cs["phases"].insert(0, [{"module": "garbage", "fn": "main"}])
            cases.append(cs)
    res = c.run_cases(exe, cases)
    for r in res.values():
        st = r.get("stats")
        if st:
            c.count("collections", st["gcs"])
            c.count("allocations", st["allocs"])
    for n in SCHEDULES:
        pre = [["done", 0, ["ok", 58]]] if n in ("none", "random") else []
        c.count("agreeing_" + n, diff.judge(c, progs, res, lambda p: pre + p.events, "-" + n, n))
    c.sample(progs[0].src)
