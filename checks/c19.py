"""C19: random histories of valid and invalid calls of the public C interface against a model of the values behind the
handles (driver/adrv.cpp), the compiler interface as a state machine, machine settings and error codes. One build has the
assertions of debug builds, the other one has not: assertions are exceptions, which the interface turns into errors."""
import random


def cases(prefix, seeds, ops):
    for s in seeds:
        r = random.Random(s)
        c = {"id": "%s%d" % (prefix, s), "seed": s, "ops": r.choice([ops // 3, ops, ops * 2]), "page": r.choice([65536, 65536, 131072, 0]),
             "faults": r.random() < 0.5, "slots": r.choice([6, 12, 24]), "traces": r.random() < 0.3}
        g = r.randrange(4)
        if g < 3:
            c["gc"] = [[2, 3], [2, 20], [1, 7]][g]
        yield c


def others(prefix, kind, seeds):
    return [{"id": "%s%d" % (prefix, s), "seed": s, "kind": kind} for s in seeds]


def run(c):
    c.rule = "distinct (function, outcome) pairs observed, and distinct sets of pairs per history"
    n_plain, n_asan, n_comp, n_set = c.scale((1000, 500, 120, 6), (40000, 12000, 3000, 60))
    base = c.seed * 1000003
    plain, rasan = c.build("plain", "adrv"), c.build("rasan", "adrv")
    jobs = [(plain, list(cases("p", range(base, base + n_plain), 300)) + others("pc", "compiler", range(base, base + n_comp))),
            (rasan, list(cases("a", range(base + n_plain, base + n_plain + n_asan), 250))
             + others("ac", "compiler", range(base + n_comp, base + n_comp + n_comp // 3)) + others("as", "settings", range(base, base + n_set)))]
    for exe, cs in jobs:
        for i in range(0, len(cs), 4000):
            part = cs[i:i + 4000]
            by = {x["id"]: x for x in part}
            for cid, r in c.run_cases(exe, part, alarm=60).items():
                if r.get("error"):
                    c.violation("start", "%s: %s" % (cid, str(r["error"])[:500]), by.get(cid))
                if "bad" not in r:
                    continue
                for key, what in r["bad"]:
                    c.violation(key, "%s: %s" % (cid, what), by[cid])
                c.observe(sorted(r["outcomes"]), n=r["calls"])
                for k, n in r["outcomes"].items():
                    c.count("outcome " + k, n)
                for k in ("calls", "errors", "checked", "faults", "frames", "executed", "gcs"):
                    if k in r:
                        c.count(k, r[k])
                if r["calls"] > 300:
                    c.sample("history %s: %d calls, %d of them failed, %d accessor rounds, %d native frames" % (
                        cid, r["calls"], r.get("errors", 0), r.get("checked", 0), r.get("frames", 0)))
