"""C04: random histories of API calls and script functions over native objects, handles, containers, coroutines, callbacks
and tokens, judged by a model of reachability and a ledger of finalizers, callbacks and cleanups (driver/ldrv.cpp)."""
import random


def cases(prefix, seeds, ops):
    for s in seeds:
        r = random.Random(s)
        c = {"id": "%s%d" % (prefix, s), "seed": s, "ops": r.choice([ops // 4, ops, ops * 2]),
             "page": r.choice([65536, 65536, 131072, 0]), "faults": r.random() < 0.5, "slots": r.choice([6, 12, 16, 24, 48])}
        g = r.randrange(4)
        if g < 3:
            c["gc"] = [[2, 3, 0], [2, 20, 0], [1, 7, 0]][g]
        yield c


def run(c):
    c.rule = "distinct sequences of completed script functions and failed registrations per history"
    n_plain, n_asan = c.scale((1400, 300), (60000, 8000))
    base = c.seed * 1000003
    exes = [(c.build("plain", "ldrv"), list(cases("p", range(base, base + n_plain), 300))),
            (c.build("asan", "ldrv"), list(cases("a", range(base + n_plain, base + n_plain + n_asan), 250)))]
    for exe, cs in exes:
        for i in range(0, len(cs), 4000):
            part = cs[i:i + 4000]
            by = {x["id"]: x for x in part}
            for cid, r in c.run_cases(exe, part, alarm=60).items():
                if r.get("error"):
                    c.violation("start", "%s: %s" % (cid, str(r["error"])[:500]), by.get(cid))
                if "bad" not in r:
                    continue
                for key, what in r["bad"]:
                    c.violation(key, "%s: %s" % (cid, what), by[cid])
                if r["natives"] + r["regs"] == 0:
                    continue
                c.observe(r["signature"], n=r["natives"] + r["regs"])
                for k in ("natives", "finalized_before_free", "regs", "calls", "cleanups", "gcs", "forced", "faults"):
                    c.count(k, r[k])
                if r["uncertain"]:
                    c.count("histories_with_failed_run")
                if len(r["signature"]) > 20:
                    c.sample("history %s: %s; %d natives, %d finalized before the machine was freed, %d callbacks registered, "
                             "%d run, %d cleaned up" % (by[cid], r["signature"][:120], r["natives"], r["finalized_before_free"],
                                                        r["regs"], r["calls"], r["cleanups"]))
