"""C03: programs with bounded live data produce garbage for many rounds: the number of reachable objects, the memory
held and the ability to continue inside a tight heap limit must not depend on the number of rounds."""
import random
import churn, steady

PAGE = 65536
LARGE = {"lobs": 200000, "bignatives": 65100, "lobs2": 300000 + 20000}
BOUNDED = {"mixed": 64 * 4}  # objects that legitimately stay alive between rounds


def judge(c, cid, kind, r, case, limit=None):
    ev = r.get("events")
    if ev is None:
        if r.get("crash") is None and not r.get("timeout"):
            c.violation("start", "%s: %s" % (cid, str(r)[:400]), case)
        return None
    bad = [e for e in ev if not (e[0] == "l" or (e[0] == "done" and e[2] == ["ok", 0]))]
    if bad:
        c.violation("continue:" + kind, "%s (heap limit %s): %s" % (cid, limit, str(bad[0])[:400]), case)
        return None
    marks = [e[2:] for e in ev if e[0] == "l"]
    live = [m[0] for m in marks[1:]]
    held = [m[1] for m in marks[1:]]
    if len(live) != len(case["phases"]) - 1:
        c.violation("continue:" + kind, "%s: %d of %d rounds" % (cid, len(live), len(case["phases"]) - 1), case)
        return None
    slack = BOUNDED.get(kind)
    if slack is None and len(set(live)) != 1:
        c.violation("live:" + kind, "%s: reachable objects after equal rounds: %s" % (cid, live[:20] + live[-3:]), case)
    if slack is not None and max(live) - marks[0][0] > slack:
        c.violation("live:" + kind, "%s: reachable objects %d, at most %d expected" % (cid, max(live), marks[0][0] + slack), case)
    half = len(held) // 2
    if max(held[half:]) > max(held[:half]) + case["vm"]["page"]:
        c.violation("held:" + kind, "%s: memory held grows: %s" % (cid, held[::max(1, len(held) // 12)]), case)
    s = r["stats"]
    if s["leaked"] or s["over_limit"] or s["bad_free_size"]:
        c.violation("accounting:" + kind, "%s: %s" % (cid, s), case)
    if s["callbacks"] != s["cleanups"]:
        c.violation("callbacks:" + kind, "%s: %s" % (cid, s), case)
    c.observe((kind, live[-1], held[-1], s["gcs"]), n=len(live))
    c.count("rounds", sum(x[0]["args"][1] for x in case["phases"][1:]))
    c.count("collections", s["gcs"])
    c.count("allocations", s["allocs"])
    return s


def run(c):
    c.rule = "distinct (workload, live objects, memory held, collections); frames that loop for very long; objects replaced by others of their size"
    plain = c.build("plain", "tdrv")
    kinds = list(churn.KINDS)
    tight = c.run_cases(plain, [churn.case("base-" + k, k, 4, 2, {"gc": [1, 20, 0]}) for k in kinds], alarm=60)
    q = random.Random(c.seed)
    cases = {}
    for k in kinds:
        r = tight["base-" + k]
        s = judge(c, "base-" + k, k, r, churn.case("base-" + k, k, 4, 2, {"gc": [1, 20, 0]}))
        if not s:
            continue
        for n in range(c.scale(2, 6)):
            # Room for fragmentation and for the largest single block in addition to the measured need.
            limit = int(s["peak"] * (1.5 if n % 2 else 2)) + 3 * PAGE + q.randrange(PAGE) + (700000 if k in ("doubling", "bigarray", "deep") else 0)
            if k in LARGE:  # two blocks at most are alive at once
                limit = (2 + n % 2) * PAGE + 2 * LARGE[k] + 2000
            cid = "tight%d-%s" % (n, k)
            cases[cid] = (k, limit, churn.case(cid, k, c.scale(16, 60), 2 + n % 3, {"max": limit}))
        for n in range(c.scale(1, 4)):
            cid = "free%d-%s" % (n, k)
            page = (65536, 131072, 262144, 1048576)[(n + c.seed) % 4]
            cases[cid] = (k, None, churn.case(cid, k, c.scale(16, 40), 1 + n % 3, {"page": page}))
    res = c.run_cases(plain, [x for _, _, x in cases.values()], alarm=120)
    for cid, (k, limit, case) in cases.items():
        judge(c, cid, k, res[cid], case, limit)
    steady.frames(c, plain, random.Random(c.seed * 7 + 1), c.scale(20, 300), c.scale([2000, 50000], [2000, 50000, 300000]))
    steady.refills(c, plain, c.scale((2, 3), (2, 3, 4, 7)), c.scale(6, 20))
    for page in c.scale((131072,), (131072, 1048576)):
        steady.refills(c, plain, (2,), 4, {"page": page})
    # Collections at other points and memory checking.
    asan = c.build("asan", "tdrv")
    cases = {}
    for k in kinds:
        cid = "asan-" + k
        cases[cid] = (k, churn.case(cid, k, 3, 1, {"gc": [2, 60, c.seed]}))
    res = c.run_cases(asan, [x for _, x in cases.values()], alarm=120)
    for cid, (k, case) in cases.items():
        judge(c, cid, k, res[cid], case)
