"""C01: memory safety and absence of undefined behaviour (ASAN + UBSAN + poisoned free heap cells)."""
import random
import diff, mutate, seq, zoo

GC = [{"gc": [1, 1, 0]}, {"gc": [1, 2, 0], "page": 65536}, {"gc": [2, 7, 1], "page": 262144}, {"gc": [2, 3, 9], "page": 65536},
      {"gc": [1, 5, 0], "page": 1 << 20}, {"gc": [3, 100, 0]}, {"page": 65536}, {"gc": [1, 1, 0], "gc_early": True}]


def history(a):
    kind, seed, n = a
    return {"map": seq.map_history, "seq": seq.seq_history, "str": seq.str_history}[kind](seed, n)


def hostile(a):
    seed, srcs, n = a
    r = random.Random(seed)
    return [mutate.mutate(r, r.choice(srcs), srcs).decode("latin-1") for _ in range(n)]


def run(c):
    c.rule = ("ASAN+UBSAN build with poisoned free heap cells; random programs of all profiles, container and string "
              "histories, every operation on every combination of values (with and without a defined result) and hostile source "
              "texts (compiled with all attachments, run when accepted), under collections at every or random "
              "allocations and three page sizes; any sanitizer report, assertion or crash is a violation; "
              "distinct = event logs")
    exe = c.build("asan", "tdrv")
    k = c.scale(1, 8)
    cases = []
    progs, skipped = diff.programs({"alloc": 24 * k, "coro": 24 * k, "natives": 20 * k, "closures": 16 * k, "mixed": 20 * k, "panic": 16 * k,
                                    "defer": 12 * k, "swaps": 12 * k, "big": 4 * k, "consts": 12 * k, "loops": 8 * k}, c.seed)
    for i, p in enumerate(progs):
        cs = diff.case(p, vm=dict(GC[i % len(GC)]))
        cs["modules"][0]["attach"] = [1, 2, 3, 4] if i % 4 == 0 else []
        cs["modules"][0]["probe"] = True
        cases.append(cs)
    for i in range(60 * k):
        kind = ["map", "seq", "str"][i % 3]
        src, ops, exp = history((kind, c.seed * 7919 + i, 60))
        cases.append(seq.case("hist-%d" % i, src, ops, dict(GC[(i // 3) % len(GC)])))
    # every operation on every value
    items = list(zoo.combos(zoo.ALL, {**zoo.VALUES, **zoo.WILD}))
    r = random.Random(c.seed)
    if not c.thorough:
        wild = [it for it in items if any(it[0].find(x) >= 0 for x in zoo.WILD)]
        items = r.sample(wild, 6000) + r.sample(items, 9000)
    for i, src in enumerate(zoo.wild_sources(items, 150)):
        vm = dict(GC[i % len(GC)], trace=i % 2 == 0)
        cases.append({"id": "zoo-%d" % i, "modules": [{"name": "main", "files": [["main", diff.text(src)]]}],
                      "phases": [[{"module": "main", "fn": "main"}]], "vm": vm})
    c.count("zoo_combinations", len(items))
    # hostile sources
    srcs = [p.src for p in progs if len(p.src) < 6000]
    for j, l in enumerate(diff.pool_map(hostile, [(c.seed * 31 + j, srcs[j % 7::7], 50) for j in range(24 * k)], 1)):
        for i, s in enumerate(l):
            cases.append({"id": "src-%d-%d" % (j, i), "modules": [{"name": "main", "files": [["main", s]], "attach": [1, 2, 3, 4] if i % 5 == 0 else []}],
                          "phases": [[{"module": "main", "fn": "main"}]], "vm": {"gc": [1, 3, 0]}, "max_rounds": 2000, "max_events": 5000})
    r.shuffle(cases)
    res = c.run_cases(exe, cases, alarm=60, hang=False)
    for cs in cases:
        q = res[cs["id"]]
        if q.get("crash") is not None or q.get("timeout") or q.get("skipped") or q.get("missing"):
            continue
        c.observe((cs["id"].split("-")[0], str(q.get("events"))[:2000], str(q.get("compile"))[:2000] if cs["id"].startswith("src") else ""))
        st = q.get("stats") or {}
        for n in ("allocs", "gcs"):
            c.count(n, st.get(n, 0))
        c.count("ran_" + cs["id"].split("-")[0], int(bool(q.get("events"))))
        for n in ("bad_free_size", "over_limit"):
            if st.get(n):
                c.violation("monitor:" + n, "%s: %s" % (cs["id"], st), cs)
    c.sample(progs[0].src)
    c.sample(zoo.wild_sources(items[:3])[0][-800:])
