"""C12: histories of map and set operations against an abstract insertion-ordered map."""
import bigmap, diff, lang, seq


def one(a):
    return seq.map_history(*a)


def run(c):
    c.rule = ("random histories (60-700 operations, up to ~1500 entries, growth, tombstones, clears, live key and value views) over "
              "key pools mixing null, booleans, integers and equal floats, strings and equal slices, symbols, types and "
              "objects; every result and every iteration order is compared with an abstract insertion-ordered map; also the "
              "same histories with collections at every allocation; bulk histories of up to 75000 keys in which every key of the universe is "
              "looked up after every operation; distinct = (operation, result)")
    exe = c.build("plain", "tdrv")
    n = c.scale(500, 6000)
    jobs = [(c.seed * 100003 + i, [60, 150, 700][i % 3]) for i in range(n)]
    hist = diff.pool_map(one, jobs)
    cases, plan = [], {}
    for i, (src, ops, exp) in enumerate(hist):
        cid = "map-%d" % i
        vm = {"gc": [1, 3, 0]} if i % 8 == 1 and len(ops) < 100 else {"gc": [2, 40, i], "page": 65536} if i % 8 == 3 else {}
        cases.append(seq.case(cid, src, ops, vm))
        plan[cid] = (ops, exp)
    res = c.run_cases(exe, cases)
    seq.judge(c, "history", plan, res)
    c.sample(str(hist[0][1][:40]))
    c.sample(hist[0][0][:300])
    bigmap.run(c, exe, c.scale([(300, 16, 64), (3000, 12, 48), (20000, 6, 12), (75000, 3, 4)],
                               [(300, 40, 1500), (3000, 30, 600), (20000, 20, 100), (75000, 12, 40), (400000, 4, 8)]), diff.pool_map)
