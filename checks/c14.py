import diff, seq


def one(a):
    return seq.str_history(*a)


def run(c):
    c.rule = ("random histories of string operations (literals, interpolation, slices of slices, builders, byte appends, search, "
              "equality, iteration, use as map keys, debug text) over a pool of strings including cut multi-byte characters; every "
              "result is compared byte for byte with Python bytes and all strings are compared again at the end "
              "(immutability); part of them with frequent collections; distinct = (operation, result)")
    exe = c.build("plain", "tdrv")
    n = c.scale(400, 6000)
    hist = diff.pool_map(one, [(c.seed * 100003 + i, [80, 200, 400][i % 3]) for i in range(n)])
    cases, plan = [], {}
    for i, (src, ops, exp) in enumerate(hist):
        cid = "str-%d" % i
        vm = {"gc": [1, 2, 0]} if i % 8 == 0 else {"gc": [2, 40, i], "page": 65536} if i % 8 == 3 else {}
        cases.append(seq.case(cid, src, ops, vm))
        plan[cid] = (ops, exp)
    seq.judge(c, "history", plan, c.run_cases(exe, cases))
    c.sample(str(hist[0][1][:40]))
