import diff, seq


def one(a):
    return seq.seq_history(*a)


def run(c):
    c.rule = ("random histories of array, tuple, buffer and record operations (reads, writes, compound and swapping "
              "assignments, growth to ~1000 elements, aliasing, valid, boundary and wrongly typed indices and values); every result "
              "and complete dumps are compared with plain Python sequences, panics must leave the contents unchanged; part of them "
              "with frequent collections; distinct = (operation, result)")
    exe = c.build("plain", "tdrv")
    n = c.scale(400, 6000)
    hist = diff.pool_map(one, [(c.seed * 100003 + i, [80, 200, 600][i % 3]) for i in range(n)])
    cases, plan = [], {}
    for i, (src, ops, exp) in enumerate(hist):
        cid = "seq-%d" % i
        vm = {"gc": [1, 2, 0]} if i % 8 == 0 else {"gc": [2, 40, i], "page": 65536} if i % 8 == 3 else {}
        cases.append(seq.case(cid, src, ops, vm))
        plan[cid] = (ops, exp)
    seq.judge(c, "history", plan, c.run_cases(exe, cases))
    c.sample(str(hist[0][1][:40]))
