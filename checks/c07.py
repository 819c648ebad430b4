"""C07: register allocation, phis, parallel copies."""
import diff


def run(c):
    c.rule = ("random programs dominated by loops, rotations and swaps of variables, many live locals and "
              "parameters, early exits, values observed by exception handlers; event logs are compared with the "
              "reference interpreter; distinct = event logs")
    exe = c.build("plain", "tdrv")
    k = c.scale(1, 12)
    progs, skipped = diff.programs({"swaps": 700 * k, "loops": 300 * k, "defer": 250 * k, "big": 50 * k}, c.seed)
    c.count("skipped_programs", skipped)
    res = c.run_cases(exe, [diff.case(p) for p in progs])
    c.count("agreeing", diff.judge(c, progs, res))
    c.sample(progs[0].src)
