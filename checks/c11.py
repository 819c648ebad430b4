"""C11: panics, deferred expressions, catch_panic, traces."""
import diff


def run(c):
    c.rule = ("random programs dominated by panics, defer, early exits and catch_panic; event logs (order of "
              "deferred calls, surviving exception, message, stack trace) are compared with the reference "
              "interpreter, with traces enabled and disabled; distinct = event logs")
    exe = c.build("plain", "tdrv")
    k = c.scale(1, 12)
    progs, skipped = diff.programs({"panic": 600 * k, "defer": 400 * k, "natives": 100 * k}, c.seed)
    c.count("skipped_programs", skipped)
    res = c.run_cases(exe, [diff.case(p) for p in progs])
    c.count("agreeing", diff.judge(c, progs, res))
    half = progs[::2]
    res = c.run_cases(exe, [diff.case(p, "-nt", vm={"trace": False}) for p in half])
    c.count("agreeing_untraced", diff.judge(c, half, res, lambda p: diff.untraced(p.events), "-nt", "untraced"))
    c.sample(progs[0].src)
    c.sample(str(progs[0].events))
