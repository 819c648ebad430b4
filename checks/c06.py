"""C06: generated programs against the reference interpreter."""
import diff


def run(c):
    c.rule = ("random typed programs over the whole statement and expression grammar; each is executed by an "
              "independent reference interpreter and by the real compiler+VM and the complete event logs "
              "(host calls with serialised values, panics with traces, results) are compared; distinct = event logs")
    exe = c.build("plain", "tdrv")
    k = c.scale(1, 12)
    progs, skipped = diff.programs({"mixed": 700 * k, "consts": 150 * k, "closures": 200 * k, "natives": 150 * k,
                                    "coro": 150 * k, "loops": 150 * k, "big": 60 * k}, c.seed)
    c.count("skipped_programs", skipped)
    res = c.run_cases(exe, [diff.case(p) for p in progs])
    c.count("agreeing", diff.judge(c, progs, res))
    c.sample(progs[0].src)
    c.sample(str(progs[0].events))
