"""C25: machines and compilers are independent of each other (threads and nesting)."""
import random
import c20, diff, mutate, steady

VMS = [{"trace": True}, {}, {"trace": True, "gc": [1, 7, 0]}, {"trace": True, "page": 65536}, {"trace": True, "gc": [2, 20, 5]},
       {"trace": True, "max": 4 << 20}, {"trace": True, "page": 1 << 18, "gc": [1, 3, 0]}]


def jobs_of(c, n):
    """Jobs: generated programs on machines with different settings, hostile sources for the compiler."""
    r = random.Random(c.seed * 31 + 7)
    progs, _ = diff.programs({"mixed": n, "coro": n, "natives": n, "closures": n // 2, "consts": n // 3, "panic": n // 2, "alloc": n // 2}, c.seed)
    progs = sorted(progs, key=lambda p: len(p.src))[:len(progs) * 3 // 4]
    out = []
    for i, p in enumerate(progs):
        cs = diff.case(p, vm=dict(r.choice(VMS)))
        if i % 4 == 0:  # stopped early: token based programs otherwise wait
            cs["max_rounds"] = 50
        cs["modules"][0]["attach"] = r.choice([[], [], [4], [3, 4], [1, 2, 3, 4] if len(p.src) < 600 else [4]])
        out.append(cs)
    srcs = [p.src for p in progs[:20]]
    for i in range(len(progs) // 3):
        b = c20.soup(r) if i % 2 else mutate.mutate(r, r.choice(srcs), srcs)
        out.append({"id": "s-%d" % i, "modules": [{"name": "main", "files": [["main", b.decode("latin-1")]], "attach": [1, 2, 3, 4] if len(b) < 600 else [3, 4]}],
                    "phases": [], "vm": {"trace": True}, "max_rounds": 300, "max_events": 1000})
    for i in range(n * 2):
        l = list(steady.TOUR)
        r.shuffle(l)
        out.append(steady.tour_case("tour-%d" % i, l[:8 + i % 12], 1 + i % 2, dict(r.choice(VMS))))
    r.shuffle(out)
    return out


def groups(jobs, mode, size, **kw):
    cases = []
    for i in range(0, len(jobs) - size + 1, size):
        cases.append({"id": "%s-%d" % (mode, i), "mode": mode, "jobs": jobs[i:i + size], "seed": i + 1, **kw})
    return cases


def run(c):
    c.rule = ("a 'group' is a set of jobs (a job compiles a program or a hostile source, then runs it on a machine of its own with its own page "
              "size, limit, collection schedule and tracing); groups are run by racing threads with injected pauses at every callback under a data "
              "race detector and without, and nested (a job inside the callbacks of another) on one thread; every job must behave exactly "
              "as it does alone; distinct = (mode, jobs, thread switches observed at callbacks, outcomes)")
    k = c.scale(1, 14)
    jobs = jobs_of(c, 32 * k)
    plan = [("tsan", "threads", groups(jobs[:len(jobs) * 2 // 3], "threads", 6, threads=4, rounds=1)),
            ("plain", "threads", groups(jobs, "threads", 10, threads=8, rounds=c.scale(1, 3))),
            ("asan" if c.thorough else "plain", "nested", groups(jobs, "nested", 10, nested=60, rounds=1))]
    for variant, mode, cases in plan:
        exe = c.build(variant, "pdrv")
        res = c.run_cases(exe, cases, alarm=120)
        for cs in cases:
            q = res[cs["id"]]
            if q.get("crash") is not None or "executed" not in q:
                continue
            for key in ("executed", "events", "switches"):
                c.count("%s_%s_%s" % (variant, mode, key), q[key])
            c.count("%s_%s_groups" % (variant, mode))
            c.count("%s_%s_groups_with_%d_active" % (variant, mode, q["most_active"]))
            c.observe((variant, mode, cs["id"], q["switches"], q["outcomes"]))
            for job, alone, seen in q["bad"]:
                c.violation("%s:differs" % mode, "%s job %s: alone ..%s.. but with others ..%s.." % (cs["id"], job, alone, seen),
                            dict(cs, variant=variant))
        c.sample("%s %s: %d groups of %d jobs" % (variant, mode, len(cases), len(cases[0]["jobs"])))
