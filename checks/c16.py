"""C16: coroutine scheduling, resume tokens, completion."""
import random
import diff, lang, schedule


class P:
    pass


def one(a):
    seed, opts = a
    p = P()
    p.id, p.seed, p.opts = "s-%d" % seed, seed, opts
    r = random.Random(seed ^ 0x5eed)
    p.order, p.batch = r.choice([0, 0, 1, 2]), r.choice([1, 1, 2, 5])
    ast, p.phases = schedule.Sched(seed, **opts).program()
    m = lang.Machine(max_steps=60000, lifo=p.order)
    m.load_module('main', ast)
    boot = lang.Coro(m, None, [])
    m.cur = boot
    boot.stack.append('<module_init>')
    p.completed, p.stats = None, {}
    try:
        m.init_module('main', ast)
        m.cur = None
        env = m.modules['main'].env.v
        p.completed = m.run_phases([[(env[f], []) for f in ph] for ph in p.phases], p.batch)
        p.events, p.why = m.events, None
        p.stats = {"coroutines": len(m.coros), "finished": sum(c.done for c in m.coros)}
    except (lang.Panic, lang.StepLimit, lang.Unsupported, RecursionError) as x:
        p.events, p.why = None, repr(x)
    p.src = lang.Printer().module(ast)
    return p


def case(p, suffix, vm):
    return {"id": p.id + suffix, "modules": [{"name": "main", "files": [["main", diff.text(p.src)]]}],
            "phases": [[{"module": "main", "fn": f} for f in ph] for ph in p.phases],
            "order": p.order, "batch": p.batch, "vm": vm}


def run(c):
    c.rule = ("random scheduling scripts (coroutines that launch each other, keep, share and reuse tokens, yield, dispatch, "
              "wait for the host inside nested frames, panic and defer) under hosts that complete operations oldest first, "
              "newest first, mixed, in batches and from within running coroutines; event logs, completions and completion "
              "callbacks are compared with an independent scheduler model; distinct = event logs")
    exe = c.build("asan" if c.thorough else "plain", "tdrv")
    n = c.scale(1300, 20000)
    jobs = []
    for i in range(n):
        r = random.Random("%s/%d" % (c.seed, i))
        jobs.append((r.randrange(1 << 40), dict(workers=r.randint(2, 6), ops=r.choice([4, 8, 14]), nested=r.choice([.1, .5]),
                                                host=r.random() < .85, misuse=r.random() < .6)))
    progs = diff.pool_map(one, jobs)
    good = [p for p in progs if p.events is not None]
    c.count("skipped_programs", len(progs) - len(good))
    for suffix, vm, sel in (("", {"trace": True}, good), ("-gc", {"trace": True, "gc": [2, 5, c.seed]}, good[::3])):
        res = c.run_cases(exe, [case(p, suffix, vm) for p in sel])
        c.count("agreeing" + suffix, diff.judge(c, sel, res, suffix=suffix, what="schedule"))
        for p in sel:
            r = res.get(p.id + suffix)
            if not r or r.get("completed") is None:
                continue
            if r["completed"] != p.completed:
                c.violation("completed", "%s: completed %s, expected %s" % (p.id, r["completed"], p.completed),
                            {"source": p.src, "phases": p.phases, "order": p.order, "batch": p.batch})
            if not suffix:
                c.count("coroutines", p.stats["coroutines"])
                c.count("coroutines_finished", p.stats["finished"])
    if good:
        c.sample(good[0].src)
        c.sample(str(good[0].events))
