"""C17: native functions (synchronous, asynchronous, resumable) and their frames."""
import random
import diff, lang, natgen


class P:
    pass


def one(a):
    seed, opts, lifo = a
    p = P()
    p.id, p.seed, p.opts, p.lifo = "n-%d" % seed, seed, opts, lifo
    ast = natgen.Nat(seed, **opts).program()
    m = lang.interpret([("main", ast)], lifo=lifo, max_steps=30000)
    p.events, p.why = m.events, m.why
    p.src = lang.Printer().module(ast)
    return p


def run(c):
    c.rule = ("random call nestings between script functions and native functions of every kind (immediate, deferred and "
              "scripted state machines with locals, nested invocations and misuse); the host-side log of states, arguments, "
              "closures, locals and results is compared with a model of the protocol; distinct = event logs")
    exe = c.build("asan" if c.thorough else "plain", "tdrv")
    n = c.scale(1500, 25000)
    jobs = []
    for i in range(n):
        r = random.Random("%s/%d" % (c.seed, i))
        jobs.append((r.randrange(1 << 40), dict(depth=r.choice([2, 3, 4, 5]), waits=r.random() < .8), r.choice([0, 1, 2])))
    progs = diff.pool_map(one, jobs)
    good = [p for p in progs if p.events is not None]
    c.count("skipped_programs", len(progs) - len(good))
    for suffix, vm, sel in (("", {"trace": True}, good), ("-gc", {"trace": True, "gc": [2, 4, c.seed]}, good[::3])):
        res = c.run_cases(exe, [diff.case(p, suffix, vm=vm, order=p.lifo) for p in sel])
        c.count("agreeing" + suffix, diff.judge(c, sel, res, suffix=suffix, what="protocol"))
    c.count("native_log_events", sum(1 for p in good for e in p.events if e[0] == "n"))
    if good:
        c.sample(good[0].src)
        c.sample(str(good[0].events))
