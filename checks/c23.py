"""C23: compilation is deterministic and free of side effects."""
import random
import re
import c20, diff, mutate, runner

ADDR = re.compile(r"@0x[0-9a-f]+")  # (the driver's rendering of values without serialisation)
ALL = [1, 2, 3, 4]
NAMES = {1: "cst", 2: "ast", 3: "ir", 4: "bytecode"}
# (attachments, message callback)
OPTIONS = [(ALL, True), (ALL, True), ([4], True), ([], True), ([1, 3], True), (ALL, False), ([2], True), ([], False)]


def sources(a):
    seed, srcs, n = a
    r = random.Random(seed)
    out = []
    for i in range(n):
        k = i % 6
        b = c20.soup(r) if k < 2 else mutate.mutate(r, r.choice(srcs), srcs) if k < 4 else mutate.mutate(r, c20.soup(r).decode(), srcs)
        out.append(b.decode("latin-1"))
    return out


def case(cid, files, attach, cb, phases):
    return {"id": cid, "modules": [{"name": "main", "files": files, "attach": attach, "probe": True, "nocb": not cb}],
            "phases": phases, "vm": {"trace": True}, "max_rounds": 3000, "max_events": 3000}


def stage(o, attach, c, cs):
    """Each attachment is available exactly when it was requested and its stage was reached."""
    ok = o["rc"] == "TIRO_OK"
    for a, n in NAMES.items():
        v = o["attach"].get(n, o["attach"].get(n.upper()))
        have = isinstance(v, str)
        want = a in attach and (ok or a in (1, 2))
        if have != want:
            c.violation("attachment:%s:%s" % (n, "missing" if want else "unexpected"), "%s: requested %s, result %s, attachment %s is %s"
                        % (cs["id"], attach, o["rc"], n, "available" if have else v), cs)


def run(c):
    c.rule = ("valid programs and hostile sources (single and multi-file) are each compiled %d times: in separate processes (address layouts), after "
              "different other compilations, with different sets of attachments and with or without message callback; "
              "result, messages, every attachment and the behaviour of the module must agree; attachments must exist exactly when "
              "their stage was reached; distinct = (result, messages, disassembly)" % len(OPTIONS))
    exe = c.build("plain", "tdrv")
    k = c.scale(1, 12)
    progs, _ = diff.programs({"mixed": 60 * k, "defer": 60 * k, "closures": 50 * k, "consts": 30 * k, "loops": 40 * k, "swaps": 40 * k, "big": 15 * k,
                              "coro": 20 * k, "natives": 25 * k}, c.seed)
    progs = sorted(progs, key=lambda p: len(p.src))[:len(progs) * 3 // 5]  # (the dump of the syntax tree needs quadratic time)
    c.count("longest_program", len(progs[-1].src))
    items = [("p-" + p.id, [["main", diff.text(p.src)]], [[{"module": "main", "fn": "main"}]]) for p in progs]
    srcs = [p.src for p in progs[:len(progs) // 2]]
    for j, l in enumerate(diff.pool_map(sources, [(c.seed * 17 + j, srcs[j % 5::5], 24) for j in range(24 * k)], 1)):
        for i, s in enumerate(l):
            files = [["main", s]] if i % 3 else [["b", s], ["a", l[i - 1]]]
            items.append(("s-%d-%d" % (j, i), files, []))
    base = {}
    r = random.Random(c.seed)
    for v, (attach, cb) in enumerate(OPTIONS):
        cases = [case("%s/%d" % (i, v), f, attach if sum(len(t) for _, t in f) < 1500 or n % 8 == 0 else [a for a in attach if a > 2], cb, ph)
                 for n, (i, f, ph) in enumerate(items)]
        r.shuffle(cases)
        # (hangs of hostile programs are not started: they have no phases)
        res = c.run_cases(exe, cases)
        for cs in cases:
            q = res[cs["id"]]
            if q.get("crash") is not None or not q.get("compile"):
                continue
            o = q["compile"][0]
            name = cs["id"].rsplit("/", 1)[0]
            attach = cs["modules"][0]["attach"]
            stage(o, attach, c, cs)
            obs = {"rc": o["rc"], "has_module": o["has_module"], "load": q.get("load"), "events": ADDR.sub("@", str(q.get("events")))}
            if cb:
                obs["msgs"] = o["msgs"]
            for a, n in NAMES.items():
                t = o["attach"].get(n, o["attach"].get(n.upper()))
                if isinstance(t, str):
                    obs[n] = t
            ref = base.setdefault(name, {})
            c.observe((obs["rc"], str(obs.get("msgs")), obs.get("bytecode")))
            for what, val in obs.items():
                if ref.setdefault(what, val) != val:
                    c.violation("differs:" + what, "%s with attachments %s differs in %s from an earlier compilation: %s"
                                % (name, attach, what, first(ref[what], val)), cs)
    c.count("sources", len(items))
    c.count("accepted", sum(b.get("rc") == "TIRO_OK" for b in base.values()))
    c.sample(progs[0].src[:1200])


def first(a, b):
    a, b = str(a), str(b)
    i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    return "%r / %r" % (a[max(0, i - 80):i + 80], b[max(0, i - 80):i + 80])
