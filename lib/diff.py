"""Differential runs: generated programs, their expected event log (reference interpreter) and the
event log recorded from the real virtual machine."""
import json, multiprocessing as mp, random
import gen, lang

PROFILES = {
    "mixed": {},
    "panic": dict(defers=0.25, panics=0.1, never=0.15, catch=0.12),
    "defer": dict(defers=0.3, panics=0.03, never=0.2, loops=0.2, closures=0.15),
    "loops": dict(loops=0.25, swaps=0.25, never=0.1, depth=5),
    "swaps": dict(loops=0.2, swaps=0.4, params=8, never=0.05, trace=0.15, size=40),
    "closures": dict(closures=0.3, defers=0.15, loops=0.2),
    "coro": dict(coro=0.15, closures=0.15, globals_=0),
    "consts": dict(consts=0.9, panics=0.05, loose=0.1),
    "natives": dict(natives=0.3, catch=0.1, panics=0.05),
    "alloc": dict(alloc=0.25, closures=0.15, strings=True, globals_=6),
    "big": dict(size=90, depth=6, nfuncs=6, loops=0.2, defers=0.1),
}


class Prog:
    __slots__ = ("id", "seed", "profile", "src", "events", "why", "ast", "opts")


def _one(a):
    profile, seed, opts, keep = a
    p = Prog()
    p.id = "%s-%d" % (profile, seed)
    p.seed, p.profile, p.opts = seed, profile, opts
    ast = gen.Gen(seed, **opts).program()
    m = lang.interpret([("main", ast)])
    p.events, p.why = m.events, m.why
    p.src = lang.Printer().module(ast)
    p.ast = ast if keep else None
    return p


def pool_map(f, items, chunk=16):
    if len(items) < 24:
        return [f(x) for x in items]
    with mp.Pool(8) as p:
        return p.map(f, items, chunksize=chunk)


def programs(mix, seed, keep=False, extra=None):
    """mix: {profile: count}. Only programs whose behaviour the reference interpreter can state."""
    jobs = []
    for prof, n in mix.items():
        base = random.Random("%s/%s" % (seed, prof)).randrange(1 << 40)
        o = dict(PROFILES[prof])
        o.update(extra or {})
        jobs += [(prof, base + i, o, keep) for i in range(n)]
    out = pool_map(_one, jobs)
    good = [p for p in out if p.events is not None]
    return good, len(out) - len(good)


def text(src):
    """Source text for the driver (bytes as latin-1)."""
    return src.encode("utf-8").decode("latin-1")


def case(p, suffix="", src=None, vm=None, **kw):
    v = {"trace": True}
    v.update(vm or {})
    c = {"id": p.id + suffix, "modules": [{"name": "main", "files": [["main", text(src or p.src)]]}],
         "phases": [[{"module": "main", "fn": "main"}]], "vm": v}
    c.update(kw)
    return c


def untraced(e):
    """The same expectation when stack traces are switched off."""
    if isinstance(e, list):
        if len(e) == 3 and e[0] == "x":
            return ["x", untraced(e[1]), None]
        return [untraced(x) for x in e]
    return e


def difference(expected, r):
    """None, or what is wrong with the recorded run."""
    if r.get("crash") is not None:
        return "crash: " + r["sig"]
    if not r.get("compile"):
        return "no result: %s" % str(r)[:200]
    c = r["compile"][0]
    if c["rc"] != "TIRO_OK":
        return "rejected: %s %s %s" % (c["rc"], c.get("details"), c["msgs"][:2])
    if any(x != "TIRO_OK" for x in r.get("load") or ()):
        return "load failed: %s" % r["load"]
    return lang.first_difference(expected, r["events"])


def kind(d):
    """Stable classification of a difference (numbers and names removed)."""
    import re
    d = re.sub(r"\(in /.*", "", d, flags=re.S)
    d = re.sub(r"'[^']*'", "'..'", d)
    d = re.sub(r"\d+", "N", d)
    return d[:60]


def judge(check, progs, results, expect=lambda p: p.events, suffix="", what="behaviour", srcs=None):
    """Compares every recorded run with the expectation; returns the number of agreeing runs."""
    ok = 0
    for p in progs:
        r = results.get(p.id + suffix)
        if r is None or r.get("timeout") or r.get("missing") or r.get("skipped"):
            check.count("no_result")
            continue
        if r.get("crash") is not None:
            continue  # reported by run_cases
        d = difference(expect(p), r)
        check.observe(tuple(map(str, r.get("events", []))))
        check.count("events", len(r.get("events", [])))
        if d is None:
            ok += 1
            continue
        check.violation("%s:%s" % (what, kind(d)), "program %s: %s" % (p.id, d),
                        {"source": (srcs or {}).get(p.id, p.src), "difference": d, "seed": p.seed, "options": p.opts})
    return ok
