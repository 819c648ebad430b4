"""C27: the C++ interface (include/tiropp)."""


def cases(c, n, ops, base, **kw):
    out = []
    for i in range(n):
        cs = {"id": "w-%d" % (base + i), "seed": c.seed * 1000003 + base + i, "ops": ops}
        if i % 3 == 1:
            cs["gc"] = [1 if i % 2 else 2, 1 + i % 7, i]
        if i % 4 == 3:
            cs["fault"] = 2 + i % 5
        out.append(cs)
    return out


def run(c):
    c.rule = ("random walks over the C++ interface on two machines: making, copying, moving (also from and to invalid handles, self and across "
              "machines), casting, container access in and out of bounds, native objects with destructors, functions of all kinds that return or "
              "throw, callbacks, tokens, compilers with throwing callbacks, modules; under collections at every allocation and failing allocations; "
              "compared with a model of values, validity and ownership (every C++ object destroyed exactly once); distinct = trails of operations and outcomes")
    plan = [("asan", c.scale(300, 4000), 220), ("rasan", c.scale(300, 4000), 220), ("plain", c.scale(500, 8000), 600)]
    base = 0
    for variant, n, ops in plan:
        exe = c.build(variant, "cppdrv")
        cs = cases(c, n, ops, base)
        base += n
        res = c.run_cases(exe, cs, alarm=120)
        for x in cs:
            q = res[x["id"]]
            if q.get("crash") is not None or "trail" not in q:
                continue
            c.observe((variant, q["trail"]))
            c.count("instances", q["made"])
            c.count("injected_faults", q["faults"])
            c.count("collections", q["gcs"])
            c.count("walks_with_handle_checks" if q["checked"] else "walks_without_handle_checks")
            for k, v in q["counts"].items():
                if k[:4] in ("make", "tran", "cont"):
                    k = k.rstrip("visn0123456789")
                c.count(k, v)
            for key, detail in q["bad"]:
                c.violation(key, "%s seed %d: %s" % (variant, x["seed"], detail), dict(x, variant=variant))
        c.sample("%s: %d walks of %d steps" % (variant, n, ops))
