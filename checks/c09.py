"""C09: operands as literals, as local constants and as values only known at run time."""
import diff, lang, zoo

LITERALS = ["null", "true", "false", "i0", "i1", "im1", "i2", "i300", "ibig", "imax", "imin", "f0", "fm0", "fhalf", "f1", "fm15",
            "f2p53", "fbig", "s_", "sa", "sabc", "s1", "ya", "yb"]
OPS = ["neg", "pos", "not", "bitnot", "text", "if", "coal", "and", "or", "notnot", "eqself", "neself", "while",
       "str", "eqsym", "lessgr", "map2", "set2"] + \
      ["op" + o for o in ("+", "-", "*", "/", "%", "**", "<", "<=", ">", ">=", "==", "!=")] + \
      ["as" + o for o in ("+=", "-=", "*=", "/=", "%=", "**=")]
BITS = ["<<", ">>", "&", "|", "^"]


def bits_expected(o, a, b):
    if o in ("<<", ">>"):
        if not 0 <= b <= 63:
            return None
        u = a % 2**64
        r = (u << b) % 2**64 if o == "<<" else u >> b
        return r - 2**64 if r >= 2**63 else r
    return {"&": a & b, "|": a | b, "^": a ^ b}[o]


def bitwise(c, exe):
    vals = [0, 1, -1, 2, 5, 62, 63, 64, 255, 2**31, 2**62, lang.INT_MAX, -2, -64]
    lit, dyn, exp = [], [], {}
    for o in BITS:
        for a in vals:
            for b in vals:
                k = "%d %s %d" % (a, o, b)
                e = bits_expected(o, a, b)
                exp[k] = ["ok", e] if e is not None else ["err", ["x", lang.ANY, None]]
                if e is not None:
                    lit.append('host.log("%s", std.catch_panic(func() = (%d) %s (%d)));' % (k, a, o, b))
                dyn.append((o, k, 'import std; import host; export func main() { host.log("%s", std.catch_panic(func() = host.id(%d) %s host.id(%d))); }' % (k, a, o, b)))
    cases = []
    for i in range(0, len(lit), 100):
        cases.append({"id": "lit-%d" % i, "modules": [{"name": "main", "files": [["main",
                      "import std; import host; export func main() {\n%s\n}" % "\n".join(lit[i:i + 100])]]}],
                      "phases": [[{"module": "main", "fn": "main"}]], "vm": {}})
    for o, k, s in dyn:
        cases.append({"id": "dyn " + k, "modules": [{"name": "main", "files": [["main", s]]}],
                      "phases": [[{"module": "main", "fn": "main"}]], "vm": {}})
    res = c.run_cases(exe, cases)
    got = {}
    for r in res.values():
        for e in r.get("events") or []:
            if e[0] == "l" and r["id"].startswith("lit"):
                got[e[1]] = e[2]
    for k, e in exp.items():
        if e[0] != "ok":
            continue  # not folded
        g = got.get(k)
        c.observe(("lit", k, str(g)))
        if not lang.matches(e, g):
            c.violation("bits-literal:" + k.split()[1], "literal %s: expected %s observed %s" % (k, e, g), k)
    for o, k, s in dyn:
        r = res["dyn " + k]
        if r.get("crash") is not None:
            continue
        g = next((e[2] for e in r.get("events") or [] if e[0] == "l"), None)
        c.observe(("dyn", k, str(g)))
        if not lang.matches(exp[k], g):
            notimpl = any(e[0] == "run_error" and "not implemented yet" in str(e) for e in r.get("events") or [])
            c.violation("bitwise-runtime-%s:%s" % ("not-implemented" if notimpl else "wrong", o),
                        "%s with operands known at run time: expected %s observed %s" % (k, exp[k], g or r.get("events")), s)


def run(c):
    c.rule = ("every operator over all pairs of literal values (null, booleans, boundary integers and doubles, strings, symbols) "
              "in three forms: literals in the expression (the compiler may fold it), constants of the same function "
              "(value numbering), operands hidden behind a native call; plus random programs dominated by constants, constant "
              "conditions and dead code; all must give the outcome of the reference interpreter; distinct = outcomes")
    exe = c.build("plain", "tdrv")
    progs, wild = zoo.programs(zoo.combos(OPS, LITERALS), ("opaque", "literal", "local"), seed=c.seed)
    c.count("combinations_without_stated_outcome", len(wild))
    res = c.run_cases(exe, [diff.case(p, vm={"trace": False}) for p in progs])
    zoo.judge(c, progs, res, "constants")
    bitwise(c, exe)
    k = c.scale(1, 20)
    progs, skipped = diff.programs({"consts": 400 * k, "mixed": 100 * k}, c.seed + 17)
    c.count("skipped_programs", skipped)
    res = c.run_cases(exe, [diff.case(p) for p in progs])
    c.count("agreeing", diff.judge(c, progs, res))
    c.sample(progs[0].src)
