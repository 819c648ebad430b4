"""C08: arithmetic over operand grids around all representation boundaries, against exact integers and IEEE doubles."""
import math, random, struct
import diff, lang

BIN = ["+", "-", "*", "/", "%", "**", "<", "<=", ">", ">=", "==", "!="]
COMPOUND = ["+=", "-=", "*=", "/=", "%=", "**="]
SMALL_MAX = 2**62 - 1

INTS = sorted({s * v + d for v in (0, 1, 2, 3, 5, 7, 10, 46340, 3037000499, 3037000500, 2**31, 2**32, 2**53, 2**61, 2**62, 2**63 - 1)
               for s in (1, -1) for d in (-1, 0, 1)} | {63, 64, 62, 2097151, 2097152, 1000003, 4294967296, -2**63})
INTS = [i for i in INTS if lang.INT_MIN <= i <= lang.INT_MAX]
FLOATS = [0.0, -0.0, 0.5, -0.5, 1.0, -1.0, 1.5, 2.0, -2.0, 3.0, 1e-300, 5e-324, -5e-324, 2.0**53, 2.0**53 + 2, 2.0**62, 2.0**63,
          -2.0**63, 2.0**63 - 1024, 2.0**64, 1e300, 1.7976931348623157e308, -1.7976931348623157e308, math.inf, -math.inf,
          math.nan, 0.1, 1 / 3.0]

SRC = """
import std;
import host;
func attempt(f) = std.catch_panic(f);
%s
export func main(ls, rs) {
%s
}
"""


def source():
    fs, calls = [], []
    for i, o in enumerate(BIN):
        fs.append('func bin%d(ls, rs) { for a in ls { var r = []; for b in rs { r.append(attempt(func() = a %s b)); } host.log("%s", a, r); } }' % (i, o, o))
        calls.append("    bin%d(ls, rs);" % i)
    for i, o in enumerate(COMPOUND):
        fs.append('func com%d(ls, rs) { for a in ls { var r = []; for b in rs { r.append(attempt(func() { var n = a; n %s b; return n; })); } host.log("%s", a, r); } }' % (i, o, o))
        calls.append("    com%d(ls, rs);" % i)
    for i, o in enumerate(["-", "+"]):
        fs.append('func un%d(ls) { var r = []; for a in ls { r.append(attempt(func() = %s a)); } host.log("un%s", r); }' % (i, o, o))
        calls.append("    un%d(ls);" % i)
    # the same element stored back: in place updates of arrays, tuples and records
    fs.append('func place(ls, rs) { for a in ls { var r = []; for b in rs { const x = [a]; const y = (k: a); '
              'const e = attempt(func() { x[0] += b; y.k *= b; return null; }); r.append((x[0], y.k)); } host.log("place", a, r); } }')
    calls.append("    place(ls, rs);")
    return SRC % ("\n".join(fs), "\n".join(calls))


class Model(lang.Machine):
    def panic(self, msg=None):
        raise lang.Panic(None)


def expected(ml, as_, bs):
    ev = []

    def t(f):
        try:
            return ["ok", ml.ser(f())]
        except lang.Panic:
            return ["err", ["x", lang.ANY, None]]
    for o in BIN + COMPOUND:
        for a in as_:
            ev.append(["l", o, ml.ser(a), ["a"] + [t(lambda: ml.binary(o if o in BIN else o[:-1], a, b)) for b in bs]])
    ev.append(["l", "un-", ["a"] + [t(lambda: ml.x_un(("un", "-", ("lit", a)), None)) for a in as_]])
    ev.append(["l", "un+", ["a"] + [t(lambda: a) for a in as_]])
    for a in as_:
        r = ["a"]
        for b in bs:
            x, y = a, a
            try:
                x = ml.binary("+", a, b)
                y = ml.binary("*", a, b)
            except lang.Panic:
                pass
            r.append(["t", ml.ser(x), ml.ser(y)])
        ev.append(["l", "place", ml.ser(a), r])
    ev.append(["done", 0, ["ok", None]])
    return ev


def arg(v):
    if isinstance(v, float):
        return ["f", "nan" if math.isnan(v) else v.hex() if math.isfinite(v) else ("inf" if v > 0 else "-inf")]
    return v


def rint(r):
    k = r.randrange(5)
    if k == 0:
        return r.randrange(-20, 21)
    b = r.randrange(1, 64)
    v = r.getrandbits(b) if k < 3 else (1 << b) - r.randrange(0, 4)
    v = min(v, lang.INT_MAX)
    return -v if r.random() < 0.5 else v


def rfloat(r):
    k = r.randrange(4)
    if k == 0:
        return float(rint(r))
    if k == 1:
        return struct.unpack("<d", struct.pack("<Q", r.getrandbits(64)))[0]
    if k == 2:
        return float(rint(r)) + r.choice([0.5, -0.25, 1e-9])
    return r.uniform(-100, 100)


def literals(c, exe, r):
    """Numeric literals denote the written integer or the nearest double."""
    def under(t):
        return "".join(ch + ("_" if ch.isalnum() and r.random() < 0.15 else "") for ch in t)
    items = []
    for i in range(c.scale(600, 8000)):
        k = r.randrange(6)
        if k == 0:
            v = abs(rint(r))
            t = r.choice(["%d", "0x%x", "0x%X", "0o%o"]) % v
            t = t[:2] + under(t[2:]) if t[:1] == "0" and len(t) > 1 else t[:1] + under(t[1:])
        elif k == 1:
            v = abs(rint(r))
            t = bin(v)
        else:
            if k == 2:
                t = "%d.%d" % (r.randrange(10**r.randrange(1, 20)), r.randrange(10**r.randrange(1, 20)))
            elif k == 3:
                t = "%d.%0*d" % (r.randrange(100), r.randrange(1, 6), r.randrange(10))
            elif k == 4:
                t = "{:.25f}".format(abs(struct.unpack("<d", struct.pack("<Q", (r.randrange(900, 1150) << 52) | r.getrandbits(52)))[0]))
            else:
                n, m = r.getrandbits(r.randrange(1, 40)), r.getrandbits(12)
                t, v = "0x%x.%03x" % (n, m), n + m / 4096.0
            if k != 5:
                v = float(t)
                t = t[:1] + under(t[1:]) if r.random() < 0.2 else t
        items.append((t, v))
    cases = []
    for i in range(0, len(items), 100):
        src = "import std; import host; export func main() {\n" + "".join("host.log(%s);\n" % t for t, _ in items[i:i + 100]) + "}"
        cases.append({"id": "lit-%d" % i, "modules": [{"name": "main", "files": [["main", src]]}],
                      "phases": [[{"module": "main", "fn": "main"}]], "vm": {}})
    res = c.run_cases(exe, cases)
    for i, cs in zip(range(0, len(items), 100), cases):
        rows = [e[1] for e in res[cs["id"]].get("events") or [] if e[0] == "l"]
        for j, (t, v) in enumerate(items[i:i + 100]):
            got = rows[j] if j < len(rows) else "(nothing) " + str(res[cs["id"]].get("compile"))[:200]
            c.observe(("literal", str(got)))
            c.count("literals")
            if not lang.matches(["f", v] if isinstance(v, float) else v, got):
                c.violation("literal:" + type(v).__name__, "literal %s: expected %r observed %s" % (t, v, got), t)


def run(c):
    c.rule = ("all ordered pairs over a grid of boundary integers and doubles plus random operands, for every binary, "
              "compound, unary and in-place operator, with operands only known at run time; results (bit exact) and "
              "panics compared with exact integer and IEEE double arithmetic; distinct = (operator, operand, result row)")
    exe = c.build("plain", "tdrv")
    r = random.Random(c.seed * 7919)
    src = source()
    grid = INTS + FLOATS
    cases, exp = [], {}
    ml = Model(trace=False)
    ml.visit["lit"] = lambda e, env: e[1]
    sets = []
    for i in range(0, len(grid), 12):
        sets.append((grid[i:i + 12], grid))
    for i in range(c.scale(30, 500)):
        n = 12
        mk = lambda: rint(r) if r.random() < 0.65 else rfloat(r)
        sets.append(([mk() for _ in range(n)], [mk() for _ in range(40)]))
    for i, (as_, bs) in enumerate(sets):
        cid = "arith-%d" % i
        cases.append({"id": cid, "modules": [{"name": "main", "files": [["main", src]]}],
                      "phases": [[{"module": "main", "fn": "main",
                                   "args": ["t", ["a"] + [arg(x) for x in as_], ["a"] + [arg(x) for x in bs]]}]],
                      "vm": {"trace": False}})
        exp[cid] = expected(ml, as_, bs)
    res = c.run_cases(exe, cases)
    for cid, e in exp.items():
        rr = res[cid]
        if rr.get("crash") is not None or rr.get("timeout"):
            continue
        if not rr.get("events"):
            c.violation("no result", "%s: %s" % (cid, str(rr)[:400]), cid)
            continue
        got = rr["events"]
        for x, y in zip(e, got):
            n = len(x[-1]) - 1
            c.observe(str(y), n)
            if lang.matches(x, y):
                c.count("agreeing", n)
                continue
            if not isinstance(y, list) or len(x) != len(y) or x[0] != "l" or len(x[-1]) != len(y[-1]):
                c.violation("shape", "%s: expected %s observed %s" % (cid, str(x)[:300], str(y)[:300]), cid)
                break
            bs = sets[int(cid.split("-")[1])][1 if len(x) == 4 else 0]
            for b, p, q in zip(bs, x[-1][1:], y[-1][1:]):
                if not lang.matches(p, q):
                    a = y[2] if len(x) == 4 else ""
                    c.violation("result:%s:%s%s" % (x[1], type(a).__name__[0] if a != "" else "", type(b).__name__[0]),
                                "%s %s %r: expected %s observed %s" % (a, x[1], b, p, q),
                                {"operator": x[1], "a": a, "b": repr(b), "expected": str(p), "observed": q})
        if len(e) != len(got):
            c.violation("shape", "%s: %d events expected, %d observed; last %s" % (cid, len(e), len(got), str(got[-1])[:300]), cid)
    literals(c, exe, r)
    c.sample("grid of %d boundary operands: %s ..." % (len(grid), grid[:12]))
    c.sample(src)
