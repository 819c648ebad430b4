"""C15: textual representations."""
import random, struct
import diff, lang, zoo
from zoo import V, I, F, S, M, C, std, host, B, E, const

OPS = ["text", "repr", "reprp", "nestrepr", "print", "sb", "str", "sbapp", "assertm", "m_to_string"]
RECKEYS = ["a", "b", "k1", "_x", "long_name"]


def scalar(r):
    k = r.randrange(9)
    if k == 0:
        return r.choice([("null",), ("bool", True), ("bool", False)])
    if k == 1:
        return I(r.choice([0, 1, -1, 10 ** r.randrange(19), r.getrandbits(63), -r.getrandbits(63), lang.INT_MIN, lang.INT_MAX]))
    if k == 2:
        return F(float_(r))
    if k == 3:
        return ("sym", r.choice(["a", "sym_1", "_", "Zz9"]))
    return S(string(r))


def float_(r):
    while True:
        k = r.randrange(6)
        f = (r.random() * 10 ** r.randrange(-4, 22) if k == 0 else struct.unpack("<d", struct.pack("<Q", r.getrandbits(64)))[0] if k == 1
             else float(r.getrandbits(r.randrange(1, 64))) if k == 2 else r.randrange(1, 1000) / 10 ** r.randrange(0, 30) if k == 3
             else r.choice([5e-324, 1.7976931348623157e308, 2.2250738585072014e-308, 0.1, 1e15, 1e16, 1e17, 123456789012345680.0, 1e-5, 1e-4])
             if k == 4 else -r.random())
        if f == f and abs(f) != float("inf"):
            return f


def string(r):
    out = b""
    for _ in range(r.choice([0, 1, 2, 3, 6, 12])):
        k = r.randrange(7)
        out += (bytes([r.randrange(32, 127)]) if k < 3 else r.choice([b"\n", b"\r", b"\t", b'"', b"'", b"\\", b"$", b"\\n", b"{", b"}", b"\\\"", b"\\x41"])
                if k < 5 else r.choice("äß€😀中\u200b\u0301\ufeff\u2028é\u00a0\u00ad".encode().decode()).encode() if k == 5
                else bytes([r.choice([0, 1, 7, 8, 11, 12, 27, 31, 127])]))
    return out


def structure(r, n):
    """Statements that build one web of containers (with sharing and cycles) and log its renderings."""
    sts, pool, cont = [], [], []
    for i in range(r.randrange(1, 7)):
        name = "v%d" % i

        def el():
            return V(r.choice(pool)) if pool and r.random() < 0.45 else scalar(r)
        k = r.randrange(6)
        m = r.choice([0, 1, 1, 2, 3, 5])
        if k == 0:
            e = ("tuple", [el() for _ in range(m)])
        elif k == 1:
            e = ("array", [el() for _ in range(m)])
        elif k == 2:
            e = ("record", [(q, el()) for q in r.sample(RECKEYS, m)])
        elif k == 3:
            e = ("map", [(scalar(r), el()) for _ in range(m)])
        elif k == 4:
            e = ("set", [el() for _ in range(m)])
        else:
            e = scalar(r)
        sts.append(const(name, e))
        pool.append(name)
        cont.append((name, k, m))
    for _ in range(r.choice([0, 0, 1, 2, 4])):
        name, k, m = r.choice(cont)
        x = V(r.choice(pool)) if r.random() < 0.8 else scalar(r)
        if k == 1:
            sts.append(E(C(M(V(name), "append"), x)))
        elif k == 3:
            sts.append(E(("assign", "=", ("index", V(name), scalar(r)), x)))
        elif k == 4:
            sts.append(E(C(M(V(name), "insert"), x)))
    p = pool[-1] if r.random() < 0.7 else r.choice(pool)
    sts.append(E(host("log", I(n), std("debug_repr", V(p)), std("debug_repr", V(p), ("bool", True)),
                      std("debug_repr", ("array", [V(q) for q in pool])))))
    return B(*sts)


def program(a):
    seed, n = a
    r = random.Random(seed)
    sts = [structure(r, i) for i in range(n)]
    for i in range(10):
        v = scalar(r)
        sts.append(B(const("x", v), const("sb", std("new_string_builder")), E(C(M(V("sb"), "append"), V("x"), S(b"|"), V("x"))),
                     E(host("log", S(b"scalar%d" % i), ("str", [b"<", V("x"), b">"]), std("debug_repr", V("x")), C(M(V("sb"), "to_string")))),
                     E(std("print", V("x")))))
    p = diff.Prog()
    p.id, p.seed, p.profile, p.opts = "text-%d" % seed, seed, "text", {}
    p.ast = None
    ast = zoo.module(sts)
    p.src = lang.Printer().module(ast)
    m = lang.interpret([("main", ast)], trace=False)
    p.events, p.why = m.events, m.why
    return p


def tree(s):
    """Parses a rendering: layout and the (unspecified) order of record fields do not matter."""
    pos = [0]

    def ws():
        while pos[0] < len(s) and s[pos[0]] in " \n":
            pos[0] += 1

    def items(close):
        out = []
        while True:
            ws()
            if s.startswith(close, pos[0]):
                pos[0] += len(close)
                return out
            k = value()
            ws()
            if s[pos[0]] == ":":
                pos[0] += 1
                ws()
                if s[pos[0]] == ")":
                    out.append((k, None))
                else:
                    out.append((k, value()))
                    ws()
            else:
                out.append((None, k))
            if s[pos[0]] == ",":
                pos[0] += 1

    def value():
        ws()
        p = pos[0]
        for cyc in ("{...}", "[...]", "(...)", "map{...}", "set{...}"):
            if s.startswith(cyc, p):
                pos[0] = p + len(cyc)
                return ("cycle",)
        if s[p] == '"':
            q = p + 1
            while s[q] != '"':
                q += 2 if s[q] == "\\" else 1
            pos[0] = q + 1
            return s[p:q + 1]
        for o, cl, k in (("map{", "}", "map"), ("set{", "}", "set"), ("[", "]", "array"), ("(", ")", "tuple")):
            if s.startswith(o, p):
                pos[0] = p + len(o)
                if s.startswith(":)", pos[0]):
                    pos[0] += 2
                    return ("record",)
                l = items(cl)
                if k == "tuple" and l and l[0][0] is not None:
                    return ("record", sorted(l, key=str))
                return (k, l)
        q = p
        while q < len(s) and s[q] not in ",:)]} \n":
            q += 1
        if q == p:
            raise ValueError("unexpected text at %d in %s" % (p, s))
        pos[0] = q
        return s[p:q]
    try:
        v = value()
        ws()
        return v if pos[0] == len(s) else ("trailing text", s[pos[0]:])
    except (IndexError, ValueError) as e:
        return ("malformed", str(e))


FLOATS = """
import std; import host;
export func main() {
    const xs = [%s];
    for x in xs { host.log(x, "$x", std.debug_repr(x)); }
}
"""


def roundtrip(c, exe):
    """Numbers: the text denotes the number; strings: different strings have different renderings."""
    r = random.Random(c.seed + 7)
    cases = []
    for n in range(c.scale(20, 400)):
        xs = [scalar(r) for _ in range(120)]
        src = FLOATS % ", ".join(lang.Printer().expr(x)[0] for x in xs)
        cases.append({"id": "rt-%d" % n, "modules": [{"name": "main", "files": [["main", diff.text(src)]]}],
                      "phases": [[{"module": "main", "fn": "main"}]], "vm": {}})
    res = c.run_cases(exe, cases)
    seen = {}
    for cs in cases:
        ev = [e for e in res[cs["id"]].get("events") or [] if e[0] == "l"]
        if len(ev) != 120:
            c.violation("roundtrip:incomplete", "%s: %d of 120 values were rendered: %s" % (cs["id"], len(ev), str(res[cs["id"]])[:300]), cs)
        for _, v, t, d in ev:
            c.observe((t, d))
            if isinstance(v, list) and v[0] == "f":
                x = float.fromhex(v[1])
                if float(t) != x or float(d) != x or not ("." in d or "e" in d or "n" in d):
                    c.violation("roundtrip:float", "%r is rendered as %s and %s" % (x, t, d), v)
            elif isinstance(v, bool) or v is None:
                if t != d or t != {None: "null", True: "true", False: "false"}[v]:
                    c.violation("roundtrip:constant", "%r is rendered as %s and %s" % (v, t, d), v)
            elif isinstance(v, int):
                if t != str(v) or d != str(v):
                    c.violation("roundtrip:int", "%r is rendered as %s and %s" % (v, t, d), v)
            if isinstance(v, str) and t != v:
                c.violation("roundtrip:string", "%r becomes %r in a string" % (v, t), v)
            key = repr(v)
            if seen.setdefault(d, key) != key:
                c.violation("roundtrip:collision", "%s and %s are both rendered as %s" % (seen[d], key, d), v)


NEST = {"tuple": "(a,)", "array": "[a]", "map": "map{1: a}", "record": "(x: a)", "result": "std.success(a)", "set": "set{a}"}


def deep(c, exe):
    """Nested values: 1000 levels are rendered; far deeper nesting is known to overflow the native stack."""
    src = """import std; import host;
export func main() { var a = 1; for var i = 0; i < %d; i += 1 { a = %s; } host.log(%s); }"""
    cases = []
    for k, e in NEST.items():
        for pretty in ("", ", true"):
            cases.append({"id": "deep-%s-%d" % (k, len(pretty)), "modules": [{"name": "main", "files": [["main", src % (1000, e, "std.debug_repr(a%s)" % pretty)]]}],
                          "phases": [[{"module": "main", "fn": "main"}]], "vm": {}})
        if k in ("map", "set"):
            continue
        cases.append({"id": "far-" + k, "modules": [{"name": "main", "files": [["main", src % (400000, e, "std.type_of(std.debug_repr(a)) == std.String")]]}],
                      "phases": [[{"module": "main", "fn": "main"}]], "vm": {}})
    res = c.run_cases(exe, [x for x in cases if x["id"][:3] != "far"])
    for cs in cases:
        if cs["id"][:3] == "far":
            continue
        ev = res[cs["id"]].get("events") or []
        log = [e for e in ev if e[0] == "l"]
        k = cs["id"].split("-")[1]
        # (the brackets around the innermost value)
        want = {"tuple": "(" * 1000, "array": "[" * 1000, "map": "map{" * 1, "record": "(x: " * 1, "result": "", "set": "set{"}[k]
        if res[cs["id"]].get("crash") is None and (len(log) != 1 or not isinstance(log[0][1], str) or "1" not in log[0][1]
                                                   or cs["id"][-1] == "0" and want not in log[0][1]):
            c.violation("deep:" + k, "%s: %s" % (cs["id"], str(ev)[:300]), cs)
        c.count("deep")
    far = [x for x in cases if x["id"][:3] == "far"]
    res = c.run_cases(exe, far, alarm=60, crash=False, hang=False)
    for cs in far:
        if res[cs["id"]].get("crash") is not None:
            c.violation("stack-overflow:" + cs["id"][4:], "std.debug_repr of a value nested 400000 deep: %s" % res[cs["id"]]["sig"], cs)


def run(c):
    c.rule = ("every operation that turns values into text over %d values of all types, random webs of nested, shared and cyclic "
              "containers in compact and pretty form, random numbers and strings (control characters, escapes, multi-byte "
              "text); compared with an independent rendering, with parsing the text back and with the compact form; "
              "distinct = renderings" % len(zoo.VALUES))
    exe = c.build("plain", "tdrv")
    progs, wild = zoo.programs(zoo.combos(OPS), ("plain",), seed=c.seed)
    c.count("combinations_without_stated_outcome", len(wild))
    res = c.run_cases(exe, [diff.case(p, vm={"trace": False}) for p in progs])
    zoo.judge(c, progs, res, "values")
    progs = diff.pool_map(program, [(c.seed * 1000003 + i, 12) for i in range(c.scale(160, 4000))])
    good = [p for p in progs if p.events is not None]
    c.count("unsupported", len(progs) - len(good))
    res = c.run_cases(exe, [diff.case(p, vm={"trace": False}) for p in good])
    for p in good:
        r = res[p.id]
        if r.get("crash") is not None or r.get("timeout") or r.get("skipped"):
            continue
        ev = r.get("events") or []
        if len(ev) != len(p.events):
            c.violation("webs:events", "program %s: %d events expected, %d observed: %s" % (p.id, len(p.events), len(ev), str(r)[:400]), p.src)
            continue
        for e, g in zip(p.events, ev):
            c.observe(g)
            if e[0] == "l" and isinstance(e[1], int) and len(e) == 5:
                c.count("webs")
                c.count("with_cycles", int("..." in e[2]))
                for i, name in ((2, "compact"), (3, "pretty"), (4, "nested")):
                    if tree(e[i]) != tree(g[i]):
                        c.violation("webs:" + name, "program %s value %d: expected %s observed %s" % (p.id, e[1], e[i], g[i]), p.src)
                if tree(g[2]) != tree(g[3]):
                    c.violation("webs:layout", "compact %s pretty %s" % (g[2], g[3]), p.src)
            elif not lang.matches(e, g):
                c.violation("webs:scalar", "program %s: expected %s observed %s" % (p.id, e, g), p.src)
    roundtrip(c, exe)
    deep(c, exe)
    c.sample(good[0].src[:1500])
