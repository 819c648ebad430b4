"""C20: the compiler is total."""
import random, re
import deep, diff, mutate

WORDS = ["a", "b", "f", "std", "x1", "main", "_"]


def grammar(r, d):
    """A syntactically plausible but semantically arbitrary expression or statement."""
    if d <= 0:
        return r.choice(["1", "a", "b", "null", "true", "1.5", '"s"', '"x$a"', "#y", "f", "std.print", "()", "[]", "map{}", "set{}", "(:)", "9223372036854775807",
                         "return", "break", "continue", "return a", "main", "-1", "\"${b}\""])
    e = lambda: grammar(r, d - 1 - (r.random() < 0.3))
    k = r.randrange(38)
    if k < 8:
        return "%s %s %s" % (e(), r.choice(["+", "-", "*", "/", "%", "**", "==", "!=", "<", ">", "<=", ">=", "&&", "||", "??", "&", "|", "^", "<<", ">>"]), e())
    if k < 11:
        return "(%s)" % e()
    if k == 11:
        return "%s%s" % (r.choice("-+!~"), e())
    if k == 12:
        return "%s %s %s" % (r.choice(["a", "b", "a.x", "a[1]", "a?.x", "a?[0]", "(a, b)", "a.0", e()]), r.choice(["=", "+=", "-=", "*=", "/=", "%=", "**="]), e())
    if k == 13:
        return "%s(%s)" % (r.choice(["f", "a", e()]), ", ".join(e() for _ in range(r.randrange(3))))
    if k == 14:
        return "%s%s%s" % (e(), r.choice([".", "?."]), r.choice(["x", "0", "size", "append", "1"]))
    if k == 15:
        return "%s%s%s]" % (e(), r.choice(["[", "?["]), e())
    if k == 16:
        return "if %s { %s } else { %s }" % (e(), stmts(r, d - 1), stmts(r, d - 1))
    if k == 17:
        return "if %s { %s }" % (e(), stmts(r, d - 1))
    if k == 18:
        return "{ %s }" % stmts(r, d - 1)
    if k == 19:
        return "func(%s) { %s }" % (", ".join(r.sample(WORDS, r.randrange(3))), stmts(r, d - 1))
    if k == 20:
        return "func(a) = %s" % e()
    if k == 21:
        return "[%s]" % ", ".join(e() for _ in range(r.randrange(4)))
    if k == 22:
        return "map{%s}" % ", ".join("%s: %s" % (e(), e()) for _ in range(r.randrange(3)))
    if k == 23:
        return "set{%s}" % ", ".join(e() for _ in range(r.randrange(3)))
    if k == 24:
        return "(%s: %s)" % (r.choice(WORDS), e())
    if k == 25:
        return "(%s,)" % e()
    if k == 26:
        return "return %s" % e()
    if k == 27:
        return '"%s${%s}"' % (r.choice(["", "x"]), e())
    if k == 28:
        return "%s ?? %s" % (e(), e())
    if k == 29:
        return "%s?(%s)" % (e(), e())
    return e()


def stmts(r, d):
    out = []
    for _ in range(r.choice([0, 1, 1, 2, 3])):
        k = r.randrange(14)
        e = lambda: grammar(r, max(0, d - 1))
        if k == 0:
            out.append("var %s = %s;" % (r.choice(WORDS), e()))
        elif k == 1:
            out.append("const (%s, %s) = %s;" % (r.choice(WORDS), r.choice(WORDS), e()))
        elif k == 2:
            out.append("while %s { %s }" % (e(), stmts(r, d - 1)))
        elif k == 3:
            out.append("for var i = %s; %s; %s { %s }" % (e(), r.choice(["", e()]), r.choice(["", e()]), stmts(r, d - 1)))
        elif k == 4:
            out.append("for %s in %s { %s }" % (r.choice(["x", "(x, y)", "_"]), e(), stmts(r, d - 1)))
        elif k == 5:
            out.append("defer %s;" % e())
        elif k == 6:
            out.append("assert(%s%s);" % (e(), r.choice(["", ", " + e()])))
        elif k == 7:
            out.append("func %s(a, b) { %s }" % (r.choice(WORDS), stmts(r, d - 1)))
        elif k == 8:
            out.append("var %s;" % r.choice(WORDS))
        else:
            out.append("%s;" % e())
    return " ".join(out)


def soup(r):
    items = ["import std;"]
    for _ in range(r.randrange(1, 4)):
        k = r.randrange(5)
        ex = r.choice(["", "", "export "])
        if k == 0:
            items.append("%svar %s = %s;" % (ex, r.choice(WORDS), grammar(r, 2)))
        elif k == 1:
            items.append("%sconst %s = %s;" % (ex, r.choice(WORDS), grammar(r, 2)))
        else:
            items.append("%sfunc %s(%s) { %s }" % (ex, r.choice(["main", "f", "g", "a"]), r.choice(["", "a", "a, b"]), stmts(r, r.randrange(2, 6))))
    r.shuffle(items)
    return "\n".join(items).encode()


def hostile(a):
    seed, srcs, n = a
    r = random.Random(seed)
    out = []
    for _ in range(n):
        k = r.random()
        b = soup(r) if k < 0.45 else mutate.mutate(r, soup(r).decode(), srcs) if k < 0.55 else \
            mutate.nest(r, r.choice([1, 3, 10, 40, 100])) if k < 0.58 else mutate.mutate(r, r.choice(srcs), srcs)
        out.append(b.decode("latin-1"))
    return out


def inside(src, line, col):
    """src is latin-1 text (one character per byte)."""
    lines = src.split("\n")
    return 1 <= line <= len(lines) and 1 <= col <= len(lines[line - 1]) + 2


DEFER = re.compile(r"defer\b.*\b(break|continue)\b", re.S)
FIXED = ["+", "a \xff", "import std; /* \xc3", "func f(x) { assert(x, return); }", "func f(x) { const r = x?(return); }", "func f(a) { while return a?.b { } }",
         "func f(p) { return p(1) + { while p(2) { { defer break; } } 1; }; }", "", "\x00", "\xef\xbb\xbf", "import", "export func f() = 1 +", '"', '"${', "'$", "/*"]


def judge(c, cs, q):
    spec = cs["modules"][0]
    if q.get("crash") is not None or q.get("timeout") or q.get("skipped") or q.get("missing"):
        return
    o = (q.get("compile") or [None])[0]
    if not o:
        c.violation("no-result", "%s: %s" % (cs["id"], str(q)[:300]), cs)
        return
    rc, msgs = o["rc"], o["msgs"]
    c.observe((rc, [m[4] for m in msgs]))
    errors = [m for m in msgs if m[0] == 2]
    c.count("rc_" + rc)
    files = dict(spec["files"])
    for m in msgs:
        if m[0] == 1 and m[1:4] == ["", 0, 0]:
            c.count("warnings_without_position")
        elif m[1] not in files:
            c.violation("message-file", "%s: message names the file %r: %s" % (cs["id"], m[1], m), cs)
        elif not inside(files[m[1]], m[2], m[3]):
            c.violation("message-position", "%s: position %d:%d is outside of the file: %s" % (cs["id"], m[2], m[3], m[4]), cs)
        if not m[4]:
            c.violation("message-empty", "%s: %s" % (cs["id"], m), cs)
    if o.get("add_file"):
        c.violation("add-file", "%s: %s" % (cs["id"], o["add_file"]), cs)
    if rc == "TIRO_OK":
        if errors:
            c.violation("success-with-errors", "%s: %s" % (cs["id"], errors[:2]), cs)
        if not o["has_module"]:
            c.violation("success-without-module", "%s" % cs["id"], cs)
        if q.get("load") != ["TIRO_OK"]:
            c.violation("module-not-loadable", "%s: %s %s" % (cs["id"], q.get("load"), q.get("vm_new")), cs)
    elif rc == "ERROR_BAD_SOURCE":
        if not errors:
            c.violation("failure-without-message", "%s: %s" % (cs["id"], msgs[:3]), cs)
        if o["has_module"]:
            c.violation("failure-with-module", cs["id"], cs)
    elif "assigned a physical location" in str(o.get("details")) and any(DEFER.search(f[1]) for f in spec["files"]):
        c.violation("deferred-loop-exit", "%s: %s %s" % (cs["id"], rc, o.get("details")), cs)
    else:
        c.violation("internal:" + diff.kind(str(o.get("details"))), "%s: %s %s" % (cs["id"], rc, o.get("details")), cs)


def nested(c, plain):
    """Deeply nested sources: up to a depth of 150 to 300 everything must be handled; beyond that the stack of the compiler is known to overflow."""
    def case(k, f, d):
        return {"id": "nested-%s-%d" % (k, d), "modules": [{"name": "main", "files": [["main", f(d)]], "probe": True, "attach": []}], "phases": []}
    good = [case(k, f, d) for k, f in deep.DEEP.items() for d in ([4, 9] if k == "defers" else [30, 150])]
    good += [case(k, f, d) for k, f in deep.OPEN.items() for d in (1, 30, 130, 300)]
    res = c.run_cases(plain, good, alarm=30)
    for cs in good:
        judge(c, cs, res[cs["id"]])
        q = (res[cs["id"]].get("compile") or [{}])[0]
        name = cs["id"].split("-", 1)[1].rsplit("-", 1)[0]
        if name in deep.DEEP and name != "long-concat" and q and q["rc"] != "TIRO_OK":
            c.violation("nested-rejected:" + name, "%s: %s %s %s" % (cs["id"], q["rc"], q.get("details"), q["msgs"][:2]), cs)
    c.count("nested_sources", len(good))
    far = [case(k, f, 20000) for k, f in deep.DEEP.items() if k not in ("defers", "long-concat")]
    far.append(case("defers", deep.DEEP["defers"], 40))
    res = c.run_cases(plain, far, alarm=15, crash=False, hang=False)
    for cs in far:
        r, name = res[cs["id"]], cs["id"].split("-", 1)[1].rsplit("-", 1)[0]
        if r.get("crash") is not None:
            c.violation("stack-overflow:" + name, "%s: %s" % (cs["id"], r["sig"]), {"kind": name, "depth": 20000})
        elif r.get("timeout"):
            c.violation("exponential-time:" + name, "%s did not end" % cs["id"], {"kind": name})
        else:
            judge(c, cs, r)
    c.inconclusive[:] = [i for i in c.inconclusive if not str(i).startswith("nested-defers-40")]


def run(c):
    c.rule = ("grammar-based random sources without regard to static rules, token, byte and line mutations and splices of valid "
              "programs, nested constructs and junk (invalid UTF-8, zero bytes), single and two-file modules; plain build (many) and "
              "ASAN+UBSAN build (fewer); every outcome must be success with a loadable module, or bad source "
              "with at least one error message whose position lies in the named file; distinct = (code, messages)")
    plain = c.build("plain", "tdrv")
    asan = c.build("asan", "tdrv")
    nested(c, plain)
    progs, _ = diff.programs({"mixed": 60, "defer": 30, "closures": 30, "consts": 30, "natives": 20}, c.seed)
    srcs = [p.src for p in progs if len(p.src) < 7000]
    for exe, name, n in ((plain, "plain", c.scale(220, 4000)), (asan, "asan", c.scale(40, 800))):
        cases = []
        for j, l in enumerate(diff.pool_map(hostile, [(c.seed * 131 + j + (7 << 20) * (name == "asan"), srcs[j % 7::7], 60) for j in range(n)], 1)):
            for i, s in enumerate(l):
                files = [["main", s]]
                if i % 16 == 0:
                    files = [["first", l[i - 1]], ["second", s]]
                cases.append({"id": "%s-%d-%d" % (name, j, i), "modules": [{"name": "main", "files": files, "probe": i % 4 == 0, "attach": [1, 2, 3, 4] if i % 8 == 0 and len(s) < 3000 else []}],
                              "phases": []})
        for i, f in enumerate(FIXED):
            cases.append({"id": "%s-fixed-%d" % (name, i), "modules": [{"name": "main", "files": [["main", f]], "probe": True, "attach": [1, 2, 3, 4] if i % 2 else []}], "phases": []})
        res = c.run_cases(exe, cases, alarm=30)
        for cs in cases:
            judge(c, cs, res[cs["id"]])
        c.count("sources_" + name, len(cases))
    c.sample(soup(random.Random(c.seed)).decode())
    c.sample(hostile((c.seed, srcs[:5], 3))[1][:800])
