"""C21: rule violations planted at random places of valid programs are rejected, their correct twins accepted."""
import random, re
import diff, gen, illformed, lang

CONTROL = re.compile(r"\b(return|break|continue|defer)\b")


def sites(node, path, role, parent, out):
    """All places where an expression stands: (path, kind of the surrounding construct)."""
    k = node[0]
    if role == "stmt":
        if k == "expr":
            if node[1][0] == "func":
                sites(node[1], path + (1,), "func", "func", out)
            else:
                sites(node[1], path + (1,), "expr", "statement", out)
        elif k == "decl":
            for i, (_, init) in enumerate(node[2]):
                if init is not None:
                    sites(init, path + (2, i, 1), "expr", "initialiser", out)
        elif k == "while":
            sites(node[1], path + (1,), "expr", "while", out)
            sites(node[2], path + (2,), "block", "while", out)
        elif k == "for":
            if node[1]:
                sites(node[1], path + (1,), "stmt", "for", out)
            for i in (2, 3):
                if node[i]:
                    sites(node[i], path + (i,), "expr", "for-header", out)
            sites(node[4], path + (4,), "block", "for", out)
        elif k == "foreach":
            sites(node[2], path + (2,), "expr", "foreach", out)
            sites(node[3], path + (3,), "block", "foreach", out)
        elif k == "defer":
            sites(node[1], path + (1,), "expr", "defer", out)
        elif k == "assert":
            sites(node[1], path + (1,), "expr", "assert", out)
            if node[2] is not None:
                sites(node[2], path + (2,), "expr", "assert-message", out)
        elif k == "export":
            sites(node[1], path + (1,), "stmt", parent, out)
        return
    if role == "expr" and k != "block":
        out.append((path, parent))
    if k == "func":
        sites(node[3], path + (3,), "expr" if node[4] else "block", "function", out)
    elif k == "block":
        if role == "expr":
            out.append((path, parent))
        for i, s in enumerate(node[1]):
            sites(s, path + (1, i), "stmt", "block", out)
    elif k == "if":
        sites(node[1], path + (1,), "expr", "condition", out)
        sites(node[2], path + (2,), "block", "branch", out)
        if node[3] is not None:
            sites(node[3], path + (3,), "block" if node[3][0] == "block" else "elseif", "branch", out)
    elif k in ("un",):
        sites(node[2], path + (2,), "expr", node[1], out)
    elif k == "bin":
        sites(node[2], path + (2,), "expr", node[1], out)
        sites(node[3], path + (3,), "expr", node[1], out)
    elif k in ("and", "or", "coal"):
        sites(node[1], path + (1,), "expr", k, out)
        sites(node[2], path + (2,), "expr", k, out)
    elif k == "assign":
        if node[2][0] in ("member", "tfield", "index"):
            sites(node[2][1], path + (2, 1), "expr", "target", out)
            if node[2][0] == "index":
                sites(node[2][2], path + (2, 2), "expr", "target", out)
        sites(node[3], path + (3,), "expr", "assignment", out)
    elif k in ("call", "optcall"):
        sites(node[1], path + (1,), "expr", "callee", out)
        for i, a in enumerate(node[2]):
            sites(a, path + (2, i), "expr", "argument", out)
    elif k in ("member", "optmember", "tfield", "opttfield"):
        sites(node[1], path + (1,), "expr", k, out)
    elif k in ("index", "optindex"):
        sites(node[1], path + (1,), "expr", k, out)
        sites(node[2], path + (2,), "expr", "subscript", out)
    elif k in ("tuple", "array", "set"):
        for i, a in enumerate(node[1]):
            sites(a, path + (1, i), "expr", k, out)
    elif k == "str":
        for i, a in enumerate(node[1]):
            if not isinstance(a, bytes):
                sites(a, path + (1, i), "expr", "interpolation", out)
    elif k in ("map",):
        for i, (a, b) in enumerate(node[1]):
            sites(a, path + (1, i, 0), "expr", "map-key", out)
            sites(b, path + (1, i, 1), "expr", "map-value", out)
    elif k == "record":
        for i, (_, a) in enumerate(node[1]):
            sites(a, path + (1, i, 1), "expr", "record", out)
    elif k == "return" and node[1] is not None:
        sites(node[1], path + (1,), "expr", "return", out)
    elif k == "paren":
        sites(node[1], path + (1,), "expr", "paren", out)


def get(node, path):
    for i in path:
        node = node[i]
    return node


def put(node, path, new):
    if not path:
        return new
    i = path[0]
    x = put(node[i], path[1:], new)
    y = list(node)
    y[i] = x
    return tuple(y) if isinstance(node, tuple) else y


def assigns(node):
    if isinstance(node, (tuple, list)):
        return (len(node) > 0 and node[0] == "assign") or any(assigns(x) for x in node)
    return False


def plant(a):
    """One program and the templates that are planted in it: [(rule, template, place, valid, files)]"""
    ast, seed, templates = a
    r = random.Random(seed)
    all_sites = []
    for i, s in enumerate(ast):
        sites(s, (i,), "stmt", "module", all_sites)
    kinds = {}
    for p, k in all_sites:
        kinds.setdefault(k, []).append(p)
    names = sorted(kinds)
    out = []
    for rule, t, valid, item in templates:
        pr = lang.Printer(r if r.random() < 0.2 else None)
        if item:
            nimp = next(i for i, s in enumerate(ast) if s[0] != "import")
            at = nimp if t.startswith(("import", "export import")) else r.randint(nimp, len(ast))
            new = list(ast)
            parts = t.split("\n----\n")
            new.insert(at, ("rawstmt", parts[0]))
            try:
                files = [["main", diff.text(pr.module(new))]] + [["f%d" % i, diff.text(x)] for i, x in enumerate(parts[1:])]
            except (RecursionError, AssertionError):
                continue
            out.append((rule, t, "module", valid, files))
            continue
        for _ in range(10):
            kind = r.choice(names)
            path = r.choice(kinds[kind])
            e = get(ast, path)
            if valid and ("$E" not in t) and assigns(e):
                continue  # (dropping the assignment might leave a variable uninitialised)
            if valid and "?" in t and kind == "target":
                continue  # (there is no optional access in assignment targets)
            break
        else:
            continue
        text = lang.Printer().any(e)
        if kind == "statement" and e[0] in ("if", "block") or CONTROL.search(text) or len(text) > 400 or "\n" in text:
            if valid and assigns(e):
                continue
            text = "1"
        text = "host.id(" + text + ")"
        new = put(ast, path, ("raw", "(" + t.replace("$E", text) + ")", lang.PRIMARY))
        out.append((rule, t, kind, valid, [["main", diff.text(pr.module(new))]]))
    return out


def run(c):
    c.rule = ("valid programs (random, and accepted unchanged) x every rule violation of a catalogue of %d templates and every correct "
              "twin of %d templates, each planted at random places of all kinds (operand, argument, initialiser, header, interpolation, "
              "closure, deferred expression, module level, ...); a violation must be rejected with an error inside the source, a "
              "twin accepted; distinct = (template, kind of place)"
              % (sum(len(v) for x in (illformed.BAD, illformed.BAD_ITEMS) for v in x.values()),
                 sum(len(v) for x in (illformed.GOOD, illformed.GOOD_ITEMS) for v in x.values())))
    exe = c.build("plain", "tdrv")
    k = c.scale(1, 12)
    progs, _ = diff.programs({"mixed": 100 * k, "loops": 50 * k, "closures": 50 * k, "defer": 50 * k, "consts": 50 * k}, c.seed, keep=True,
                             extra=dict(size=14))
    progs = sorted(progs, key=lambda p: len(p.src))[:len(progs) * 4 // 5]
    templates = [(rule, t, valid, item)
                 for table, valid, item in ((illformed.BAD, False, False), (illformed.GOOD, True, False), (illformed.BAD_ITEMS, False, True), (illformed.GOOD_ITEMS, True, True))
                 for rule, l in table.items() for t in l]
    r = random.Random(c.seed)
    n = 22 * k  # how often each template is planted
    todo = [[] for _ in progs]
    many = [(rule, t, valid, False) for table, valid in ((illformed.MANY_BAD, False), (illformed.MANY_GOOD, True))
            for rule, l in table.items() for t in l]
    for i in range(n):
        r.shuffle(templates)
        for t in templates + (many if i < k else []):
            todo[r.randrange(len(progs))].append(t)
    cases, info = [], {}
    for p, l in zip(progs, diff.pool_map(plant, [(p.ast, p.seed, t) for p, t in zip(progs, todo)], 1)):
        cs = {"id": p.id + "/base", "modules": [{"name": "main", "files": [["main", diff.text(p.src)]]}], "compile_only": True}
        cases.append(cs)
        info[cs["id"]] = ("base", "", "", True)
        for i, (rule, t, kind, valid, files) in enumerate(l):
            cs = {"id": "%s/%d" % (p.id, i), "modules": [{"name": "main", "files": files}], "compile_only": True}
            cases.append(cs)
            info[cs["id"]] = (rule, t, kind, valid)
    res = c.run_cases(exe, cases)
    for cs in cases:
        q = res[cs["id"]]
        if q.get("crash") is not None or not q.get("compile"):
            continue
        o = q["compile"][0]
        rule, t, kind, valid = info[cs["id"]]
        c.observe((rule, t, kind, valid))
        errors = [m for m in o["msgs"] if m[0] == 2]
        if valid:
            c.count("valid")
            if o["rc"] != "TIRO_OK" or errors or not o["has_module"]:
                c.violation("rejected-valid:%s:%s" % (rule, diff.kind(errors[0][4]) if errors else o["rc"]), "%s %r as %s: %s %s" % (rule, t, kind, o["rc"], o["msgs"][:2]), cs)
            continue
        c.count("ill_formed")
        if o["rc"] != "ERROR_BAD_SOURCE":
            c.violation("accepted:%s" % rule if o["rc"] == "TIRO_OK" else "wrong-result:%s" % rule, "%s %r as %s: result %s" % (rule, t, kind, o["rc"]), cs)
            continue
        if not errors:
            c.violation("no-message:%s" % rule, "%s %r as %s: no error message" % (rule, t, kind), cs)
        files = {f: s for f, s in cs["modules"][0]["files"]}
        for m in errors:
            lines = files.get(m[1], "").split("\n")
            if m[1] not in files or not 1 <= m[2] <= len(lines) or m[3] < 1:
                c.violation("position:%s" % rule, "%s %r: error outside the source: %s" % (rule, t, m), cs)
        if o["has_module"]:
            c.violation("module:%s" % rule, "%s %r: a module exists for a rejected program" % (rule, t), cs)
    c.sample(cases[5]["modules"][0]["files"][0][1][:1500])
