"""C22: the same program under many layouts, redundant parentheses, renamed variables, split files."""
import random, re
import diff, gen, lang


def rename_map(r, src):
    pool = ["_", "__x", "aVeryLongIdentifierNameThatGoesOnAndOn", "Map", "sets", "iff", "func_", "nullable", "returns",
            "défaut", "größe", "x1", "forx", "e", "o", "b0", "_1", "trueish", "inn"]
    names = sorted(set(re.findall(r"\b[vpzg]\d+\b", src)))
    r.shuffle(names)
    m = {}
    for i, n in enumerate(names):
        base = pool[i % len(pool)]
        m[n] = base if i < len(pool) else "%s%d_" % (base, i)
    return m


def variants(a):
    ast, seed, k = a
    r = random.Random(seed * 31 + k)
    plain = lang.Printer().module(ast)
    files = None
    if k == 0:
        src = lang.Printer(r, 0.15).module(ast)
    elif k == 1:
        src = lang.Printer(None, 0.0, rename_map(r, plain)).module(ast)
    elif k == 2:
        src = lang.Printer(r, 0.6, rename_map(r, plain)).module(ast)
    elif k == 3:
        # function declarations live in a second file of the same module
        imports = [s for s in ast if s[0] == "import"]
        funcs = [s for s in ast if s[0] == "expr"]
        rest = [s for s in ast if s[0] not in ("import", "expr")]
        p = lang.Printer(r, 0.05)
        # (variables must be declared before they are used, functions need not)
        files = [["a", diff.text(p.module(imports + rest))], ["b", diff.text(p.module(imports + funcs))]]
        src = files[0][1] + "\n// ---- next file\n" + files[1][1]
    else:
        src = plain.replace("\n", r.choice(["\r\n", "\n\n", " \n\t"])) if "\\" not in plain else plain
        src = r.choice(["", "\n", "// c", "/* x */", "  "]) + "\n" + src + r.choice(["// end", "/* end */", "\n\n"])
    return src, files


def run(c):
    c.rule = ("random programs are printed several times (whitespace, nested comments, redundant parentheses, "
              "trailing commas, other quote and escape styles, renamed variables, functions moved to another file); every "
              "print must compile and produce the event log of the reference interpreter, which works on the "
              "syntax tree and therefore fixes precedence and associativity; distinct = event logs")
    exe = c.build("plain", "tdrv")
    k = c.scale(1, 12)
    progs, skipped = diff.programs({"mixed": 160 * k, "consts": 200 * k, "loops": 40 * k}, c.seed, keep=True)
    jobs = [(p.ast, p.seed, v) for p in progs for v in range(5)]
    printed = diff.pool_map(variants, jobs)
    cases, srcs = [], [{} for _ in range(5)]
    for (ast, seed, v), p, (src, files) in zip(jobs, [p for p in progs for _ in range(5)], printed):
        srcs[v][p.id] = src
        cs = diff.case(p, "-%d" % v, src=src)
        if files:
            cs["modules"][0]["files"] = files
        cases.append(cs)
    res = c.run_cases(exe, cases)
    names = ["layout", "renamed", "all", "files", "newlines"]
    for v in range(5):
        ok = diff.judge(c, progs, res, suffix="-%d" % v, what=names[v], srcs=srcs[v])
        c.count("agreeing_" + names[v], ok)
    c.sample(srcs[2][progs[0].id])
