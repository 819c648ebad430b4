"""C28: the command line runner reports outcomes truthfully (exit status, standard output, standard error)."""
import os, random, re, shutil, subprocess, tempfile
import c20, diff, gen, illformed, lang, mutate

ADDR = re.compile(rb"@0x[0-9a-f]+")


def rewrite(n):
    """host.log(...) becomes std.print(...) of the representations, host.id(x) a local function; None: uses another native."""
    if isinstance(n, tuple):
        if n and n[0] == 'call' and n[1] == ('member', ('var', 'host'), 'log'):
            return ('call', ('member', ('var', 'std'), 'print'), [('call', ('member', ('var', 'std'), 'debug_repr'), [rewrite(a)]) for a in n[2]])
        if n and n[0] == 'call' and n[1] == ('member', ('var', 'host'), 'id'):
            return ('call', ('var', 'same'), rewrite(n[2]))
        if n[:2] == ('var', 'host') or n[:2] == ('import', ['host']):
            raise LookupError
        return tuple(rewrite(x) for x in n)
    if isinstance(n, list):
        return [rewrite(x) for x in n]
    return n


def program(a):
    """(source, expected standard output, exit status) of a generated program, by the reference interpreter."""
    seed, opts = a
    try:
        ast = [s for s in gen.Gen(seed, **opts).program() if s != ('import', ['host'])]
        ast = rewrite(ast)
    except LookupError:
        return None
    at = max([i for i, s in enumerate(ast) if s[0] == 'import'] + [-1]) + 1
    ast.insert(at, ('expr', ('func', 'same', ['x'], ('block', [('expr', ('return', ('var', 'x')))]), False)))
    ast.append(('export', ('expr', ('func', 'start', [], ('block', [('expr', ('return', ('call', ('member', ('var', 'std'), 'debug_repr'),
                                                                               [('call', ('var', 'main'), [])])))]), False))))
    m = lang.interpret([("main", ast)], entry=("main", "start"))
    if m.events is None:
        return None
    out, end = b"", None
    for e in m.events:
        if e[0] == 'p':
            out += e[1].encode("latin-1")
        elif e[0] == 'done' and e[1] == 0:
            end = e[2]
        elif e[0] != 'done':
            return None
    if end is None:
        return lang.Printer().module(ast), out, 1, b""
    if end[0] == 'ok':
        return lang.Printer().module(ast), out, 0, end[1]
    msg = end[1][1] if isinstance(end[1], list) else None
    return lang.Printer().module(ast), out, 1, msg if isinstance(msg, (str, bytes)) else b""


def norm(text):
    """The order of the fields of a record is unspecified."""
    return [bytes(sorted(l)) if b"(" in l and b": " in l else l for l in text.split(b"\n")]


def launch(a):
    exe, cwd, args, stdin = a
    try:
        p = subprocess.run([exe] + args, cwd=cwd, input=stdin, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60,
                           env={"PATH": "/usr/bin:/bin", "ASAN_OPTIONS": "detect_leaks=1:exitcode=99:allocator_may_return_null=1",
                                "UBSAN_OPTIONS": "print_stacktrace=1"})
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired:
        return None, b"", b""


def enc(x):
    return x.encode() if isinstance(x, str) else x


# name: (files {name: content}, arguments, expectation). Expectation: status, and what standard output is (bytes), or
# patterns that standard output / error must match.
OK = b'import std;\nexport func main() { std.print("hi"); return 1; }\nexport const answer = 42;\nfunc hidden() { return 2; }\n'
OUT = b"hi\nFunction returned 1\n"


def fixed():
    t = []

    def add(name, files, args, status, out=None, err=None, text=None, stdin=b""):
        t.append((name, {k: enc(v) for k, v in files.items()}, args, status, out, err, text, stdin))

    ok = {"a.tiro": OK}
    add("plain", ok, ["--call", "main", "a.tiro"], 0, OUT)
    add("plain-eq", ok, ["--call=main", "a.tiro"], 0, OUT)
    add("order", ok, ["a.tiro", "--call", "main"], 0, OUT)
    add("compile-only", ok, ["a.tiro"], 0, b"")
    add("input-option", ok, ["--input", "a.tiro", "--call", "main"], 0, OUT)
    add("missing-export", ok, ["--call", "nope", "a.tiro"], 1, b"", b"nope")
    add("hidden-export", ok, ["--call", "hidden", "a.tiro"], 1, b"", b"hidden")
    add("export-constant", ok, ["--call", "answer", "a.tiro"], 1, b"", b"not a function")
    add("empty-name", ok, ["--call=", "a.tiro"], 1, b"", b".")
    add("no-input", ok, [], 1, b"", b"input file")
    add("no-input-call", ok, ["--call", "main"], 1, b"", b"input file")
    add("unknown-option", ok, ["--nonsense", "a.tiro"], 1, b"", b"nonsense")
    add("call-without-name", ok, ["a.tiro", "--call"], 1, b"", b"call")
    add("missing-file", ok, ["missing.tiro", "--call", "main"], 1, b"", b"missing.tiro")
    add("one-missing-file", ok, ["a.tiro", "missing.tiro", "--call", "main"], 1, b"", b"missing.tiro")
    add("directory", {"d.tiro/x": b""}, ["d.tiro"], 1, b"", b"d.tiro")
    add("help", ok, ["--help"], 0, None, None, b"--call")
    add("comma", {"a,b.tiro": OK}, ["--call", "main", "a,b.tiro"], 0, OUT)
    add("comma2", {"a,b.tiro": OK, "a": b"export func main() { return 2; }", "b.tiro": b"func f() {}"}, ["--call", "main", "a,b.tiro"], 0, OUT)
    add("comma3", {"x,.tiro": OK}, ["--call", "main", "--input", "x,.tiro"], 0, OUT)
    add("space", {"a b.tiro": OK}, ["--call", "main", "a b.tiro"], 0, OUT)
    add("unicode", {"ä€.tiro": OK}, ["--call", "main", "ä€.tiro"], 0, OUT)
    add("dash", {"-a.tiro": OK}, ["--call", "main", "--", "-a.tiro"], 0, OUT)
    add("equals", {"a=b.tiro": OK}, ["--call", "main", "a=b.tiro"], 0, OUT)
    add("percent", {"%s{}.tiro": OK}, ["--call", "main", "%s{}.tiro"], 0, OUT)
    add("pipe", {}, ["--call", "main", "/dev/stdin"], 0, OUT, stdin=OK)
    add("empty-file", {"a.tiro": b""}, ["a.tiro"], 0, b"")
    add("empty-file-call", {"a.tiro": b""}, ["a.tiro", "--call", "main"], 1, b"", b"main")
    add("two-files", {"a.tiro": OK, "b.tiro": b"export func other() { return 5; }"}, ["a.tiro", "b.tiro", "--call", "other"], 0, b"Function returned 5\n")
    add("two-files-order", {"a.tiro": OK, "b.tiro": b"export func other() { return hidden(); }"}, ["b.tiro", "a.tiro", "--call", "other"], 0,
        b"Function returned 2\n")
    add("two-files-clash", {"a.tiro": OK, "b.tiro": b"func hidden() { }"}, ["a.tiro", "b.tiro"], 1, None, b"ompilation failed", b"b.tiro:")
    add("second-bad", {"a.tiro": OK, "b.tiro": b"func ( {"}, ["a.tiro", "b.tiro", "--call", "main"], 1, None, b"ompilation failed", b"b.tiro:1:")
    add("first-bad", {"a.tiro": OK, "b.tiro": b"\n\nfunc f() { return q; }"}, ["b.tiro", "a.tiro", "--call", "main"], 1, None, b"ompilation failed", b"b.tiro:3:")
    add("same-file-twice", ok, ["a.tiro", "a.tiro"], 1, None, b".")
    for d in ("cst", "ast", "ir", "bytecode"):
        add("dump-" + d, ok, ["--dump-" + d, "--call", "main", "a.tiro"], 0, None, None, b"(?s).+hi\nFunction returned 1\n$")
        add("dump-bad-" + d, {"a.tiro": b"func f() { return q; }"}, ["--dump-" + d, "--call", "f", "a.tiro"], 1, None, b"ompilation failed", b"a.tiro:1:")
    add("dump", ok, ["--dump", "--call", "main", "a.tiro"], 0, None, None, b"(?s).{400,}hi\nFunction returned 1\n$")
    add("dump-missing", ok, ["--dump", "--call", "nope", "a.tiro"], 1, None, b"nope")
    head = "import std;\n"
    for name, body, status, out in [
            ("null", "", 0, b"Function returned null\n"), ("true", "return true;", 0, b"Function returned true\n"),
            ("float", "return 0.5;", 0, b"Function returned 0.5\n"), ("string", 'return "a{}b";', 0, b"Function returned a{}b\n"),
            ("braces", 'std.print("{} %s {0}"); return "%d{{";', 0, b"{} %s {0}\nFunction returned %d{{\n"),
            ("control", 'std.print("a\\x00b\\x01\\r\\n\\t."); return "x\\x00y";', 0, b"a\x00b\x01\r\n\t.\nFunction returned x\x00y\n"),
            ("utf8", 'std.print("ä€😀"); return "é";', 0, "ä€😀\nFunction returned é\n".encode()),
            ("empty-string", 'std.print(""); std.print(); return "";', 0, b"\n\nFunction returned \n"),
            ("long", 'var s = "0123456789abcdef"; for var i = 0; i < 12; i += 1 { s = "$s$s"; } std.print(s); return s.size();', 0,
             b"0123456789abcdef" * 4096 + b"\nFunction returned 65536\n"),
            ("many", "for var i = 0; i < 20000; i += 1 { std.print(i); } return 0;", 0, b"".join(b"%d\n" % i for i in range(20000)) + b"Function returned 0\n"),
            ("launched", 'std.launch(func() { std.print("l"); }); std.print("m"); return 3;', 0, b"m\nFunction returned 3\nl\n"),
            ("yield", 'std.print("a"); std.yield_coroutine; const t = std.coroutine_token(); std.launch(func() { t.resume(); }); return std.yield_coroutine();',
             0, b"a\nFunction returned null\n"),
            ("panic", 'std.print("before"); std.panic("some {} reason");', 1, None), ("divide", "return 1 / (1 - 1);", 1, None),
            ("assert", 'assert(1 == 2, "some {} reason");', 1, None), ("never", 'std.print("x"); return std.yield_coroutine();', 1, None),
            ("deep", "return deep(1);", 1, None), ("panic-value", "std.panic(17);", 1, None),
            ("panic-launched", 'std.launch(func() { std.panic("other"); }); return 4;', 0, b"Function returned 4\n"),
            ("caught", 'return std.catch_panic(func() { std.panic("x"); }).is_error();', 0, b"Function returned true\n"),
            ("result-error", 'return std.error("bad").is_error();', 0, b"Function returned true\n"),
    ]:
        text = None
        if status:
            text = {"panic": rb"^before\nFunction panicked: .*some \{\} reason", "assert": rb"^Function panicked: .*some \{\} reason", "never": rb"^x\n$",
                    "deep": b"", "divide": b"panicked: .*[dD]ivi", "panic-value": b"panicked: .*17"}[name]
        err = {"never": b".", "deep": b"stack overflow"}.get(name)
        add("run-" + name, {"a.tiro": head + "func deep(n) { return deep(n + 1) + 1; }\nexport func main() { %s }" % body}, ["--call", "main", "a.tiro"],
            status, out, err, text)
    add("params", {"a.tiro": "export func main(a) { return 1; }"}, ["--call", "main", "a.tiro"], 1, None, None, b"^Function panicked: .")
    add("init-panics", {"a.tiro": 'import std;\nvar x = std.panic("early");\nexport func main() { return 1; }'}, ["--call", "main", "a.tiro"], 1, b"", b".")
    add("init-prints", {"a.tiro": 'import std;\nvar x = std.print("init");\nexport func main() { return 1; }'}, ["--call", "main", "a.tiro"], 0,
        b"init\nFunction returned 1\n")
    add("init-not-run", {"a.tiro": 'import std;\nvar x = std.panic("early");\nexport func main() { return 1; }'}, ["a.tiro"], 0, b"")
    add("import-missing", {"a.tiro": "import foo;\nexport func main() { return foo.x; }"}, ["--call", "main", "a.tiro"], 1, b"", b".")
    add("bad-utf8", {"a.tiro": b'export func main() { return "\xff\xfe"; }'}, ["--call", "main", "a.tiro"], 1, None, b"ompilation failed", b"a.tiro:")
    add("bom-text", {"a.tiro": b"\xff\xfee\x00"}, ["a.tiro"], 1, None, b"ompilation failed", b"a.tiro:")
    add("nul-byte", {"a.tiro": b"export func main() { return 1; }\x00"}, ["a.tiro"], 1, None, b"ompilation failed", b"a.tiro:")
    add("crlf", {"a.tiro": OK.replace(b"\n", b"\r\n")}, ["--call", "main", "a.tiro"], 0, OUT)
    add("exact-chunk", {"a.tiro": OK + b"/" * 2 + b"x" * (4096 - len(OK) - 2)}, ["--call", "main", "a.tiro"], 0, OUT)
    for n in (4095, 4097, 8192, 65536, 1 << 20):
        add("chunk-%d" % n, {"a.tiro": b"//" + b"x" * (n - 3 - len(OK)) + b"\n" + OK}, ["--call", "main", "a.tiro"], 0, OUT)
    add("warning", {"a.tiro": b"export func main() { return 1; }\nfunc f() { return 1 / 0; }"}, ["--call", "main", "a.tiro"], 0, None, None,
        rb"^WARNING .*\n(.*\n)*Function returned 1\n$")
    return t


def run(c):
    c.rule = ("the runner is started on scratch directories: fixed scenarios (argument forms, file names, unreadable and broken files, exports, results, "
              "panics, functions that never complete, output bytes), generated programs whose output and outcome the reference interpreter states, and "
              "mutated sources whose compilation outcome the library driver states; status, standard output and standard error are compared; "
              "distinct = (status, standard output, standard error) and scenario")
    plain = c.build("plain", "tdrv", "tiro_run")["tiro_run"]
    asan = c.build("asan", "tiro_run")
    top = tempfile.mkdtemp(prefix="vp28.")
    try:
        check(c, plain, asan, top)
    finally:
        shutil.rmtree(top, ignore_errors=True)


def check(c, plain, asan, top):
    n = [0]

    def place(files):
        n[0] += 1
        d = "%s/%d" % (top, n[0])
        os.mkdir(d)
        for k, v in files.items():
            os.makedirs(os.path.dirname("%s/%s" % (d, k)), exist_ok=True)
            with open("%s/%s" % (d, k), "wb") as f:
                f.write(v)
        return d

    def sanitized(key, rc, err, payload):
        if rc is None:
            c.inconclusive.append(key)
            return False
        if rc == 99 or rc < 0 or b"runtime error:" in err or b"ERROR: AddressSanitizer" in err or b"LeakSanitizer" in err:
            c.violation("crash:" + key, "the runner crashed (status %s): %s" % (rc, err[-1500:].decode("latin-1")), payload)
            return False
        return True

    # 1. fixed scenarios
    scen = fixed()
    for variant, exe in (("plain", plain), ("asan", asan)):
        jobs = [(exe, place(files), args, stdin) for _, files, args, _, _, _, _, stdin in scen]
        for (name, files, args, status, out, err, text, stdin), (rc, so, se) in zip(scen, diff.pool_map(launch, jobs, 1)):
            payload = {"scenario": name, "files": {k: v.decode("latin-1") for k, v in files.items()}, "args": args}
            if not sanitized(name, rc, se, payload):
                continue
            c.observe(("scenario", name))
            bad = []
            if rc != status:
                bad.append("status %d instead of %d" % (rc, status))
            if out is not None and so != out:
                bad.append("standard output is %r instead of %r" % (so[:200], out[:200]))
            if text is not None and not re.search(text, so):
                bad.append("standard output %r does not match %r" % (so[-200:], text))
            if err is not None and not re.search(err, se):
                bad.append("standard error %r does not match %r" % (se[:200], err))
            if status == 0 and se and name != "help":
                bad.append("unexpected text on standard error: %r" % se[:200])
            if status != 0 and not se and b"panicked" not in so:
                bad.append("no explanation")
            if bad:
                c.violation("scenario:" + name, "%s (%s): %s" % (args, variant, "; ".join(bad)), payload)

    # 2. generated programs
    k = c.scale(1, 15)
    opts = [dict(diff.PROFILES[p], natives=0, coro=0) for p in ("mixed", "panic", "defer", "closures")]
    r = random.Random(c.seed)
    base = r.randrange(1 << 40)
    progs = [p for p in diff.pool_map(program, [(base + i, opts[i % 4]) for i in range(1200 * k)], 8) if p]
    c.count("generated_programs", len(progs))
    jobs = []
    for i, (src, out, status, end) in enumerate(progs):
        jobs.append((asan if i % 6 == 0 else plain, place({"m.tiro": src.encode()}), ["--call", "start", "m.tiro"], b""))
    for (src, out, status, end), (rc, so, se) in zip(progs, diff.pool_map(launch, jobs, 4)):
        payload = {"source": src}
        if not sanitized("generated", rc, se, payload):
            continue
        c.observe((rc, ADDR.sub(b"", so), se))
        # (warnings of the compiler come first)
        body = re.sub(rb"^(WARNING [^\n]*\n)*", b"", so)
        if status == 0:
            ok = rc == 0 and norm(body) == norm(out + b"Function returned " + end.encode("latin-1") + b"\n") and not se
            c.count("completed")
        elif isinstance(end, str):
            ok = rc == 1 and norm(body[:len(out)]) == norm(out) and body[len(out):].startswith(b"Function panicked: ") and end.encode("latin-1") in body[len(out):]
            c.count("panicked")
        else:
            ok = rc == 1 and norm(body[:len(out)]) == norm(out) and (se or b"panicked" in body)
            c.count("other_failures")
        if not ok:
            c.violation("generated:%s" % status, "status %s (expected %s), standard output %r, expected %r ... %r, standard error %r" % (
                rc, status, so[-300:], out[-200:], end, se[-300:]), payload)

    # 3. sources whose compilation may fail, against the library
    srcs = [p[0] for p in progs[:60]]
    files = []
    for i in range(500 * k):
        b = c20.soup(r) if i % 3 == 0 else mutate.mutate(r, r.choice(srcs), srcs)
        files.append(b)
    cases = [{"id": "s%d" % i, "modules": [{"name": "main", "files": [["m.tiro", b.decode("latin-1")]]}], "phases": [], "compile_only": True}
             for i, b in enumerate(files)]
    res = c.run_cases(os.path.dirname(plain) + "/tdrv", cases, crash=False, hang=False)
    jobs = [(plain, place({"m.tiro": b}), ["m.tiro"], b"") for b in files]
    for i, (b, (rc, so, se)) in enumerate(zip(files, diff.pool_map(launch, jobs, 8))):
        o = res.get("s%d" % i, {})
        if "compile" not in o:
            continue
        o = o["compile"][0]
        payload = {"source": b.decode("latin-1")}
        if not sanitized("source", rc, se, payload):
            continue
        want = 0 if o["rc"] == "TIRO_OK" else 1
        text = b"".join(b"%s %s:%d:%d: %s\n" % (b"ERROR" if m[0] == 2 else b"WARNING", (m[1] or "<UNAVAILABLE>").encode("latin-1"), m[2], m[3], m[4].encode("latin-1"))
                        for m in o["msgs"])
        c.observe((rc, so, se))
        c.count("compiled" if not want else "rejected")
        if rc != want or (want and not se) or (not want and se) or (len(o["msgs"]) < 200 and so != text):
            c.violation("source:%d" % want, "status %s, library says %s; standard output %r, messages %r; standard error %r" % (
                rc, o["rc"], so[:300], text[:300], se[:200]), payload)
