"""C24: every module of the compiler is accepted by the loader, every malformed module is rejected before it runs."""
import collections
import diff

# Programs without loops and recursion (a corrupted register cannot make them run forever), which together use every
# instruction. They are executed after corruptions that keep all references of the right kind.
RUN = {
"data": '''
const N = 12;
var counter = 0;
export const exported = "text";
func add(a, b) { return a + b; }
func closure(x) { var y = x; const f = func(z) { y = y + z; return y; }; return f; }
export func main() {
    var r = (foo: 1, bar: "x");
    r.foo = 3;
    var t = (1, 2, 3);
    t.1 = 17;
    const arr = [1, 2, add(3, 4)];
    arr[1] = N;
    const m = map{"a": 1, "b": 7};
    const s = set{1, 2};
    const c = closure(3);
    c(4);
    var text = "value ${t.1} and ${c(1)}";
    if (arr[0] < 3 && !m["a"]) { text = "z"; }
    const (p, q) = (1, 2);
    counter = p ?? q;
    const size = arr.size();
    assert(size == 3, "size");
    return "$text ${size} ${r.foo} ${t.2} ${arr[2] * 2 ** 3 % 7} ${-size} ${s.contains(1)} ${arr?.size()} ${#alpha} ${1.5} $counter";
}
''',
"panics": '''
import std;
var log = "";
func note(x) { log = "$log$x "; return x; }
func fails(x) {
    defer note("d1");
    defer { note("d2"); note(x); };
    if (x > 2) { return 10 / (x - x); }
    if (x > 1) { std.panic("two"); }
    return note(x + 1);
}
func guarded(f) {
    const r = std.catch_panic(f);
    return if (r.is_error()) { r.error().message(); } else { r.value(); };
}
export func main() {
    const a = guarded(func() { fails(1); });
    const b = guarded(func() { fails(2); });
    const c = guarded(func() { fails(3); });
    const d = guarded(func() { assert(1 == 2, "no"); });
    const e = guarded(func() { defer { defer note("in"); note("out"); }; assert(false); });
    return "$a $b $c $d $e / $log";
}
''',
"closures": '''
const table = map{"k": (1, (2, 3))};
var state = 1;
func outer(a, b) {
    var x = a;
    func inner(c) {
        var y = c;
        func innermost(d) { x = x + d; y = y - d; return x * 100 + y + b; }
        return innermost;
    }
    return (inner, func() { x = x + 1; return x; });
}
func params(a, b) { a = a + 1; b = "$a$b"; return b; }
export func main() {
    const (i, bump) = outer(2, 3);
    const f = i(10);
    bump();
    const g = i(20);
    state = f(1) + g(2) + bump();
    const (p, t) = table["k"]; const (q, r) = t;
    var u = 1; var v = 2;
    (u, v) = (v, u);
    const n = null;
    return "$state $p$q$r $u$v ${params(1, "b")} ${n?.x} ${n?.y(3)} ${n ?? "none"} ${f != g}";
}
''',
"iteration": '''
import std;
export func main() {
    const arr = [4, 5];
    var it = null;
    var out = std.new_string_builder();
    for x in arr { out.append("$x,"); }
    for (k, v) in (map{"a": 1}) { out.append("$k=$v,"); }
    for c in "xy" { out.append(c); }
    const b = std.new_buffer(3, 7);
    b[1] = 9;
    const s = (set{1, 2, 1});
    return "${out.to_string()} ${b[1]} ${s.size()} ${1 < 2} ${1 <= 2} ${2 > 1} ${2 >= 1} ${1 == 1.0} ${+3} ${!true} ${7 - 3}";
}
''',
"bits": '''
func f(a, b) { return (a | b) ^ (a & b) + (a << b) - (~a >> b); }
var x = [1, [2, "s"]];
export func main() { const t = (#a, #b, (v: 1, w: (z: 2))); x[0] = t.2.w.z; return "${x[0]} ${t.0 == #a} ${f == f} ${t.2?.v}"; }
''',
}


def module(src):
    return {"name": "main", "files": [["main", src]]}


def run(c):
    c.rule = ("programs of all generator families and %d programs that cover the instruction set are compiled; their modules must load. "
              "Copies with 1 to 3 random corruptions (operands, raw code bytes, truncation, local and parameter counts, function types, "
              "handlers, members, record schemas, exports, initialiser, name) are loaded: the verdict must be that of an independent "
              "definition of a well formed module, rejected modules must leave no trace; accepted ones whose references are of the right kind "
              "run under assertions and sanitizers; distinct = (reason for rejection) and (opcode seen)" % len(RUN))
    plain, asan, rasan = c.build("plain", "bdrv"), c.build("asan", "bdrv"), c.build("rasan", "bdrv")
    k = c.scale(1, 12)
    progs, _ = diff.programs({"mixed": 40 * k, "defer": 40 * k, "closures": 40 * k, "consts": 20 * k, "loops": 30 * k, "swaps": 20 * k,
                              "big": 10 * k, "coro": 20 * k}, c.seed + 5)
    verdicts = [{"id": "v-" + p.id, "seed": c.seed * 1000003 + i, "mutants": 60, "run": False, "module": module(diff.text(p.src))}
                for i, p in enumerate(progs)]

    def runs(n, mutants, base):
        out = []
        for name, src in RUN.items():
            # (the stored code of a loop may jump back for ever: its programs only get the verdict)
            can = name != "iteration"
            for i in range(n):
                out.append({"id": "r-%s-%d" % (name, i), "seed": base + i, "mutants": mutants, "gentle": can and i % 3 != 0, "run": can,
                            "std": "import std" in src, "module": module(src)})
        return out

    ops = collections.Counter()
    jobs = [("plain", plain, verdicts), ("plain", plain, runs(12 * k, 300, c.seed * 7919)), ("asan", asan, runs(6 * k, 80, c.seed * 104729)),
            ("rasan", rasan, runs(8 * k, 200, c.seed * 15485863))]
    for variant, exe, cases in jobs:
        res = c.run_cases(exe, cases, alarm=60)
        byid = {x["id"]: x for x in cases}
        for i, o in res.items():
            if o.get("crash") is not None or o.get("timeout") or "missing" in o:
                continue
            if not o.get("compile"):
                c.violation("not-compiled", "case %s does not compile" % i, byid[i])
                continue
            for key, what in o["bad"]:
                c.violation(key.replace(" ", "-")[:100], "case %s (%s): %s: %s" % (i, variant, key, what), byid[i])
            for q in ("tested", "rejected", "accepted", "executed", "code_bytes"):
                c.count(q, o[q])
            for reason, n in o["reasons"].items():
                c.count("rejected: " + reason, n)
                c.observe(("reason", reason), n)
            for what, n in o["runs"].items():
                c.count("run ends with: " + what, n)
            c.observe(("module", i, o["expected"]))
            ops.update(o["ops"])
            for op in o["ops"]:
                c.observe(("op", op))
    c.count("opcodes_covered", len(ops))
    c.sample({"opcodes": dict(ops)})
