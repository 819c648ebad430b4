"""Programs that run into the real heap limit: a filler grows one structure until an allocation fails, a waiting
coroutine then releases ballast, the structure is verified (every element that was stored is intact, nothing else
is), everything is dropped and an ordinary workload has to run to completion inside the same heap."""

COMMON = """
import std;
import host;
var ballast = [];
var data = null;
var n = 0;
const keep = [map{"a": 1, 2: "b", #c: (3, 4)}, set{1, 2, "x"}, "text", (1, [2, "z"]), 1.5, std.success(7), (f: 1, g: [2])];
func ballast_fill() { ballast = [std.new_buffer(%(ballast)d), std.new_buffer(%(ballast)d)]; }
export func setup() { ballast_fill(); %(init)s return 0; }
export func rescue() { host.later(0); ballast = null; return 0; }
export func fill() { %(fill)s }
export func verify() {
    var bad = 0;
    %(verify)s
    return (bad, (keep[0]["a"], keep[0][2], keep[0][#c], keep[1].contains("x"), keep[2], keep[3], keep[4], keep[5], keep[6].f, keep[6].g), keep[0].size() + keep[1].size(), n > 0);
}
export func drop() { data = null; ballast = null; return 0; }
export func work() {
    var r = 0;
    for var round = 0; round < 12; round += 1 {
        const m = map{};
        const l = [];
        for var i = 0; i < 100; i += 1 { m["k${i}"] = [i]; l.append((i, "v${i}")); }
        for (k, v) in m { r += v[0]; }
        for p in l { r += p.0; }
    }
    return r;
}
"""

FILLERS = {
    "array": ("data = [];", "while true { data.append(n * 2); n += 1; }",
              "var i = 0; for e in data { if e != i * 2 { bad += 1; } i += 1; } if i != n { if i != n + 1 { bad += 1000; } }"),
    "nested": ("data = [];", "while true { data.append([n, (n, \"s${n}\")]); n += 1; }",
               "var i = 0; for e in data { if e[0] != i || e[1].0 != i || e[1].1 != \"s${i}\" { bad += 1; } i += 1; } if i != n { bad += 1000; }"),
    "map": ("data = map{};", "while true { data[n] = n + 1; n += 1; }",
            "var i = 0; for (k, v) in data { if k != i || v != i + 1 || data[i] != i + 1 { bad += 1; } i += 1; } if i != n { if i != n + 1 { bad += 1000; } }"),
    "mapstr": ("data = map{};", "while true { data[\"k${n}\"] = (n,); n += 1; }",
               "var i = 0; for (k, v) in data { if k != \"k${i}\" || v.0 != i || !data.contains(k) { bad += 1; } i += 1; } if i != n { bad += 1000; }"),
    "set": ("data = set{};", "while true { data.insert(n); n += 1; }",
            "var i = 0; for k in data { if k != i || !data.contains(i) { bad += 1; } i += 1; } if i != n { if i != n + 1 { bad += 1000; } }"),
    "list": ("data = null;", "while true { data = (n, data); n += 1; }",
             "var p = data; var i = n; while p != null { i -= 1; if p.0 != i { bad += 1; } p = p.1; } if i != 0 { bad += 1000; }"),
    "builder": ("data = std.new_string_builder();", "while true { data.append(\"0123456789\"); n += 1; }",
                "if data.size() != n * 10 { bad += 1; }"),
    "double": ("data = \"ab\";", "while true { data = \"${data}${data}\"; n += 1; }",
               "var want = 2; for var i = 0; i < n; i += 1 { want *= 2; } if data.size() != want { bad += 1; } if data.slice_first(2).to_string() != \"ab\" || data.slice_last(3).to_string() != \"bab\" { if n > 1 { bad += 100; } }"),
    "buffers": ("data = [];", "while true { const b = std.new_buffer(5000 + n % 3 * 70000); b[0] = n % 128; b[4999] = n % 100; data.append(b); n += 1; }",
                "var i = 0; for b in data { if b[0] != i % 128 || b[4999] != i % 100 || b.size() != 5000 + i % 3 * 70000 || b[1] != 0 { bad += 1; } i += 1; } if i != n { bad += 1000; }"),
    "closures": ("data = [];", "while true { var z = n; data.append(func() { z += 1; return z; }); n += 1; }",
                 "var i = 0; for f in data { if f() != i + 1 { bad += 1; } i += 1; } if i != n { bad += 1000; }"),
    "records": ("data = null;", "while true { data = (value: n, next: data); n += 1; }",
                "var p = data; var i = n; while p != null { i -= 1; if p.value != i { bad += 1; } p = p.next; } if i != 0 { bad += 1000; }"),
    "coroutines": ("data = [];", "while true { const k = n; std.launch(func() { host.never(); data[0] = k; }); n += 1; }",
                   "if data.size() != 0 { bad += 1; }"),
    "exceptions": ("data = [];", "while true { data.append(std.catch_panic(func() { std.panic(\"e${n}\"); })); n += 1; }",
                   "var i = 0; for e in data { if e.error().message() != \"e${i}\" { bad += 1; } i += 1; } if i != n { bad += 1000; }"),
    "natives": ("data = [];", "while true { data.append(host.native(n, n % 50)); n += 1; }",
                "var i = 0; for e in data { if host.native_id(e) != i { bad += 1; } i += 1; } if i != n { bad += 1000; }"),
    "recursion": ("data = [];", "const f = { var g = null; g = func(k) { const x = [k]; data.append(x); n += 1; if k > 300 { while true { data.append([n]); n += 1; } } g(k + 1); return x; }; g; }; f(0);",
                  "if data.size() != n { if data.size() != n + 1 { bad += 1000; } }"),
}


def case(cid, kind, max_size, page, gc=None, ballast=None):
    init, fill, verify = FILLERS[kind]
    src = COMMON % {"init": init, "fill": fill, "verify": verify, "ballast": ballast or max(2 * page, 300000)}
    M = lambda f: {"module": "main", "fn": f}
    vm = {"trace": False, "page": page, "max": max_size}
    if gc:
        vm["gc"] = gc
    # A collector run is forced by every failing request already.
    return {"id": cid, "modules": [{"name": "main", "files": [["main", src]]}], "vm": vm, "max_events": 20000,
            "phases": [[M("setup")], [M("rescue"), M("fill")], [M("verify")], [M("drop")], [M("work")], [M("work")]]}


KEEP = ["t", 1, "b", ["t", 3, 4], True, "text", ["t", 1, ["a", 2, "z"]], ["f", "0x1.8p+0"], ["ok", 7], 1, ["a", 2]]
VERIFY = ["t", 0, KEEP, 6, True]
WORK = 12 * 2 * sum(range(100))
