"""Programs with bounded live data that produce garbage of every kind for many rounds."""
import random

HEAD = """
import std;
import host;
var data = null;
var slots = [];
var sink = null;
func mark() { host.gc(); host.log("live", host.live(), host.held()); }
func rnd(s) = (s * 1103515245 + 12345) %% 2147483648;
%(decl)s
export func setup() { %(setup)s mark(); return 0; }
export func round(n) { for var k = 0; k < n; k += 1 { %(body)s data = null; sink = null; } mark(); return 0; }
"""

KINDS = {
    # name: (declarations, setup, body)
    "array": ("", "", "data = []; for var i = 0; i < 600; i += 1 { data.append((i, k)); }"),
    "bigarray": ("", "", "data = []; for var i = 0; i < 9000; i += 1 { data.append(i); }"),
    "map": ("", "", "data = map{}; for var i = 0; i < 400; i += 1 { data[\"k${i}\"] = [i, k]; } for var i = 0; i < 400; i += 3 { data.remove(\"k${i}\"); }"),
    "set": ("", "", "data = set{}; for var i = 0; i < 700; i += 1 { data.insert(i * 7); }"),
    "strings": ("", "", "data = \"x\"; for var i = 0; i < 300; i += 1 { data = \"${data}y\"; } sink = data.slice_first(20);"),
    "doubling": ("", "", "data = \"ab\"; for var i = 0; i < 15; i += 1 { data = \"${data}${data}\"; }"),
    "builder": ("", "", "data = std.new_string_builder(); for var i = 0; i < 900; i += 1 { data.append(\"chunk ${i}\"); } sink = data.to_string();"),
    "cycles": ("", "", "for var i = 0; i < 300; i += 1 { const a = [i]; const b = (a, map{}); a.append(b); b.1[#self] = b; const r = (x: a, y: null); r.y = r; a.append(r); data = r; }"),
    "closures": ("", "", "data = []; for var i = 0; i < 300; i += 1 { var z = i; var g = null; g = func() { z += 1; return g; }; data.append(g); data.append(g()); }"),
    "panics": ("func deep(n) { defer host.id(n); if n == 0 { std.panic(\"p${n}\"); } return deep(n - 1); }", "",
               "for var i = 0; i < 60; i += 1 { data = std.catch_panic(func() = deep(12)); }"),
    "coroutines": ("func job(n) { var l = []; for var i = 0; i < 8; i += 1 { l.append([n, i]); std.yield_coroutine(); } if n % 3 == 0 { std.panic(\"job\"); } return l; }", "",
                   "data = []; for var i = 0; i < 40; i += 1 { const n = i; data.append(std.launch(func() = job(n))); } host.later(0); host.later(1); host.later(2);"),
    "abandoned": ("", "", "for var i = 0; i < 60; i += 1 { const n = [i, k]; std.launch(func() { const keep = [n, n]; defer host.id(keep); host.never(); return keep; }); } host.later(0);"),
    "tokens": ("", "", "data = []; for var i = 0; i < 40; i += 1 { std.launch(func() { data.append(std.coroutine_token()); host.never(); return 1; }); } host.later(0); for var i = 0; i < data.size(); i += 2 { data[i].resume(); } host.later(0);"),
    "natives": ("", "", "for var i = 0; i < 200; i += 1 { data = [host.native(i, i * 9), data]; }"),
    "bignatives": ("", "", "for var i = 0; i < 6; i += 1 { data = host.native(i, 60000 + i * 1000); }"),
    "iterators": ("", "", "data = map{1: 2, 3: 4, 5: 6}; for var i = 0; i < 150; i += 1 { for (a, b) in data { for c in data.keys() { sink = (a, b, c); break; } } for ch in \"hello\" { sink = ch; if i % 2 == 0 { break; } } }"),
    "resumable": ("", "", "for var i = 0; i < 40; i += 1 { const n = i; data = host.repeat(5, func() = [n, n]); sink = host.call(func(a, b) = (b, a), [i], n); }"),
    "made": ("", "", "for var i = 0; i < 100; i += 1 { data = host.make(i % 4, \"fn${i}\", 0, [i]); }"),
    "later": ("", "", "for var i = 0; i < 60; i += 1 { data = (host.later([i, k]), data); }"),
    "deep": ("func rec(n) { const v = [n]; if n == 0 { return 0; } return rec(n - 1) + v.size(); }", "", "data = rec(800);"),
    "buffers": ("", "", "for var i = 0; i < 60; i += 1 { data = std.new_buffer(100 + i * 997); }"),
    "lobs": ("", "", "for var i = 0; i < 12; i += 1 { data = std.new_buffer(200000); }"),
    "lobs2": ("", "slots = std.new_buffer(300000);", "for var i = 0; i < 12; i += 1 { data = null; sink = [i]; data = std.new_buffer(300000 + (i * 7777 + k) % 20000); }"),
    "mixed": ("var seed = 7;", "for var i = 0; i < 64; i += 1 { slots.append(null); }",
              "for var i = 0; i < 500; i += 1 { seed = rnd(seed); const at = seed % 64; seed = rnd(seed); const size = 1 + seed % 7000; slots[at] = std.new_buffer(size); if seed % 5 == 0 { slots[(at * 3) % 64] = [at, (size, \"${size}\")]; } } if k % 4 == 3 { for var i = 0; i < 64; i += 1 { slots[i] = null; } }"),
    "sizes": ("", "for var i = 0; i < 40; i += 1 { slots.append(null); }",
              "for var i = 0; i < 40; i += 1 { slots[i] = std.new_buffer(16 * (1 + (i * 7 + k * 3) % 300)); } for var i = 0; i < 40; i += 2 { slots[i] = null; } for var i = 0; i < 40; i += 1 { slots[i] = std.new_buffer(16 * (1 + (i * 5 + k) % 50)); } for var i = 0; i < 40; i += 1 { slots[i] = null; }"),
    "results": ("", "", "for var i = 0; i < 200; i += 1 { data = std.success([std.error((i, k)), data == null]); sink = (a: data, b: #sym); }"),
    "callbacks": ("", "", "for var i = 0; i < 30; i += 1 { const n = i; host.start(func() { const v = [n]; std.yield_coroutine(); return v; }); } host.later(0); host.later(0);"),
    "repr": ("", "", "data = [1, (2, \"x\"), map{3: #s}, 1.5]; for var i = 0; i < 40; i += 1 { sink = std.debug_repr(data); }"),
}


def source(kind):
    decl, setup, body = KINDS[kind]
    return HEAD % {"decl": decl, "setup": setup, "body": body}


def case(cid, kind, rounds, each, vm):
    M = lambda f, *a: {"module": "main", "fn": f, "args": ["t"] + list(a)}
    return {"id": cid, "modules": [{"name": "main", "files": [["main", source(kind)]]}],
            "vm": dict({"trace": False, "page": 65536}, **vm), "max_events": 100000,
            "phases": [[M("setup")]] + [[M("round", each)] for _ in range(rounds)]}
