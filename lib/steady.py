"""Single frames that run for very many iterations: one loop per way of calling, leaving, throwing and iterating. The
operand stack of the coroutine has to be as deep after every iteration as before it, so neither the memory held nor the
number of live objects may depend on the number of iterations. And: objects of one size that are dropped from among
kept ones make room for as many new objects of that size."""

HEAD = """
import std;
import host;
var count = 0;
var sink = null;
func mark(what) { host.gc(); host.log(what, host.live(), host.held()); }
func zero() = 1;
func one(a) = a;
func three(a, b, c) { const x = a; const y = c; return x + b - y; }
func thrower(a) { defer count += 0; std.panic(a); }
func cond_throw(a) { if a > 2 { std.panic("p"); } return a; }
func early(a) { for x in [1, 2, 3] { if x == a { return x; } } return 0; }
func deep(n) { if n == 0 { return 0; } return deep(n - 1) + 1; }
const record = (f: one, g: three, h: func(a) = a, n: 1);
const table = [one, three];
"""

FORMS = {
    # name: loop body, `i` is the iteration
    "direct": "sink = three(i, 1, 2);",
    "closure": "const g = func(a) = a + i; sink = g(1);",
    "bound": "const l = [1, 2]; const g = l.size; sink = g();",
    "method": "const l = [1, 2]; l.append(3); sink = l.size();",
    "method-native": "sink = \"abc\".slice(1, 1).size();",
    "member": "sink = std.abs(0 - i);",
    "field": "sink = record.f(i) + record.g(1, 2, 3) + record.h(4);",
    "index": "sink = table[0](i) + table[1](1, 2, 3);",
    "optional": "const f = null; sink = f?(i, 2); const g = one; sink = g?(i); const o = null; sink = o?.size(); const l = [1]; sink = l?.size(); sink = o?[1]; sink = l?[0];",
    "native": "sink = host.id(i); sink = host.sum(1, 2, 3);",
    "native-value": "const f = host.id; sink = f(i); sink = host.make(0, \"f\", 0, null);",
    "resumable": "sink = host.call(one, i); sink = host.call0(zero); sink = host.repeat(3, zero);",
    "resumable-value": "const f = host.call; sink = f(three, 1, 2, 3);",
    "async": "if i % 20 == 0 { sink = host.async_id(i); }",
    "suspend": "if i % 50 == 0 { sink = host.later(i); }",
    "catch": "sink = std.catch_panic(zero).value();",
    "catch-value": "const f = std.catch_panic; sink = f(zero);",
    "catch-closure": "sink = std.catch_panic(func() = i).value();",
    "catch-native": "sink = std.catch_panic(host.live);",
    "catch-panic": "if i % 10 == 0 { sink = std.catch_panic(func() = thrower(i)); }",
    "catch-native-panic": "if i % 10 == 0 { sink = std.catch_panic(func() = host.panic(\"x\")); }",
    "catch-arguments": "if i % 10 == 0 { sink = std.catch_panic(one); sink = std.catch_panic(7); }",
    "catch-in-call": "if i % 10 == 0 { sink = [1, std.catch_panic(func() = three(1, cond_throw(i), 3)).is_error(), 2]; }",
    "defer": "{ defer count += 1; defer one(i); if i % 3 == 0 { continue; } sink = i; }",
    "break": "for x in [1, 2] { if x == 1 { break; } } for var k = 0; k < 3; k += 1 { if k == 1 { break; } }",
    "break-in-call": "while true { sink = three(1, one(break), 2); }",
    "continue-in-call": "sink = three(1, if (i % 2 == 0) { continue; } else { i; }, one(2));",
    "early-return": "sink = early(2);",
    "return-in-call": "sink = (func() { return three(1, one(return i), 2); })();",
    "iterators": "for (k, v) in (map{1: 2}) { sink = k; } for c in \"ab\" { sink = c; } for x in (set{1}) { sink = x; } for x in (1, 2) { sink = x; }",
    "strings": "sink = \"a$i b ${one(i)} ${\"c${i}\"}\";",
    "collections": "sink = [i, (i, one(i)), map{i: one(2)}, set{one(3)}, (a: one(4))];",
    "temporaries": "sink = [1, three(i, [2, one(3)][1], 4)][1] + (5, one(6)).1;",
    "assignment": "var (a, b) = (i, one(i)); (a, b) = (b, a); sink = a; var t = [0]; t[one(0)] = one(i); t[0] += one(1); sink = t;",
    "types": "sink = std.type_of(i); sink = std.debug_repr([i]); sink = std.success(i).value();",
    "launch": "if i % 20 == 0 { sink = std.launch(one, i); std.dispatch(); }",
    "yield": "if i % 20 == 0 { const t = std.coroutine_token(); std.launch(func() { t.resume(); return 0; }); std.yield_coroutine(); }",
    "block": "sink = { const a = one(i); if (a % 2 == 0) { one(3); } else { three(a, 1, 2); } };",
    "logic": "sink = one(i) > 3 && one(2) == 2 || one(false); sink = one(null) ?? one(i);",
    "assert": "assert(one(true), \"m\"); assert(i >= 0);",
    "recursion": "if i % 10 == 0 { sink = deep(12); }",
    "builder": "const b = std.new_string_builder(); b.append(i, \"x\"); sink = b.to_string();",
}

MAKERS = {
    # name: expression of one object of a fixed size ('i' a running number), number of objects
    "float": ("std.sqrt(i + 0.5)", 16000),
    "tuple1": ("(i,)", 9000), "tuple2": ("(i, i)", 9000), "tuple3": ("(i, i, i)", 8000), "tuple5": ("(i, i, i, i, i)", 6000),
    "tuple9": ("(1, 2, 3, 4, 5, 6, 7, 8, i)", 5000),
    "record": ("(a: i, b: 2)", 5000), "array": ("[i]", 5000), "empty-array": ("[]", 9000), "map": ("map{i: 1}", 1500), "set": ("set{i}", 1500),
    "string": ("\"text number ${1000000 + i}\"", 6000), "slice": ("\"abcdef\".slice(1, 3)", 9000),
    "buffer40": ("std.new_buffer(40)", 6000), "buffer100": ("std.new_buffer(100)", 4000), "buffer1000": ("std.new_buffer(1000)", 900),
    "buffer9000": ("std.new_buffer(9000)", 200),
    "closure": ("(func() = i)", 5000), "result": ("std.success(i)", 8000), "builder": ("std.new_string_builder()", 6000),
    "native": ("host.native(i, 48)", 4000), "bigint": ("4611686018427387904 + i", 12000),
}


def frame_case(cid, form, points, vm):
    body = " ".join("{ %s }" % FORMS[f] for f in form.split("+"))
    src = HEAD + """
export func main(%s) {
  var i = 0;
  %s
  return i;
}
""" % (", ".join("n%d" % k for k in range(len(points))),
       "\n  ".join("for ; i < n%d; i += 1 { %s }\n  sink = null; mark(%d);" % (k, body, k) for k in range(len(points))))
    return {"id": cid, "modules": [{"name": "main", "files": [["main", src]]}], "vm": dict({"trace": False, "page": 65536}, **vm),
            "phases": [[{"module": "main", "fn": "main", "args": ["t"] + list(points)}]], "max_events": 1000, "max_rounds": 10000000}


def mixes(r, n):
    """Names of combinations of forms (the last one may leave the iteration early)."""
    calm = [f for f in FORMS if "continue" not in FORMS[f]]
    out = []
    for _ in range(n):
        out.append("+".join(r.sample(calm, r.randint(2, 6)) + [r.choice(list(FORMS))]))
    return out


def frames(c, exe, r, mixed, points, vm=None):
    cases = {}
    for f in list(FORMS) + mixes(r, mixed):
        p = points if "+" not in f else [max(1, x // 4) for x in points]
        cases["frame-" + f] = (f, p, frame_case("frame-" + f, f, p, vm or {}))
    res = c.run_cases(exe, [x for _, _, x in cases.values()], alarm=120)
    for cid, (f, p, case) in cases.items():
        judge_frame(c, f, p, res[cid], case)


def refills(c, exe, keeps, rounds, vm=None):
    cases = {}
    for m in MAKERS:
        for keep in keeps:
            cid = "refill%d-%s" % (keep, m)
            cases[cid] = (m, refill_case(cid, m, keep, rounds, vm or {}))
    res = c.run_cases(exe, [x for _, x in cases.values()], alarm=120)
    for cid, (m, case) in cases.items():
        judge_refill(c, m, res[cid], case)


def judge_frame(c, form, points, r, case):
    ev = r.get("events")
    if ev is None:
        if r.get("crash") is None and not r.get("timeout"):
            c.violation("start", "%s" % str(r)[:500], case)
        return
    marks = [e[1:] for e in ev if e[0] == "l"]
    rest = [e for e in ev if e[0] != "l"]
    if rest != [["done", 0, ["ok", points[-1]]]] or len(marks) != len(points):
        c.violation("frame-continues", "%s: %s" % (form, str(rest or ev)[:400]), case)
        return
    live, held = [m[1] for m in marks], [m[2] for m in marks]
    if max(live[1:]) > live[0] + 4:
        c.violation("frame-live", form + ": live objects after %s iterations: %s" % (points, live), case)
    if max(held[1:]) > held[0] + 3 * case["vm"]["page"]:
        c.violation("frame-held", form + ": memory held after %s iterations: %s" % (points, held), case)
    c.observe((form, live[0], held[-1]), n=len(marks))
    c.count("loop_iterations", points[-1])


def refill_case(cid, maker, keep, rounds, vm):
    expr, n = MAKERS[maker]
    src = HEAD + """
const slots = [];
func fill(first) { for var i = first; i < %(n)d; i += %(keep)d { slots[i] = %(expr)s; } }
export func main() {
  for var i = 0; i < %(n)d; i += 1 { slots.append(null); }
  for var i = 0; i < %(n)d; i += 1 { slots[i] = %(expr)s; }
  mark(0);
  for var r = 0; r < %(rounds)d; r += 1 {
    for var i = r %% %(keep)d; i < %(n)d; i += %(keep)d { slots[i] = null; }
    host.gc();
    fill(r %% %(keep)d);
    mark(r + 1);
  }
  return 0;
}
""" % {"n": n, "keep": keep, "expr": expr, "rounds": rounds}
    return {"id": cid, "modules": [{"name": "main", "files": [["main", src]]}], "vm": dict({"trace": False, "page": 65536}, **vm),
            "phases": [[{"module": "main", "fn": "main", "args": ["t"]}]], "max_events": 1000, "max_rounds": 10000000}


def judge_refill(c, maker, r, case):
    ev = r.get("events")
    if ev is None:
        if r.get("crash") is None and not r.get("timeout"):
            c.violation("start:" + maker, "%s" % str(r)[:500], case)
        return
    marks = [e[1:] for e in ev if e[0] == "l"]
    rest = [e for e in ev if e[0] != "l"]
    if rest != [["done", 0, ["ok", 0]]] or len(marks) < 2:
        c.violation("refill-continues:" + maker, "%s" % str(rest or ev)[:400], case)
        return
    live, held = [m[1] for m in marks], [m[2] for m in marks]
    if max(live) > live[0] + 6:
        c.violation("refill-live:" + maker, "live objects: %s" % live, case)
    if max(held) > held[0] + 2 * case["vm"]["page"]:
        c.violation("refill-held:" + maker, "memory held after replacing objects by as many of the same size: %s" % held, case)
    c.observe((maker, live[0], held[-1]), n=len(marks))
    c.count("refilled", len(marks) - 1)


TOUR = [
    # Every part of the standard library and of the collections, with results that do not depend on anything else.
    "log(std.abs(0 - i), std.pow(2, i), std.pow(2.5, i), std.sqrt(i + 2), std.log(i + 1.5), std.round(i / 3.0), std.ceil(i + 0.2), std.floor(i + 0.7));",
    "log(std.sin(i), std.cos(i), std.tan(i), std.asin(0.1 * i), std.acos(0.1 * i), std.atan(i));",
    "log(std.debug_repr([1, 2.5, \"a\\n\", #s, null, (1, [2]), (a: 1, b: (:)), map{1: [2]}, set{3, \"x\"}, std.success(i), std.error(#e)]));",
    "const a = [i]; a.append(a); const m = map{}; m[1] = m; log(std.debug_repr(a), std.debug_repr(m), std.debug_repr((a, m), false), std.debug_repr([a, [a]], true));",
    "const b = std.new_string_builder(); b.append(\"x\", i, 1.5, #q); b.append_byte(33); log(b.to_string(), b.size()); b.clear(); log(b.to_string());",
    "const b = std.new_buffer(20 + i); b[i] = 200 + i; log(b[i], b.size(), b[0]); log(std.to_utf8(\"gr$i\").size());",
    "const m = map{}; for var k = 0; k < 90; k += 1 { m[k * 7] = k; } for var k = 0; k < 60; k += 1 { m.remove(k * 7); } log(m.size(), m.contains(7), m.contains(70 * 7)); for (k, v) in m { log(k, v); } for k in m.keys() { log(k); } for v in m.values() { sink = v; } m.clear(); log(m.size());",
    "const s = set{1, \"a\", #b}; s.insert(i); s.remove(1); log(s.size(), s.contains(\"a\")); for x in s { log(x); }",
    "const s = \"some text $i\"; log(s.slice_first(4), s.slice_last(3), s.slice(2, 5).to_string(), s.contains(\"text\"), s.slice_first(4) == \"some\"); for ch in s { sink = ch; } log(sink);",
    "const t = (1, i, #c); log(t.size(), t.1); for x in t { log(x); } const r = (a: i, b: #x); r.a = 5; log(r.a, std.debug_repr(std.type_of(r)), std.schema_of(r) == std.schema_of((a: 1, b: 2)));",
    "const r = std.catch_panic(func() = std.panic(\"m$i\")); log(r.is_error(), r.error().message(), r.type()); log(std.catch_panic(func() = i).value());",
    "const e = std.catch_panic(func() { defer std.panic(\"second\"); std.panic(\"first\"); }).error(); log(e.message());",
    "const w = std.launch(func() { log(std.current_coroutine() != null); std.dispatch(); log(\"b\"); return 1; }); std.dispatch(); log(\"a\"); std.dispatch(); log(\"c\");",
    "const cell = [null]; std.launch(func() { cell[0] = std.coroutine_token(); log(std.yield_coroutine()); }); std.dispatch(); log(cell[0].valid(), cell[0].resume(i)); std.dispatch(); log(cell[0].valid());",
    "log(host.later(i), host.async_id(i), host.call(one, i), host.call0(zero), host.repeat(2, zero), host.sum(1, i), host.id(i)); if i == 0 { sink = host.native(i, 50); log(host.native_id(sink)); }",
    "log(std.catch_panic(func() = host.later_panic(\"lp\")).is_error(), std.catch_panic(func() = host.panic(\"p\")).is_error());",
    "log(9223372036854775807 - i, 4611686018427387904 + i, -5 % 3, 7 / 2, 2 ** 10, 1 << 40, ~i, 1.0 / 3);",
    "log(std.type_of(i) == std.Integer, std.debug_repr(std.type_of(one)), std.debug_repr(std.type_of(std.type_of(i)))); std.print(\"printed $i\", 1.25, #s);",
    "log(std.catch_panic(func() = null.x).is_error(), std.catch_panic(func() = [1][5]).is_error(), std.catch_panic(func() = 1 + \"a\").is_error(), std.catch_panic(func() = 9223372036854775807 + 1).is_error());",
    "log(deep(200));",
]


def tour_source(bodies, rounds):
    return HEAD + "const log = host.log;\n" + """
export func main() {
  for var i = 0; i < %d; i += 1 {
    %s
  }
  return 0;
}
""" % (rounds, "\n    ".join("{ %s }" % b for b in bodies))


def tour_case(cid, bodies, rounds, vm):
    return {"id": cid, "modules": [{"name": "main", "files": [["main", tour_source(bodies, rounds)]]}], "vm": dict({"trace": False}, **vm),
            "phases": [[{"module": "main", "fn": "main", "args": ["t"]}]], "max_events": 3000, "max_rounds": 100000}
