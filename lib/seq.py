"""Long random histories of container and string operations: a tiro program interprets a list of operations,
an abstract model in Python predicts every result and the periodic complete dumps."""
import random
import lang

ANY = lang.ANY
PANIC = ["err", ["x", ANY, None]]


def ok(v):
    return ["ok", v]


def case(cid, src, ops, vm=None):
    v = {"trace": False}
    v.update(vm or {})
    return {"id": cid, "modules": [{"name": "main", "files": [["main", src]]}],
            "phases": [[{"module": "main", "fn": "main", "args": ["t", ["a"] + [["t"] + o for o in ops]]}]], "vm": v,
            "max_events": 100000}


def judge(check, what, plan, res, describe=None):
    """plan: {case id: (ops, [expected outcome per op])}"""
    for cid, (ops, exp) in plan.items():
        r = res[cid]
        if r.get("crash") is not None or r.get("timeout") or r.get("missing") or r.get("skipped"):
            check.count("no_result")
            continue
        ev = r.get("events")
        if not ev:
            check.violation(what + ":no result", "%s: %s" % (cid, str(r)[:400]), {"ops": ops})
            continue
        rows = [e[1] for e in ev if e[0] == "l"]
        for i, (o, x) in enumerate(zip(ops, exp)):
            y = rows[i] if i < len(rows) else "(nothing)"
            check.observe((o[0], str(y)))
            check.count("op_" + str(o[0]))
            if not lang.matches(x, y):
                check.violation("%s:%s" % (what, o[0]), "%s step %d %s: expected %s observed %s" % (cid, i, o, str(x)[:300], str(y)[:300]),
                                {"ops": ops[:i + 1], "expected": str(x), "observed": y, "events_tail": ev[-3:]})
                break
        else:
            if not lang.matches(["done", 0, ["ok", None]], ev[-1]):
                check.violation(what + ":end", "%s ended with %s" % (cid, str(ev[-1])[:300]), {"ops": ops})


# ---------------------------------------------------------------------------------- maps and sets

MAP_SRC = """
import std;
import host;
const T1 = (1, 2);
const A1 = [1];
const F1 = func() = 1;
const KEYS = [%s];
func entries(m) { var r = []; for e in m { r.append(e); } return r; }
func pairs(m) { var r = []; for (k, v) in m { r.append(k); r.append(v); } return r; }
export func main(ops) {
    var m = map{};
    var s = set{};
    var old = m;
    var keys = m.keys();
    var values = m.values();
    for op in ops {
        const r = std.catch_panic(func() {
            const o = op.0;
            if o == "put" { m[KEYS[op.1]] = op.2; return null; }
            if o == "get" { return m[KEYS[op.1]]; }
            if o == "add" { m[KEYS[op.1]] += op.2; return null; }
            if o == "del" { return m.remove(KEYS[op.1]); }
            if o == "has" { return m.contains(KEYS[op.1]); }
            if o == "sput" { return s.insert(KEYS[op.1]); }
            if o == "sdel" { return s.remove(KEYS[op.1]); }
            if o == "shas" { return s.contains(KEYS[op.1]); }
            if o == "size" { return (m.size(), s.size()); }
            if o == "dump" { return pairs(m); }
            if o == "sdump" { return entries(s); }
            if o == "keys" { return entries(m.keys()); }
            if o == "values" { return entries(m.values()); }
            if o == "views" { return (entries(keys), entries(values)); }
            if o == "find" {
                var n = 0;
                for (k, v) in m { if k == KEYS[op.1] { return (n, v); } n += 1; }
                return n;
            }
            if o == "clear" { m.clear(); return null; }
            if o == "sclear" { s.clear(); return null; }
            if o == "fresh" {
                old = m;
                m = map{KEYS[op.1]: 1, KEYS[op.2]: 2, KEYS[op.3]: 3};
                s = set{KEYS[op.1], KEYS[op.2], KEYS[op.3]};
                keys = m.keys();
                values = m.values();
                return null;
            }
            if o == "bad" { const x = m; x.nothing = 1; return null; }
            if o == "bulk" {
                for var i = 0; i < op.1; i += 1 { m[op.2 + i] = i; s.insert(op.2 + i); }
                return null;
            }
            if o == "unbulk" {
                for var i = 0; i < op.1; i += op.3 { m.remove(op.2 + i); s.remove(op.2 + i); }
                return null;
            }
        });
        host.log(r);
    }
}
"""

# (source text, python value); equal values share their abstract key
KEYPOOL = [("null", None), ("true", True), ("false", False), ("0", 0), ("1", 1), ("-1", -1), ("2", 2), ("9007199254740993", 9007199254740993),
           ("4611686018427387904", 1 << 62), ("-4611686018427387905", -(1 << 62) - 1), ("9223372036854775807", lang.INT_MAX),
           ("1.0", 1.0), ("0.0", 0.0), ("-0.0", -0.0), ("0.5", 0.5), ("9007199254740992.0", 2.0**53), ("9223372036854775808.0", 2.0**63),
           ('"a"', b"a"), ('""', b""), ('"1"', b"1"), ('"xaby".slice(1, 1)', lang.TSlice(b"a")), ('"ab".slice(0, 0)', lang.TSlice(b"")),
           ('"ab"', b"ab"), ('"ab${1}"', b"ab1"), ("#a", lang.TSym("a")), ("#b", lang.TSym("b")), ("std.Map", lang.TType("Map"))]
OBJECTS = ["T1", "(1, 2)", "A1", "[1]", "F1", "func() = 1", "set{}", "(a: 1)", "std.print"]


def key_table(r, n_more):
    src, vals = [], []
    pool = list(KEYPOOL)
    r.shuffle(pool)
    for s, v in pool[:r.randrange(6, len(pool) + 1)]:
        src.append(s)
        vals.append(v)
    for o in r.sample(OBJECTS, r.randrange(0, len(OBJECTS))):
        src.append(o)
        v = lang.TTuple([1, 2]) if o in ("T1", "(1, 2)") else lang.TArray([1]) if o in ("A1", "[1]") else lang.Obj()
        if o in ("T1", "A1", "F1", "std.print"):
            pass
        vals.append(v)
    for i in range(n_more):
        k = r.randrange(3)
        if k == 0:
            v = r.randrange(-10**6, 10**6)
            src.append(str(v))
        elif k == 1:
            v = ("k%d" % r.randrange(1000)).encode()
            src.append('"%s"' % v.decode())
        else:
            v = r.randrange(-500, 500) / 2.0
            src.append(repr(v))
        vals.append(v)
    return src, vals


def ser(v):
    if isinstance(v, lang.Obj) and type(v) is lang.Obj:
        return ANY
    return lang.Machine.ser(None_machine, v)


class _M(lang.Machine):
    def __init__(self):
        pass


None_machine = _M()


def map_history(seed, length):
    r = random.Random(seed)
    src, vals = key_table(r, r.choice([0, 3, 40, 120]))
    hk = [lang.hkey(v) for v in vals]
    m, s = {}, {}
    oldm = m
    view = m
    ops, exp = [], []
    w = r.choice([dict(put=5, del_=4, sput=4, sdel=3), dict(put=8, del_=2, sput=6, sdel=1), dict(put=3, del_=5, sput=3, sdel=5)])
    kinds = ["put"] * w["put"] + ["del"] * w["del_"] + ["sput"] * w["sput"] + ["sdel"] * w["sdel"] + \
        ["get", "has", "shas", "size", "add", "get", "has", "find", "keys", "values", "dump", "sdump", "views", "bad"]
    rare = ["clear", "sclear", "fresh", "bulk", "unbulk"]
    for step in range(length):
        o = r.choice(rare) if r.random() < 0.03 else r.choice(kinds)
        if len(m) > 150 and o in ("dump", "sdump", "keys", "values", "views") and r.random() < 0.8:
            o = "size"
        i = r.randrange(len(vals))
        h = hk[i]
        if o == "put":
            v = r.choice([r.randrange(1000), "v%d" % step, None])
            ops.append([o, i, v])
            if h in m:
                m[h][1] = v
            else:
                m[h] = [vals[i], v]
            exp.append(ok(None))
        elif o == "get":
            ops.append([o, i])
            exp.append(ok(m[h][1] if h in m else None))
        elif o == "add":
            ops.append([o, i, 5])
            if h in m and type(m[h][1]) is int:
                m[h][1] += 5
                exp.append(ok(None))
            else:
                exp.append(PANIC)
        elif o == "del":
            ops.append([o, i])
            m.pop(h, None)
            exp.append(ok(None))
        elif o == "has":
            ops.append([o, i])
            exp.append(ok(h in m))
        elif o == "sput":
            ops.append([o, i])
            exp.append(ok(h not in s))
            s.setdefault(h, vals[i])
        elif o == "sdel":
            ops.append([o, i])
            s.pop(h, None)
            exp.append(ok(None))
        elif o == "shas":
            ops.append([o, i])
            exp.append(ok(h in s))
        elif o == "size":
            ops.append([o])
            exp.append(ok(["t", len(m), len(s)]))
        elif o == "dump":
            ops.append([o])
            exp.append(ok(["a"] + [ser(x) if j == 0 else x for e in m.values() for j, x in enumerate(e)]))
        elif o == "sdump":
            ops.append([o])
            exp.append(ok(["a"] + [ser(x) for x in s.values()]))
        elif o == "keys":
            ops.append([o])
            exp.append(ok(["a"] + [ser(e[0]) for e in m.values()]))
        elif o == "values":
            ops.append([o])
            exp.append(ok(["a"] + [e[1] for e in m.values()]))
        elif o == "views":
            ops.append([o])
            exp.append(ok(["t", ["a"] + [ser(e[0]) for e in view.values()], ["a"] + [e[1] for e in view.values()]]))
        elif o == "find":
            ops.append([o, i])
            n = list(m).index(h) if h in m else None
            exp.append(ok(len(m)) if n is None else ok(["t", n, m[h][1]]))
        elif o == "clear":
            ops.append([o])
            m.clear()
            exp.append(ok(None))
        elif o == "sclear":
            ops.append([o])
            s.clear()
            exp.append(ok(None))
        elif o == "fresh":
            js = [r.randrange(len(vals)) for _ in range(3)]
            ops.append([o] + js)
            m, s = {}, {}
            for n, j in enumerate(js):
                if hk[j] in m:
                    m[hk[j]][1] = n + 1
                else:
                    m[hk[j]] = [vals[j], n + 1]
                s.setdefault(hk[j], vals[j])
            view = m
            exp.append(ok(None))
        elif o == "bad":
            ops.append([o])
            exp.append(PANIC)
        elif o == "bulk":
            n, b = r.choice([3, 20, 130, 700]), r.choice([100000, -7, 0])
            ops.append([o, n, b])
            for j in range(n):
                k = ("n", b + j)
                if k in m:
                    m[k][1] = j
                else:
                    m[k] = [b + j, j]
                s.setdefault(k, b + j)
            exp.append(ok(None))
        elif o == "unbulk":
            n, b, st = r.choice([20, 130, 700]), r.choice([100000, -7, 0]), r.choice([1, 2, 3])
            ops.append([o, n, b, st])
            for j in range(0, n, st):
                m.pop(("n", b + j), None)
                s.pop(("n", b + j), None)
            exp.append(ok(None))
    ops.append(["dump"])
    exp.append(ok(["a"] + [ser(x) if j == 0 else x for e in m.values() for j, x in enumerate(e)]))
    ops.append(["sdump"])
    exp.append(ok(["a"] + [ser(x) for x in s.values()]))
    return MAP_SRC % ", ".join(src), ops, exp


# ---------------------------------------------------------------------------------- sequences and records

SEQ_SRC = """
import std;
import host;
export func main(ops) {
    var a = [];
    var t = ();
    var b = std.new_buffer(0);
    var r = (a: 0, b: 0, x1: 0, _k: 0, long_name: 0);
    var other = [];
    func entries(m) { var r = []; for e in m { r.append(e); } return r; }
    func state() = (a.size(), t.size(), b.size());
    for op in ops {
        const res = std.catch_panic(func() {
            const o = op.0;
            if o == "push" { a.append(op.1); return a.size(); }
            if o == "pushmany" { for var i = 0; i < op.1; i += 1 { a.append(i); } return a.size(); }
            if o == "get" { return a[op.1]; }
            if o == "set" { a[op.1] = op.2; return null; }
            if o == "add" { a[op.1] += op.2; return null; }
            if o == "clear" { a.clear(); return null; }
            if o == "dump" { return entries(a); }
            if o == "alias" { other = a; a = [op.1, op.2]; return null; }
            if o == "other" { return entries(other); }
            if o == "swap" { (a[op.1], a[op.2]) = (a[op.2], a[op.1]); return null; }
            if o == "tget" { return t[op.1]; }
            if o == "tset" { t[op.1] = op.2; return null; }
            if o == "tfields" { return (t.0, t.1, t.2); }
            if o == "tfset" { t.1 = op.1; t.0 = op.2; return null; }
            if o == "tdump" { return t; }
            if o == "tnew3" { t = (op.1, op.2, op.1); return null; }
            if o == "tnew1" { t = (op.1,); return null; }
            if o == "tnew" { t = op.1; return null; }
            if o == "destr" { var (x, y) = t; return [x, y]; }
            if o == "bnew" { b = std.new_buffer(op.1); return b.size(); }
            if o == "bget" { return b[op.1]; }
            if o == "bset" { b[op.1] = op.2; return null; }
            if o == "badd" { b[op.1] += op.2; return null; }
            if o == "bdump" { return b; }
            if o == "rget" { return (r.a, r.b, r.x1, r._k, r.long_name); }
            if o == "rset" { r.a = op.1; r.long_name = op.2; return null; }
            if o == "rset2" { r._k = op.1; r.x1 += op.2; return null; }
            if o == "rswap" { (r.a, r.b) = (r.b, r.a); return null; }
            if o == "rdump" { return r; }
            if o == "rbad" { return r.nope; }
            if o == "rbadset" { r.nope = 1; return null; }
            if o == "rcopy" { r = (a: r.b, b: r.a, x1: r.x1, _k: r._k, long_name: r.long_name); return null; }
            if o == "size" { return state(); }
            if o == "iter" { var n = 0; for e in t { n += 1; } for e in a { n += 1; } return n; }
            if o == "nest" { const n = [[a.size()], (t, [op.1])]; n[1].1[0] = op.2; n[0][0] += 1; return n; }
        });
        host.log(res);
    }
}
"""


def _ser(v):
    if isinstance(v, float):
        return ["f", v]
    if isinstance(v, tuple):
        return ["t"] + [_ser(x) for x in v]
    if isinstance(v, list):
        return ["a"] + [_ser(x) for x in v]
    return v


def _arg(v):
    if isinstance(v, float):
        return ["f", v.hex()]
    if isinstance(v, tuple):
        return ["t"] + [_arg(x) for x in v]
    if isinstance(v, list):
        return ["a"] + [_arg(x) for x in v]
    return v


def seq_history(seed, length):
    r = random.Random(seed)
    a, t, b, other = [], (), bytearray(), []
    rec = dict(a=0, b=0, x1=0, _k=0, long_name=0)
    ops, exp = [], []
    kinds = ["push"] * 6 + ["get"] * 5 + ["set"] * 5 + ["add"] * 3 + ["swap"] * 2 + ["tget", "tset"] * 3 + \
        ["bget", "bset"] * 4 + ["badd"] * 2 + ["tfields", "tfset", "tnew", "tnew3", "tnew1", "tdump", "destr", "bnew", "bdump", "rget", "rset",
         "rset2", "rswap", "rdump", "rbad", "rbadset", "rcopy", "size", "iter", "nest", "dump", "other", "alias", "pushmany", "clear"]

    def value():
        k = r.randrange(7)
        return [r.randrange(-5, 300), "s%d" % r.randrange(50), None, r.random() < 0.5, r.randrange(100) / 4.0, r.randrange(-2**63, 2**63),
                (1, "in")][k]

    def index(n):
        k = r.random()
        if k < 0.75 and n:
            return r.randrange(n)
        return r.choice([n, n + 1, -1, n - 1, 2**62, -2**63, 2**63 - 1, 2**32, "0", None, 0.0, True, 0])

    def good(i, n):
        return type(i) is int and 0 <= i < n

    def num(x):
        return type(x) in (int, float)

    for step in range(length):
        o = r.choice(kinds)
        if o == "clear" and r.random() < 0.7:
            o = "size"
        args, e = [], ok(None)
        if o == "push":
            v = value()
            args = [v]
            a.append(v)
            e = ok(len(a))
        elif o == "pushmany":
            n = r.choice([1, 3, 9, 40, 300]) if len(a) < 600 else 1
            args = [n]
            a.extend(range(n))
            e = ok(len(a))
        elif o in ("get", "set", "add"):
            i = index(len(a))
            v = value()
            args = [i] if o == "get" else [i, v]
            if not good(i, len(a)):
                e = PANIC
            elif o == "get":
                e = ok(_ser(a[i]))
            elif o == "set":
                a[i] = v
            else:
                x = lang.arith("+", a[i], v) if num(a[i]) and num(v) else None
                if x is None:
                    e = PANIC
                else:
                    a[i] = x
        elif o == "clear":
            a.clear()
        elif o == "dump":
            e = ok(_ser(a))
        elif o == "alias":
            args = [value(), value()]
            other = a
            a = list(args)
        elif o == "other":
            e = ok(_ser(other))
        elif o == "swap":
            i, j = index(len(a)), index(len(a))
            args = [i, j]
            if good(i, len(a)) and good(j, len(a)):
                x, y = a[j], a[i]
                a[i] = x
                a[j] = y
            else:
                e = PANIC
        elif o in ("tget", "tset"):
            i, v = index(len(t)), value()
            args = [i] if o == "tget" else [i, v]
            if not good(i, len(t)):
                e = PANIC
            elif o == "tget":
                e = ok(_ser(t[i]))
            else:
                t = t[:i] + (v,) + t[i + 1:]
        elif o == "tfields":
            e = ok(_ser(t[:3])) if len(t) >= 3 else PANIC
        elif o == "tfset":
            args = [value(), value()]
            if len(t) >= 2:
                t = (args[1], args[0]) + t[2:]
            else:
                e = PANIC
        elif o == "tdump":
            e = ok(_ser(t))
        elif o == "tnew3":
            args = [value(), value()]
            t = (args[0], args[1], args[0])
        elif o == "tnew1":
            args = [value()]
            t = (args[0],)
        elif o == "tnew":
            t = tuple(value() for _ in range(r.choice([0, 1, 2, 5, 17, 200])))
            args = [t]
        elif o == "destr":
            e = ok(_ser([t[0], t[1]])) if len(t) >= 2 else PANIC
        elif o == "bnew":
            n = r.choice([0, 1, 3, 16, 257, 5000])
            args = [n]
            b = bytearray(n)
            e = ok(n)
        elif o in ("bget", "bset", "badd"):
            i = index(len(b))
            v = r.choice([0, 1, 255, 256, -1, 128, 2**40, "x", None, 1.0, r.randrange(256)])
            args = [i] if o == "bget" else [i, v]
            if not good(i, len(b)):
                e = PANIC
            elif o == "bget":
                e = ok(b[i])
            elif o == "bset":
                if type(v) is int and 0 <= v <= 255:
                    b[i] = v
                else:
                    e = PANIC
            else:
                x = lang.arith("+", b[i], v) if num(v) else None
                if type(x) is int and 0 <= x <= 255:
                    b[i] = x
                else:
                    e = PANIC
        elif o == "bdump":
            e = ok(["b", bytes(b).decode("latin-1")])
        elif o == "rget":
            e = ok(_ser(tuple(rec.values())))
        elif o == "rset":
            args = [value(), value()]
            rec["a"], rec["long_name"] = args
        elif o == "rset2":
            args = [value(), r.randrange(100)]
            rec["_k"] = args[0]
            if type(rec["x1"]) is int:
                rec["x1"] += args[1]
            else:
                e = PANIC
        elif o == "rswap":
            rec["a"], rec["b"] = rec["b"], rec["a"]
        elif o == "rdump":
            e = ok(["r"] + [[k, _ser(v)] for k, v in rec.items()])
        elif o in ("rbad", "rbadset"):
            e = PANIC
        elif o == "rcopy":
            rec["a"], rec["b"] = rec["b"], rec["a"]
        elif o == "size":
            e = ok(["t", len(a), len(t), len(b)])
        elif o == "iter":
            e = ok(len(t) + len(a))
        elif o == "nest":
            args = [value(), value()]
            e = ok(["a", ["a", len(a) + 1], ["t", _ser(t), ["a", _ser(args[1])]]])
        ops.append([o] + [_arg(x) for x in args])
        exp.append(e)
    for o, e in (("dump", ok(_ser(a))), ("tdump", ok(_ser(t))), ("bdump", ok(["b", bytes(b).decode("latin-1")])), ("other", ok(_ser(other)))):
        ops.append([o])
        exp.append(e)
    return SEQ_SRC, ops, exp


# ---------------------------------------------------------------------------------- strings

STR_SRC = """
import std;
import host;
export func main(ops) {
    var p = ["", "a", "äöü", "abc", "€uro", "𝄞x", "a\\nb"];
    const seen = map{};
    var sb = std.new_string_builder();
    func entries(m) { var r = []; for e in m { r.append(e); } return r; }
    for op in ops {
        const res = std.catch_panic(func() {
            const o = op.0;
            if o == "lit" { p.append(op.1); return op.1; }
            if o == "cat" { const s = "${p[op.1]}${p[op.2]}"; p.append(s); return s; }
            if o == "cat3" { const x = p[op.1]; const s = "<$x|${p[op.2]}>$x"; p.append(s); return s; }
            if o == "num" { const s = "${op.1}/${op.2}"; p.append(s); return s; }
            if o == "first" { const s = p[op.1].slice_first(op.2); p.append(s); return (s.size(), s.to_string()); }
            if o == "last" { const s = p[op.1].slice_last(op.2); p.append(s); return (s.size(), s.to_string()); }
            if o == "slice" { const s = p[op.1].slice(op.2, op.3); p.append(s); return (s.size(), s.to_string()); }
            if o == "tostr" { const s = "${p[op.1]}"; p.append(s); return s; }
            if o == "size" { return p[op.1].size(); }
            if o == "eq" { return (p[op.1] == p[op.2], p[op.1] != p[op.2], p[op.2] == p[op.1]); }
            if o == "contains" { return p[op.1].contains(p[op.2]); }
            if o == "bytes" { return entries(p[op.1]); }
            if o == "utf8" { return std.to_utf8("${p[op.1]}"); }
            if o == "append" { sb.append(p[op.1]); return sb.size(); }
            if o == "append2" { sb.append(p[op.1], op.2, p[op.1]); return sb.size(); }
            if o == "byte" { sb.append_byte(op.1); return sb.size(); }
            if o == "take" { const s = sb.to_string(); p.append(s); return s; }
            if o == "sbhas" { return sb.contains(p[op.1]); }
            if o == "sbclear" { sb.clear(); return sb.size(); }
            if o == "sbnew" { sb = std.new_string_builder(); return null; }
            if o == "mapput" { seen[p[op.1]] = op.2; return seen.size(); }
            if o == "mapget" { return seen[p[op.1]]; }
            if o == "old" { return "${p[op.1]}"; }
            if o == "drop" { const n = []; for var i = 0; i < 7; i += 1 { n.append(p[i]); } p = n; return p.size(); }
            if o == "repr" { return std.debug_repr(p[op.1]); }
            if o == "fill" { for var i = 0; i < op.1; i += 1 { sb.append(p[op.2]); } return sb.size(); }
        });
        host.log(res);
    }
}
"""


def _utf8_ok(b):
    try:
        b.decode("utf-8")
        return True
    except UnicodeDecodeError:
        return False


def str_history(seed, length):
    r = random.Random(seed)
    p = [x.encode() for x in ("", "a", "äöü", "abc", "€uro", "𝄞x", "a\nb")]
    kind = ["s"] * 7
    sb = bytearray()
    seen = {}
    ops, exp = [], []
    kinds = ["lit"] * 2 + ["cat", "cat3", "num"] * 2 + ["first", "last", "slice"] * 4 + ["tostr"] + ["size", "eq", "contains"] * 3 + \
        ["bytes", "utf8", "append", "append", "append2", "byte", "take", "take", "sbhas", "sbclear", "sbnew", "mapput", "mapput", "mapget", "mapget",
         "old", "old", "drop", "repr", "fill"]

    def L(b):
        return bytes(b).decode("latin-1")

    def word():
        return "".join(r.choice("abAB01 äß€𝄞\n\t$'\"\\") for _ in range(r.choice([0, 1, 2, 5, 30]))).encode()

    def count(n):
        return r.choice([0, 1, 2, n, n - 1, n + 1, -1, 2**62, -2**63, 2**63 - 1, r.randrange(0, n + 2), "1", None, 1.0])

    for step in range(length):
        o = r.choice(kinds)
        i, j = r.randrange(len(p)), r.randrange(len(p))
        if r.random() < 0.5:
            i = len(p) - 1 - min(r.randrange(4), len(p) - 1)
        e, args = ok(None), [i]
        if len(p[i]) + len(p[j]) > 3000 and o in ("cat", "cat3", "append2", "fill", "append"):
            o = "size"
        if o == "drop" and r.random() < 0.6:
            o = "size"
        new = None
        if o == "lit":
            w = word()
            args = [L(w)]
            new = ("s", w)
            e = ok(L(w))
        elif o == "cat":
            args = [i, j]
            new = ("s", p[i] + p[j])
            e = ok(L(new[1]))
        elif o == "cat3":
            args = [i, j]
            new = ("s", b"<" + p[i] + b"|" + p[j] + b">" + p[i])
            e = ok(L(new[1]))
        elif o == "num":
            x, y = r.randrange(-2**63, 2**63), r.choice([0.5, -3.0, 1e100, 0.1, True, None, 12345.678])
            args = [x, y]
            new = ("s", str(x).encode() + b"/" + lang.to_text(y))
            e = ok(L(new[1]))
        elif o in ("first", "last", "slice"):
            n = count(len(p[i]))
            m = count(len(p[i]))
            args = [i, n] if o != "slice" else [i, n, m]
            bad = type(n) is not int or (o == "slice" and type(m) is not int)
            if bad:
                e = PANIC
            else:
                n2 = max(0, n)
                m2 = max(0, m) if o == "slice" else 0
                v = p[i][:n2] if o == "first" else p[i][max(0, len(p[i]) - n2):] if o == "last" else p[i][n2:n2 + m2]
                new = ("l", v)
                e = ok(["t", len(v), L(v)])
        elif o == "tostr":
            new = ("s", p[i])
            e = ok(L(p[i]))
        elif o == "old":
            e = ok(L(p[i]))
        elif o == "size":
            e = ok(len(p[i]))
        elif o == "eq":
            if r.random() < 0.3:
                j = r.choice([k for k in range(len(p)) if p[k] == p[i]])
            args = [i, j]
            q = p[i] == p[j]
            e = ok(["t", q, not q, q])
        elif o == "contains":
            args = [i, j]
            e = ok(p[j] in p[i])
        elif o == "bytes":
            e = ok(["a"] + [L(bytes([x])) for x in p[i]])
        elif o == "utf8":
            e = ok(["b", L(p[i])])
        elif o == "append":
            sb += p[i]
            e = ok(len(sb))
        elif o == "append2":
            x = r.choice([1, "zz", None, 2.5])
            args = [i, x]
            sb += p[i] + (x.encode() if isinstance(x, str) else lang.to_text(x)) + p[i]
            e = ok(len(sb))
        elif o == "byte":
            x = r.choice([0, 65, 255, 256, -1, "a", 128, 10])
            args = [x]
            if type(x) is int and 0 <= x <= 255:
                sb.append(x)
                e = ok(len(sb))
            else:
                e = PANIC
        elif o == "take":
            args = []
            new = ("s", bytes(sb))
            e = ok(L(sb))
        elif o == "sbhas":
            e = ok(p[i] in bytes(sb))
        elif o == "sbclear":
            args = []
            sb = bytearray()
            e = ok(0)
        elif o == "sbnew":
            args = []
            sb = bytearray()
        elif o == "mapput":
            args = [i, step]
            seen[p[i]] = step
            e = ok(len(seen))
        elif o == "mapget":
            e = ok(seen.get(p[i]))
        elif o == "drop":
            args = []
            p, kind = p[:7], kind[:7]
            e = ok(7)
        elif o == "repr":
            if kind[i] == "s" and _utf8_ok(p[i]):
                e = ok('"' + lang.repr_escape(p[i]) + '"')
            else:
                o, e = "size", ok(len(p[i]))
        elif o == "fill":
            n = r.choice([3, 20, 100]) if len(p[i]) < 60 and len(sb) < 20000 else 1
            args = [n, i]
            sb += p[i] * n
            e = ok(len(sb))
        if new is not None:
            kind.append(new[0])
            p.append(new[1])
        if len(sb) > 60000:
            sb_big = True
        ops.append([o] + [_arg(x) for x in args])
        exp.append(e)
    for i in range(len(p)):
        ops.append(["old", i])
        exp.append(ok(L(p[i])))
    return STR_SRC.encode().decode("latin-1"), ops, exp
