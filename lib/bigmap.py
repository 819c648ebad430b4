"""Large maps and sets: long sequences of bulk operations on ranges of keys, after each of which every key of the whole
universe (present or not) is looked up and the whole table iterated. The model is a dict of Python."""
import random

P = 1000000007

SRC = """
import std;
import host;
var m = %(empty)s;
func key(i) = %(key)s;
func add(lo, hi, step, v) { for var i = lo; i < hi; i += step { %(add)s } return 0; }
func del(lo, hi, step) { var n = 0; for var i = lo; i < hi; i += step { if m.contains(key(i)) { m.remove(key(i)); n += 1; } else { m.remove(key(i)); } } return n; }
func down(lo, hi, step) { var i = hi - 1; for ; i >= lo; i -= step { m.remove(key(i)); } return 0; }
func churn(lo, hi, n, v) { for var i = 0; i < n; i += 1 { const k = lo + (i * 7919) %% (hi - lo); if m.contains(key(k)) { m.remove(key(k)); } else { const i = k; %(add)s } } return 0; }
func check(universe) {
  var found = 0; var missing = 0; var sum = 0; var order = 7;
  for var i = 0; i < universe; i += 1 {
    if m.contains(key(i)) { found += 1; sum = (sum * 31 + i %(value)s) %% %(p)d; } else { missing += 1; %(absent)s }
  }
  for %(iterate)s { order = (order * 131 + %(entry)s) %% %(p)d; }
  return (m.size(), found, missing, sum, order);
}
export func main(ops) {
  for o in ops {
    const f = o[0];
    if f == "add" { add(o[1], o[2], o[3], o[4]); }
    if f == "del" { host.log(del(o[1], o[2], o[3])); }
    if f == "down" { down(o[1], o[2], o[3]); }
    if f == "churn" { churn(o[1], o[2], o[3], o[4]); }
    if f == "clear" { m.clear(); }
    if f == "check" { host.log(check(o[1])); }
  }
  return 0;
}
"""

KEYS = {  # expression of the key, expression of the number from key `k`
    "int": ("i", "k"), "stride": ("i * 4096", "k / 4096"), "wide": ("i * 1099511627776", "k / 1099511627776"), "negative": ("0 - i", "0 - k"),
    "float": ("i + 0.5", "m2(k)"), "string": ("\"k$i\"", "k.size()"), "slice": ("\"--k$i\".slice_last(6)", "k.size()"),
    "mixed": ("if (i % 3 == 0) { i; } else { if (i % 3 == 1) { \"s$i\"; } else { i + 0.25; } }", "1"),
}


def source(keys, is_set):
    k, n = KEYS[keys]
    n = n.replace("m2(k)", "1")
    head = dict(key=k, p=P, empty="set{}" if is_set else "map{}", add="m.insert(key(i));" if is_set else "m[key(i)] = i * 3 + v;",
                value="" if is_set else "+ m[key(i)]", absent="" if is_set else "if m[key(i)] != null { found += 1000000; }",
                iterate="k in m" if is_set else "(k, x) in m", entry=n if is_set else "(%s) + x" % n)
    return SRC % head


def number(keys, i):
    if keys in ("string", "slice"):
        return len("k%d" % i) if keys == "string" else min(6, len("--k%d" % i))
    return 1 if keys in ("mixed", "float") else i


def history(r, keys, is_set, universe, length):
    """([op], [expected log])"""
    ops, exp, m = [], [], {}

    def set_(i, v):
        if is_set:
            m.setdefault(i, 0)
        else:
            m[i] = i * 3 + v

    def check():
        s = 0
        for i in range(universe):
            if i in m:
                s = (s * 31 + i + m[i]) % P
        o = 7
        for k, x in m.items():
            o = (o * 131 + number(keys, k) + x) % P
        ops.append(("check", universe))
        exp.append(["t", len(m), len(m), universe - len(m), s, o])

    for step in range(length):
        f = r.choice(["add", "add", "add", "del", "del", "down", "churn", "churn"]) if step else "add"
        if r.random() < 0.04:
            f = "clear"
        lo = r.randrange(universe) if r.random() < 0.6 else 0
        hi = r.randint(lo + 1, universe) if r.random() < 0.6 else universe
        st = r.choice([1, 1, 2, 3, 5, 17])
        v = r.randrange(1000)
        if f == "add":
            ops.append((f, lo, hi, st, v))
            for i in range(lo, hi, st):
                set_(i, v)
        elif f == "del":
            ops.append((f, lo, hi, st))
            exp.append(sum(1 for i in range(lo, hi, st) if m.pop(i, None) is not None))
        elif f == "down":
            ops.append((f, lo, hi, st))
            for i in range(hi - 1, lo - 1, -st):
                m.pop(i, None)
        elif f == "churn":
            n = r.randrange(1, 2 * (hi - lo) + 2)
            ops.append((f, lo, hi, n, v))
            for i in range(n):
                k = lo + i * 7919 % (hi - lo)
                if k in m:
                    del m[k]
                else:
                    set_(k, v)
        else:
            ops.append((f,))
            m.clear()
        check()
    return ops, exp


def case(cid, keys, is_set, ops, vm):
    return {"id": cid, "modules": [{"name": "main", "files": [["main", source(keys, is_set)]]}],
            "phases": [[{"module": "main", "fn": "main", "args": ["t", ["a"] + [["a"] + list(o) for o in ops]]}]],
            "vm": dict({"trace": False}, **vm), "max_events": 10000}


def job(a):
    seed, keys, is_set, universe, length = a
    return history(random.Random(seed), keys, is_set, universe, length)


def run(c, exe, plans, pool):
    """plans: [(universe, length, how many)]"""
    jobs = []
    for universe, length, n in plans:
        for i in range(n):
            keys = list(KEYS)[i % len(KEYS)]
            u = universe if keys not in ("slice",) else min(universe, 9000)
            jobs.append((c.seed * 7919 + len(jobs), keys, i // len(KEYS) % 3 == 2, u, length))
    cases, exp = [], {}
    for i, (j, (ops, x)) in enumerate(zip(jobs, pool(job, jobs))):
        cid = "big-%d-%s%s" % (i, j[1], "-set" if j[2] else "")
        cases.append(case(cid, j[1], j[2], ops, {}))
        exp[cid] = (j, ops, x)
    res = c.run_cases(exe, cases, alarm=120)
    for cs in cases:
        j, ops, x = exp[cs["id"]]
        ev = res[cs["id"]].get("events")
        if ev is None:
            if res[cs["id"]].get("crash") is None and not res[cs["id"]].get("timeout"):
                c.violation("big:start", "%s: %s" % (cs["id"], str(res[cs["id"]])[:400]), cs)
            continue
        logs = [e[1] for e in ev if e[0] == "l"]
        if logs != x or ev[-1] != ["done", 0, ["ok", 0]]:
            k = next((k for k in range(len(x)) if k >= len(logs) or logs[k] != x[k]), -1)
            c.violation("big:" + ("set" if j[2] else "map"), "%s keys, universe %d: (size, found, missing, checksum of lookups, checksum of iteration) %s instead of %s; %s; operations %s" % (
                j[1], j[3], str(logs[k:k + 1])[:200], x[k], str(ev[-1])[:200], str(ops[:2 * k + 2])[:300]), cs)
        c.observe(("big", j[1], j[2], str(x[-1])), n=len(x))
        c.count("big_lookups", j[3] * len(x))
