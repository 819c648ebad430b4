"""C10: equality, hashing and truthiness over all pairs of values."""
import random
import diff, lang, seq, zoo

OPS = ["not", "notnot", "if", "while", "coal", "eqself", "neself", "assert", "and", "or",
       "op==", "op!=", "eqsym", "mapk", "setk", "map2", "set2"]

# transitivity and interchangeability inside one table: every value with every value, several forms of each
TABLE = """
import std;
import host;
const T1 = (1, 2); const A1 = [1]; const F1 = func() = 1;
const VALS = [%s];
export func main() {
    for var i = 0; i < VALS.size(); i += 1 {
        const a = VALS[i];
        var row = [];
        for var j = 0; j < VALS.size(); j += 1 {
            const b = VALS[j];
            const m = map{a: 1};
            m[b] = 2;
            const s = set{a};
            const grown = map{};
            for var k = 0; k < 40; k += 1 { grown["filler$k"] = k; grown[k + 1000] = k; }
            grown[a] = "first";
            grown[b] = "second";
            grown.remove("filler3");
            row.append((a == b, b == a, a != b, m.size(), m[a], s.contains(b), s.insert(b), grown.size(), grown[a]));
        }
        host.log(i, row);
    }
}
"""


def table(c, exe):
    r = random.Random(c.seed)
    cases, exp = [], {}
    for n in range(c.scale(12, 200)):
        pool = [(s, v) for s, v in seq.KEYPOOL] + [(o, None) for o in seq.OBJECTS]
        r.shuffle(pool)
        pool = pool[:14]
        src, keys = [], []
        for s, v in pool:
            src.append(s)
            keys.append(("id", s, len(keys)) if s in seq.OBJECTS and s != "std.print" else
                        ("id", s) if s in seq.OBJECTS else lang.hkey(v))
        for i in range(6):
            v = r.choice([r.randrange(-3, 4), r.randrange(-3, 4) * 1.0, r.randrange(-2**62, 2**62), r.getrandbits(53) * 1.0, r.random()])
            src.append(lang.Printer().expr(zoo.I(v) if isinstance(v, int) else zoo.F(v))[0])
            keys.append(lang.hkey(v))
        cid = "table-%d" % n
        text = TABLE % ", ".join(src)
        cases.append({"id": cid, "modules": [{"name": "main", "files": [["main", text]]}],
                      "phases": [[{"module": "main", "fn": "main"}]], "vm": {"gc": [1, 50, 0]} if n % 3 == 0 else {}})
        exp[cid] = (src, keys)
    res = c.run_cases(exe, cases)
    for cid, (src, keys) in exp.items():
        rows = {e[1]: e[2] for e in res[cid].get("events") or [] if e[0] == "l"}
        if res[cid].get("crash") is not None:
            continue
        for i, k in enumerate(keys):
            row = rows.get(i)
            if row is None:
                c.violation("table:missing", "%s row %d missing: %s" % (cid, i, str(res[cid])[:300]), src)
                break
            for j, k2 in enumerate(keys):
                e = k == k2
                want = ["t", e, e, not e, 1 if e else 2, 2 if e else 1, e, not e, 80 if e else 81, "second" if e else "first"]
                c.observe((str(row[1 + j]), src[i], src[j]))
                if not lang.matches(want, row[1 + j]):
                    c.violation("table:law", "%s and %s: (==, reversed, !=, map size, value, set contains, set insert, big map size, "
                                "big map value) expected %s observed %s" % (src[i], src[j], want, row[1 + j]), (src[i], src[j]))


def run(c):
    c.rule = ("every operation that depends on equality, hash or truthiness over all ordered pairs of %d values of all "
              "types, compared with an abstract equality; plus random tables of keys checked for symmetry, transitivity (through "
              "classes) and interchangeability in small and grown maps and sets; distinct = outcomes" % len(zoo.VALUES))
    exe = c.build("plain", "tdrv")
    ops = OPS
    progs, wild = zoo.programs(zoo.combos(ops), ("plain",), seed=c.seed)
    c.count("combinations_without_stated_outcome", len(wild))
    res = c.run_cases(exe, [diff.case(p, vm={"trace": False}) for p in progs])
    zoo.judge(c, progs, res, "pairs")
    table(c, exe)
    c.sample(progs[0].src[:1200])
