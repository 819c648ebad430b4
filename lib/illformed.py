"""Rule violations (and their correct twins) that can be placed anywhere in a valid program.

BAD and GOOD map a rule name to a list of templates. `$E` stands for an arbitrary expression that is
used as a value; every template is self-contained (it only uses names of its own).
"""

# Templates that replace an expression.
BAD = {
    "undefined": ["nosuch_name", "nosuch_fn($E)", '"$nosuch_name"', '"a ${nosuch_name} b"', "(func() = nosuch_name)", "nosuch.member.x",
                  "$E + nosuch_name", "(nosuch_name = $E)", "nosuch_name?.x", "[nosuch_name]", "(nosuch_name,)", "(x: nosuch_name)",
                  "map{1: nosuch_name}", "map{nosuch_name: 1}", "set{nosuch_name}", "nosuch_name[1]", "[1][nosuch_name]", "{ [1][nosuch_name] = 2; $E }",
                  "{ nosuch_name.a = 2; $E }", "{ var (za, zb) = nosuch_name; $E }", "if nosuch_name { 1 } else { 2 }", "{ while nosuch_name {} $E }",
                  "{ for zi in nosuch_name {} $E }", "{ for zi in [] { nosuch_name; } $E }", "{ for var zi = nosuch_name; false; {} $E }",
                  "{ for ;nosuch_name; {} $E }", "{ for ;false; nosuch_name {} $E }", "{ defer nosuch_name; $E }", "{ assert(nosuch_name); $E }",
                  "{ assert(true, nosuch_name); $E }", "(func() { return nosuch_name; })", "(func() { nosuch_name; })", "(nosuch_name ?? $E)",
                  "{ (nosuch_name, nosuch_name) = (1, 2); $E }", "{ nosuch_name += 1; $E }", "(func(za) = func() = nosuch_name)"],
    "scope": ["{ zz; var zz = 1; $E }", "{ var zz = zz; $E }", "{ { var zz = 1; } zz }", "{ { var zz = 1; } zz = 2; $E }",
              "{ if true { var zz = 1; } zz }", "{ if true { } else { const zz = 1; } zz }", "{ for var zz = 0; false; { } zz }",
              "{ for zz in [1] { } zz }", "{ while false { var zz = 1; } zz }", "{ (func(zz) = zz); zz }", "{ const zf = func() = zz; var zz = 1; $E }",
              "{ for zz in zz { } $E }", "{ var (zz, zy) = (1, zz); $E }", "{ var zy = zz, zz = 1; $E }", "{ for var za = 0; zz; { var zz = 1; } $E }",
              "{ for var za = 0; false; zz += 1 { var zz = 1; } $E }", "{ const zz = func() { return zz; }; $E }", "{ defer zz; var zz = 1; $E }",
              "{ if zz == 1 { var zz = 1; } $E }"],
    "redeclared": ["{ var zz = 1; var zz = 2; $E }", "{ var zz = 1; const zz = 2; $E }", "{ const zz = 1; var zz; $E }", "{ var zz = 1, zz = 2; $E }",
                   "{ var (zz, zz) = (1, 2); $E }", "{ var zz = 1; var (zy, zz) = (1, 2); $E }", "(func(zz, zz) = $E)", "(func(zz, zy, zz) { })",
                   "{ for (zz, zz) in [] { } $E }", "{ for var zz = 0, zz = 1; false; { } $E }", "{ const (za, zb, za) = (1, 2, 3); $E }",
                   "{ var zz = 1; $E; { var zy = 1; } const zz = 2; }", "(func() { var zz = 1; if zz == 1 { } var zz = 2; })"],
    "assign-const": ["{ const zz = $E; zz = 1; zz }", "{ const zz = 1; zz += $E; zz }", "{ const zz = 1; zz -= 1; $E }", "{ const zz = 1; zz *= 1; $E }",
                     "{ const zz = 1; zz /= 1; $E }", "{ const zz = 1; zz %= 1; $E }", "{ const zz = 1; zz **= 1; $E }", "{ const (za, zb) = (1, 2); za = 3; $E }",
                     "{ const (za, zb) = (1, 2); zb = 3; $E }", "{ const za = 1; var zb = 2; (zb, za) = (3, 4); $E }", "{ const za = 1; var zb = 2; (za, zb) = (3, 4); $E }",
                     "{ const zz = 1; (func() { zz = 2; }); $E }", "{ const zz = 1; (func() = zz += 2); $E }", "{ const zz = 1; (func() = func() { zz = 2; }); $E }",
                     "{ const zz = 1; { zz = 2; } $E }", "{ const zz = 1; var zy = zz = 2; $E }", "{ const zz = 1; if true { zz = 3; } $E }",
                     "{ const zz = 1; while false { zz = 3; } $E }", "{ const zz = 1; for ;false; zz = 2 { } $E }", "{ for const zz = 0; false; zz += 1 { } $E }",
                     "{ const zz = 1; defer zz = 2; $E }", "{ const zz = 1; host.id(zz = 2) }", "{ const zz = 1; [zz = 2] }", '{ const zz = 1; "${zz = 2}" }',
                     "{ const zz = 1; ((zz = 2) + 1) }", "{ const zz = 1; -(zz = 2) }", "{ const zz = 1; (1 ?? (zz = 2)) }", "{ const zz = 1; (true && (zz = 2)) }",
                     "{ const zz = 1; var zy; zy = zz = 2; }", "{ const zz = 1; assert(zz = 2); $E }", "{ const zz = 1; map{1: zz = 2} }", "{ const zz = 1; ((zz)) = 2; $E }",
                     "{ const zz = 1; { var zz = 2; zz = 3; } zz = 2; }", "{ const zz = 1; var zy = 2; (zy, zz) = (zz, zy); $E }"],
    "assign-other": ["(std = $E)", "(host = 1)", "{ std += 1; $E }", "{ var za; (za, host) = (1, 2); $E }", "(func() { std = 1; })"],
    "lvalue": ["(1 = $E)", '("a" = $E)', "(null = 1)", "(true = 1)", "{ var zz = 1; -zz = $E }", "{ var zz = 1; zz + 1 = $E }", "{ var zz = 1; zz && zz = $E }", "([1] = $E)",
               "(#sym = $E)", "{ var zz = 1; zz() = $E }", "{ var zz = (a: 1); zz?.a = $E }", "{ var zz = [1]; zz?[0] = $E }", "{ var zz = (1,); zz?.0 = $E }",
               "{ var zz = (a: (b: 1)); zz?.a.b = $E }", "{ var zz = [[1]]; zz?[0][0] = $E }", "{ var zz = (1, 2); zz?(1).a = $E }", "{ var zz = 1; (zz, 1) = (1, 2); $E }",
               "{ var zz = 1; (1, zz) = (1, 2); $E }", "{ var zz = 1; (zz,) += (1,); $E }", "{ var zz = 1; ((zz, zz), zz) = ((1, 2), 3); $E }", "(set{1} = $E)", "(map{1: 2} = $E)",
               "((a: 1) = $E)", "{ 1 += 1; $E }", "((func() = 1) = $E)", "{ var zz = 1; (zz = 2) = 3; $E }", "{ var zz = 1; zz + zz += 1; $E }",
               "{ var zz = 1; (zz, zz + 1) = (1, 2); $E }", "{ var za = [1]; (za?[0], za) = (1, 2); $E }", "{ var zz = (a: [1]); zz?.a[0] = $E }", "{ var za = [1]; (za[0], za?[0]) = (1, 2); $E }"],
    "loop-control": ["(func() { break; })", "(func() { continue; })", "(func() = break)", "(func() = continue)", "{ while true { (func() { break; }); break; } $E }",
                     "{ for zi in [1] { const zf = func() { if true { continue; } }; } $E }", "(func() { while (break) { } })", "(func() { for var zi = (break); false; { } })",
                     "(func() { for ;(continue); { } })", "(func() { for ;false; (break) { } })", "(func() { for zi in (break) { } })", "(func() { while false { } break; })",
                     "(func() { for ;false; { } continue; })", "(func() { for zi in [] { } break; })", "(func() { defer break; })", "(func() { if true { break; } else { } })",
                     "(func() { return [1, break]; })", "(func() { assert(false, break); })", '(func() { return "${continue}"; })',
                     "{ while false { (func() { while false { } continue; }); } $E }", "(func() { { break; } })", "(func() { return (null ?? break); })"],
    "value": ["host.id({ })", "({ } + 1)", "(1 + { })", "[{ }]", "({ },)", "(x: { })", "map{1: { }}", "map{{ }: 1}", "set{{ }}", "-{ }", "!{ }", "({ } && true)", "(true && { })", "(true || { })", "(null ?? { })",
              "host.id({ var zz = 1; })", "host.id({ $E; var zz = 1; })", "host.id({ while false { } })", "host.id({ for zi in [] { } })", "host.id({ assert(true); })", "host.id({ defer 1; })",
              "host.id(if true { 1 })", "host.id(if true { 1 } else { })", "host.id(if true { } else { 1 })", "host.id(if true { 1 } else if false { 2 })", "host.id(if true { 1 } else if false { } else { 3 })",
              "host.id(if true { 1 } else if false { 2 } else { var zz; })", "host.id({ { } })", "host.id({ if true { 1 } })", "(func() = { })", "(func() = if true { 1 })", "(func() { return { }; })",
              "{ var zz = { }; $E }", "{ var zz; zz = { }; $E }", "{ var zz = 1; zz += { }; $E }", "{ if { } { } $E }", "{ while { } { } $E }", "{ for zi in { } { } $E }", "{ for ;{ }; { } $E }", "{ assert({ }); $E }",
              "{ assert(true, { }); $E }", '"${{ }}"', "{ }.x", "({ })[1]", "[1][{ }]", "({ })()", "{ var (za, zb) = { }; $E }", "({ })?.x", "{ var zz = [1]; zz[{ }] = 1; $E }", "{ ({ }).x = 1; $E }",
              "host.id({ 1; { var zz = 1; } })", "host.id(if { } { 1 } else { 2 })", "{ const zz = if true { 1 }; $E }", "host.id(if true { var zz = 1; } else { 1 })"],
    "missing-init": ["{ const zz; $E }", "{ const zz = 1, zy; $E }", "{ const zy, zz = 1; $E }", "{ const (za, zb); $E }", "{ if true { const zz; } $E }", "(func() { const zz; })",
                     "{ for const zz; false; { } $E }"],
    "record-key": ["(x: $E, x: 2)", "(x: 1, y: 2, x: 3)", "(y: 1, x: 2, x: 3)", "(a: (x: 1, x: 2))", "host.id((x: 1, x: 2))", "(a: 1, b: 2, c: 3, d: 4, e: 5, a: 6)"],
    "modifier": ["{ export const zz = 1; $E }", "{ export var zz = 1; $E }", "(func() { export const zz = 1; })", "{ export func zf() { } $E }"],
    "import-place": ["{ import std; $E }", "(func() { import std; })"],
    "literal": ["9223372036854775808", "99999999999999999999999999", "0x8000000000000000", "0xFFFFFFFFFFFFFFFF", "0b2", "0b12", "0o8", "0o18", "1a", "0xg", "12abc", "0x", "0b", "0o",
                '"\\q"', '"\\x4"', '"\\xg1"', '"ab\\u{110000}"', '"\\u{}"', '"\\u{d800}"', "'\\8'", '"\\ "', "#1", "# a", "$x", "`a`", "1.2.3x", '"${1"', "0b1.2.3x"],
    "assert": ["{ assert(); $E }", "{ assert(1, 2, 3); $E }", "{ assert; $E }", "{ assert 1; $E }", "{ assert?(true); $E }", "host.id(assert(true))"],
    "syntax": ["(1 +)", "(* 1)", "[1,,2]", "[,]", "(,)", "map{1}", "map{1:}", "map{:1}", "set{1:2}", "(func(1) = 1)", "(func(za,,zb) = 1)", "(func = 1)", "host.", "host..id", "(x: 1, 2)", "(1, x: 2)", "(x:)", "{ if { } $E }",
               "{ if true $E }", "host.id(1 2)", "host.id(,)", "(1 2)", "[1 2]", "{ var 1 = 2; $E }", "{ var = 2; $E }", "{ var za zb; $E }", "{ var za = ; $E }", "{ var za = 1 var zb = 2; $E }", "{ while { $E }", "{ for { } $E }",
               "{ for zi in { } $E }", "{ for var zi = 0 { } $E }", "{ for zi of [1] { } $E }", "{ var func = 1; $E }", "{ var as = 1; $E }", "{ var is = 1; $E }", "{ var scope = 1; $E }", "{ var switch = 1; $E }",
               "(func(in) = 1)", "(1 = = 2)", "(1 === 2)", "(1 <> 2)", "(1 ? 2 : 3)", "(a => 1)", "(1 && && 2)", "(!)", "(~)", "(1 @ 2)", "{ 1 2; $E }", "{ else { } $E }", "{ defer; $E }", "{ if true { } else $E }", "[1][]", "{ var (za, 1) = (1, 2); $E }",
               "{ var (za = 1, zb) = (1, 2); $E }", "{ var ((za, zb), zc) = ((1, 2), 3); $E }", "{ if true { 1 } else if { 2 } $E }", "{ { $E }", "map{1: 2: 3}", "(x: 1 y: 2)", "#", "host.id(x: 1)", "{ in = 1; $E }", "(1; 2)", "host.id(1;)", "[1; 2]"],
}

# The same constructs used correctly: none of these may be rejected.
GOOD = {
    "names": ["{ var zz = 1; zz }", '{ var zz = 1; "$zz ${zz} x" }', "{ var zz = 1; (func() = zz)() }", "{ var zz = (a: 1); zz.a }", "{ var zz = null; zz?.a?.b }", "{ var zz = [1]; zz[0] = 2; zz[0] }", "{ var zz = [1]; zz?[0] }",
              "{ var zz = (a: 1); zz.a = $E; zz.a }", "{ var zz = (a: [1]); zz.a[0] = $E; zz.a }", "{ var za; var zb; (za, zb) = (1, 2); za + zb }", "{ var zz = [1, (2, 3)]; (zz[0], zz[1].0) = (4, 5); zz[0] }", "{ (func() = (1,))().0 = 1; $E }"],
    "scope": ["{ var zz = 1; { var zz = 2; zz } }", "{ var zz = 1; { const zy = zz; zy } }", "{ var zz = 1; if true { var zz = 2; } zz }", "{ for var zz = 0; zz < 1; zz += 1 { const zy = zz; } $E }", "{ for var za = 0, zb = 1; za < zb; za += 1 { } $E }",
              "{ for zz in [1] { const zy = zz; } $E }", "{ for (za, zb) in [(1, 2)] { const zc = za + zb; } $E }", "{ var zz = 1; (func(zz) = zz)(zz) }", "{ const zz = 1; { const zy = zz; } $E }",
              "{ { var zz = 1; } { var zz = 2; } $E }", "{ var zz = 1, zy = zz; zy }", "{ var zz; zz = func() = zz; $E }", "{ var zz = 1; { var zy = zz; zz = zy; } zz }", "(func(std) = std)(1)", "{ const std = 1; std }",
              "{ for zz in [1] { for zz in [2] { zz; } } $E }", "{ var zz = [1]; for zy in zz { zy; } $E }"],
    "const": ["{ const zz = [1]; zz[0] = 2; zz[0] }", "{ const zz = (a: 1); zz.a = 2; zz.a }", "{ const zz = $E; zz }", "{ const zz = 1; { var zz = 2; zz = 3; zz } }", "{ const zz = 1; (func(zz) { zz = 2; return zz; })(1) }", "{ const zz = 1; (func() = zz)() }",
              "{ const (za, zb) = (1, 2); za + zb }", "{ var (za, zb) = (1, 2); (za, zb) = (zb, za); za }", "{ var za = 1; var zb; zb = za = 2; zb }", "{ var za = 1; za += 1; za -= 1; za *= 1; za /= 1; za %= 5; za **= 1; za }", "{ for const zz = 0; false; { } $E }"],
    "loop-control": ["{ while true { break; } $E }", "{ for zi in [1] { continue; } $E }", "{ for ;; { break; } $E }", "{ while true { if true { break; } else { continue; } } $E }", "{ while true { (func() { while true { break; } })(); break; } $E }",
                     "{ while true { for zi in [1] { break; } break; } $E }", "{ while true { const zz = null ?? break; } $E }", "{ for zi in [1] { [1, continue]; } $E }", "(func() { return; })()", "(func() { return 1; })()", "(func() = return 1)()",
                     "{ while true { { break; } } $E }", "{ while true { while (break) { } } $E }", "{ while true { for zi in (break) { } } $E }"],
    "value": ["host.id({ 1 })", "host.id({ 1; })", "host.id({ var zz = 1; zz })", "host.id(if true { 1 } else { 2 })", "host.id(if true { 1 } else if false { 2 } else { 3 })", "host.id({ { { 1 } } })", "host.id({ if true { 1 } else { 2 } })", "{ { } if true { } if true { 1 } while false { } $E }",
              "(func() { })()", "(func() = { 1 })()", "(func() { if true { 1 } })()", "{ (func() { if true { return 1; } else { return 2; } })() }", "host.id({ var zz = { 1 }; zz })", "{ defer { }; $E }", "{ if true { } else if true { 1 } $E }",
              "{ while false { 1 } $E }", "(func() { return if true { 1 } else { return 2; }; })()", "{ for ;false; { } $E }", "{ ; ; $E }", "{ { }; { }; $E }", "(func() = if true { 1 } else { 2 })()"],
    "record": ["(x: $E, y: 2)", "(x: (x: 1), y: (x: 2))", "(:)", "(x: 1,)", "()", "(1,)", "[]", "[1,]", "map{}", "set{}", "map{1: 2,}", "set{1,}", "map{1: 1, 1: 2}", "set{1, 1}", "(std: 1, host: 2)", "{ var x = 1; (x: x).x }"],
    "literal": ["9223372036854775807", "0x7fffffffffffffff", "0b1", "0o17", "1_000", "0xFF", "0x_f", "1.5", "0b1.1", "0o7.4", '"\\n\\r\\t\\\\\\"\\\'\\$"', "'a'", '"a" "b"', "#abc", '""', "'\"'", '"\'"', '"\\$"', "1.0", "0x1.8"],
    "misc": ["{ assert(true); $E }", "{ assert(true, \"x\"); $E }", "{ defer $E; 1 }", "host.id(1,)", "(func(za,) = za)(1)", "{ var _ = 1; _ }", "{ var zz = 1; // c\n zz }", "{ /* /* */ */ $E }", "(1)", "((1))", "- - 1", "!!true", "-(1)", "+1", "{ var zz = 1; zz; ; zz }", "(func zf(za) = za)(1)",
             "{ var x__ = 1; x__ }", "{ var größe = 1; größe }", "1 + 2 * 3 ** 4 - 5 % 6 / 7", "1 == 2 && 3 != 4 || 5 < 6", "null ?? 1", "[1][0]", "host?.id?(1)", "{ var map = 1; map }", "{ var set = 1; set }", "(1, 2).0", "(1, (2, 3)).1.0"],
}

# Top level items (appended to or inserted into a module).
BAD_ITEMS = {
    "redeclared": ["func zf() { }\nfunc zf() { }", "var zz = 1;\nvar zz = 2;", "const zz = 1;\nfunc zz() { }", "func zz() { }\nvar zz = 1;", "var (za, za) = (1, 2);", "func zf(za, za) { }", "import std as zz;\nimport std as zz;",
                   "var zz = 1, zz = 2;", "const (za, zb) = (1, 2);\nfunc zb() { }", "func zf() { }\n----\nfunc zf() { }", "var zz = 1;\n----\nconst zz = 2;", "const zz = 1;\n----\nfunc zz() { }", "func main() { }", "func zf() { }\n----\nfunc main() { }"],
    "assign": ["func zf() { }\nfunc zg() { zf = 1; }", "const zz = 1;\nfunc zg() { zz = 2; }", "func zf() { zf = 1; }", "const (za, zb) = (1, 2);\nfunc zg() { zb += 1; }", "import std as zi;\nfunc zg() { zi = 1; }", "func zg() { std = 1; }", "func zf() { }\nfunc zg() { var za; (za, zf) = (1, 2); }",
               "func zf() { zf += 1; }", "func zf() { return func() { zf = 2; }; }", "var zv = 1;\nconst zc = zv;\nfunc zg() { return func() { zv = 1; zc = 1; }; }"],
    "control": ["var zz = return 1;", "const zz = [return];", "var zz = { return 1; 2 };", "var zz = break;", "const zz = { continue; 1 };", "var zz = if true { return 1 } else { 2 };", "func zf() { break; }", "func zf() { continue; }", "func zf() = break;", "var zz = func() { break; };",
                "func zf() { while true { func zg() { break; } } }"],
    "undefined": ["var zz = nosuch_name;", "func zf() = nosuch_name;", "func zf() { nosuch_name(); }", "var zz = zy;\nvar zy = 1;", "const zz = zz;", "func zf() { return zlater; }\nvar zlater = 1;", "const zz = func() = zy;\nconst zy = 1;", "func zf(za) { }\nfunc zg() { return za; }",
                  "func zf() { var za = 1; }\nvar zz = za;", "import std as zi;\n----\nfunc zf() = zi;", "func zf() = 1;\n----\nfunc zg() = nosuch_name;", "const zz = 1;\n----\nfunc zg() { zz.a; return zq; }"],
    "export": ["export var zz = 1;", "export import std as zi;", "export export const zz = 1;", "export 1;", "export;", "export var (za, zb) = (1, 2);", "func zf() { export const zz = 1; }", "func zf() { export func zg() { } }", "export func() { }", "export export func zf() { }"],
    "toplevel": ["1;", "std.print(1);", "if true { }", "while false { }", "for zi in [] { }", "return 1;", "break;", "defer 1;", "assert(true);", "{ }", "zz = 1;", "}", ")", "]", "func zf() { } }", "func zf( { }", "func zf() {", "import;", "import 1;", "import std.;", "import .std;", "import std as;", "import std as 1;",
                 "import a..b;", "var zz = 1", "const zz = 2", "import std as za", "func zf() = 1", "func zf { }", "var;", "const zz;", "const zz = 1, zy;", "const (za, zb);", "foo bar;", "@", "func zf() = ;", "var zz = \"unclosed;", "var zz = \"${1;", "func 1() { }", "var zz == 1;"],
    "value": ["var zz = { };", "var zz = if true { 1 };", "const zz = { var zy = 1; };", "func zf() = { };", "func zf() = if true { 1 };", "func zf() { return { }; }", "var (za, zb) = { };"],
    "uninitialised": ["func zf() { var zz; return zz; }", "func zf() { var zz; if std.print { zz = 1; } return zz; }", "func zf() { var zz; while std.print { zz = 1; } return zz; }", "func zf() { var zz; zz += 1; }", "func zf() { var zz; for zi in [1] { zz = 1; } return zz; }",
                      "func zf() { var zz; if std.print { zz = 1; } else { } return zz; }", "func zf() { var zz; std.print && (zz = 1); return zz; }", "func zf(zp) { var zz; zp ?? (zz = 1); return [zz]; }",
                      "func zf() { var zz; return zz.a; }", "func zf() { var zz; zz[0] = 1; }", "func zf() { var zz; return \"$zz\"; }", "func zf() { var zz, zy = 1; return zz + zy; }", "func zf() { var zz; return func() { var zy; return zy; }; }"],
}
GOOD_ITEMS = {
    "items": ["export const zz = 1;", "export func zf() { }", "func zf() { }", "const (za, zb) = (1, 2);", "var (za, zb) = (1, 2);", "func zf() = 1;", "import std as zi;\nfunc zf() = zi.PI;", "func zf() = zg();\nfunc zg() = zf;", "var zz;", "var zz = 1, zy = zz;", ";", ";;", "const zz = func(a) { return a; };",
              "export const zf = func() = 1;", "func zf() { return zf; }", "var zz = 1;\nfunc zf() { zz = 2; zz += 1; }", "func zf(zf) = zf;", "var zz = 1;\nfunc zf(zz) { const zy = zz; { var zz = 2; } return zy; }", "const zz = { 1 };", "const zz = if true { 1 } else { 2 };", "export const (za, zb) = (1, 2);",
              "func zf(std) { std = 1; return std; }", "func zf(za) { za = 1; za += 2; return za; }", "func zf() = zg();\n----\nfunc zg() = zf();", "import std as zi;\n----\nimport std as zi;\nfunc zg() = zi.PI;", "var zz = 1;\n----\nfunc zg() { zz = 2; }"],
    "initialised": ["func zf() { var zz; zz = 1; return zz; }", "func zf() { var zz; if std.print { zz = 1; } else { zz = 2; } return zz; }", "func zf() { var zz; if std.print { zz = 1; } else { return 1; } return zz; }",
                    "func zf() { var zz; for ;; { zz = 1; if zz == 1 { break; } } return zz; }", "func zf() { var zz; if std.print { zz = 1; } else { std.panic(\"x\"); zz = 2; } return zz; }", "func zf() { var zz; }", "func zf() { var zz; if std.print { zz = 1; } }",
                    "func zf() { var zz; const zf = func() { zz = 1; }; zf(); return zz; }", "func zf() { var zz; { zz = 1; } return zz; }", "func zf() { var za; var zb; (za, zb) = (1, 2); return za + zb; }", "func zf() { for var zz; false; { } }", "func zf() { var zz; while false { zz = 1; return zz; } }"],
}


def _semicolons(table):
    """The last expression of a block needs its semicolon as well."""
    import re
    for rule, templates in table.items():
        table[rule] = [re.sub(r"([^;{}\s,]) \}", r"\1; }", t) for t in templates]


for _t in (BAD, GOOD, BAD_ITEMS, GOOD_ITEMS):
    _semicolons(_t)


def _paths():
    """Every access path of up to three steps as the target of an assignment: it may not contain optional steps anywhere."""
    import itertools
    normal, optional = [".a", "[0]", ".0", "(1)", ".f(2)"], ["?.a", "?[0]", "?.0", "?(1)", "?.f(2)", ".f?(2)"]
    bad, good = [], []
    forms = ["{ var zz = null; (func() { zz%s = 1; }); $E; }", "{ var zz = null; (func() { zz%s += $E; }); 1; }",
             "{ var zz = null; (func() { var zy; (zy, zz%s) = (1, 2); }); $E; }"]
    for n in (1, 2, 3):
        for i, steps in enumerate(itertools.product(normal + optional, repeat=n)):
            form = forms[i % 7 % 3] % "".join(steps)
            if steps[-1].endswith(")") or any(s in optional for s in steps):
                bad.append(form)
            else:
                good.append(form)
    return bad, good


# Templates of which each is planted only a few times.
MANY_BAD, MANY_GOOD = ({"path": l} for l in _paths())
