"""Deeply nested and long sources for the compiler."""


def F(body):
    return "export func main() { return %s; }" % body


DEEP = {
    "parentheses": lambda d: F("(" * d + "1" + ")" * d),
    "arrays": lambda d: F("[" * d + "1" + "]" * d),
    "tuples": lambda d: F("(" * d + "1" + ",)" * d),
    "maps": lambda d: F("map{1: " * d + "1" + "}" * d),
    "unary": lambda d: F("!" * d + "true"),
    "binary-chain": lambda d: F("1 + " * d + "1"),
    "power-chain": lambda d: F("1**" * d + "1"),
    "assignment-chain": lambda d: "export func main() { var a = 1; %s 1; return a; }" % ("a = " * d),
    "calls": lambda d: "func f() { return f; } export func main() { return f%s; }" % ("()" * d),
    "call-arguments": lambda d: "func f(x) { return x; } export func main() { return %s1%s; }" % ("f(" * d,")" * d),
    "members": lambda d: "export func main(x) { return x%s; }" % (".a" * d),
    "optional-members": lambda d: "export func main(x) { return x%s; }" % ("?.a" * d),
    "indexes": lambda d: "export func main(x) { return x%s; }" % ("[1]" * d),
    "blocks": lambda d: "export func main() { %s 1; %s }" % ("{" * d,"}" * d),
    "functions": lambda d: F("func() { return " * d + "1" + "; }" * d),
    "if-else": lambda d: "export func main(x) { %s 1; %s }" % ("if x { 1; } else " * d + "{", "}"),
    "if-nested": lambda d: "export func main(x) { %s 1; %s }" % ("if x {" * d , "}" * d),
    "while-nested": lambda d: "export func main(x) { %s 1; %s }" % ("while x {" * d , "}" * d),
    "for-in": lambda d: "export func main(x) { %s 1; %s }" % ("for a in x {" * d , "}" * d),
    "defers": lambda d: "export func main(x) { %s 1; %s }" % ("defer {" * d , "};" * d),
    "strings": lambda d: F('"${' * d + "1" + '}"' * d),
    "logical-chain": lambda d: "export func main(x) { return x%s; }" % (" && x" * d),
    "coalesce-chain": lambda d: "export func main(x) { return x%s; }" % (" ?? x" * d),
    "returns": lambda d: "export func main(x) { %s 1; }" % ("return " * d),
       "comments": lambda d: "/*" * d + "*/" * d+F("1"),
    "statements": lambda d: "export func main(x) { " + "x = x + 1;" * d + " return x; }",
    "long-concat": lambda d: F('"'+'$a' * d+'"'),
}
OPEN = {"open-" + str(i): (lambda d, t=t: t[0] + t[1] * d) for i, t in enumerate([
    (F("")[:-3], "("), (F("")[:-3], "["), (F("")[:-3], "map{"), (F("")[:-3], "set{"), (F("")[:-3], "(a: "), (F("")[:-3], "!"), (F("")[:-3], "a("),
    (F("")[:-3], "a["), (F("")[:-3], "a + ("), (F("")[:-3], "a ?? "), (F("")[:-3], "a = "), (F("")[:-3], "func() {"), (F("")[:-3], "func("),
    ("func f() ", "{"), ("func f() {", "if x {"), ("func f() {", "while x {"), ("func f() {", "for a in x {"), ("func f() {", "for "),
    ("func f() {", "defer "), ("func f() {", "return "), ("func f() {", "assert("), ("func f() {", "var a = "), ("func f() {", "if "), ("", '"${'),
    ("func f() {", '"a${'), ("", "("), ("", "export "), ("", "func "), ("", "import a."), ("", ")"), ("func f() ", "}"), ("func f() {", "else "), ("", "/*")])}
