"""Hostile source texts: mutations of valid programs on byte, token and line level, splices, and junk."""
import random, re

TOKENS = ["import", "export", "func", "var", "const", "return", "break", "continue", "if", "else", "while", "for", "in", "defer", "assert",
          "null", "true", "false", "map", "set", "is", "as", "switch", "case", "enum", "class", "interface", "package", "protocol", "yield",
          "async", "await", "throw", "try", "catch", "scope", "struct", "(", ")", "{", "}", "[", "]", ";", ",", ":", ".", "?.", "?[", "?(", "?", "??", "=",
          "==", "!=", "<", "<=", ">", ">=", "<<", ">>", "+", "-", "*", "/", "%", "**", "!", "~", "&", "|", "^", "&&", "||", "+=", "-=", "*=", "/=", "%=",
          "**=", "->", "=>", "#", "#a", "$", "\"", "'", "\"$", "\"${", "}", "\\", "//", "/*", "*/", "0", "1", "9223372036854775807", "9223372036854775808",
          "0x", "0b2", "0o8", "1_", "1.", ".5", "1.5.2", "1e5", "0x1.8", "a.0", "a.99999999999999999999", "x", "_", "self", "std", "(:)", "(,)", "(a,)", "(a:1)",
          "map{", "set{", "func(", "func()", "= x", "\n", "\x00", "\ufeff", "\u2028", "ä", "\U0001f600"]
TOK = re.compile(r'"(?:\\.|[^"\\])*"|\'(?:\\.|[^\'\\])*\'|\w+|[^\w\s]|\s+')


def mutate(r, src, others=()):
    """One hostile variant of src, as bytes."""
    k = r.randrange(12)
    if k <= 5:
        t = TOK.findall(src)
        for _ in range(r.choice([1, 1, 1, 2, 4, 10])):
            if not t:
                break
            i = r.randrange(len(t))
            o = r.randrange(7)
            if o == 0:
                del t[i]
            elif o == 1:
                t.insert(i, " " + r.choice(TOKENS) + " ")
            elif o == 2:
                t[i] = r.choice(TOKENS)
            elif o == 3:
                j = r.randrange(len(t))
                t[i], t[j] = t[j], t[i]
            elif o == 4:
                t.insert(i, t[i])
            elif o == 5:
                n = r.randrange(1, 12)
                del t[i:i + n]
            else:
                n = r.randrange(1, 20)
                j = r.randrange(len(t))
                t[i:i] = t[j:j + n]
        return "".join(t).encode("utf-8")
    b = bytearray(src.encode("utf-8"))
    if k == 6:
        return bytes(b[:r.randrange(len(b) + 1)])
    if k == 7:
        return bytes(b[r.randrange(len(b) + 1):])
    if k == 8:
        for _ in range(r.choice([1, 2, 5, 30])):
            b[r.randrange(len(b))] = r.getrandbits(8)
        return bytes(b)
    if k == 9 and others:
        o = r.choice(others).encode("utf-8")
        i, j = r.randrange(len(b) + 1), r.randrange(len(o) + 1)
        return bytes(b[:i]) + o[j:j + r.choice([10, 100, 1000])] + bytes(b[i:])
    if k == 10:
        l = src.split("\n")
        for _ in range(r.choice([1, 2, 4])):
            o, i = r.randrange(3), r.randrange(len(l))
            if o == 0 and len(l) > 1:
                del l[i]
            elif o == 1:
                l.insert(i, r.choice(l))
            else:
                j = r.randrange(len(l))
                l[i], l[j] = l[j], l[i]
        return "\n".join(l).encode("utf-8")
    n = r.choice([0, 1, 3, 10, 60, 300])
    if r.random() < 0.5:
        return " ".join(r.choice(TOKENS) for _ in range(n)).encode("utf-8")
    return bytes(r.getrandbits(8) for _ in range(n))


def nest(r, depth):
    """Deeply nested constructs."""
    o, m, c = r.choice([("(", "1", ")"), ("[", "", "]"), ("{", "", "}"), ("-", "1", ""), ("if (1) {", "", "}"), ("func() { ", "", "}"), ("f(", "", ")"),
                        ("\"${", "1", "}\""), ("map{1:", "2", "}"), ("(", "1", ",)"), ("a = ", "1", ""), ("a ** ", "1", ""), ("a + (", "1", ")"),
                        ("while (1) {", "", "}"), ("if 1 { } else ", "{}", ""), ("defer ", "1", ""), ("a[", "1", "]"), ("return ", "1", ""),
                        ("a ?? (", "1", ")"), ("a && ", "1", ""), ("for ;; {", "", "}"), ("(a: ", "1", ")"), ("set{", "1", "}"), ("!", "a", "")])
    return ("import std; export func main() { var a = 1; const f = main; " + o * depth + m + c * depth + "; }").encode("utf-8")
