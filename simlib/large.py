"""Sources which are large in one respect: deep, long, or with many declarations; and what they print (None: they may be rejected)."""


def _main(b):
    return "fn main() {\n%s\n}\n" % b


def shapes(r):
    n = r.choice([r.randint(2, 60), r.randint(60, 400)])
    m = r.randint(1000, 3000)
    k = r.choice([4000, 4090, 4094, 4095, 4096, 4097, 4098, 4200, 8191, 8192, 8193, 9000])
    s = r.randint(1, 200000)
    f = r.randint(2, 70)
    return [
        ("parens", _main("println(" + "(" * m + "1" + ")" * m + ")"), "1\n"),
        ("sum", _main("println(" + " + ".join(["1"] * m) + ")"), "%d\n" % m),
        ("nested sum", _main("println(" + "1 + (" * n + "0" + ")" * n + ")"), "%d\n" % n),
        ("negations", _main("println(" + "-(" * (2 * n) + "1" + ")" * (2 * n) + ")"), "1\n"),
        ("elseif", _main("x := %d\nif x == -1 {\nprintln(0)\n" % (n - 1) + "".join("} elseif x == %d {\nprintln(%d)\n" % (i, i) for i in range(n)) + "}"), "%d\n" % (n - 1)),
        ("ifs", _main("x := 1\n" + "if x == 1 {\ny := x\n" * n + "println(y)\n" + "}\n" * n), "1\n"),
        ("whiles", _main("x := 0\n" + "while x < 1 {\n" * n + "x = x + 1\n" + "}\n" * n + "println(x)"), "1\n"),
        ("fors", _main("x := 0\n" + "".join("for i%d in 0 .. 1 {\n" % i for i in range(n)) + "x = x + i%d + 1\n" % (n - 1) + "}\n" * n + "println(x)"), "1\n"),
        ("functions in functions", _main("f := " + "fn() int { g := " * f + "fn() int = 7" + " return g() }" * f + "\nprintln(f())"), "7\n"),
        ("captures of captures", _main("k := \"c\".append(\"d\")\nf := " + "fn() string { g := " * f + "fn() string = k" + " return g() }" * f + "\nprintln(f())"), "cd\n"),
        ("array", _main("a := [" + ", ".join(str(i) for i in range(m)) + "]\nprintln(a[%d])" % (m - 1)), "%d\n" % (m - 1)),
        ("array of strings", _main("a := [" + ", ".join('"%d".append("x")' % i for i in range(n)) + "]\nprintln(a[%d])\nprintln(a[0])" % (n - 1)), "%dx\n0x\n" % (n - 1)),
        ("nested arrays", _main("a := " + "[" * n + "5" + "]" * n + "\nprintln(a" + "[0]" * n + ")"), "5\n"),
        ("nested options", "fn d«T»(o: option«T», t: T) T = o.orElse(t)\n" + _main("a := " + "Some(" * n + "5" + ")" * n + "\nprintln(1)"), "1\n"),
        ("string", _main('a := "%s"\nprintln(a.length)' % ("x" * s)), "%d\n" % s),
        ("strings", _main("\n".join('s%d := "v%d".append("w")' % (i, i) for i in range(n)) + "\n" + "\n".join("println(s%d)" % i for i in range(n))), "".join("v%dw\n" % i for i in range(n))),
        ("structs", "".join("struct s%d {\nv: int\n}\n" % i for i in range(m // 3)) + _main("println(S%d(4).v)" % (m // 3 - 1)), "4\n"),
        ("cases", "enum e {\n" + "".join("C%d(v: int)\n" % i for i in range(n)) + "}\n" + _main("match C%d(4) {\n" % (n - 1) + "".join("case C%d(v): println(v + %d)\n" % (i, i) for i in range(n)) + "}"), "%d\n" % (n + 3)),
        ("functions", "".join("fn f%d(x: int) int = x + %d\n" % (i, i) for i in range(m)) + _main("println(f%d(4))" % (m - 1)), "%d\n" % (m + 3)),
        ("overloads", "".join("struct s%d {\nv: int\n}\nfn f(x: s%d) int = x.v + %d\n" % (i, i, i) for i in range(n)) + _main("println(f(S%d(4)))" % (n - 1)), "%d\n" % (n + 3)),
        ("name", _main("%s := 3\nprintln(%s)" % ("a" * m, "a" * m)), "3\n"),
        ("calls", "fn id(x: int) int = x + 1\n" + _main("println(1" + ".id()" * n + ")"), "%d\n" % (n + 1)),
        ("nested calls", "fn id(x: int, y: int) int = x + y\n" + _main("println(" + "id(2, " * n + "1" + ")" * n + ")"), "%d\n" % (2 * n + 1)),
        ("nested allocations", _main("println(" + '"a".append(' * n + '"b"' + ")" * n + ")"), "a" * n + "b\n"),
        ("ternaries", _main("println(" + "false ? 0 : " * n + "9)"), "9\n"),
        ("types", "fn f(x: " + "option«" * f + "int" + "»" * f + ") int = 1\n" + _main("println(f(" + "Some(" * f + "1" + ")" * f + "))"), "1\n"),
        ("functions of functions", "fn f(x: " + "fn() " * f + "int) int = 1\n" + _main("println(1)"), "1\n"),
        ("comments", ("// " + "c" * 50 + "\n") * m + _main("println(1)"), "1\n"),
        ("variables", _main("\n".join("v%d := %d" % (i, i) for i in range(k)) + "\nprintln(v0)\nprintln(v%d)\nprintln(v%d)" % (k // 2, k - 1)), ("0\n%d\n%d\n" % (k // 2, k - 1), k > 4000)),
        ("variables of a function", "fn f(a: string, b: int) string {\n" + "\n".join("v%d := a" % i for i in range(k)) + "\nreturn v%d.append(v0)\n}\n" % (k - 1) + _main("println(f(\"x\", 1))"), ("xx\n", k > 4000)),
        ("roots", "fn f(a: string) string {\n" + "\n".join("v%d := a.append(\"%d\")" % (i, i) for i in range(n)) + "\nreturn " + "v0" + "".join(".append(v%d)" % i for i in range(1, n)) + "\n}\n" + _main("println(f(\"x\"))"), "".join("x%d" % i for i in range(n)) + "\n"),
    ]


def pick(r, i):
    """(name, source, output, whether it may be rejected instead)"""
    all = shapes(r)
    name, src, out = all[i % len(all)]
    return (name, src) + (out if isinstance(out, tuple) else (out, False))


def heaps(r):
    """The same for what a program has in memory. They need the prelude of gen (churn)."""
    n = r.choice([r.randint(3, 40), r.randint(40, 300), r.randint(300, 700)])
    m = r.choice([r.randint(3, 40), r.randint(40, 300)])
    deep = r.choice([r.randint(3, 40), r.randint(40, 250)])
    q = r.choice([r.randint(3, 40), r.randint(40, 300), r.randint(300, 700)])
    pts = ["string", "int", "option«string»", "[]string", "fn() string", "pair«string, int»"]
    mk = {"string": '"k%d".append("s")', "int": "%d", "option«string»": 'Some("k%d".append("o"))', "[]string": '["z", "k%d".append("a")]', "fn() string": "mkf(%d)",
          "pair«string, int»": 'Pair("k%d".append("p"), 3)'}
    sh = {"string": "%s", "int": "%s.toString()", "option«string»": '%s.orElse("?")', "[]string": "%s[1]", "fn() string": "callf(%s)", "pair«string, int»": "%s.first"}
    out = {"string": "k%ds", "int": "%d", "option«string»": "k%do", "[]string": "k%da", "fn() string": "k%df", "pair«string, int»": "k%dp"}
    helpers = 'fn mkf(i: int) fn() string {\n    s := "k".append(i.toString()).append("f")\n    return fn() string = s\n}\nfn callf(f: fn() string) string = f()\n'
    t = [r.choice(pts) for _ in range(n)]
    L = []
    # a chain of values, each of a type of its own
    src = helpers + "".join("struct ty%d {\n    a: %s\n    b: option«ty%d»\n}\n" % (i, t[i], (i + 1) % n) if i % 2 else
                            "struct ty%d {\n    n: int\n    b: option«ty%d»\n    a: %s\n}\n" % (i, (i + 1) % n, t[i]) for i in range(n))
    src += "".join("fn mk%d(%s) ty%d = %s\n" % (i, "" if i == n - 1 else "x: ty%d" % (i + 1), i,
                                               ("Ty%d(%s, %s)" if i % 2 else "Ty%d(7, %s, %s)") % ((i,) + ((lambda a, b: (a, b) if i % 2 else (b, a))(
                                                   mk[t[i]] % i, "None«ty0»()" if i == n - 1 else "Some(x)")))) for i in range(n))
    src += "".join("fn sh%d(v: ty%d) string {\n    %s\n    return %s\n}\n" % (i, i, "" if i == n - 1 else "match v.b {\n        case Some(w): println(sh%d(w))\n        case None(): println(\"lost\")\n    }" % (i + 1), sh[t[i]] % "v.a") for i in range(n))
    body = ["v%d := mk%d(%s)" % (i, i, "" if i == n - 1 else "v%d" % (i + 1)) + ("\n    churn(1)" if r.random() < 0.2 else "") for i in reversed(range(n))]
    L.append(("chain of types", src + _main("\n".join(body) + "\nchurn(1)\nprintln(sh0(v0))"), "".join(out[t[i]] % i + "\n" for i in reversed(range(n)))))
    # constructors of one enum
    t = [[r.choice(pts) for _ in range(r.randint(0, 3))] for _ in range(m)]
    src = helpers + "enum en {\n" + "".join("    Cn%d(%s)\n" % (i, ", ".join("f%d: %s" % (j, x) for j, x in enumerate(t[i]))) for i in range(m)) + "}\n"
    src += "fn show(e: en) string {\n    match e {\n" + "".join("        case Cn%d(%s): return %s\n" % (i, ", ".join("g%d" % j for j in range(len(t[i]))),
           '"%d"' % i + "".join(".append(%s)" % (sh[x] % ("g%d" % j)) for j, x in enumerate(t[i]))) for i in range(m)) + "    }\n}\n"
    L.append(("constructors", src + _main("a := [" + ", ".join("Cn%d(%s)" % (i, ", ".join(mk[x] % (i + j) for j, x in enumerate(t[i]))) for i in range(m)) +
              "]\nchurn(2)\nfor e in a {\n    println(show(e))\n    churn(1)\n}"), "".join("%d" % i + "".join(out[x] % (i + j) for j, x in enumerate(t[i])) + "\n" for i in range(m))))
    # frames below each other, each with values of its own
    L.append(("frames", "fn down(i: int, s: string) string {\n    a := s.append(\"x\")\n    b := [a, \"q\".append(i.toString())]\n    if i == 0 {\n        churn(2)\n        return b[1]\n    }\n"
              "    t := down(i - 1, b[1])\n    return a.length > 0 ? t.append(b[1]).append(\",\") : \"lost\"\n}\n" + _main('println(down(%d, "r"))' % deep),
              "q0" + "".join("q%d," % i for i in range(1, deep + 1)) + "\n"))
    L.append(("frames of closures", "fn down(i: int, f: fn(string) string) string {\n    s := i.toString()\n    g := fn(x: string) string = f(x.append(s))\n    churn(0)\n    return i == 0 ? g(\"v\") : down(i - 1, g)\n}\n"
              + _main('println(down(%d, fn(x: string) string = x.append("!")))' % min(deep, 120)), "v" + "".join("%d" % i for i in range(min(deep, 120) + 1)) + "!\n"))
    # blocks in blocks, each with variables
    L.append(("blocks", "fn one() int = 1\n" + _main("".join("if one() == 1 {\n    a%d := \"b\".append(\"%d\")\n    c%d := %d\n" % (i, i, i, i) for i in range(min(m, 80))) + "churn(1)\n" +
              "".join("println(a%d)\nprintln(c%d)\n}\n" % (i, i) for i in reversed(range(min(m, 80))))), "".join("b%d\n%d\n" % (i, i) for i in reversed(range(min(m, 80))))))
    # functions which capture values of different types
    t = [r.sample(pts, r.randint(1, 5)) for _ in range(m)]
    body = "".join("".join("x%d_%d := %s\n" % (i, j, mk[x] % (i + j)) for j, x in enumerate(t[i])) + "f%d := fn() string = %s\n" % (i, '"%d"' % i + "".join(".append(%s)" % (sh[x] % ("x%d_%d" % (i, j))) for j, x in enumerate(t[i])))
                   for i in range(m))
    L.append(("closures", helpers + "fn all() []fn() string {\n" + body + "return [" + ", ".join("f%d" % i for i in range(m)) + "]\n}\n" + _main("a := all()\nchurn(1)\nfor f in a {\n    println(f())\n    churn(0)\n}"),
              "".join("%d" % i + "".join(out[x] % (i + j) for j, x in enumerate(t[i])) + "\n" for i in range(m))))
    # long arrays and lists
    L.append(("array of %d" % q, _main('a := stringArray(%d, "")\nfor i in 0 .. %d {\n    a[i] = "e".append(i.toString())\n}\nchurn(1)\nn := 0\nfor s in a {\n    n = n + s.length\n}\nprintln(n)\nprintln(a[%d])' % (q, q, q - 1)),
              "%d\ne%d\n" % (sum(1 + len(str(i)) for i in range(q)), q - 1)))
    L.append(("list of %d" % q, "fn len(l: list«string», n: int) int {\n    while true {\n        match l {\n            case Element(v, w):\n                l = w\n                n = n + v.length\n            case Empty(): return n\n        }\n    }\n    return 0\n}\n"
              + _main('l := Empty«string»()\nfor i in 0 .. %d {\n    l = Element("e".append(i.toString()), l)\n}\nchurn(1)\nprintln(len(l, 0))' % q), "%d\n" % sum(1 + len(str(i)) for i in range(q))))
    L.append(("map of %d" % q, "fn same(a: int, b: int) bool = a == b\nfn spread(a: int) int = a & 63\n" + _main('m := NewHashMap«int, string»(spread, same)\nfor i in 0 .. %d {\n    m.put(i, "e".append(i.toString()))\n}\nchurn(1)\nn := 0\nfor i in 0 .. %d {\n    n = n + m.get(i).orElse("").length\n}\nprintln(n)' % (q, q)),
              "%d\n" % sum(1 + len(str(i)) for i in range(q))))
    # wide and deep calls
    d = min(deep, 60)
    a = ['"%s".append("w")' % "abcdef"[j] for j in range(6)]
    k = r.randrange(6)
    e = '"0"'
    x = "0"
    for _ in range(d):
        e = "six(%s)" % ", ".join(e if j == k else a[j] for j in range(6))
        x = "".join(x if j == k else "abcdef"[j] + "w" for j in range(6))
    L.append(("wide calls", "fn six(a: string, b: string, c: string, d: string, e: string, f: string) string {\n    churn(0)\n    return a.append(b).append(c).append(d).append(e).append(f)\n}\n" + _main("println(%s)" % e), x + "\n"))
    # instances of a generic type
    s, x = '"i".append("j")', 0
    w = r.randint(1, min(m, 30))
    L.append(("instances", _main("".join("v%d := Gbox(%s, %d)\nchurn(0)\n" % (i, '"i".append("j")' if i == 0 else "[v%d]" % (i - 1) if i % 2 else "v%d" % (i - 1), i) for i in range(w)) +
              "println(v%d%s)" % (w - 1, "".join(".v[0]" if i % 2 else ".v" for i in reversed(range(w)))) + "\n" + "".join("println(v%d.n)\n" % i for i in range(w))),
              "ij\n" + "".join("%d\n" % i for i in range(w))))
    # literals
    L.append(("literals", _main("a := [" + ", ".join('"lit%d"' % (i // 2) for i in range(n)) + "]\nchurn(1)\nfor s in a {\n    println(s)\n}"), "".join("lit%d\n" % (i // 2) for i in range(n))))
    return L


def heap(r, i):
    """(name, source after the prelude, output)"""
    all = heaps(r)
    return all[i % len(all)]
