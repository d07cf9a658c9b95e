"""Small sources in which a value of one type reaches a place meant for another, a name is used where it has no value, or a
function may end without a result. A compiler has to reject them; if it accepts one, what the program does shows it."""

DECLS = '''
struct fsa {
    x: string
}
struct fsb {
    y: int
    z: string
}
struct fsc {
    y: int
    z: fsb
    w: []string
}
enum fea {
    Fa1(s: string)
    Fa2()
    Fa3(i: int, s: string)
}
enum feb {
    Fb1(i: int)
    Fb2(a: fsa, b: []string)
}
fn shw(i: int) string = i.toString()
fn shw(s: string) string = s.append("$")
fn shw(b: bool) string = b ? "T" : "F"
fn shw(a: []int) string {
    s := "["
    for i in a {
        s = s.append(i.toString())
    }
    return s
}
fn shw(a: []string) string {
    s := "["
    for i in a {
        s = s.append(i)
    }
    return s
}
fn shw(a: fsa) string = a.x.append("fsa")
fn shw(a: fsb) string = a.z.append(a.y.toString())
fn shw(a: fsc) string = shw(a.w).append(shw(a.z))
fn shw(a: fea) string {
    match a {
        case Fa1(s): return s.append("1")
        case Fa2(): return "fa2"
        case Fa3(i, s): return s.append(i.toString())
    }
}
fn shw(a: feb) string {
    match a {
        case Fb1(i): return i.toString()
        case Fb2(a, b): return shw(a).append(shw(b))
    }
}
fn shw(o: option«int») string = o.orElse(3).toString()
fn shw(o: option«string») string = o.orElse("none").append("o")
fn shw(o: option«fsb») string = shw(o.orElse(Fsb(4, "fsb")))
fn shw(g: gbox«int») string = (g.v + g.n).toString()
fn shw(g: gbox«string») string = g.v.append(g.n.toString())
fn shw(p: pair«int, string») string = p.second.append(p.first.toString())
fn shw(p: pair«string, int») string = p.first.append(p.second.toString())
fn shw(l: list«string») string = l.reduce("l", fn(a: string, b: string) string = a.append(b))
fn shw(l: list«int») string = l.reduce(0, fn(a: int, b: int) int = a + b).toString()
fn shw(f: fn(int) string) string = f(5)
fn shw(f: fn(string) int) string = f("five").toString()
fn shw(f: fn(string, int) string) string = f("five", 5)
fn same«T»(x: T, y: T) T = y
fn unb«T»(x: gbox«T») T = x.v
fn opt«T»(x: option«T», y: T) T = x.orElse(y)
fn noval(i: int) {
    churn(i)
}
'''

TYPES = [
    ("int", "7"), ("string", '"str".append("ing")'), ("bool", "true"), ("[]int", "[5, 6]"), ("[]string", '["s".append("1"), "s2"]'),
    ("fsa", 'Fsa("x".append("a"))'), ("fsb", 'Fsb(8, "z".append("b"))'), ("fsc", 'Fsc(9, Fsb(2, "c".append("c")), ["w".append("w")])'),
    ("fea", 'Fa3(6, "e".append("f"))'), ("fea", 'Fa1("e".append("g"))'), ("feb", "Fb1(11)"), ("feb", 'Fb2(Fsa("p".append("q")), ["r".append("t")])'),
    ("option«int»", "Some(12)"), ("option«string»", 'Some("so".append("me"))'), ("option«fsb»", 'Some(Fsb(3, "f".append("s")))'),
    ("gbox«int»", "Gbox(13, 1)"), ("gbox«string»", 'Gbox("g".append("b"), 2)'),
    ("pair«int, string»", 'Pair(14, "p".append("i"))'), ("pair«string, int»", 'Pair("p".append("s"), 15)'),
    ("list«string»", 'Element("l".append("s"), Empty«string»())'), ("list«int»", "Element(16, Empty«int»())"),
    ("fn(int) string", 'fn(zi: int) string = zi.toString().append("f")'), ("fn(string) int", "fn(zs: string) int = zs.length"),
    ("fn(string, int) string", "fn(zs: string, zi: int) string = zs.append(zi.toString())"),
]

# %(A)s the type wanted, %(a)s a value of it, %(b)s a value of the other type %(B)s; c is false at run time.
SITES = [
    ("", "v := %(a)s\n v = %(b)s\n say(shw(v))"),
    ("fn site() %(A)s {\n churn(1)\n return %(b)s\n}", "say(shw(site()))"),
    ("fn site(c: bool) %(A)s {\n if c {\n return %(a)s\n }\n return %(b)s\n}", "say(shw(site(c)))"),
    ("fn site(c: bool) %(A)s {\n while true {\n if c {\n return %(a)s\n } else {\n return %(b)s\n }\n }\n return %(a)s\n}", "say(shw(site(c)))"),
    ("fn site() %(A)s = %(b)s", "say(shw(site()))"),
    ("fn site(c: bool) %(A)s = c ? %(a)s : %(b)s", "say(shw(site(c)))"),
    ("fn site(x: %(A)s) string = shw(x)", "say(site(%(b)s))"),
    ("fn site(x: %(A)s) string = shw(x)", "w := %(b)s\n say(w.site())"),
    ("fn site(i: int, x: %(A)s) string = shw(x)", "say(site(1, %(b)s))"),
    ("fn site(x: %(A)s, i: int, s: string) string = shw(x)", "say(site(%(b)s, 2, \"t\"))"),
    ("fn site(x: %(A)s, i: int) string = shw(x)\nfn site(x: string, s: string) string = s", "say(site(%(b)s, 2))"),
    ("", "v := c ? %(a)s : %(b)s\n say(shw(v))"),
    ("", "v := c ? (c ? %(b)s : %(a)s) : %(b)s\n say(shw(v))"),
    ("", "say(shw(c ? %(a)s : %(b)s))"),
    ("", "v := [%(a)s, %(b)s]\n say(shw(v[1]))"),
    ("", "v := [[%(a)s], [%(b)s]]\n say(shw(v[1][0]))"),
    ("", "v := [%(a)s, %(a)s]\n v[1] = %(b)s\n say(shw(v[1]))"),
    ("", "v := array(2, %(a)s)\n v[0] = %(b)s\n for e in v {\n say(shw(e))\n }"),
    ("struct hs {\n f: %(A)s\n n: int\n}", "v := Hs(%(a)s, 1)\n v.f = %(b)s\n say(shw(v.f))"),
    ("struct hs {\n f: %(A)s\n n: int\n}", "say(shw(Hs(%(b)s, 1).f))"),
    ("struct hs {\n n: int\n f: option«%(A)s»\n}", "v := Hs(1, Some(%(a)s))\n v.f = Some(%(b)s)\n say(shw(v.f.orElse(%(a)s)))"),
    ("struct hs {\n n: int\n f: []%(A)s\n}", "v := Hs(1, [%(b)s])\n say(shw(v.f[0]))"),
    ("struct hs«T» {\n f: T\n g: gbox«T»\n}", "v := Hs(%(a)s, Gbox(%(b)s, 1))\n say(shw(v.f))\n say(shw(same(v.f, v.g.v)))"),
    ("struct hs«T» {\n f: T\n g: gbox«T»\n}", "v := Hs(%(a)s, Gbox(%(a)s, 1))\n v.g = Gbox(%(b)s, 2)\n say(shw(v.g.v))"),
    ("struct hs«T» {\n f: T\n}\nfn un(h: hs«%(A)s») string = shw(h.f)", "say(un(Hs(%(b)s)))"),
    ("enum he {\n He1(f: %(A)s)\n He2()\n}", "match He1(%(b)s) {\n case He1(f): say(shw(f))\n case He2(): say(\"2\")\n }"),
    ("enum he {\n He2()\n He1(n: int, f: []%(A)s)\n}", "match He1(1, [%(b)s]) {\n case He2(): say(\"2\")\n case He1(n, f): say(shw(f[0]))\n }"),
    ("enum he«T» {\n He1(f: T)\n He2(g: T, h: T)\n}\nfn un(h: he«%(A)s») string {\n match h {\n case He1(f): return shw(f)\n case He2(g, h): return shw(h)\n }\n}", "say(un(He1(%(b)s)))"),
    ("enum he«T» {\n He1(f: T)\n He2(g: T, h: T)\n}", "match He2(%(a)s, %(b)s) {\n case He1(f): say(shw(f))\n case He2(g, h): say(shw(same(g, h)))\n }"),
    ("enum he«T» {\n He1(f: T)\n He2(g: T, h: T)\n}", "v := He1(%(a)s)\n v = He1(%(b)s)\n match v {\n case He1(f): say(shw(f))\n case He2(g, h): say(shw(h))\n }"),
    ("", "f := fn() %(A)s {\n return %(b)s\n }\n say(shw(f()))"),
    ("", "f := fn(k: int) %(A)s = %(b)s\n say(shw(f(1)))"),
    ("", "k := %(b)s\n f := fn() %(A)s = k\n say(shw(f()))"),
    ("", "f := fn(x: %(A)s) string = shw(x)\n say(f(%(b)s))"),
    ("", "k := 3\n f := fn(n: int, x: %(A)s) string = shw(x).append(k.toString())\n say(f(1, %(b)s))"),
    ("", "v := %(a)s\n f := fn() string {\n v = %(b)s\n return shw(v)\n }\n say(f())"),
    ("", "f := fn() %(A)s = %(a)s\n f = fn() %(B)s = %(b)s\n say(shw(f()))"),
    ("", "f := fn(x: %(A)s) string = shw(x)\n f = fn(x: %(B)s) string = shw(x)\n say(f(%(a)s))"),
    ("", "f := [fn() %(A)s = %(a)s, fn() %(B)s = %(b)s]\n say(shw(f[1]()))"),
    ("fn ap(f: fn(%(A)s) string) string = f(%(a)s)", "say(ap(fn(x: %(B)s) string = shw(x)))"),
    ("fn ap(f: fn() %(A)s) string = shw(f())", "say(ap(fn() %(B)s = %(b)s))"),
    ("fn ap(f: fn(int) fn() %(A)s) string = shw(f(1)())", "say(ap(fn(i: int) fn() %(B)s = fn() %(B)s = %(b)s))"),
    ("fn ap(f: fn(%(A)s) string) string = f(%(a)s)\nfn oth(x: %(B)s) string = shw(x)", "say(ap(oth))"),
    ("fn ap«T»(f: fn(T) string, x: T) string = f(x)", "say(ap(fn(x: %(A)s) string = shw(x), %(b)s))"),
    ("fn ap«T»(x: T, f: fn(T) string) string = f(x)", "say(ap(%(b)s, fn(x: %(A)s) string = shw(x)))"),
    ("fn ap«T, U»(x: T, f: fn(T) U, g: fn(U) string) string = g(f(x))", "say(ap(1, fn(i: int) %(B)s = %(b)s, fn(x: %(A)s) string = shw(x)))"),
    ("fn oth(x: %(B)s) string = shw(x)\nfn oth(x: int, y: int) string = \"2\"\nfn ap«T»(x: T, f: fn(T) string) string = f(x)", "say(ap(%(a)s, oth))"),
    ("", "say(shw(same(%(a)s, %(b)s)))"),
    ("", "say(shw(same«%(A)s»(%(b)s, %(b)s)))"),
    ("", "say(shw(same(Some(%(a)s), Some(%(b)s)).orElse(%(a)s)))"),
    ("", "say(shw(opt(Some(%(b)s), %(a)s)))"),
    ("", "say(shw(opt(None«%(A)s»(), %(b)s)))"),
    ("fn un(b: gbox«%(A)s») %(A)s = b.v", "say(shw(un(Gbox(%(b)s, 1))))"),
    ("fn un(b: gbox«%(A)s») %(A)s = unb(b)", "v := Gbox(%(a)s, 1)\n v = Gbox(%(b)s, 1)\n say(shw(un(v)))"),
    ("", "v := Gbox(%(a)s, 1)\n v.v = %(b)s\n say(shw(v.v))"),
    ("", "v := Pair(%(a)s, 1)\n v.first = %(b)s\n say(shw(v.first))"),
    ("", "v := Element(%(a)s, Element(%(b)s, Empty«%(A)s»()))\n say(shw(v.find(fn(x: %(A)s) bool = false).orElse(%(a)s)))\n v.foreach(fn(x: %(A)s) {\n say(shw(x))\n })"),
    ("", "v := Element(%(b)s, Empty«%(A)s»())\n v.foreach(fn(x: %(A)s) {\n say(shw(x))\n })"),
    ("", "v := %(a)s\n for e in [%(b)s] {\n v = e\n }\n say(shw(v))"),
    ("", "for e in [%(b)s] {\n e = %(a)s\n say(shw(same(%(a)s, e)))\n }"),
    ("", "v := [%(a)s]\n for e in v {\n e = %(b)s\n say(shw(e))\n }"),
    ("", "match Some(%(a)s) {\n case Some(x):\n x = %(b)s\n say(shw(x))\n case None(): say(\"n\")\n }"),
    ("fn gen«T»(x: T) %(A)s {\n churn(1)\n return x\n}", "say(shw(gen(%(b)s)))"),
    ("fn gen«T»(x: %(B)s, y: T) T {\n churn(1)\n return x\n}", "say(shw(gen(%(b)s, %(a)s)))"),
    ("fn gen«T, U»(x: T, y: U) T = y", "say(shw(gen(%(a)s, %(b)s)))"),
    ("fn gen«T, U»(x: T, y: U) T {\n v := x\n v = y\n return v\n}", "say(shw(gen(%(a)s, %(b)s)))"),
    ("fn gen«T, U»(x: T, y: U, c: bool) T {\n v := c ? x : y\n return v\n}", "say(shw(gen(%(a)s, %(b)s, c)))"),
    ("fn gen«T, U»(x: T, y: U) []T {\n v := [x, y]\n return v\n}", "say(shw(gen(%(a)s, %(b)s)[1]))"),
    ("fn gen«T, U»(x: T, y: U) []T {\n v := [x]\n v[0] = y\n return v\n}", "say(shw(gen(%(a)s, %(b)s)[0]))"),
    ("fn gen«T, U»(x: []T, y: []U) []T = y", "say(shw(gen([%(a)s], [%(b)s])[0]))"),
    ("fn gen«T, U»(x: option«T», y: option«U») option«T» = y", "say(shw(gen(Some(%(a)s), Some(%(b)s)).orElse(%(a)s)))"),
    ("fn gen«T, U»(x: option«T», y: option«U») option«T» {\n v := x\n v = y\n return v\n}", "say(shw(gen(Some(%(a)s), Some(%(b)s)).orElse(%(a)s)))"),
    ("fn gen«T, U»(x: gbox«T», y: gbox«U») gbox«T» = y", "say(shw(gen(Gbox(%(a)s, 1), Gbox(%(b)s, 2)).v))"),
    ("fn gen«T, U»(x: gbox«T», y: U) gbox«T» {\n x.v = y\n return x\n}", "say(shw(gen(Gbox(%(a)s, 1), %(b)s).v))"),
    ("fn gen«T, U»(x: T, y: U) gbox«T» = Gbox(y, 1)", "say(shw(gen(%(a)s, %(b)s).v))"),
    ("fn gen«T, U»(x: pair«T, U») pair«U, T» = x", "say(shw(gen(Pair(%(b)s, %(a)s)).first))"),
    ("fn gen«T, U»(f: fn(T) string, y: U) string = f(y)", "say(gen(fn(x: %(A)s) string = shw(x), %(b)s))"),
    ("fn gen«T, U»(f: fn() T, g: fn() U) fn() T = g", "say(shw(gen(fn() %(A)s = %(a)s, fn() %(B)s = %(b)s)()))"),
    ("fn gen«T, U»(f: fn(T) string, g: fn(U) string) fn(T) string = g", "say(gen(fn(x: %(A)s) string = shw(x), fn(x: %(B)s) string = shw(x))(%(a)s))"),
    ("fn gen«T, U»(x: T, y: U) fn() T = fn() T = y", "say(shw(gen(%(a)s, %(b)s)()))"),
    ("fn gen«T, U»(x: list«T», y: U) list«T» = Element(y, x)", "gen(Element(%(a)s, Empty«%(A)s»()), %(b)s).foreach(fn(x: %(A)s) {\n say(shw(x))\n })"),
    ("fn gen«T, U»(x: T, y: U) T = same(x, y)", "say(shw(gen(%(a)s, %(b)s)))"),
    ("struct hs«T, U» {\n f: T\n g: U\n}\nfn gen«T, U»(x: hs«T, U») hs«U, T» = x", "say(shw(gen(Hs(%(b)s, %(a)s)).f))"),
    ("enum he«T, U» {\n He1(f: T)\n He2(g: U)\n}\nfn gen«T, U»(x: he«T, U») he«U, T» = x",
     "match gen(He2«%(B)s, %(A)s»(%(a)s)) {\n case He1(f): say(shw(f))\n case He2(g): say(shw(same(%(b)s, g)))\n }"),
    ("enum he«T, U» {\n He1(f: T)\n He2(g: U)\n}\nfn gen«T, U»(x: he«T, U», t: T) T {\n match x {\n case He1(f): return f\n case He2(g): return g\n }\n}", "say(shw(gen(He2«%(A)s, %(B)s»(%(b)s), %(a)s)))"),
    # values where there are none
    ("", "if c {\n w := %(a)s\n }\n say(shw(w))"),
    ("", "if not c {\n w := %(a)s\n }\n say(shw(w))"),
    ("", "if not c {\n say(\"x\")\n } else {\n w := %(a)s\n say(shw(w))\n }\n say(shw(w))"),
    ("", "while c {\n w := %(a)s\n }\n say(shw(w))"),
    ("", "for w in [%(a)s] {\n say(\"f\")\n }\n say(shw(w))"),
    ("", "match Some(%(a)s) {\n case Some(w): say(\"s\")\n case None(): say(shw(w))\n }\n say(shw(w))"),
    ("", "match Some(%(a)s) {\n case None(): say(\"s\")\n case Some(w): say(shw(w))\n }\n say(shw(w))"),
    ("", "match None«%(A)s»() {\n case Some(w): say(\"s\")\n case None(): say(shw(w))\n }"),
    ("", "say(shw(w))\n w := %(a)s\n say(shw(w))"),
    ("", "f := fn() string = shw(w)\n w := %(a)s\n say(f())"),
    ("", "w := c ? %(a)s : w\n say(shw(w))"),
    ("", "f := fn() string {\n w := %(a)s\n return shw(w)\n }\n say(f())\n say(shw(w))"),
    ("", "f := fn(w: %(A)s) string = shw(w)\n say(f(%(a)s))\n say(shw(w))"),
    ("fn site(w: %(A)s) string = shw(w)", "say(site(%(a)s))\n say(shw(w))"),
    ("fn site(c: bool) string {\n if c {\n w := %(a)s\n }\n f := fn() string = shw(w)\n return f()\n}", "say(site(c))"),
    ("", "v := %(a)s\n v := %(b)s\n say(shw(v))"),
    ("fn site(v: %(A)s) string {\n v := %(b)s\n return shw(v)\n}", "say(site(%(a)s))"),
    ("fn site(v: %(A)s, v: %(B)s) string = shw(v)", "say(site(%(a)s, %(b)s))"),
    ("struct hs {\n f: %(A)s\n f: %(B)s\n}", "say(shw(Hs(%(a)s, %(b)s).f))"),
    ("enum he {\n He1(f: %(A)s, g: %(B)s)\n He2()\n}", "match He1(%(a)s, %(b)s) {\n case He1(f, f): say(shw(f))\n case He2(): say(\"\")\n }"),
    ("", "v := noval(1)\n say(shw(v))"),
    ("", "v := %(a)s\n v = noval(1)\n say(shw(v))"),
    ("fn site() %(A)s = noval(1)", "say(shw(site()))"),
    ("fn site() %(A)s {\n return\n}", "say(shw(site()))"),
    ("", "v := c ? %(a)s : noval(1)\n say(shw(v))"),
    ("", "v := [noval(1)]\n say(shw(same(%(a)s, v[0])))"),
    # functions without a result, with other parameters
    ("fn ap(f: fn(int) %(A)s) string = shw(f(1))", "say(ap(noval))"),
    ("fn ap(f: fn(int) %(A)s) string = shw(f(1))", "say(ap(fn(i: int) {\n churn(i)\n }))"),
    ("fn ap(f: fn() %(A)s) string = shw(f())", "say(ap(fn() {\n churn(1)\n }))"),
    ("", "f := fn(i: int) %(A)s = %(a)s\n f = noval\n say(shw(f(1)))"),
    ("", "f := fn(i: int) %(A)s = %(a)s\n f = fn(i: int) {\n churn(i)\n }\n say(shw(f(1)))"),
    ("", "f := [fn(i: int) %(A)s = %(a)s, fn(i: int) {\n churn(i)\n }]\n say(shw(f[1](1)))"),
    ("struct hs {\n f: fn(int, string) %(A)s\n}", "v := Hs(fn(i: int, s: string) {\n churn(i)\n })\n say(shw(v.f(1, \"s\")))"),
    ("fn ap«T»(f: fn(int) T) T = f(1)", "say(shw(same(%(a)s, ap(noval))))"),
    ("fn ap«T»(f: fn(int) T, t: T) T = f(1)", "say(shw(ap(noval, %(a)s)))"),
    ("fn ap«T»(t: T, f: fn(int) T) T = f(1)", "say(shw(ap(%(a)s, noval)))"),
    ("fn mk(i: int) fn(int) %(A)s = noval", "say(shw(mk(1)(2)))"),
    ("fn mk(i: int) fn(int) %(A)s {\n return fn(j: int) {\n churn(i)\n }\n}", "say(shw(mk(1)(2)))"),
    ("fn ap(f: fn(int, %(B)s) string) string = f(1, %(b)s)", "say(ap(fn(x: %(B)s) string = shw(x)))"),
    ("fn ap(f: fn(int, %(A)s) string) string = f(1, %(a)s)", "say(ap(fn(x: %(B)s, i: int) string = shw(x)))"),
    ("fn ap(f: fn(%(A)s) string) string = f(%(a)s)", "say(ap(fn(x: %(A)s, y: %(B)s) string = shw(y)))"),
    ("fn ap(f: fn() string) string = f()", "say(ap(fn(x: %(B)s) string = shw(x)))"),
    ("fn ap«T»(f: fn(T, int) string, x: T) string = f(x, 1)", "say(ap(fn(i: int, x: %(A)s) string = shw(x), %(a)s))"),
    ("fn ap(f: fn(fn(%(A)s) string) string) string = f(fn(x: %(A)s) string = shw(x))", "say(ap(fn(g: fn(%(B)s) string) string = g(%(b)s)))"),
    ("fn ap(f: fn([]%(A)s) %(A)s) string = shw(f([%(a)s]))", "say(ap(fn(x: []%(B)s) %(A)s = %(a)s))\n say(ap(fn(x: []%(A)s) %(B)s = %(b)s))"),
    # generic types in arrays, functions and each other
    ("fn site(v: []option«%(A)s») string = shw(v[0].orElse(%(a)s))", "say(site([Some(%(b)s)]))"),
    ("fn site(v: option«[]%(A)s») string = shw(v.orElse([%(a)s])[0])", "say(site(Some([%(b)s])))"),
    ("fn site(v: []gbox«%(A)s») string = shw(v[0].v)", "say(site([Gbox(%(b)s, 1)]))"),
    ("fn site(v: gbox«option«%(A)s»») string = shw(v.v.orElse(%(a)s))", "say(site(Gbox(Some(%(b)s), 1)))"),
    ("fn site(v: pair«int, list«%(A)s»») string = shw(v.second.find(fn(x: %(A)s) bool = true).orElse(%(a)s))", "say(site(Pair(1, Element(%(b)s, Empty«%(B)s»()))))"),
    ("", "v := [Some(%(a)s), Some(%(b)s)]\n say(shw(v[1].orElse(%(a)s)))"),
    ("", "v := [Gbox(%(a)s, 1)]\n v[0] = Gbox(%(b)s, 1)\n say(shw(v[0].v))"),
    ("", "v := c ? Some(%(a)s) : Some(%(b)s)\n say(shw(v.orElse(%(a)s)))"),
    ("", "v := c ? [%(a)s] : [%(b)s]\n say(shw(v[0]))"),
    ("", "v := c ? Gbox([%(a)s], 1) : Gbox([%(b)s], 1)\n say(shw(v.v[0]))"),
    ("fn ap«T»(v: []T, x: T) T = v[0]", "say(shw(ap([%(b)s], %(a)s)))\n say(shw(same(%(a)s, ap([%(b)s], %(a)s))))"),
    ("fn ap«T»(x: T, v: []option«T») T = v[0].orElse(x)", "say(shw(ap(%(a)s, [Some(%(b)s)])))"),
    ("fn ap«T»(x: T, v: fn() gbox«T») T = v().v", "say(shw(ap(%(a)s, fn() gbox«%(B)s» = Gbox(%(b)s, 1))))"),
    ("enum he {\n He1(f: []%(A)s, g: []%(B)s)\n}", "match He1([%(a)s], [%(b)s]) {\n case He1(f, g):\n say(shw(f[0]))\n say(shw(same(f, g)[0]))\n }"),
    ("enum he {\n He1(f: %(A)s, g: int, h: %(B)s)\n}\nfn un(h: he) %(A)s {\n match h {\n case He1(f, g, h): return h\n }\n}", "say(shw(un(He1(%(a)s, 2, %(b)s))))"),
    # other operands
    ("", "say((%(b)s + 1).toString())"), ("", "say((1 - %(b)s).toString())"), ("", "say((%(b)s * %(b)s).toString())"), ("", "say((%(b)s & 1023).toString())"), ("", "say((1 << %(b)s).toString())"),
    ("", "v := %(b)s\n say((-v).toString())"), ("", "v := %(b)s\n say((~v).toString())"), ("", "say(%(b)s < 12 ? \"lt\" : \"ge\")"), ("", "say(12 > %(b)s ? \"lt\" : \"ge\")"),
    ("", "say([1, 2][%(b)s].toString())"), ("", "v := [1, 2]\n v[%(b)s] = 3\n say(v[0].toString())"),
    ("", "say(shw(%(b)s[0]))"), ("", "say(%(b)s.length.toString())"), ("", "say(shw(%(b)s.x))"), ("", "say(shw(%(b)s.z))"), ("", "say(shw(%(b)s.w))"), ("", "say(shw(%(b)s.first))"), ("", "say(shw(%(b)s.v))"),
    ("", "v := %(b)s\n say(v(5))"), ("", "v := %(b)s\n say(v(\"x\").toString())"), ("", "v := %(b)s\n say(v(\"x\", 2))"), ("", "v := %(b)s\n say(v())"),
    ("", "for e in %(b)s {\n say(shw(e))\n }"),
    ("", "match %(b)s {\n case Fa1(s): say(s)\n case Fa2(): say(\"2\")\n case Fa3(i, s): say(s)\n }"),
    ("", "match %(b)s {\n case Fb1(i): say(i.toString())\n case Fb2(a, b): say(shw(a))\n }"),
    ("", "match %(b)s {\n case Some(i): say(shw(i))\n case None(): say(\"\")\n }"),
    ("", "match %(b)s {\n case Element(i, l): say(shw(i))\n case Empty(): say(\"\")\n }"),
    ("fn site(x: fea) string {\n match x {\n case Fa1(s): return s\n case Fb2(a, b): return shw(b)\n case Fa3(i, s): return s\n }\n}", "say(site(Fa2()))"),
    ("fn site(x: feb) string {\n match x {\n case Fb1(i): return i.toString()\n case Fa2(): return shw(%(a)s)\n }\n}", "say(site(Fb2(Fsa(\"q\"), [\"r\"])))"),
    ("fn site(x: fea) string {\n match x {\n case Fa1(s): return s\n case Fa3(i, s): return s\n }\n}", "say(site(Fa2()))"),
    ("fn site(x: fea) string {\n match x {\n case Fa1(s): return s\n case Fa1(s): return s\n case Fa3(i, s): return s\n }\n}", "say(site(Fa2()))"),
    ("fn site(x: fea) string {\n match x {\n case Fa1(s, t): return t\n case Fa2(): return \"\"\n case Fa3(i, s): return s\n }\n}", "say(site(Fa1(\"q\")))"),
    ("fn site(x: fea) string {\n match x {\n case Fa1(s): return s\n case Fa2(t): return t\n case Fa3(i, s): return s\n }\n}", "say(site(Fa2()))"),
    ("fn site(x: fea) string {\n match x {\n case Fa1(s): return s\n case Fa2(): return \"\"\n case Fa3(s): return s\n }\n}", "say(site(Fa3(1, \"q\")))"),
    # numbers of arguments and type parameters
    ("fn site(x: int, y: %(A)s) string = shw(y)", "say(site(1))"), ("fn site(x: %(A)s) string = shw(x)", "say(site())"), ("fn site(x: %(A)s) string = shw(x)", "say(site(%(b)s, %(a)s))"),
    ("struct hs {\n n: int\n f: %(A)s\n}", "say(shw(Hs(1).f))"), ("struct hs {\n f: %(A)s\n}", "say(shw(Hs().f))"),
    ("", "f := fn(n: int, x: %(A)s) string = shw(x)\n say(f(1))"), ("", "f := fn(x: %(A)s) string = shw(x)\n say(f())"),
    ("", "say(shw(Gbox(%(a)s).v))"), ("", "match Fa3(1) {\n case Fa1(s): say(s)\n case Fa2(): say(\"2\")\n case Fa3(i, s): say(s)\n }"),
    ("struct hs«T, U» {\n f: T\n g: U\n}\nfn un(h: hs«%(A)s») string = shw(h.f)", "say(un(Hs(%(b)s, %(b)s)))"),
    ("struct hs«T, U» {\n f: T\n g: U\n}\nfn un(h: hs«%(A)s, %(B)s») string = shw(h.f)", "say(un(Hs(%(b)s, %(a)s)))"),
    ("struct hs«T» {\n f: T\n}\nfn un(h: hs) string = shw(same(%(a)s, h.f))", "say(un(Hs(%(b)s)))"),
    ("fn un(h: gbox) gbox«%(A)s» = h", "say(shw(un(Gbox(%(b)s, 1)).v))"),
    ("fn un(h: option) option«%(A)s» = h", "say(shw(un(Some(%(b)s)).orElse(%(a)s)))"),
]


def flow(r, i):
    d, b = SITES[i % len(SITES)]
    A, a = r.choice(TYPES)
    B, v = r.choice([t for t in TYPES if t[0] != A])
    if "%(b)s" in d + b and r.random() < 0.1:
        v = "keep(%s)" % v
    m = {"A": A, "a": a, "B": B, "b": v}
    body = (b % m).replace("\n", "\n   ")
    return "%s%s\nfn main() {\n    c := churn(1) == 1\n    %s\n    say(\"end\")\n}\n" % (DECLS, d % m, body)


def ends(r):
    """A function which gives a string, if it gives something at all: every way through it is taken."""
    bits = [0]

    def cond():
        bits[0] += 1
        return "(k & %d) == 0" % (1 << (bits[0] - 1))

    def block(d, ind, must):
        """must: the block is meant to end in a return."""
        p = "    " * ind
        s = ""
        for _ in range(r.choice([0, 0, 1])):
            s += p + r.choice(["n = n + 1\n", "t := keep(s)\n" if r.random() < 0.5 else "churn(1)\n", "s = s.append(\"x\")\n"])
        w = r.random()
        if must and r.random() < 0.06:
            must = False
        if not must:
            return s + p + ("n = n + 2\n" if w < 0.5 or d == 0 or bits[0] > 5 else inner(d, ind, False))
        if d == 0 or w < 0.25 or bits[0] > 5:
            return s + p + r.choice(["return s\n", "return s.append(\"q\")\n", "return n.toString()\n"])
        return s + p + inner(d, ind, True)

    def inner(d, ind, must):
        p = "    " * ind
        w = r.random()
        if w < 0.5:
            s = "if %s {\n%s" % (cond(), block(d - 1, ind + 1, must))
            for _ in range(r.choice([0, 0, 1, 2])):
                s += "%s} elseif %s {\n%s" % (p, cond(), block(d - 1, ind + 1, must))
            if must and r.random() < 0.9 or not must and r.random() < 0.5:
                s += "%s} else {\n%s" % (p, block(d - 1, ind + 1, must))
            return s + p + "}\n"
        if w < 0.8:
            bits[0] += 1
            e = "((k & %d) == 0 ? Fa1(s) : (k & %d) == 0 ? Fa2() : Fa3(k, s))" % (1 << (bits[0] - 1), 1 << bits[0])
            bits[0] += 1
            s = "match %s {\n" % e
            for c in ("Fa1(s%d)" % ind, "Fa2()", "Fa3(i%d, s%d)" % (ind, ind)):
                s += "%s    case %s:\n%s" % (p, c, block(d - 1, ind + 2, must))
            return s + p + "}\n"
        if w < 0.9:
            c, b = cond(), 1 << (bits[0] - 1)
            s = "while %s {\n%s    k = k | %d\n%s%s}\n" % (c, p, b, block(d - 1, ind + 1, must and r.random() < 0.3), p)
            return s + (p + "return s\n" if must and r.random() < 0.9 else "")
        s = "for z%d in 0 .. k & 1 {\n%s%s}\n" % (ind, block(d - 1, ind + 1, must and r.random() < 0.5), p)
        return s + (p + "return s\n" if must and r.random() < 0.9 else "")

    clo = r.random() < 0.3
    body = block(r.randint(1, 3), 2 if clo else 1, True)
    if clo:
        f = "fn f(k: int, n: int, s: string) string {\n    g := fn(k: int, n: int) string {\n%s    }\n    return g(k, n)\n}\n" % body
    else:
        f = "fn f(k: int, n: int, s: string) string {\n%s}\n" % body
    return "%s%sfn main() {\n    for k in 0 .. %d {\n        say(f(k, k, \"s\".append(\"t\")))\n    }\n    say(\"end\")\n}\n" % (DECLS, f, 1 << min(8, bits[0]))
