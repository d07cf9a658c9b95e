"""Generator of random Clara programs with a reference meaning.

Every construct is emitted twice: as Clara source (compiled by the real compiler and run inside the simulator) and as
Python source (executed here, the executable reference model). Nothing in the model knows about memory: the expected
output is what the source says, whatever the collector, the heap or the compiler's internal choices do."""
import random, re, sys

INT, BOOL, STR = ("int",), ("bool",), ("str",)


class TooLong(Exception):
    pass


class Env(object):
    def __init__(self, **kw):
        self.__dict__.update(kw)


class Clo(object):
    def __init__(self, f, **kw):
        self.f = f
        self.e = Env(**kw)

    def __call__(self, *a):
        return self.f(self.e, *a)


class St(object):
    __slots__ = ("n", "f")

    def __init__(self, n, *f):
        self.n = n
        self.f = list(f)


class En(object):
    __slots__ = ("t", "f")

    def __init__(self, t, *f):
        self.t = t
        self.f = f


def tstr(t, g):
    k = t[0]
    if k == "int":
        return "int"
    if k == "bool":
        return "bool"
    if k == "str":
        return "string"
    if k == "arr":
        return "[]" + tstr(t[1], g)
    if k == "st":
        return "s%d" % t[1]
    if k == "en":
        return "e%d" % t[1]
    if k == "opt":
        return "option«%s»" % tstr(t[1], g)
    if k == "list":
        return "list«%s»" % tstr(t[1], g)
    if k == "box":
        return "gbox«%s»" % tstr(t[1], g)
    if k == "gt":
        return "gtree«%s»" % tstr(t[1], g)
    if k == "rt":
        return "rtree«%s»" % tstr(t[1], g)
    if k == "eit":
        return "either«%s, %s»" % (tstr(t[1], g), tstr(t[2], g))
    if k == "pair":
        return "pair«%s, %s»" % (tstr(t[1], g), tstr(t[2], g))
    if k == "fn":
        return "fn(%s)%s" % (", ".join(tstr(x, g) for x in t[1]), "" if t[2] is None else " " + tstr(t[2], g))
    raise Exception(t)


def tname(t):
    k = t[0]
    if k in ("st", "en"):
        return "%s%d" % (k, t[1])
    if k in ("arr", "opt", "list", "box", "gt", "rt"):
        return k + "_" + tname(t[1])
    if k in ("pair", "eit"):
        return "%s_%s_%s" % (k, tname(t[1]), tname(t[2]))
    if k == "fn":
        return "fn_%s_to_%s" % ("_".join(tname(x) for x in t[1]), tname(t[2]))
    return k


PRELUDE = r'''
#[RawValues]
fn simPick(n: int) int
#[RawValues]
fn simLive(n: int) int
#[RawValues]
fn simNote(n: int) int

struct gbox«T» {
    v: T
    n: int
}
enum gtree«T» {
    Gleaf(v: T)
    Gnode(l: gtree«T», k: int, r: gtree«T»)
    Gnil()
}
struct rtree«T» {
    v: T
    kids: []rtree«T»
    up: option«rtree«T»»
}
struct hold«T» {
    back: option«hold«T»»
    box: shelf«T»
}
struct shelf«A» {
    one: gbox«A»
    many: gtree«pair«A, gbox«A»»»
    row: []gbox«A»
    f: fn(int) A
}
struct junk1 {
    a: string
    b: string
    c: int
}

fn churn(k: int) int {
    n := 1 + simPick(4)
    for i in 0 .. n {
        m := simPick(6)
        if m == 0 {
            "j".append("k")
        } elseif m == 1 {
            Junk1("jj".append("kk"), "zz", 77)
        } elseif m == 2 {
            stringArray(1 + k, "J".append("K"))
        } elseif m == 3 {
            Bytes(40 + k)
        } elseif m == 4 {
            Pair("q".append("r"), Pair(9, 9))
        } else {
            junkList := Element("L".append("M"), Element("N", Empty«string»()))
            junkList.reverse()
        }
    }
    return 0
}

fn clamp3(i: int) int {
    if i < 0 {
        return 0
    }
    return i & 1
}
fn pass«T»(x: T, k: int) T = x
fn second«A, B»(a: A, b: B) B = b
fn keep«T»(x: T) T {
    churn(1)
    y := x
    churn(2)
    return y
}
fn swap«A, B»(p: pair«A, B») pair«B, A» = Pair(p.second, p.first)
fn unbox«T»(b: gbox«T») T {
    churn(1)
    return b.v
}
fn call1«A, B»(f: fn(A) B, a: A) B {
    churn(1)
    return f(a)
}
fn gsize«T»(t: gtree«T») int {
    match t {
        case Gleaf(v): return 1
        case Gnode(l, k, r):
            a := gsize(l)
            return a + gsize(r) * 2 + k & 0xff
        case Gnil(): return 0
    }
}
fn gmap«T, R»(t: gtree«T», f: fn(T) R) gtree«R» {
    match t {
        case Gleaf(v): return Gleaf(f(v))
        case Gnode(l, k, r): return Gnode(gmap(l, f), k + churn(1), gmap(r, f))
        case Gnil(): return Gnil«R»()
    }
}
fn gfirst«T»(t: gtree«T», other: T) T {
    match t {
        case Gleaf(v): return v
        case Gnode(l, k, r): return gfirst(l, gfirst(r, other))
        case Gnil(): return other
    }
}
fn rleaf«T»(v: T) rtree«T» = Rtree(v, arrayNoInit«rtree«T»»(0), None«rtree«T»»())
fn rnode«T»(v: T, kids: []rtree«T») rtree«T» {
    n := Rtree(v, kids, None«rtree«T»»())
    churn(1)
    for k in kids {
        k.up = Some(Rtree(v, [n], None«rtree«T»»()))
    }
    return n
}
fn rcount«T»(t: rtree«T») int {
    n := 1
    for k in t.kids {
        n = n + rcount(k)
    }
    return n
}
fn rtop«T»(t: rtree«T») T {
    match t.up {
        case Some(u): return u.v
        case None(): return t.v
    }
}
fn rturn«T»(t: rtree«T») T {
    for k in t.kids {
        match k.up {
            case Some(u):
                for w in u.kids {
                    return w.v
                }
            case None(): return k.v
        }
    }
    return t.v
}
fn hput«T»(v: T) hold«T» {
    b := Gbox(v, 3 + churn(1))
    g := fn(i: int) T = b.v
    s := Shelf(b, Gnode(Gleaf(Pair(v, b)), 5, Gnil«pair«T, gbox«T»»»()), [b, Gbox(v, churn(2))], g)
    h := Hold(None«hold«T»»(), s)
    h.back = Some(Hold(Some(h), Shelf(Gbox(v, 8), Gnil«pair«T, gbox«T»»»(), [b], g)))
    return h
}
fn hget«T»(h: hold«T», k: int) T {
    if k > 0 {
        match h.back {
            case Some(b):
                match b.back {
                    case Some(c):
                        churn(k)
                        return hget(c, k - 1)
                    case None(): return b.box.row[0].v
                }
            case None(): return h.box.one.v
        }
    }
    return gfirst(h.box.many, Pair(h.box.f(1), h.box.one)).second.v
}
fn ov(a: []int) []int = a
fn ov(i: int) int = i ^ 5 + churn(0)
fn ov(s: string) string = s.append("o")
fn ov(b: bool) bool = not b
fn ov2(s: string, i: int) int = s.length + i
fn ov2(i: int, s: string) string = s.append("2")
fn ov2(s: string, t: string) string = t.append(s)
fn ov2(b: bool, i: int) bool = b
fn ap(f: fn([]int) []int, k: []int, m: int) []int = f(k)
fn ap(f: fn(string) string, k: string, m: int) string = f(k)
fn ap(f: fn(bool) bool, k: bool, m: int) bool = f(k)
fn ap(f: fn(int) int, k: int, m: int) int = f(k)
fn gap«T»(t: T, f: fn(T) T) T {
    churn(1)
    return f(t)
}
fn gap2«T, U»(u: U, f: fn(T, U) U, t: T) U {
    churn(1)
    return f(t, u)
}
fn gap3«T, U»(u: U, t: T, f: fn(T, U) U) U {
    churn(1)
    return f(t, u)
}
fn say(s: string) {
    println(s)
}
fn showBool(b: bool, d: int) string = b ? "T" : "F"
fn showInt(i: int, d: int) string = i.toString()
fn showStr(s: string, d: int) string = "'".append(s).append("'")
'''

PYPRE = '''
def churn(k): return 0
def clamp3(i): return 0 if i < 0 else i & 1
def pas(x, k): return x
def second(a, b): return b
def keep(x): return x
def swap(p): return St("pair", p.f[1], p.f[0])
def call1(f, a): return f(a)
def unbox(b): return b.f[0]
def sh_bool(b, d): return "T" if b else "F"
def sh_int(i, d): return str(i)
def sh_str(s, d): return "'" + s + "'"
def mkarr(n, v): return [v] * n
def lst(*a):
    l = En(1)
    for x in reversed(a): l = En(0, x, l)
    return l
def lrev(l):
    n = En(1)
    while l.t == 0: n = En(0, l.f[0], n); l = l.f[1]
    return n
def lmap(l, f):
    a = []
    while l.t == 0: a.append(f(l.f[0])); l = l.f[1]
    return lst(*a)
def lred(l, acc, f):
    while l.t == 0: acc = f(acc, l.f[0]); l = l.f[1]
    return acc
def lfind(l, f):
    while l.t == 0:
        if f(l.f[0]): return En(0, l.f[0])
        l = l.f[1]
    return En(1)
def ofilter(o, f): return o if o.t == 0 and f(o.f[0]) else En(1)
def orelse(o, d): return o.f[0] if o.t == 0 else d
def omap(o, f): return En(0, f(o.f[0])) if o.t == 0 else o
def cat(a, b):
    if len(a) + len(b) > 3000: raise TooLong()
    return a + b
def tdiv(a, b): return -(-a // b) if (a < 0) != (b < 0) else a // b
def gsize(t):
    if t.t == 0: return 1
    if t.t == 2: return 0
    a = gsize(t.f[0])
    return (a + gsize(t.f[2]) * 2 + t.f[1]) & 0xff
def gmap(t, f):
    if t.t == 0: return En(0, f(t.f[0]))
    if t.t == 2: return En(2)
    a = gmap(t.f[0], f)
    return En(1, a, t.f[1], gmap(t.f[2], f))
def gfirst(t, o):
    if t.t == 0: return t.f[0]
    if t.t == 2: return o
    return gfirst(t.f[0], gfirst(t.f[2], o))
def gs(x, s, f):
    f(s)
    return s
def rleaf(v): return St("rt", v, [], En(1))
def rnode(v, kids):
    n = St("rt", v, kids, En(1))
    for k in kids: k.f[2] = En(0, St("rt", v, [n], En(1)))
    return n
def rcount(t):
    n = 1
    for k in t.f[1]: n += rcount(k)
    return n
def rtop(t): return t.f[2].f[0].f[0] if t.f[2].t == 0 else t.f[0]
def rturn(t):
    for k in t.f[1]:
        if k.f[2].t != 0: return k.f[0]
        for w in k.f[2].f[0].f[1]: return w.f[0]
    return t.f[0]
def setel(a, i, v):
    a[i] = v
    return a
def sub(s, a, b): return s[a:b]
def first2(a, b): return a
def gap2(u, t): return ov2(t, u)
def ov(x): return x if isinstance(x, list) else (not x) if isinstance(x, bool) else x ^ 5 if isinstance(x, int) else cat(x, "o")
def ov2(a, b):
    if isinstance(a, bool): return a
    if isinstance(a, int): return cat(b, "2")
    return len(a) + b if isinstance(b, int) else cat(b, a)
'''


# External functions: what they are called with is folded into a sum which the program prints. The letters of a signature
# are the kinds of the parameters; the C side (simrt.c) reads them as C code would.
XSIGS = ["", "i", "s", "ii", "si", "ib", "isi", "bsA", "iAsB", "iiiii", "iiiiii", "sisisi", "ABsibs", "sAiBsi", "bbbbbb", "ssssss"]
XTYPES = {"i": "int", "s": "string", "b": "bool", "A": "[]int", "B": "bytes"}
XKINDS = [("x", True, "int"), ("y", False, "int"), ("q", True, "bool"), ("w", True, "nothing"), ("u", False, "string")]
XPRELUDE = "#[RawValues]\nfn xsum() int\n" + "".join(
    "%sfn x%s_%s(%s)%s\n" % ("#[RawValues]\n" if raw else "", k, g, ", ".join("a%d: %s" % (i, XTYPES[c]) for i, c in enumerate(g)), " " + ret)
    for k, raw, ret in XKINDS for g in XSIGS if k != "u" or g[-1:] == "s") + '''
fn xbytes(s: string) bytes {
    b := Bytes(s.length)
    i := 0
    while i < s.length {
        b.set(i, (97 + i) & 0x7f)
        i = i + 1
    }
    return b
}
'''
XPY = '''
XS = [0]
def xmix(g, a):
    h = 14695981039346656037
    for c, v in zip(g, a):
        if c == "i":
            d = (v & 0xffffffffffffffff).to_bytes(8, "little")
        elif c == "b":
            d = b"\\1" if v else b"\\0"
        elif c == "s":
            d = v.encode("latin-1")
        elif c == "A":
            d = b"".join((x & 0xffffffffffffffff).to_bytes(8, "little") for x in v)
        else:
            d = bytes(v)
        for x in c.encode() + len(d).to_bytes(2, "little") + d:
            h = ((h ^ x) * 1099511628211) & 0xffffffffffffffff
    XS[0] = (XS[0] + (h >> 20)) & 0xffffffff
    return h
def xcall(k, g, *a):
    h = xmix(g, a)
    if k == "q":
        return (h >> 33) & 1 == 1
    if k == "u":
        return a[-1]
    return ((h >> 30) & 0x7ff) - 1024
def xsame(k, a, s, v):
    xmix("is"[:k], (a, s))
    return v
def xbytes(s): return [(97 + i) & 0x7f for i in range(len(s))]
'''


def hasfn(t):
    return t[0] == "fn" or any(isinstance(x, tuple) and hasfn(x) for x in t[1:])


class Scope(object):
    def __init__(self, parent=None):
        self.vars = list(parent.vars) if parent else []  # (name, type, py, assignable)
        self.own = set()   # names declared at this level (an outer one may be declared again: it is shadowed)
        self.nested = parent is not None

    def declare(self, name, t, py, assignable):
        self.vars = [v for v in self.vars if v[0] != name]
        self.vars.append((name, t, py, assignable))
        self.own.add(name)


class Prog(object):
    def __init__(self, rng, size=1.0, features=None):
        self.r = rng
        self.n = 0
        self.cl = []
        self.py = []
        self.fns = []  # (name, [types], ret)
        self.structs = []
        self.enums = []
        self.shows = {}
        self.size = size
        self.cls = []       # python closure bodies
        self.feat = features or {}
        self.budget = 0
        self.rets = []       # return type of the functions being written, innermost last (None: no early return)
        self.vfns = []       # functions returning nothing
        self.depth_fn = 0
        self.xdecl = []      # external functions declared for single types
        self.ovl = rng.random() < 0.35   # all show functions share one (overloaded) name

    def fresh(self, p="v"):
        self.n += 1
        return "%s%d" % (p, self.n)

    # ---- types -------------------------------------------------------------------------------------------------
    def rtype(self, depth=2, fn=False):
        r = self.r
        k = r.random()
        if depth <= 0 or k < 0.22:
            return r.choice([INT, STR, STR, STR])
        if k < 0.40 and self.structs:
            return ("st", r.randrange(len(self.structs)))
        if k < 0.52 and self.enums:
            return ("en", r.randrange(len(self.enums)))
        if k < 0.62:
            return ("arr", r.choice([INT, STR, self.rtype(depth - 1)]))
        if k < 0.72:
            return ("opt", self.rtype(depth - 1))
        if k < 0.79:
            return ("list", self.rtype(depth - 1))
        if k < 0.85:
            return ("box", self.rtype(depth - 1))
        if k < 0.90:
            return ("pair", self.rtype(depth - 1), self.rtype(depth - 1))
        if k < 0.925:
            return ("eit", self.rtype(depth - 1), self.rtype(depth - 1))
        if k < 0.955:
            return (r.choice(["gt", "gt", "rt"]), self.rtype(depth - 1))
        if k < 0.975:
            return ("fn", tuple(r.choice([INT, STR, BOOL]) for _ in range(r.choice([0, 1, 1, 2, 2, 3, 3, 4, 5]))), r.choice([INT, STR, ("opt", STR), ("arr", STR)]))
        if k < 0.99:
            return BOOL
        return STR

    def mktypes(self):
        r = self.r
        for i in range(r.randint(1, 3)):
            fs = []
            for j in range(r.randint(1, 6)):
                t = self.rtype(1)
                fs.append(t)
            # a field able to refer to the struct itself
            if r.random() < 0.5 and len(fs) < 6:
                fs.insert(r.randrange(len(fs) + 1), ("opt", ("st", i)))
            self.structs.append(fs)
        for i in range(r.randint(1, 2)):
            vs = []
            for j in range(r.randint(2, 4)):
                fs = [self.rtype(1) for _ in range(r.randint(0, 4))]
                if j == 0:
                    fs = [t for t in fs if not (t[0] == "en")][:2]
                elif r.random() < 0.6:
                    fs.insert(r.randrange(len(fs) + 1), ("en", i))
                vs.append(fs)
            # keep at least one variant with no recursion first
            vs[0] = [t for t in vs[0] if t[0] in ("int", "str", "bool", "arr")]
            self.enums.append(vs)
        L = self.cl
        for i in range(len(self.structs)):
            L.append("fn gs%d«T»(x: T, s: s%d, a: []s%d, f: fn(s%d) T) s%d {\n    churn(1)\n    f(s)\n    return s\n}" % (i, i, i, i, i))
        for i in range(len(self.enums)):
            L.append("fn ge%d«T»(s: e%d, x: T) e%d = keep(Pair(x, s)).second" % (i, i, i))
        for i, fs in enumerate(self.structs):
            L.append("struct s%d {" % i)
            for j, t in enumerate(fs):
                L.append("    f%d: %s" % (j, tstr(t, self)))
            L.append("}")
        for i, vs in enumerate(self.enums):
            L.append("enum e%d {" % i)
            for j, fs in enumerate(vs):
                L.append("    V%d_%d(%s)" % (i, j, ", ".join("p%d: %s" % (k, tstr(t, self)) for k, t in enumerate(fs))))
            L.append("}")

    # ---- show functions -----------------------------------------------------------------------------------------
    def show(self, t):
        """Returns (clara function name, python function name) turning a value of type t into text."""
        if t == INT:
            return "showInt", "sh_int"
        if t == BOOL:
            return "showBool", "sh_bool"
        if t == STR:
            return "showStr", "sh_str"
        if t in self.shows:
            return self.shows[t]
        pn = "show_" + tname(t)
        nm = "show" if self.ovl and "fn" not in str(t) else pn  # function types differing in the result only are no overloads
        self.shows[t] = (nm, pn)
        C = ["fn %s(x: %s, d: int) string {" % (nm, tstr(t, self)), "    if d < 1 {", "        return \"~\"", "    }"]
        P = ["def %s(x, d):" % pn, "    if d < 1: return '~'"]
        k = t[0]
        if k == "rt":
            c, p = self.show(t[1])
            C += ["    r := %s(x.rtop(), d - 1).append(\"(\").append(%s(x.v, d - 1))" % (c, c), "    for y in x.kids {", "        r = r.append(%s(y, d - 1)).append(\",\")" % nm, "    }",
                  "    return r.append(\")\")"]
            P += ["    r = %s(rtop(x), d - 1) + '(' + %s(x.f[0], d - 1)" % (p, p), "    for y in x.f[1]: r = r + %s(y, d - 1) + ','" % pn, "    return r + ')'"]
        elif k in ("st", "box", "pair"):
            if k == "st":
                names = [("f%d" % j, ft) for j, ft in enumerate(self.structs[t[1]])]
            elif k == "box":
                names = [("v", t[1]), ("n", INT)]
            else:
                names = [("first", t[1]), ("second", t[2])]
            C.append("    r := \"{\"")
            P.append("    r = '{'")
            for j, (f, ft) in enumerate(names):
                c, p = self.show(ft)
                C.append("    r = r.append(%s(x.%s, d - 1)).append(\";\")" % (c, f))
                P.append("    r = r + %s(x.f[%d], d - 1) + ';'" % (p, j))
            C.append("    return r.append(\"}\")")
            P.append("    return r + '}'")
        elif k == "arr":
            c, p = self.show(t[1])
            C += ["    r := \"[\"", "    for y in x {", "        r = r.append(%s(y, d - 1)).append(\",\")" % c, "    }",
                  "    return r.append(\"]\")"]
            P += ["    r = '['", "    for y in x: r = r + %s(y, d - 1) + ','" % p, "    return r + ']'"]
        elif k == "opt":
            c, p = self.show(t[1])
            C += ["    match x {", "        case Some(y): return \"S(\".append(%s(y, d - 1)).append(\")\")" % c,
                  "        case None(): return \"N\"", "    }"]
            P += ["    return 'S(' + %s(x.f[0], d - 1) + ')' if x.t == 0 else 'N'" % p]
        elif k == "list":
            c, p = self.show(t[1])
            C += ["    match x {", "        case Element(y, rest): return %s(y, d).append(\":\").append(%s(rest, d))" % (c, nm),
                  "        case Empty(): return \".\"", "    }"]
            P += ["    return %s(x.f[0], d) + ':' + %s(x.f[1], d) if x.t == 0 else '.'" % (p, pn)]
        elif k == "eit":
            c, p = self.show(t[1])
            c2, p2 = self.show(t[2])
            C += ["    match x {", "        case Left(y): return \"L(\".append(%s(y, d - 1)).append(\")\")" % c,
                  "        case Right(z): return \"R(\".append(%s(z, d - 1)).append(\")\")" % c2, "    }"]
            P += ["    return 'L(' + %s(x.f[0], d - 1) + ')' if x.t == 0 else 'R(' + %s(x.f[0], d - 1) + ')'" % (p, p2)]
        elif k == "gt":
            c, p = self.show(t[1])
            C += ["    match x {", "        case Gleaf(y): return %s(y, d - 1)" % c,
                  "        case Gnode(y, z, w): return \"(\".append(%s(y, d - 1)).append(z.toString()).append(%s(w, d - 1)).append(\")\")" % (nm, nm),
                  "        case Gnil(): return \"-\"", "    }"]
            P += ["    if x.t == 0: return %s(x.f[0], d - 1)" % p, "    if x.t == 2: return '-'",
                  "    return '(' + %s(x.f[0], d - 1) + str(x.f[1]) + %s(x.f[2], d - 1) + ')'" % (pn, pn)]
        elif k == "fn":
            c, p = self.show(t[2])
            la = {"int": ("5", "5"), "str": ("\"q\".append(\"w\")", "'qw'"), "bool": ("true", "True")}
            if all(x[0] in la for x in t[1]):
                C += ["    return \"f=\".append(%s(x(%s), d - 1))" % (c, ", ".join(la[x[0]][0] for x in t[1]))]
                P += ["    return 'f=' + %s(x(%s), d - 1)" % (p, ", ".join(la[x[0]][1] for x in t[1]))]
            else:
                C += ["    return \"f\""]
                P += ["    return 'f'"]
        elif k == "en":
            C.append("    match x {")
            for j, fs in enumerate(self.enums[t[1]]):
                vs = ["y%d_%d" % (j, q) for q in range(len(fs))]
                C.append("        case V%d_%d(%s):" % (t[1], j, ", ".join(vs)))
                e = "\"<%d \"" % j
                pe = "'<%d '" % j
                for q, ft in enumerate(fs):
                    c, p = self.show(ft)
                    e += ".append(%s(%s, d - 1)).append(\"|\")" % (c, vs[q])
                    pe += " + %s(x.f[%d], d - 1) + '|'" % (p, q)
                C.append("            return %s.append(\">\")" % e)
                P.append("    if x.t == %d: return %s + '>'" % (j, pe))
            C.append("    }")
        C.append("}")
        self.cl += C
        self.py += P
        return nm, pn

    # ---- expressions --------------------------------------------------------------------------------------------
    def lit(self, t, depth=2):
        """A fresh value of type t."""
        r = self.r
        k = t[0]
        if k == "int":
            x = r.random()
            v = r.randint(0, 99) if x < 0.8 else r.randint(1 << 30, 1 << 47) if x < 0.9 else \
                r.choice([0x7fffffff, 0x80000000, 0xffffffff, 1 << 32, 255, 256, 4095])
            if x > 0.7 and r.random() < 0.3:
                return "(-%d)" % v, "(-%d)" % v
            return (hex(v) if r.random() < 0.05 else str(v)), str(v)
        if k == "bool":
            return r.choice([("true", "True"), ("false", "False")])
        if k == "str":
            a = "".join(r.choice("abcdefgh") for _ in range(r.randint(0, 9)))
            if r.random() < 0.08:
                a += r.choice(['"', "\\", " %d ", "//", "'"] + ([] if self.feat.get("mark") else ["\n"])) + r.choice(["", "x", "%s"])
                return '"%s"' % a.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n"), repr(a)
            if r.random() < 0.06:
                # any byte may stand in a literal
                b = b"".join(r.choice(["\u00e9".encode(), "\u20ac".encode(), b"\xff", b"\x80", b"\r", b"\t", b"\x01", b"\x7f", b"\xc3", b"z"] + ([] if self.feat.get("mark") else [b"\n"]))
                             for _ in range(r.randint(1, 4)))
                # a raw line break gets its place only when all lines are indented
                return '"%s%s"' % (a, b.decode("utf-8", "surrogateescape").replace("\n", "\ue00a")), repr(a + b.decode("latin-1"))
            if r.random() < 0.25:
                return '"%s"' % a, repr(a)
            b = "".join(r.choice("uvwxyz") for _ in range(r.randint(1, 9)))
            return '"%s".append("%s")' % (a, b), repr(a + b)
        raise Exception(t)

    def args(self, ts, sc, d):
        cs, ps = [], []
        for t in ts:
            c, p = self.whole(t, sc, d)
            cs.append(c)
            ps.append(p)
        return ", ".join(cs), ", ".join(ps)

    def whole(self, t, sc, d):
        """An expression where one ends by itself: conditional ones need no parentheses there, nor inside each other."""
        r = self.r
        if d <= 0 or self.budget <= 0 or r.random() > 0.1:
            return self.expr(t, sc, d)
        cc, cp, q = self.condp(sc, d - 1)
        a, pa = self.whole(t, sc, d - 1)
        b, pb = self.whole(t, sc, d - 1)
        return "%s ? %s : %s" % (cc, a, b), "(%s if %s else %s)" % (pa, cp, pb)

    def build(self, t, sc, d):
        """Construct a value of type t from its constructors."""
        r = self.r
        k = t[0]
        if k in ("int", "bool", "str"):
            return self.lit(t)
        if k == "st":
            c, p = self.args(self.structs[t[1]], sc, d - 1)
            return "S%d(%s)" % (t[1], c), "St('s', %s)" % p
        if k == "en":
            vs = self.enums[t[1]]
            j = 0 if d <= 0 else r.randrange(len(vs))
            c, p = self.args(vs[j], sc, d - 1)
            return "V%d_%d(%s)" % (t[1], j, c), "En(%d%s)" % (j, (", " + p) if p else "")
        if k == "opt":
            if d <= 0 or r.random() < 0.2:
                return "None«%s»()" % tstr(t[1], self), "En(1)"
            c, p = self.expr(t[1], sc, d - 1)
            return "Some(%s)" % c, "En(0, %s)" % p
        if k == "list":
            n = 0 if d <= 0 else r.randint(0, 3)
            c, p = "Empty«%s»()" % tstr(t[1], self), "En(1)"
            # evaluation order: Element(v, rest) evaluates v first
            cs, ps = [], []
            for i in range(n):
                a, b = self.expr(t[1], sc, d - 1)
                cs.append(a)
                ps.append(b)
            for a, b in zip(reversed(cs), reversed(ps)):
                c, p = "Element(%s, %s)" % (a, c), "En(0, %s, %s)" % (b, p)
            return c, p
        if k == "box":
            c, p = self.expr(t[1], sc, d - 1)
            v = r.randint(0, 50)
            return "Gbox(%s, %d)" % (c, v), "St('b', %s, %d)" % (p, v)
        if k == "pair":
            c, p = self.args([t[1], t[2]], sc, d - 1)
            return "Pair(%s)" % c, "St('p', %s)" % p
        if k == "eit":
            j = r.randrange(2)
            c, p = self.expr(t[1 + j], sc, d - 1)
            return "%s«%s, %s»(%s)" % (["Left", "Right"][j], tstr(t[1], self), tstr(t[2], self), c), "En(%d, %s)" % (j, p)
        if k == "gt":
            w = r.random()
            if d <= 0 or w < 0.2:
                return "Gnil«%s»()" % tstr(t[1], self), "En(2)"
            if w < 0.55:
                c, p = self.expr(t[1], sc, d - 1)
                return "Gleaf(%s)" % c, "En(0, %s)" % p
            a, pa = self.expr(t, sc, d - 1)
            b, pb = self.expr(t, sc, d - 1)
            v = r.randint(0, 50)
            return "Gnode(%s, %d, %s)" % (a, v, b), "En(1, %s, %d, %s)" % (pa, v, pb)
        if k == "rt":
            c, p = self.expr(t[1], sc, d - 1)
            if d <= 0 or r.random() < 0.4:
                return "rleaf(%s)" % c, "rleaf(%s)" % p
            cs, ps = self.args([t] * r.randint(1, 2), sc, d - 1)
            return "rnode(%s, [%s])" % (c, cs), "rnode(%s, [%s])" % (p, ps)
        if k == "arr":
            x = r.random()
            if t[1] == INT and x < 0.3:
                return "intArray(3)", "[0] * 3"  # elements are set before use by the caller (see decl)
            if t[1] == STR and x < 0.3:
                c, p = self.expr(STR, sc, d - 1)
                return "stringArray(3, %s)" % c, "mkarr(3, %s)" % p
            if x < 0.55:
                c, p = self.expr(t[1], sc, d - 1)
                return "array(3, %s)" % c, "mkarr(3, %s)" % p
            c, p = self.args([t[1]] * 3, sc, d - 1)
            return "[%s]" % c, "[%s]" % p
        if k == "fn":
            return self.closure(t, sc, d)
        raise Exception(t)

    def idx(self, sc, d):
        i = self.r.randrange(3)
        if d > 0 and self.budget > 0 and self.r.random() < 0.06:
            c, p = self.cond(sc, d - 1)
            return "%s ? %d : %d" % (c, i, 2 - i), "%d if %s else %d" % (i, p, 2 - i)
        if self.r.random() < 0.35:
            return "%d + churn(%d)" % (i, i), str(i)
        vs = [v for v in sc.vars if v[1] == INT]
        if vs and self.r.random() < 0.6:
            v = self.r.choice(vs)
            return "clamp3(%s)" % v[0], "clamp3(%s)" % v[2]
        return str(i), str(i)

    def path(self, sc, d, ok, call=False, steps=3):
        """A walk through fields and elements from a variable to something ok() accepts: (type, clara, python) or None."""
        r = self.r
        vs = [v for v in sc.vars if v[1][0] in ("st", "arr", "box", "pair")]
        if not vs:
            return None
        v = r.choice(vs[-9:])
        t, c, p = v[1], v[0], v[2]
        for _ in range(steps):
            k = t[0]
            if k == "st":
                fs = self.structs[t[1]]
                good = [j for j in range(len(fs)) if ok(fs[j])]
                j = r.choice(good) if good and r.random() < 0.8 else r.randrange(len(fs))
                t, c, p = fs[j], "%s.f%d" % (c, j), "%s.f[%d]" % (p, j)
                field = False
            elif k == "arr":
                a, b = self.idx(sc, d)
                t, c, p = t[1], "%s[%s]" % (c, a), "%s[%s]" % (p, b)
                field = False
            elif k == "box":
                t, c, p = t[1], c + ".v", p + ".f[0]"
                field = True
            elif k == "pair":
                j = r.randrange(2)
                t, c, p = t[1 + j], c + [".first", ".second"][j], "%s.f[%d]" % (p, j)
                field = True
            else:
                return None
            if ok(t) and not (call and field) and r.random() < 0.8:
                return t, c, p
        return None

    def call(self, f, sc, d):
        cs, ps = [], []
        for t in f[1]:
            c, p = self.expr(t, sc, d - 1)
            cs.append(c)
            ps.append(p)
        p = "%s(%s)" % (f[0], ", ".join(ps))
        if cs and self.r.random() < 0.3 and re.match(r"^[a-z]\w*$", cs[0]) and cs[0] not in ("true", "false"):
            return "%s.%s(%s)" % (cs[0], f[0], ", ".join(cs[1:])), p
        return "%s(%s)" % (f[0], ", ".join(cs)), p

    PREC = {"*": 10, "/": 10, "+": 9, "-": 9, "<<": 8, ">>": 8, "&": 5, "^": 4, "|": 3}

    def arith(self, sc, d):
        """An integer expression written with as few parentheses as its precedences need: (clara, python, precedence, bound)."""
        r = self.r
        if d <= 0 or r.random() < 0.15:
            if r.random() < 0.4:
                v = r.choice([r.randint(0, 9), r.randint(0, 255), r.randint(0, 70000)])
                return str(v), str(v), 20, v
            c, p = self.expr(INT, sc, d - 1) if r.random() < 0.6 else self.expr(INT, sc, 0)
            m = r.choice([7, 0xff, 0xfff, 0xffff])
            return "(%s & %d)" % (c, m), "(%s & %d)" % (p, m), 20, m
        w = r.random()
        if w < 0.06:
            c, p, q, b = self.arith(sc, d - 1)
            return "(-%s)" % (c if q == 20 else "(" + c + ")"), "(-%s)" % p, 20, b
        if w < 0.1:
            c, p, q, b = self.arith(sc, d - 1)
            return "(~%s)" % (c if q > 11 else "(" + c + ")"), "(~%s)" % p, 20, b + 1  # no statement starts with ~
        op = r.choice(["*", "/", "+", "+", "-", "-", "<<", ">>", "&", "^", "|"])
        q = self.PREC[op]
        a, pa, qa, ba = self.arith(sc, d - 1)
        if op in ("<<", ">>"):
            n = r.randint(0, 6)
            b, pb, qb, bb = str(n), str(n), 20, n
            bound = ba << n if op == "<<" else ba + 1
        elif op == "/":
            if r.random() < 0.6:
                n = r.randint(1, 12)
                b, pb, qb, bb = str(n), str(n), 20, n
            else:
                c, p = self.expr(INT, sc, d - 2)
                b, pb, qb, bb = "(%s & 7 | 1)" % c, "(%s & 7 | 1)" % p, 20, 7
            bound = ba
        else:
            b, pb, qb, bb = self.arith(sc, d - 1)
            bound = ba * bb if op == "*" else 2 * (ba + bb + 1)
        if bound > 1 << 58:
            return "(%s & 255)" % a if qa <= 5 else "%s & 255" % a, "(%s & 255)" % pa, 5 if qa > 5 else 20, 255
        if qa < q or r.random() < 0.1 and qa < 20:
            a = "(" + a + ")"
        if qb <= q:
            b = "(" + b + ")"
        p = "tdiv(%s, %s)" % (pa, pb) if op == "/" else "(%s %s %s)" % (pa, op, pb)
        return "%s %s %s" % (a, op, b), p, q, bound

    def expr(self, t, sc, d):
        r = self.r
        self.budget -= 1
        if self.budget < 0:
            d = 0
        cands = [v for v in sc.vars if v[1] == t]
        k = r.random()
        if d > 0 and self.feat.get("ext") and r.random() < 0.3:
            o = self.external(t, sc, d)
            if o:
                return o
        if cands and (d <= 0 or k < 0.34):
            v = r.choice(cands[-6:])
            return v[0], v[2]
        if d <= 0:
            return self.build(t, sc, 0 if r.random() < 0.8 else 1) if t[0] not in ("int", "bool", "str") else self.lit(t)
        if k < (0.54 if self.feat.get("clo") else 0.44):
            # read through components of something in scope
            opts = []
            for v in sc.vars:
                if v[1][0] == "fn" and v[1][2] == t and self.budget > 0:
                    opts.append(v)
            if opts and r.random() < (0.5 if self.feat.get("clo") else 0.35):
                v = r.choice(opts)
                c, p = self.args(v[1][1], sc, d - 1)
                return "%s(%s)" % (v[0], c), "%s(%s)" % (v[2], p)
            for _ in range(5):
                o = self.path(sc, d, lambda x: x == t)
                if o:
                    return o[1], o[2]
            if self.budget > 0:
                for _ in range(3):
                    o = self.path(sc, d, lambda x: x[0] == "fn" and x[2] == t, call=True)
                    if o:
                        c, p = self.args(o[0][1], sc, d - 1)
                        return "%s(%s)" % (o[1], c), "%s(%s)" % (o[2], p)
        if k < 0.47 and t in (INT, STR, BOOL, ("arr", INT)):
            # the name of an overloaded function as an argument
            w = r.randrange(3)
            c, p = self.expr(t, sc, d - 1)
            if w == 0:
                return "ap(ov, %s, churn(1))" % c, "ov(%s)" % p
            if w == 1 or t[0] in ("bool", "arr"):
                return "gap(%s, ov)" % c, "ov(%s)" % p
            if t == INT:
                c2, p2 = self.expr(STR, sc, d - 1)
                return "gap2(%s, ov2, %s)" % (c, c2), "gap2(%s, %s)" % (p, p2)
            t2 = r.choice([INT, STR])
            c2, p2 = self.expr(t2, sc, d - 1)
            return ("gap2(%s, ov2, %s)" if t2 == INT else "gap3(%s, %s, ov2)") % ((c, c2)), "gap2(%s, %s)" % (p, p2)
        if k < 0.56:
            fs = [f for f in self.fns if f[2] == t]
            if fs:
                f = r.choice(fs)
                return self.call(f, sc, d)
        if k < 0.62:
            c, p = self.expr(t, sc, d - 1)
            w = r.randrange(4)
            if w == 0:
                return "pass(%s, churn(1))" % c, "pas(%s, churn(1))" % p
            if w == 1:
                return "keep(%s)" % c, "keep(%s)" % p
            if w < 2 and t[0] == "st" and r.random() < 0.7:
                ty = self.rtype(1)
                c2, p2 = self.expr(ty, sc, d - 2)
                f, pf = self.closure(("fn", (t,), ty), sc, d - 2)
                return "gs%d(%s, %s, [%s], %s)" % (t[1], c2, c, self.expr(t, sc, 0)[0], f), "gs(%s, %s, %s)" % (p2, p, pf)
            if w < 2 and t[0] == "en" and r.random() < 0.7:
                c2, p2 = self.expr(self.rtype(1), sc, d - 2)
                return "ge%d(%s, %s)" % (t[1], c, c2), "first2(%s, %s)" % (p, p2)
            if w == 2 and t[0] not in ("fn",):
                t2 = self.rtype(1)
                c2, p2 = self.expr(t2, sc, d - 2)
                return "second(%s, %s)" % (c2, c), "second(%s, %s)" % (p2, p)
            if r.random() < 0.4:
                w = r.choice(["hget(hput(%%s), %d)" % r.randrange(3), "hput(%s).box.one.v", "hput(%s).box.row[churn(0)].v", "keep(hput(%s)).box.f(1)",
                              "unbox(hput(%s).box.row[1])", "hput(%s).box.many.gfirst(Pair(%s, Gbox(%s, 1))).first"])
                n = w.count("%s")
                return w % tuple([c] + ["hput(%s).box.row[0].v" % self.expr(t, sc, 0)[0], self.expr(t, sc, 0)[0]][:n - 1]), "keep(%s)" % p
            return "unbox(Gbox(%s, 1 + churn(2)))" % c, "unbox(St('b', %s, 1))" % p
        if k < 0.66:
            # array literal or array returning call indexed in place
            at = ("arr", t)
            c, p = self.args([t] * 2, sc, d - 1)
            i = r.randrange(2)
            # indexing a literal in place is not valid syntax everywhere: go through a generic function
            return "keep([%s])[%d + churn(1)]" % (c, i), "keep([%s])[%d]" % (p, i)
        if k < 0.70:
            cc, cp = self.cond(sc, d - 1)
            a, pa = self.expr(t, sc, d - 1)
            b, pb = self.expr(t, sc, d - 1)
            if r.random() < 0.5:
                return "(%s ? %s : %s)" % (cc, a, b), "(%s if %s else %s)" % (pa, cp, pb)
            return "pass(%s ? %s : %s, 0)" % (cc, a, b), "pas(%s if %s else %s, 0)" % (pa, cp, pb)
        if k < 0.74 and t[0] not in ("fn",) or (self.feat.get("clo") and t[0] != "fn" and d > 1 and r.random() < 0.25):
            ft = ("fn", (self.rtype(1),), t)
            fc, fp = self.closure(ft, sc, d - 1)
            ac, ap = self.expr(ft[1][0], sc, d - 1)
            if r.random() < 0.5:
                return "call1(%s, %s)" % (fc, ac), "call1(%s, %s)" % (fp, ap)
            return "keep(%s)(%s)" % (fc, ac), "%s(%s)" % (fp, ap)
        if k < 0.80:
            # through option / list operations
            w = r.randrange(9)
            if w in (7, 8) and r.random() < 0.3:
                if t == INT:
                    c, p = self.expr(("rt", self.rtype(1)), sc, d - 1)
                    return "rcount(%s)" % c, "rcount(%s)" % p
                c, p = self.expr(("rt", t), sc, d - 1)
                if r.random() < 0.5:
                    return "keep(%s).v" % c, "%s.f[0]" % p
                if r.random() < 0.5:
                    return "rturn(%s)" % c, "rturn(%s)" % p
                return "keep(%s).rtop()" % c, "rtop(%s)" % p
            if w == 7:
                if t[0] == "gt":
                    st = self.rtype(1)
                    c, p = self.expr(("gt", st), sc, d - 1)
                    f, pf = self.closure(("fn", (st,), t[1]), sc, d - 2)
                    return "keep(%s).gmap(%s)" % (c, f), "gmap(%s, %s)" % (p, pf)
                if t == INT:
                    c, p = self.expr(("gt", self.rtype(1)), sc, d - 1)
                    return "gsize(%s)" % c, "gsize(%s)" % p
            if w == 8:
                c, p = self.expr(("gt", t), sc, d - 1)
                e, pe = self.expr(t, sc, d - 1)
                return "gfirst(%s, %s)" % (c, e), "gfirst(%s, %s)" % (p, pe)
            if w == 3:
                f, pf = self.closure(("fn", (t,), BOOL), sc, d - 2)
                c, p = self.expr(("list", t), sc, d - 1)
                e, pe = self.expr(t, sc, d - 1)
                return "keep(%s).find(%s).orElse(%s)" % (c, f, e), "orelse(lfind(%s, %s), %s)" % (p, pf, pe)
            if w == 4:
                f, pf = self.closure(("fn", (t, t), t), sc, d - 2)
                c, p = self.expr(("list", t), sc, d - 1)
                e, pe = self.expr(t, sc, d - 1)
                return "keep(%s).reduce(%s, %s)" % (c, e, f), "lred(%s, %s, %s)" % (p, pe, pf)
            if w == 5 and t[0] == "list":
                c, p = self.expr(("arr", t[1]), sc, d - 1)
                return "keep(%s).toList()" % c, "lst(*%s)" % p
            if w == 6 and t[0] == "opt":
                c, p = self.expr(t, sc, d - 1)
                f, pf = self.closure(("fn", (t[1],), BOOL), sc, d - 2)
                return "keep(%s).filter(%s)" % (c, f), "ofilter(%s, %s)" % (p, pf)
            if w == 0:
                c, p = self.expr(("opt", t), sc, d - 1)
                e, pe = self.expr(t, sc, d - 1)
                return "keep(%s).orElse(%s)" % (c, e), "orelse(%s, %s)" % (p, pe)
            if w == 1 and t[0] == "opt":
                st = self.rtype(1)
                c, p = self.expr(("opt", st), sc, d - 1)
                f, pf = self.closure(("fn", (st,), t[1]), sc, d - 2)
                return "keep(%s).map(%s)" % (c, f), "omap(%s, %s)" % (p, pf)
            if w == 2 and t[0] == "list":
                c, p = self.expr(t, sc, d - 1)
                if r.random() < 0.5:
                    return "keep(%s).reverse()" % c, "lrev(%s)" % p
                f, pf = self.closure(("fn", (t[1],), t[1]), sc, d - 2)
                return "keep(%s).map(%s)" % (c, f), "lmap(%s, %s)" % (p, pf)
        if t == STR and k < 0.93:
            a, pa = self.expr(STR, sc, d - 1)
            if r.random() < 0.3:
                st = self.rtype(1)
                if st[0] != "fn":
                    c, p = self.show(st)
                    e, pe = self.expr(st, sc, d - 1)
                    return "%s.append(%s(%s, 2))" % (a, c, e), "cat(%s, %s(%s, 2))" % (pa, p, pe)
            b, pb = self.expr(STR, sc, d - 1)
            return "%s.append(%s)" % (a, b), "cat(%s, %s)" % (pa, pb)
        if t == INT and k < 0.93:
            a, pa = self.expr(INT, sc, d - 1)
            w = r.randrange(6)
            if w > 3:
                c, p, q, b = self.arith(sc, min(d, 3))
                return ("(%s)" % c if q < 20 else c), p
            if w == 0:
                s, ps = self.expr(STR, sc, d - 1)
                return "(%s + keep(%s).length)" % (a, s), "(%s + len(%s))" % (pa, ps)
            if w == 1:
                return "(%s + churn(1))" % a, "(%s + 0)" % pa
            b, pb = self.expr(INT, sc, d - 1)
            if w == 2:
                return "((%s & 0xff) - (%s & 0xff))" % (a, b), "((%s & 0xff) - (%s & 0xff))" % (pa, pb)
            return "((%s & 0xfff) + (%s & 0xfff))" % (a, b), "((%s & 0xfff) + (%s & 0xfff))" % (pa, pb)
        if t == BOOL:
            return self.cond(sc, d)
        return self.build(t, sc, d)

    def xarg(self, c, sc, d):
        if c == "B":
            a, p = self.expr(STR, sc, d)
            return "xbytes(%s)" % a, "xbytes(%s)" % p
        return self.expr({"i": INT, "s": STR, "b": BOOL, "A": ("arr", INT)}[c], sc, d)

    def external(self, t, sc, d):
        """A call of an external function which returns t."""
        r = self.r
        k = r.random()
        if t in (INT, BOOL, STR) and k < 0.75:
            g = r.choice(XSIGS) if r.random() < 0.85 else ""
            kind = {"int": r.choice("xxy"), "bool": "q", "str": "u"}[t[0]]
            if kind == "u" and g[-1:] != "s":
                return None
            a = [self.xarg(c, sc, d - 1) for c in g]
            return "x%s_%s(%s)" % (kind, g, ", ".join(x[0] for x in a)), "xcall('%s', '%s', %s)" % (kind, g, ", ".join(x[1] for x in a))
        if t[0] == "fn":
            return None
        n = r.randrange(3)
        dc = "fn xsame%d(%sv: %s) %s" % (n, "".join(["a: int, ", "s: string, "][:n]), tstr(t, self), tstr(t, self))
        if dc not in self.xdecl:
            self.xdecl.append(dc)
        a, pa = self.expr(INT, sc, d - 1) if n else ("", "0")
        s, ps = self.expr(STR, sc, d - 1) if n > 1 else ("", "''")
        c, p = self.expr(t, sc, d - 1)
        return "xsame%d(%s)" % (n, ", ".join([a, s][:n] + [c])), "xsame(%d, %s, %s, %s)" % (n, pa, ps, p)

    def cond(self, sc, d):
        c, p, q = self.condp(sc, d)
        if q < 11 and self.r.random() < 0.5:
            c = "(" + c + ")"
        return c, p

    def condp(self, sc, d):
        r = self.r
        w = r.randrange(6)
        if w == 0 and d > 0 and r.random() < 0.4:
            a, pa, qa = self.condp(sc, d - 1)
            b, pb, qb = self.condp(sc, d - 1)
            return "%s == %s" % (a if qa > 7 else "(" + a + ")", b if qb > 7 else "(" + b + ")"), "(%s == %s)" % (pa, pb), 6
        if w == 0:
            return self.lit(BOOL) + (20,)
        if w == 5 and d > 0:
            c, p, q = self.condp(sc, d - 1)
            return "not %s" % (c if q >= 11 else "(" + c + ")"), "(not %s)" % p, 11
        if w == 1 and d > 0:
            a, pa, qa = self.condp(sc, d - 1)
            b, pb, qb = self.condp(sc, d - 1)
            op = r.choice(["and", "or"])
            q = 2 if op == "and" else 1
            if qa < q:
                a = "(" + a + ")"
            if qb <= q:
                b = "(" + b + ")"
            return "%s %s %s" % (a, op, b), "(%s %s %s)" % (pa, "&" if op == "and" else "|", pb), q
        if w == 2 and d > 0:
            a, pa = self.expr(STR, sc, d - 1)
            b, pb = self.expr(STR, sc, d - 1)
            return "Equals(%s, %s)" % (a, b), "(%s == %s)" % (pa, pb), 13
        op = r.choice(["<", ">", "<=", ">=", "=="])
        q = 6 if op == "==" else 7
        if d > 0 and r.random() < 0.5:
            a, pa, qa, _ = self.arith(sc, min(d, 2))
            b, pb, qb, _ = self.arith(sc, min(d, 2))
            a = a if qa > q else "(" + a + ")"
            b = b if qb > q else "(" + b + ")"
        else:
            a, pa = self.expr(INT, sc, d - 1)
            b, pb = self.expr(INT, sc, d - 1)
        return "%s %s %s" % (a, op, b), "(%s %s %s)" % (pa, op, pb), q

    def closure(self, t, sc, d):
        """An anonymous function of type t, capturing whatever it mentions (by value, when it is created)."""
        r = self.r
        if r.random() < 0.12 and self.depth_fn < 2:
            return self.named(t)
        nm = self.fresh("clo")
        inner = Scope()
        used = {}

        class Cap(object):
            pass

        # captured variables appear as E.name inside
        for v in sc.vars:
            inner.vars.append((v[0], v[1], "E." + v[0], bool(self.feat.get("mutcap")) and v[3] == "cap"))
        if not self.feat.get("capall"):
            keep = [v for v in inner.vars if r.random() < 0.6]
            inner.vars = keep[-5:]
        if len(inner.vars) > 6:
            # the compiler passes arguments in registers only: a closure captures at most 6 variables
            inner.vars = [inner.vars[x] for x in sorted(r.sample(range(len(inner.vars)), 6))]
        outer = {v[0]: v[2] for v in sc.vars}
        ps = []
        for pt in t[1]:
            n = self.fresh("a")
            ps.append((n, pt))
            inner.vars.append((n, pt, n, True))
        sig = "fn(%s)%s" % (", ".join("%s: %s" % (n, tstr(pt, self)) for n, pt in ps), "" if t[2] is None else " " + tstr(t[2], self))
        saved = self.budget
        self.budget = min(self.budget, 14)
        inner.own = set(n for n, _ in ps)
        inner.nested = True
        self.rets.append(t[2])
        if r.random() < 0.5:
            c, p = self.expr(t[2], inner, min(d, 2))
            body = ["return " + p]
            # an expression body swallows whatever follows it, so it only appears as the sole argument of a call
            src = "keep(%s = %s)" % (sig, c)
        else:
            C, P = [], []
            self.stmts(C, P, inner, r.randint(1, 2), 1, 1, top=False)
            c, p = self.whole(t[2], inner, min(d, 2))
            C.append("return " + c)
            P.append("return " + p)
            src = "%s {\n%s\n}" % (sig, "\n".join(C))
            body = P
        self.budget = saved
        self.rets.pop()
        text = "\n".join(body)
        caps = sorted(set(x for x in re.findall(r"\bE\.([a-z]+\d+)\b", text)), key=lambda s: int(re.sub(r"\D", "", s)))
        self.cls.append("def %s(E%s):\n%s" % (nm, "".join(", " + n for n, _ in ps),
                                              "\n".join("    " + l for b in body for l in b.split("\n"))))
        return src, "Clo(%s%s)" % (nm, "".join(", %s=%s" % (c, outer[c]) for c in caps))

    def named(self, t):
        """A top level function of type t, used as a value."""
        n = self.fresh("nf")
        sc = Scope()
        ps = []
        for pt in t[1]:
            a = self.fresh("p")
            ps.append((a, pt))
            sc.declare(a, pt, a, True)
        saved, fns = self.budget, self.fns
        self.budget = min(saved, 10)
        self.depth_fn += 1
        self.rets.append(t[2])
        sig = "fn %s(%s) %s" % (n, ", ".join("%s: %s" % (a, tstr(x, self)) for a, x in ps), tstr(t[2], self))
        if self.r.random() < 0.5:
            c, p = self.expr(t[2], sc, 1)
            self.cl.append("%s = %s" % (sig, c))
            P = ["return " + p]
        else:
            C, P = [], []
            self.stmts(C, P, sc, 1, 1, 1)
            c, p = self.expr(t[2], sc, 1)
            self.cl.append(sig + " {")
            self.cl += ["    " + l for x in C for l in x.split("\n")] + ["    return " + c, "}"]
            P.append("return " + p)
        self.rets.pop()
        self.depth_fn -= 1
        self.budget = saved
        self.py.append("def %s(%s):" % (n, ", ".join(a for a, _ in ps)))
        self.py += ["    " + l for x in P for l in x.split("\n")]
        return n, n

    # ---- statements ---------------------------------------------------------------------------------------------
    def log(self, C, P, sc, ind, d=2):
        r = self.r
        vs = [v for v in sc.vars if not hasfn(v[1])]
        fs = [v for v in sc.vars if v[1][0] == "fn" and v[1][2] is not None and not hasfn(v[1][2])]
        if fs and self.budget > 0 and r.random() < (0.35 if self.feat.get("clo") else 0.15):
            v = r.choice(fs)
            t = v[1][2]
            c, p = self.args(v[1][1], sc, d - 1)
            c, p = "%s(%s)" % (v[0], c), "%s(%s)" % (v[2], p)
        elif vs and r.random() < 0.7:
            v = r.choice(vs)
            t, c, p = v[1], v[0], v[2]
        else:
            t = self.rtype(1)
            c, p = self.expr(t, sc, d)
        if t == STR and r.random() < 0.4 and not self.feat.get("nofmt"):
            c2, p2 = self.expr(STR, sc, 1)
            mk = "@@ " if self.feat.get("mark") else ""
            C.append('printf("%s%%s/%%d/%%s\\n", %s, %d + churn(1), %s)' % (mk, c, 7, c2))
            P.append("print('%s' + %s + '/7/' + %s, file=OUT)" % (mk, p, p2))
            return
        f, g = self.show(t)
        C.append("say(%s(%s, 4))" % (f, c))
        P.append("print(%s(%s, 4), file=OUT)" % (g, p))

    def decl(self, C, P, sc, d):
        r = self.r
        t = self.rtype(2)
        if self.feat.get("clo") and r.random() < 0.3:
            t = r.choice([INT, INT, ("arr", INT), ("arr", STR), ("arr", self.rtype(1))])
        if r.random() < (0.3 if self.feat.get("clo") else 0.12):
            t = ("fn", tuple(self.rtype(1) for _ in range(r.choice([0, 1, 1, 2, 2, 3, 4, 5]))), self.rtype(1))
        n = py = self.fresh()
        c, p = self.whole(t, sc, d) if r.random() < 0.6 else self.build(t, sc, d)
        if sc.nested and r.random() < 0.2:
            # declare a name of an outer scope again
            old = [v[0] for v in sc.vars if v[0] not in sc.own and re.match(r"^[vpc]\d", v[0])]
            if old:
                n = r.choice(old)
        C.append("%s := %s" % (n, c))
        P.append("%s = %s" % (py, p))
        sc.declare(n, t, py, True)

    def assign(self, C, P, sc, d):
        r = self.r
        if r.random() < 0.25:
            o = self.path(sc, d, lambda x: True)
            if o:
                c, p = self.expr(o[0], sc, d)
                C.append("%s = %s" % (o[1], c))
                P.append("%s = %s" % (o[2], p))
                return
        vs = [v for v in sc.vars if v[3]]
        r.shuffle(vs)
        for v in vs[:6]:
            t = v[1]
            w = r.random()
            if t[0] == "st" and w < 0.7:
                j = r.randrange(len(self.structs[t[1]]))
                c, p = self.expr(self.structs[t[1]][j], sc, d)
                if r.random() < 0.3:
                    C.append("keep(%s).f%d = %s" % (v[0], j, c))
                else:
                    C.append("%s.f%d = %s" % (v[0], j, c))
                P.append("%s.f[%d] = %s" % (v[2], j, p))
                return
            if t[0] == "arr" and w < 0.8:
                c, p = self.expr(t[1], sc, d)
                i, pi = self.idx(sc, d)
                if r.random() < 0.3:
                    C.append("keep(%s)[%s] = %s" % (v[0], i, c))
                else:
                    C.append("%s[%s] = %s" % (v[0], i, c))
                P.append("%s[%s] = %s" % (v[2], pi, p))
                return
            if t[0] == "box" and w < 0.6:
                c, p = self.expr(t[1], sc, d)
                C.append("%s.v = %s" % (v[0], c))
                P.append("%s.f[0] = %s" % (v[2], p))
                return
            if t[0] == "pair" and w < 0.6:
                c, p = self.expr(t[2], sc, d)
                C.append("%s.second = %s" % (v[0], c))
                P.append("%s.f[1] = %s" % (v[2], p))
                return
            if t[0] == "fn":
                continue
            c, p = self.whole(t, sc, d)
            C.append("%s = %s" % (v[0], c))
            P.append("%s = %s" % (v[2], p))
            return

    def block(self, C, P, sc, n, ind, depth):
        """Append an indented block."""
        c, p = [], []
        s = Scope(sc)
        self.stmts(c, p, s, n, ind, depth, top=False)
        C += ["    " + l for x in c for l in x.split("\n")]
        P += ["    " + l for x in (p or ["pass"]) for l in x.split("\n")]

    def stmts(self, C, P, sc, n, ind, depth, top=True):
        r = self.r
        for _ in range(n):
            k = r.random()
            if self.budget < 0:
                k = 0.4
            if self.feat.get("ext") and r.random() < 0.2:
                if r.random() < 0.4:
                    # the one function with any number of arguments
                    g = [r.choice("iis") for _ in range(r.randrange(6))]
                    a = [self.xarg(c, sc, 2) for c in g]
                    C.append("printf(%s)" % ", ".join(['"p%s\\n"' % "".join("|%lli" if c == "i" else "|%s" for c in g)] + [x[0] for x in a]))
                    P.append("print(%s, sep='|', file=OUT)" % ", ".join(["'p'"] + [x[1] for x in a]))
                if r.random() < 0.5:
                    g = r.choice(XSIGS)
                    a = [self.xarg(c, sc, 2) for c in g]
                    C.append("xw_%s(%s)" % (g, ", ".join(x[0] for x in a)))
                    P.append("xcall('w', '%s', %s)" % (g, ", ".join(x[1] for x in a)))
                C.append("say(xsum().toString())")
                P.append("print(XS[0], file=OUT)")
            if k < 0.30:
                self.decl(C, P, sc, 3 if top else 2)
            elif k < 0.50:
                self.log(C, P, sc, ind)
            elif k < 0.66:
                self.assign(C, P, sc, 2)
            elif k < 0.74 and depth < 3:
                c, p = self.cond(sc, 2)
                C.append("if %s {" % c)
                P.append("if %s:" % p)
                self.block(C, P, sc, r.randint(1, 3), ind + 1, depth + 1)
                if r.random() < 0.3:
                    c, p = self.cond(sc, 2)
                    C.append("} elseif %s {" % c)
                    P.append("elif %s:" % p)
                    self.block(C, P, sc, r.randint(1, 2), ind + 1, depth + 1)
                if r.random() < 0.5:
                    C.append("} else {")
                    P.append("else:")
                    self.block(C, P, sc, r.randint(1, 3), ind + 1, depth + 1)
                C.append("}")
            elif k < 0.79 and depth < 2:
                i = self.fresh("i")
                m = r.randint(1, 3)
                s = Scope(sc)
                w = r.random()
                if w < 0.3:
                    C.append("for %s in %d .. 0 {" % (i, m))
                    P.append("for %s in range(%d, -1, -1):" % (i, m - 1))
                elif w < 0.55:
                    # bounds that are computed: from variables the loop leaves alone
                    vs = [v for v in sc.vars if v[1] == INT]
                    b = r.choice(vs) if vs else None
                    lo, plo = ("(%s & 7)" % b[0], "(%s & 7)" % b[2]) if b else ("2", "2")
                    if b:
                        s.vars = [(x, y, z, False if x == b[0] else q) for x, y, z, q in s.vars]
                    C.append("for %s in %s .. %s + %d {" % (i, lo, lo, m))
                    P.append("for %s in range(%s, %s + %d):" % (i, plo, plo, m))
                else:
                    C.append("for %s in 0 .. %d {" % (i, m))
                    P.append("for %s in range(%d):" % (i, m))
                s.declare(i, INT, i, False)
                self.block(C, P, s, r.randint(1, 3), ind + 1, depth + 1)
                C.append("}")
            elif k < 0.84 and depth < 2:
                vs = [v for v in sc.vars if v[1][0] == "arr"]
                if r.random() < 0.25:
                    t = self.rtype(1)
                    n = r.randint(1, 3)
                    c, p = self.args([t] * n, sc, 2)
                    e = self.fresh("x")
                    s = Scope(sc)
                    s.declare(e, t, e, True)
                    C.append("for %s in [%s] {" % (e, c))
                    P.append("for %s in [%s]:" % (e, p))
                    self.block(C, P, s, r.randint(1, 3), ind + 1, depth + 1)
                    C.append("}")
                elif vs:
                    v = r.choice(vs)
                    e = self.fresh("x")
                    s = Scope(sc)
                    # the loop reads the array through its variable on every step: keep the variable itself fixed
                    s.vars = [(a, b, c, False if a == v[0] else dd) for a, b, c, dd in s.vars]
                    s.declare(e, v[1][1], e, True)
                    C.append("for %s in %s {" % (e, v[0]))
                    P.append("for %s in %s:" % (e, v[2]))
                    c2, p2 = [], []
                    if r.random() < 0.5:
                        # overwrite elements of the array while iterating over it
                        i = r.randrange(3)
                        a, b = self.expr(v[1][1], s, 2)
                        C.append("    %s[%d] = %s" % (v[0], i, a))
                        P.append("    %s[%d] = %s" % (v[2], i, b))
                    self.block(C, P, s, r.randint(1, 3), ind + 1, depth + 1)
                    C.append("}")
            elif k < 0.88 and depth < 2:
                i = self.fresh("w")
                m = r.randint(1, 3)
                C.append("%s := 0" % i)
                P.append("%s = 0" % i)
                C.append("while %s < %d + churn(0) {" % (i, m))
                P.append("while %s < %d:" % (i, m))
                s = Scope(sc)
                s.declare(i, INT, i, False)
                self.block(C, P, s, r.randint(1, 3), ind + 1, depth + 1)
                C += ["    %s = %s + 1" % (i, i), "}"]
                P += ["    %s = %s + 1" % (i, i)]
            elif k < 0.95 and depth < 3:
                self.match(C, P, sc, ind, depth)
            elif k < 0.965 and self.rets and self.rets[-1] and depth > 0:
                c, p = self.cond(sc, 2)
                e, pe = self.whole(self.rets[-1], sc, 2)
                C.append("if %s {\n    return %s\n}" % (c, e))
                P.append("if %s:\n    return %s" % (p, pe))
            elif k < 0.98 and self.vfns and self.budget > 0:
                c, p = self.call(r.choice(self.vfns), sc, 2)
                C.append(c)
                P.append(p)
            else:
                t = self.rtype(1)
                c, p = self.expr(t, sc, 2)
                if "(" in c and not c.startswith("(") and not c.startswith("["):
                    C.append("keep(%s)" % c)
                    P.append(p)

    def match(self, C, P, sc, ind, depth):
        r = self.r
        w = r.random()
        if w < 0.5 and self.enums:
            i = r.randrange(len(self.enums))
            t = ("en", i)
            vars_ = [("V%d_%d" % (i, j), fs) for j, fs in enumerate(self.enums[i])]
        elif w < 0.58:
            t = ("eit", self.rtype(1), self.rtype(1))
            vars_ = [("Left", [t[1]]), ("Right", [t[2]])]
        elif w < 0.66:
            it = self.rtype(1)
            t = ("gt", it)
            vars_ = [("Gleaf", [it]), ("Gnode", [t, INT, t]), ("Gnil", [])]
        elif w < 0.83:
            it = self.rtype(1)
            t = ("opt", it)
            vars_ = [("Some", [it]), ("None", [])]
        else:
            it = self.rtype(1)
            t = ("list", it)
            vars_ = [("Element", [it, t]), ("Empty", [])]
        c, p = self.expr(t, sc, 2)
        m = self.fresh("m")
        C.append("match %s {" % c)
        P.append("%s = %s" % (m, p))
        for j, (n, fs) in enumerate(vars_):
            s = Scope(sc)
            ns = [self.fresh("c") for _ in fs]
            C.append("    case %s(%s):" % (n, ", ".join(ns)))
            P.append("%s %s.t == %d:" % ("if" if j == 0 else "elif", m, j))
            for q, x in enumerate(ns):
                P.append("    %s = %s.f[%d]" % (x, m, q))
                s.declare(x, fs[q], x, True)
            c2, p2 = [], []
            self.stmts(c2, p2, s, r.randint(1, 2), ind + 1, depth + 1, top=False)
            C += ["        " + l for x in c2 for l in x.split("\n")]
            P += ["    " + l for x in (p2 or ["pass"]) for l in x.split("\n")]
        C.append("}")

    def func(self):
        r = self.r
        n = self.fresh("fun")
        ts = [self.rtype(2) for _ in range(r.choice([0, 1, 2, 3, 4, 5, 6]))]
        ret = self.rtype(2)
        kind = r.random()
        rec = kind < 0.15
        void = not rec and kind < 0.3
        if rec:
            ts = [INT] + ts[:5]
        sc = Scope()
        ps = []
        for t in ts:
            a = self.fresh("p")
            ps.append((a, t))
            sc.declare(a, t, a, True)
        self.budget = 60
        C, P = [], []
        self.rets.append(None if void else ret)
        if rec:
            # recursion at most three deep, whatever it is called with
            k = self.fresh("k")
            C.append("%s := %s & 3" % (k, ps[0][0]))
            P.append("%s = %s & 3" % (k, ps[0][0]))
            self.budget = 10
            c, p = self.expr(ret, sc, 2)
            C.append("if %s < 1 {\n    return %s\n}" % (k, c))
            P.append("if %s < 1:\n    return %s" % (k, p))
            self.budget = 30
            self.stmts(C, P, sc, r.randint(1, 2), 1, 0)
            c, p = self.args(ts[1:], sc, 2)
            x = self.fresh()
            C.append("%s := %s(%s - 1%s)" % (x, n, k, ", " + c if c else ""))
            P.append("%s = %s(%s - 1%s)" % (x, n, k, ", " + p if p else ""))
            sc.declare(x, ret, x, True)
            self.budget = 20
        self.stmts(C, P, sc, r.randint(2, int(5 * self.size) + 1), 1, 0)
        self.budget = 20
        if void:
            if r.random() < 0.3:
                C.append("return")
            P.append("return None")
        else:
            c, p = self.expr(ret, sc, 3)
            C.append("return " + c)
            P.append("return " + p)
        self.rets.pop()
        self.cl.append("fn %s(%s)%s {" % (n, ", ".join("%s: %s" % (a, tstr(t, self)) for a, t in ps), "" if void else " " + tstr(ret, self)))
        self.cl += ["    " + l for x in C for l in x.split("\n")] + ["}"]
        self.py.append("def %s(%s):" % (n, ", ".join(a for a, _ in ps)))
        self.py += ["    " + l for x in P for l in x.split("\n")]
        if void:
            self.vfns.append((n, tuple(ts), None))
        else:
            self.fns.append((n, tuple(ts), ret))

    def program(self):
        r = self.r
        self.mktypes()
        for _ in range(r.randint(2, int(6 * self.size) + 1)):
            self.func()
        C, P = [], []
        sc = Scope()
        self.budget = 120
        self.stmts(C, P, sc, r.randint(5, int(12 * self.size) + 3), 1, 0)
        for f in self.fns:
            self.budget = 25
            if f[2][0] != "fn":
                c, p = self.args(f[1], sc, 2)
                a, b = self.show(f[2])
                C.append("say(%s(%s(%s), 4))" % (a, f[0], c))
                P.append("print(%s(%s(%s), 4), file=OUT)" % (b, f[0], p))
        for v in sc.vars:
            if not hasfn(v[1]):
                a, b = self.show(v[1])
                C.append("say(%s(%s, 5))" % (a, v[0]))
                P.append("print(%s(%s, 5), file=OUT)" % (b, v[2]))
        self.cl.append("fn main() {")
        self.cl += ["    " + l for x in C for l in x.split("\n")] + ["    say(\"end\")", "}"]
        self.py.append("def main():")
        self.py += ["    " + l for x in P for l in x.split("\n")] + ["    print('end', file=OUT)"]
        clara = PRELUDE + (XPRELUDE + "\n".join(self.xdecl) + "\n" if self.feat.get("ext") else "") + "\n".join(self.cl) + "\n"
        if self.feat.get("mark"):
            clara = clara.replace("    println(s)\n", '    printf("@@ %s\\n", s)\n')
            self.py = [l.replace("print(", "print('@@ ' + ", 1) if "file=OUT" in l and "print('@@ '" not in l else l for l in self.py]
            self.cls = ["\n".join(l.replace("print(", "print('@@ ' + ", 1) if "file=OUT" in l and "print('@@ '" not in l else l
                                  for l in b.split("\n")) for b in self.cls]
        py = PYPRE + (XPY if self.feat.get("ext") else "") + "\n".join(self.cls) + "\n" + "\n".join(self.py) + "\n"
        if not self.feat.get("plain"):
            clara = vary(clara, r)
        return clara.replace("\ue00a", "\n"), py


TOKEN = re.compile(r'"(?:\\.|[^"\\])*"|\w+|.|\n', re.S)
# Names which mean something else, or nothing, elsewhere: types, functions of the library, special members
TYPES = ["list", "option", "pair", "either", "result", "error", "map", "file", "byteBuffer", "string", "int", "bool", "bytes", "pointer", "nothing",
         "block", "frame", "typeInfo", "runtime", "time"]
NAMES = ["length", "deref", "gc", "gcMark", "size", "panic", "printf", "debug", "unsafe", "reverse", "find", "main", "println", "isMarked", "readInt",
         "head", "next", "header", "env", "self", "simPicks", "malloc", "exit", "stdout", "rax", "e", "T", "R", "A", "übung", "имя", "zz" + "x" * 240]


def overloads(r):
    """Declarations of one name for different parameters, and calls: the first declaration which fits is the one called.
    Returns the declarations and the body of a function which speaks up if another was called."""
    name = r.choice(["zz", "zz", "main", "arrays", "T", "int", "value"])
    gname, gcons = r.choice([("array", "Array"), ("array", "Array"), ("zbox", "Zbox"), ("zT", "ZT"), ("intArray2", "IntArray2")])
    gkind = r.choice(["struct", "enum"])

    def typ(d, pars):
        w = r.random()
        if pars and w < 0.35:
            return ("par", r.choice(pars))
        if d == 0 or w < 0.6:
            return (r.choice(["int", "string", "bool", "int"]),)
        if w < 0.75:
            return ("[]", typ(d - 1, pars))
        if w < 0.83:
            return ("option", typ(d - 1, pars))
        if w < 0.92:
            return ("g", typ(d - 1, pars))
        return ("fn",) + tuple(typ(d - 1, pars) for _ in range(r.randint(1, 3)))

    def text(t):
        if t[0] == "par":
            return t[1]
        if t[0] == "[]":
            return "[]" + text(t[1])
        if t[0] == "option":
            return "option«%s»" % text(t[1])
        if t[0] == "g":
            return "%s«%s»" % (gname, text(t[1]))
        if t[0] == "fn":
            return "fn(%s) %s" % (", ".join(map(text, t[1:-1])), text(t[-1]))
        return t[0]

    def key(t):
        """What distinguishes declarations: the type returned by a function does not."""
        return t[:1] + tuple(key(x) for x in t[1:-1]) if t[0] == "fn" else (t[0],) + tuple(key(x) if isinstance(x, tuple) else x for x in t[1:])

    def value(t):
        if t[0] == "[]":
            return "[%s]" % value(t[1])
        if t[0] == "option":
            return "Some(%s)" % value(t[1])
        if t[0] == "g":
            return "%s(%s)" % (gcons, value(t[1]))
        if t[0] == "fn":
            return "fn(%s) %s = %s" % (", ".join("zp%d: %s" % (i, text(x)) for i, x in enumerate(t[1:-1])), text(t[-1]), value(t[-1]))
        return {"int": str(r.randint(0, 9)), "string": '"z"', "bool": "true"}[t[0]]

    def fits(t, p, b):
        if isinstance(t, list):
            # a name with several meanings: the first which fits
            for x in t:
                c = dict(b)
                if fits(x, p, c):
                    b.update(c)
                    return True
            return False
        if p[0] == "par":
            if p[1] in b:
                return b[p[1]] == t
            b[p[1]] = t
            return True
        return t[0] == p[0] and len(t) == len(p) and all(fits(x, y, b) if isinstance(x, tuple) else x == y for x, y in zip(t[1:], p[1:]))

    def concrete(p, b):
        if p[0] == "par":
            return b.setdefault(p[1], typ(1, []))
        return tuple(concrete(x, b) if isinstance(x, tuple) else x for x in p)

    decls, seen, fns = ["%s %s«ZV» {\n    %s\n}" % (gkind, gname, "zv: ZV" if gkind == "struct" else "%s(zv: ZV)\n    %sNone()" % (gcons, gcons))], set(), []
    for _ in range(r.randint(2, 7)):
        pars = r.choice([[], [], ["A"], ["T"], ["A", "B"], ["B", "A"], ["zq", "A"]])
        ps = [typ(2, pars) for _ in range(r.randint(1, 3))]
        used = [x for x in pars if any(x in re.findall(r"\w+", text(p)) for p in ps)]
        k = tuple(map(key, ps))
        if k in seen or (name == "main" and text(ps[0]) == "[]string"):
            continue
        seen.add(k)
        fns.append(ps)
        decls.append("fn %s%s(%s) int = %d" % (name, "«%s»" % ", ".join(used) if used else "", ", ".join("zp%d: %s" % (i, text(p)) for i, p in enumerate(ps)), len(fns)))
    # A function of several meanings as argument
    over = []
    for _ in range(r.randint(0, 4)):
        t = concrete(r.choice([p for ps in fns for p in ps]), {})
        t = t if t[0] == "fn" else ("fn", t, typ(1, []))
        if key(t) not in map(key, over):
            over.append(t)
            decls.append("fn zover(%s) %s = %s" % (", ".join("zp%d: %s" % (i, text(x)) for i, x in enumerate(t[1:-1])), text(t[-1]), value(t[-1])))
    body = ["zwrong := 0"]
    for _ in range(r.randint(2, 6)):
        b = {}
        args = [concrete(p, b) for p in r.choice(fns)]
        args = [over if a in over and r.random() < 0.8 else a for a in args]
        args = [over if over and r.random() < 0.05 else a for a in args]
        if not any(len(ps) == len(args) and (lambda b: all(fits(a, p, b) for a, p in zip(args, ps)))({}) for ps in fns):
            continue
        first = next(i for i, ps in enumerate(fns) if len(ps) == len(args) and (lambda b: all(fits(a, p, b) for a, p in zip(args, ps)))({}))
        body.append("zwrong = zwrong + (%s(%s) == %d ? 0 : 1)" % (name, ", ".join("zover" if a is over else value(a) for a in args), first + 1))
    body.append("if zwrong > 0 {\n        println(\"another overload was called\")\n    }")
    return decls + ["fn zcheck() {\n    %s\n}" % "\n    ".join(body)]


WORDS = ["zlongNameOf" + "Something" * 12, "zx" + "y" * 300, "été", "дом", "日本", "λ", "z_", "_zq", "zmainfn", "zreturn", "zifx", "zA1b2C3"]


def literals(r):
    """Literals of unusual length and spelling, compared with what they are made of."""
    body = []
    for k in range(r.randint(1, 3)):
        parts = ["".join(r.choice(["a", "b", "zz", " ", "%s", "%", "é", "日本", "\\n", "\\\\", "\\\"", "'", "//", "»", "#[", "\\r"]) for _ in range(r.choice([0, 1, 9, 40, 130, 700]))) for _ in range(r.randint(1, 4))]
        body.append("zlit%d := \"%s\"" % (k, "".join(parts)))
        body.append("zwrong = zwrong + (zlit%d.Equals(%s) ? 0 : 1)" % (k, '"".append(' + ").append(".join('"%s"' % x for x in parts) + ")"))
        n = len("".join(parts).replace("\\\\", "q").replace("\\", "").encode())
        body.append("zwrong = zwrong + (zlit%d.length == %d ? 0 : 1)" % (k, n))
    for _ in range(r.randint(1, 4)):
        n = r.choice([0, 1, 10, 255, 4096, 2 ** 31 - 1, 2 ** 31, 2 ** 32, 2 ** 32 + 7, 2 ** 53 + 1, 2 ** 62 - 1, r.randrange(2 ** 40)])
        hx = r.choice(["0x%x", "0x%X", "0x0%x", "0x%016x"]) % n
        body.append("zwrong = zwrong + (%s == %s ? 0 : 1)" % (hx, n))
        a = r.randrange(n + 1)
        body.append("zwrong = zwrong + ((%s - %s) == %s ? 0 : 1)" % (n, r.choice(["%d", "0x%x"]) % a, r.choice(["%d", "0x%x"]) % (n - a)))
    n = r.choice([1, 5, 20])
    body.append("zwrong = zwrong + (%s7%s == 7 ? 0 : 1)" % ("(" * n, ")" * n))
    return ["fn zliterals() {\n    zwrong := 0\n    %s\n    if zwrong > 0 {\n        println(\"a literal has another value\")\n    }\n}" % "\n    ".join(body)]


def layout(src, r):
    """Other white space and comments between tokens. Lines which go on start with one space."""
    p, out = r.choice([0.02, 0.1, 0.4]), []
    for l in src.split("\n"):
        if not l.startswith("    "):
            out.append(l)
            if not l and r.random() < 0.3:
                out.append(r.choice(["", "// a remark", "// \"not a string", "//", "// é 日本 " + "x" * 200]))
            continue
        ind = l[:len(l) - len(l.lstrip())]
        for t in TOKEN.findall(l[len(ind):]):
            if t == " " and r.random() < p:
                t = r.choice(["  ", " " * 40, "\n ", "\n\n ", " // said \"so\n ", "\r\n ", " //\n ", " // fn x() { case\n "])
            elif t in ",+)]" and r.random() < p / 4:
                t = r.choice([" " + t, "\n " + t])
            ind += t
        if r.random() < p / 4:
            ind += r.choice([" ", " // the end", "\n// " + "z" * 90])
        out.append(ind)
    return "\n".join(out) + "\n"


def vary(src, r):
    """The same program written differently: declarations in another order, other names, white space and comments, more declarations."""
    if r.random() < 0.3:
        src = src.replace("fn main() {\n", "\n".join(literals(r)) + "\nfn main() {\n    zliterals()\n", 1)
    if r.random() < 0.5:
        src = src.replace("fn main() {\n", "\n".join(overloads(r)) + "\nfn main() {\n    zcheck()\n", 1)
    if r.random() < 0.6:
        decls, start = [], True
        for l in src.split("\n"):
            if start and re.match(r"(fn|struct|enum|#\[)", l):
                decls.append([])
            start = not l.startswith("#[")
            if not decls:
                decls.append([])
            decls[-1].append(l)
        decls = [tuple(d) for d in decls]
        order = {d: i for i, d in enumerate(decls)}
        if r.random() < 0.3:
            decls.reverse()
        else:
            r.shuffle(decls)
        # declarations of one name are tried in their order
        name = [(re.search(r"^fn (\w+)", "\n".join(d), re.M) or [None, None])[1] for d in decls]
        for n in set(name) - {None}:
            at = [i for i, x in enumerate(name) if x == n]
            if len(at) > 1:
                for i, d in zip(at, sorted((decls[i] for i in at), key=order.__getitem__)):
                    decls[i] = d
        src = "\n".join("\n".join(d) for d in decls) + "\n"
    if r.random() < 0.6:
        toks = TOKEN.findall(src)
        used = {t for t in toks if t[0] != '"'}
        called = {toks[i] for i in range(len(toks) - 1) if toks[i + 1] == "("}
        declared = {toks[i + 2] for i in range(len(toks) - 2) if toks[i] in ("fn", "struct", "enum") and toks[i + 1] == " "}
        called |= declared
        local = sorted(t for t in used if re.match(r"[a-z]+\d+$", t) and not re.match(r"f\d+$", t) and t not in declared)
        field = sorted(t for t in used if re.match(r"f\d+$", t) and t not in declared)
        new = [t for t in TYPES if t not in called] + [t for t in NAMES if t not in used]
        r.shuffle(new)
        ren = dict(zip(r.sample(local, min(len(local), r.choice([1, 4, 12]))), new))
        # fields have names of their own: those of variables and functions as well
        new = [t for t in sorted(set(local + TYPES + NAMES) | declared) if t not in ("first", "second") and not re.search(r"\.%s\b" % t, src)]
        if r.random() < 0.6 and field:
            ren.update(zip(field, r.sample(new, len(field))))
        # functions and types
        decl = sorted(t for t in declared if re.match(r"(fun|nf|junk)\d+$|[sge]+\d$|(gbox|rtree|gtree|hold|shelf|rcount)$", t))
        words = [w for w in WORDS if w not in used]
        if r.random() < 0.4:
            r.shuffle(words)
            for a, b in zip(r.sample(decl, min(len(decl), 4)), words):
                ren.pop(a, None)
                if b in ren.values() or (b[0].upper() == b[0] and "struct " + a in src):
                    continue
                ren[a] = b
                if "struct " + a in src:
                    ren[a[0].upper() + a[1:]] = b[0].upper() + b[1:]
        src = "".join(ren.get(t, t) for t in toks)
    if r.random() < 0.15:
        src = layout(src, r)
    return src


def reference(py):
    import io
    out = io.StringIO()
    ns = {"St": St, "En": En, "Clo": Clo, "OUT": out, "TooLong": TooLong}
    exec(compile(py, "<model>", "exec"), ns)
    left = [20000]

    def step(frame, event, arg):
        if event == "call":
            left[0] -= 1
            if left[0] < 0:
                raise TooLong()

    sys.setprofile(step)
    try:
        ns["main"]()
    finally:
        sys.setprofile(None)
    return out.getvalue().encode("latin-1")


def generate(seed, size=1.0, features=None):
    """One program: (clara source, expected output). Retries deterministically until the model accepts it."""
    for k in range(50):
        rng = random.Random("%s/%d" % (seed, k))
        c, p = Prog(rng, size, features).program()
        try:
            exp = reference(p)
        except (RecursionError, TooLong):
            continue
        if len(exp) > 9000 or len(c) > 60000:
            continue
        return c, p, exp
    raise Exception("generator: no program for seed %s" % seed)
