"""C06: strings, byte buffers, bytes, lists, options and results give what their plain values give, in any history."""
import random
from simlib import core
from simlib.harness import OpsCheck
from props.C04 import HEAD

SOURCE = HEAD.replace('''struct item {
    name: string
    n: int
}
struct shelf {
    tag: string
    items: []item
    nums: []int
    words: []string
}
''', "") + '''
fn showList(l: list«string») {
    print("L")
    l.foreach(fn(s: string) {
        printf(" %s", s)
    })
    println("")
}
fn half(n: int) result«int, string» {
    return (n & 1) == 0 ? Ok«int, string»(n >> 1) : Err«int, string»("odd ".append(n.toString()))
}
fn showRes(r: result«int, string») {
    match r {
        case Ok(v):
            printf("ok %lli\\n", v)
        case Err(e):
            printf("err %s\\n", e)
    }
}
fn side(n: int, s: string) either«int, string» = n > 2 ? Left«int, string»(n) : Right«int, string»(s.append(">"))
fn showEither(e: either«int, string») {
    match e {
        case Left(n):
            printf("left %lli\\n", n)
        case Right(s):
            printf("right %s\\n", s)
    }
}
fn showOpt(o: option«string») {
    match o {
        case Some(v):
            printf("+%s\\n", v)
        case None():
            println("-")
    }
}
fn main() {
    p := stringArray(6, "")
    p[0] = "abcab".append("cabd")
    p[1] = "ab".append("")
    bufs := [NewByteBuffer(0), NewByteBuffer(1), NewByteBuffer(16)]
    bs := [Bytes(0), Bytes(5), Bytes(33)]
    ls := array(3, Empty«string»())
    ints := Empty«int»()
    op := simOp(0)
    while op > 0 {
        x := simOp(0)
        y := simOp(0)
        z := simOp(0)
        if op == 1 {
            p[x] = p[y].append(p[z])
            println(p[x])
        } elseif op == 2 {
            p[x] = p[x].Substring(y, z)
            println(p[x])
        } elseif op == 3 {
            println(p[x].IndexOf(p[y], z))
        } elseif op == 4 {
            println(Equals(p[x], p[y]))
        } elseif op == 5 {
            p[x] = y.toString()
            println(p[x])
        } elseif op == 6 {
            println(p[x].byte(y))
        } elseif op == 7 {
            println(p[x].length)
        } elseif op == 8 {
            println(p[x].IndexOf(p[y]))
        } elseif op == 9 {
            println(fnv1a(p[x]))
        } elseif op == 10 {
            println(y.toBinary())
        } elseif op == 11 {
            bufs[x].append(p[y]).append(p[z])
            println(bufs[x].size)
        } elseif op == 12 {
            bufs[x].append(y)
            println(bufs[x].toString())
        } elseif op == 13 {
            bufs[x].reset()
            println(bufs[x].toString())
        } elseif op == 14 {
            p[0] = bufs[x].toString()
            println(p[0])
        } elseif op == 15 {
            println(bufs[x].substring(y, z))
        } elseif op == 16 {
            bufs[x] = NewByteBuffer(y)
            println(bufs[x].size)
        } elseif op == 17 {
            bs[x].set(y, z)
            println(bs[x].get(y) & 0xff)
        } elseif op == 18 {
            print("B")
            for i in 0 .. bs[x].length() {
                printf(" %d", bs[x].get(i) & 0xff)
            }
            println("")
        } elseif op == 19 {
            copyArray(bs[x], 0, bs[y], z)
            println("copied")
        } elseif op == 20 {
            bs[x] = Bytes(y)
            println(bs[x].length())
        } elseif op == 21 {
            ls[x] = ls[x].append(p[y])
            showList(ls[x])
        } elseif op == 22 {
            ls[x] = ls[y].reverse()
            showList(ls[x])
        } elseif op == 23 {
            want := p[z]
            r := ls[x].remove(fn(s: string) bool = s.Equals(want))
            ls[x] = r.first
            showOpt(r.second)
            showList(ls[x])
        } elseif op == 24 {
            suffix := p[z].Substring(0, p[z].length > 2 ? 2 : p[z].length)
            ls[x] = ls[y].map(fn(s: string) string = s.length > 40 ? s : s.append(suffix))
            showList(ls[x])
        } elseif op == 25 {
            n := y
            showOpt(ls[x].find(fn(s: string) bool = s.length > n))
        } elseif op == 26 {
            ls[x] = p.toList()
            showList(ls[x])
        } elseif op == 27 {
            println(ls[x].reduce("=", fn(a: string, b: string) string = a.length > 60 ? a : a.append(b)))
        } elseif op == 28 {
            ints = ints.append(y)
            println(ints.reduce(0, fn(a: int, b: int) int = a + b))
        } elseif op == 29 {
            ints = ints.map(fn(i: int) int = i - y)
            println(ints.reduce(0, fn(a: int, b: int) int = a > b ? a : b))
        } elseif op == 30 {
            o := y < 0 ? None«string»() : Some(p[x].append("!"))
            q := p[z]
            showOpt(o.filter(fn(s: string) bool = s.length > 3).map(fn(s: string) string = s.append(q)))
            println(o.isSome())
            println(o.orElse("dflt".append(q)))
        } elseif op == 31 {
            showRes(half(y).then(half).map(fn(i: int) int = i + x))
        } elseif op == 32 {
            printf("%s|%s|%d|%s\\n", p[x], p[y].append("."), z, p[x].append(p[y]))
        } elseif op == 33 {
            ls[x] = Empty«string»()
            showList(ls[x])
        } elseif op == 34 {
            println(y.mod(z))
        } elseif op == 35 {
            copyString(p[x], y, bs[z], 0)
            println("copied")
        } elseif op == 36 {
            p[x] = bs[y].toString(z)
            println(p[x])
        } elseif op == 37 {
            big := Bytes(y)
            for i in 0 .. y {
                big.set(i, 65 + (i & 15))
            }
            t := big.toString()
            u := x == 0 ? t : x == 1 ? t.append(p[z]) : NewByteBuffer(3).append(t).append(p[z]).toString()
            println(u.length)
            println(fnv1a(u))
        } elseif op == 38 {
            o := y < 0 ? None«string»() : Some(p[x].append("?"))
            q := p[z]
            showOpt(o.peek(fn(s: string) {
                printf("peek %s %s\\n", s, q)
            }))
        } elseif op == 39 {
            q := p[z]
            showRes(half(y).peek(fn(i: int) option«string» = i > x ? Some("big ".append(q)) : None«string»()).map(fn(i: int) int = i + 1))
        } elseif op == 40 {
            showEither(side(y, p[x]))
            showEither(side(z, p[x].append(y.toString())))
        } elseif op == 41 {
            copyArray(bs[x], y, bs[z], 1)
            println("copied")
        } elseif op == 42 {
            println(bs[x].toString(y, z))
        } elseif op == 43 {
            os := array«string»(y)
            os.setElement(z, Some(p[x].append("@")))
            for o in os {
                showOpt(o)
            }
        } elseif op == 44 {
            r := Pair(p[x].append("1"), Pair(y, p[z]))
            printf("%s %lli %s\\n", r.first, r.second.first, r.second.second)
        } elseif op == 45 {
            printHex(y)
            printHexPadded(y)
            print(y)
            print(p[x])
            println((y < z).toString())
        } elseif op == 46 {
            m := ls[x].map(fn(s: string) pair«string, int» = Pair(s, s.length))
            m.reverse().foreach(fn(q: pair«string, int») {
                printf("%s/%d ", q.first, q.second)
            })
            println("")
        } elseif op == 47 {
            a := intArray(y)
            for i in 0 .. y {
                a[i] = (i * z) - x
            }
            println(a.toList().reduce(0, fn(s: int, t: int) int = s + t))
        }
        op = simOp(0)
    }
    println("done")
}
'''
M = 1 << 62


def fnv(s):
    h = 0x811c9dc5
    for c in s:
        h = ((h ^ ord(c)) * 0x01000193) & 0xffffffff
    return h


def tobin(i):
    o = ""
    for j in range(62, -1, -1):
        o += "1" if (i >> j) & 1 else "0"
        if j > 0 and j % 8 == 0:
            o += "·"
    return o


class Skip(Exception):
    pass


class Model(object):
    def __init__(self):
        self.p = ["abcabcabd", "ab", "", "", "", ""]
        self.bufs = ["", "", ""]
        self.bs = [[], [0] * 5, [0] * 33]
        self.ls = [[], [], []]
        self.ints = []

    def L(self, l):
        return "L" + "".join(" " + s for s in l)

    def opt(self, o):
        return "-" if o is None else "+" + o

    def need(self, c):
        if not c:
            raise Skip()

    def step(self, op, x, y, z):
        p, need = self.p, self.need
        if op == 1:
            need(len(p[y]) + len(p[z]) < 120)
            p[x] = p[y] + p[z]
            return p[x]
        if op == 2:
            need(0 <= y <= z <= len(p[x]))
            p[x] = p[x][y:z]
            return p[x]
        if op in (3, 8):
            need(len(p[y]) > 0 and 0 <= z <= len(p[x]))
            return str(p[x].find(p[y], z if op == 3 else 0))
        if op == 4:
            return "true" if p[x] == p[y] else "false"
        if op == 5:
            need(-M <= y < M)
            p[x] = str(y)
            return p[x]
        if op == 6:
            need(0 <= y < len(p[x]))
            return str(ord(p[x][y]))
        if op == 7:
            return str(len(p[x]))
        if op == 9:
            return str(fnv(p[x]))
        if op == 10:
            return tobin(y)
        if op == 11:
            need(len(self.bufs[x]) < 150)
            self.bufs[x] += p[y] + p[z]
            return str(len(self.bufs[x]))
        if op == 12:
            need(33 <= y < 127)
            self.bufs[x] += chr(y)
            return self.bufs[x]
        if op == 13:
            self.bufs[x] = ""
            return ""
        if op == 14:
            p[0] = self.bufs[x]
            return p[0]
        if op == 15:
            need(0 <= y and 0 <= z and y + z <= len(self.bufs[x]))
            return self.bufs[x][y:y + z]
        if op == 16:
            need(0 <= y <= 64)
            self.bufs[x] = ""
            return "0"
        if op == 17:
            b = self.bs[x]
            need(0 <= y < len(b) and 0 <= z < 256)
            b[y] = z
            return str(z)
        if op == 18:
            return "B" + "".join(" %d" % v for v in self.bs[x])
        if op == 19:
            a, b = self.bs[x], self.bs[y]
            need(x != y and a is not b and 0 <= z <= len(b))
            n = min(len(a), len(b) - z)
            b[z:z + n] = a[:n]
            return "copied"
        if op == 20:
            need(0 <= y <= 64)
            self.bs[x] = [0] * y
            return str(y)
        ls = self.ls
        if op == 21:
            need(len(ls[x]) < 14)
            ls[x] = [p[y]] + ls[x]
            return self.L(ls[x])
        if op == 22:
            ls[x] = ls[y][::-1]
            return self.L(ls[x])
        if op == 23:
            o = None
            if p[z] in ls[x]:
                o = p[z]
                j = ls[x].index(o)
                ls[x] = ls[x][:j] + ls[x][j + 1:]
            return self.opt(o) + "\n" + self.L(ls[x])
        if op == 24:
            ls[x] = [s if len(s) > 40 else s + p[z][:2] for s in ls[y]]
            return self.L(ls[x])
        if op == 25:
            return self.opt(next((s for s in ls[x] if len(s) > y), None))
        if op == 26:
            ls[x] = list(p)
            return self.L(ls[x])
        if op == 27:
            a = "="
            for s in ls[x]:
                a = a if len(a) > 60 else a + s
            return a
        if op == 28:
            need(len(self.ints) < 40)
            self.ints = [y] + self.ints
            return str(sum(self.ints))
        if op == 29:
            self.ints = [i - y for i in self.ints]
            return str(max([0] + self.ints))
        if op == 30:
            o = None if y < 0 else p[x] + "!"
            f = o if o is not None and len(o) > 3 else None
            return "%s\n%s\n%s" % (self.opt(None if f is None else f + p[z]), "true" if o is not None else "false", o if o is not None else "dflt" + p[z])
        if op == 31:
            v = y
            for _ in range(2):
                if v & 1:
                    return "err odd %d" % v
                v >>= 1
            return "ok %d" % (v + x)
        if op == 32:
            return "%s|%s.|%d|%s" % (p[x], p[y], z, p[x] + p[y])
        if op == 33:
            ls[x] = []
            return "L"
        if op == 34:
            need(z > 0 and 0 <= y < 1 << 60)
            return str(y % z)
        if op == 35:
            b, s = self.bs[z], p[x]
            need(0 <= y <= len(s))
            n = min(len(s) - y, len(b))
            b[:n] = [ord(c) for c in s[y:y + n]]
            return "copied"
        if op == 37:
            u = "".join(chr(65 + (i & 15)) for i in range(y)) + (p[z] if x else "")
            return "%d\n%d" % (len(u), fnv(u))
        if op == 38:
            return "-" if y < 0 else "peek %s? %s\n+%s?" % (p[x], p[z], p[x])
        if op == 39:
            if y & 1:
                return "err odd %d" % y
            return "err big " + p[z] if y >> 1 > x else "ok %d" % ((y >> 1) + 1)
        if op == 40:
            side = lambda n, t: "left %d" % n if n > 2 else "right %s>" % t
            return side(y, p[x]) + "\n" + side(z, p[x] + str(y))
        if op == 41:
            a, b = self.bs[x], self.bs[z]
            need(a is not b and 0 <= y <= len(a) and len(b) >= 1)
            n = min(len(a) - y, len(b) - 1)
            b[1:1 + n] = a[y:y + n]
            return "copied"
        if op == 42:
            b = self.bs[x]
            need(0 <= y and 0 <= z and y + z <= len(b) and all(33 <= c < 127 for c in b[y:y + z]))
            return "".join(map(chr, b[y:y + z]))
        if op == 43:
            need(0 <= z < y)
            return "\n".join("+" + p[x] + "@" if j == z else "-" for j in range(y))
        if op == 44:
            return "%s1 %d %s" % (p[x], y, p[z])
        if op == 45:
            return "0x%x\n0x%016x\n%d%s%s" % (y % (1 << 64), y % (1 << 64), y, p[x], "true" if y < z else "false")
        if op == 46:
            return "".join("%s/%d " % (t, len(t)) for t in ls[x][::-1])
        if op == 47:
            return str(sum(j * z - x for j in range(y)))
        if op == 36:
            b = self.bs[y]
            need(0 <= z <= len(b) and all(33 <= c < 127 for c in b[:z]))
            p[x] = "".join(map(chr, b[:z]))
            return p[x]


OPS = [o for o in range(1, 48) if o != 37]
NX = {1: 6, 2: 6, 3: 6, 4: 6, 5: 6, 6: 6, 7: 6, 8: 6, 9: 6, 30: 6, 32: 6, 35: 6, 36: 6, 38: 6, 39: 6, 40: 6, 43: 6, 44: 6, 45: 6}


def literals(rng):
    """A program made of string literals, and what it prints: many literals, most of them nearly alike."""
    esc = [("\\n", b"\n"), ("\\\\", b"\\"), ("\\\"", b'"'), ("\\r", b"\r")]
    plain = [c for c in map(chr, range(33, 127)) if c not in '"\\'] + [" "]
    wide = ["é", "ß", "→", "日", "\U0001f600"]
    pool = []

    def piece():
        r = rng.random()
        if r < 0.15:
            return rng.choice(esc)
        if r < 0.25:
            c = rng.choice(wide)
            return c, c.encode()
        if r < 0.32:
            b = bytes([rng.choice([1, 9, 127, 128, 160, 194, 255])])
            return b.decode("utf-8", "surrogateescape"), b
        c = rng.choice(plain)
        return c, c.encode()

    for _ in range(rng.choice([6, 20, 60])):
        if pool and rng.random() < 0.7:
            l = list(rng.choice(pool))
            for _ in range(rng.choice([1, 1, 2])):
                how = rng.randrange(6)
                at = rng.randrange(len(l) + 1)
                if how == 0:
                    l.insert(at, piece())
                elif how == 1 and l:
                    l.pop(min(at, len(l) - 1))
                elif how == 2 and l:
                    at = min(at, len(l) - 1)
                    a, b = l[at]
                    if len(a) == 1 and a.isascii() and a.isalpha():
                        l[at] = (a.swapcase(), b.swapcase())
                elif how == 3 and l:
                    # the two characters of an escape sequence, written out
                    at = min(at, len(l) - 1)
                    if len(l[at][0]) == 2 and l[at][0][0] == "\\" and l[at][0][1] in "ntr":
                        l[at:at + 1] = [("\\\\", b"\\"), (l[at][0][1], l[at][0][1].encode())]
                elif how == 4:
                    l.reverse()
                elif l:
                    l = l + l[:3]
        else:
            l = [piece() for _ in range(rng.choice([0, 1, 2, 3, 5, 8, 20, 70]))]
        pool.append(l[:200])
    src = ["#[RawValues]", "fn simPick(n: int) int", """fn show(n: int, s: string) {
    printf("%d %d", n, s.length)
    for i in 0 .. s.length {
        printf(" %d", s.byte(i) & 0xff)
    }
    println("")
}
fn churn() int {
    m := simPick(3)
    for i in 0 .. m {
        "c".append("hurn")
    }
    return m
}"""]
    vals = []
    body, out = [], []
    for n, l in enumerate(pool):
        text, val = "".join(a for a, b in l), b"".join(b for a, b in l)
        vals.append(val)
        shown = "%d %d%s" % (n, len(val), "".join(" %d" % b for b in val))
        how = rng.randrange(4)
        if how == 0:
            body.append('    show(%d, "%s")' % (n, text))
        elif how == 1:
            src.append('fn lit%d() string = "%s"' % (n, text))
            body.append('    show(%d, lit%d())' % (n, n))
        elif how == 2:
            body.append('    v%d := "%s"\n    churn()\n    show(%d, v%d)' % (n, text, n, n))
        else:
            k = rng.randrange(n + 1)
            body.append('    show(%d, "%s".append("%s"))' % (n, text, "".join(a for a, b in pool[k])))
            shown = "%d %d%s" % (n, len(val + vals[k]), "".join(" %d" % b for b in val + vals[k]))
        out.append(shown)
        if rng.random() < 0.5:
            k = rng.randrange(n + 1)
            body.append('    println(Equals("%s", "%s"))' % (text, "".join(a for a, b in pool[k])))
            out.append("true" if val == vals[k] else "false")
    parts = [body[j:j + 25] for j in range(0, len(body), 25)]
    for j, b in enumerate(parts):
        src.append("fn part%d() {\n%s\n}" % (j, "\n".join(b)))
    src.append("fn main() {\n%s\n}" % "\n".join("    part%d()" % j for j in range(len(parts))))
    return "\n".join(src) + "\n", "\n".join(out) + "\n"


class CHECK(OpsCheck):
    id = "C06"
    source = SOURCE
    quick, thorough = 360, 16000
    runs = 40
    recheck = 20
    rule = "a run counts when its history has at least three operations and memory was reclaimed (distinct by event hash)"

    def op(self, rng):
        op = rng.choice(OPS) if rng.random() < 0.99 else 37
        x = rng.randrange(NX.get(op, 3))
        y, z = rng.randrange(6), rng.randrange(6)
        if op in (2, 15):
            y = rng.choice([0, 0, 1, rng.randrange(20)])
            z = rng.choice([0, 1, 2, rng.randrange(20), rng.randrange(60)])
        elif op == 3:
            z = rng.choice([0, 0, 1, 2, rng.randrange(12)])
        elif op == 8:
            z = 0
        elif op == 5:
            y = rng.choice([0, 1, -1, 9, 10, 99, -100, 12345, M - 1, -M, -M + 1, rng.randrange(-M, M), rng.randrange(-9999, 9999)])
        elif op == 6:
            y = rng.randrange(12)
        elif op == 10:
            y = rng.choice([0, 1, -1, 255, M - 1, -M, rng.randrange(0, 1 << 40)])
        elif op == 12:
            y = rng.randint(33, 126)
        elif op in (16, 20):
            y = rng.choice([0, 1, 2, 3, 7, 8, 16, 33])
        elif op == 17:
            y, z = rng.randrange(34), rng.choice([0, 1, 127, 128, 255, rng.randint(33, 126), rng.randint(33, 126)])
        elif op == 19:
            y, z = rng.randrange(3), rng.choice([0, 0, 1, 3, rng.randrange(30)])
        elif op in (22, 24):
            y = rng.randrange(3)
        elif op == 25:
            y = rng.choice([-1, 0, 1, 3, 8, 30])
        elif op == 28:
            y = rng.choice([0, 5, -7, 1000000007, -123456789])
        elif op == 29:
            y = rng.randrange(-50, 50)
        elif op == 30:
            y = rng.choice([-1, 0, 1])
        elif op == 31:
            y = rng.choice([0, 1, 2, 3, 4, 6, 1000, rng.randrange(1 << 40)])
        elif op == 34:
            y, z = rng.choice([0, 1, 7, rng.randrange(1 << 50)]), rng.choice([1, 2, 3, 8, 1000003])
        elif op == 35:
            y, z = rng.choice([0, 1, 2, 5]), rng.randrange(3)
        elif op == 37:
            y, z = rng.choice([0, 1, 255, 4096, 5000, rng.choice([40000, 90000])]), rng.randrange(6)
        elif op == 36:
            y, z = rng.randrange(3), rng.choice([0, 1, 3, 5])
        elif op == 38:
            y = rng.choice([-1, 0])
        elif op == 39:
            y = rng.choice([0, 1, 2, 3, 4, 8, 10, 12, 14, 100])
        elif op == 41:
            y, z = rng.choice([0, 1, 3, rng.randrange(30)]), rng.randrange(3)
        elif op == 42:
            y, z = rng.choice([0, 1, 3, rng.randrange(30)]), rng.choice([0, 1, 2, 4])
        elif op == 43:
            y, z = rng.choice([1, 2, 5]), rng.randrange(5)
        elif op in (44, 45):
            y = rng.choice([0, 1, -1, 255, M - 1, -M, rng.randrange(-M, M)])
        elif op == 47:
            y, z = rng.choice([0, 1, 2, 9, 40]), rng.choice([0, 1, -1, 12345678901])
        return [op, x, y, z]

    def program(self, i, rng):
        if i % 8 == 5:
            src, exp = literals(rng)
            return src, {"expected": exp}
        return self.source, {}

    def judge(self, meta, spec, R):
        if "expected" not in meta:
            return OpsCheck.judge(self, meta, spec, R)
        t = self.crash_text(R)
        if t:
            return t
        got = R.out.decode("latin-1")
        if R.code != 0:
            return "exit code %d, output ends %r" % (R.code, got[-200:])
        for a, b in zip(got.split("\n"), meta["expected"].split("\n")):
            if a != b:
                return "literals: got %r, expected %r" % (a[:200], b[:200])
        return None if got == meta["expected"] else "literals: output ends early"

    def minimise_more(self, case, P, deadline):
        return case if case["meta"] else OpsCheck.minimise_more(self, case, P, deadline)

    def describe(self, case):
        return "literals" if case["meta"] else OpsCheck.describe(self, case)

    def spec(self, i, k, rng, meta):
        s = OpsCheck.spec(self, i, k, rng, meta)
        s["stackkb"] = 1024
        return s

    def history(self, i, k, rng):
        m = Model()
        h = []
        n = rng.choice([4, 10, 25, 50, 90])
        allowed = set(rng.sample(OPS, rng.choice([6, 12, len(OPS)]))) | {37}
        tries = 0
        while len(h) < n and tries < n * 20:
            tries += 1
            o = self.op(rng)
            if o[0] not in allowed:
                continue
            try:
                m.step(*o)
            except Skip:
                continue
            h.append(o)
        return h

    def nontrivial(self, meta, spec, R):
        return R.f["evhash"] if meta or (R.f["nfree"] and len(spec["hist"]) >= 3) else None

    def judge_ops(self, hist, spec, R):
        t = self.crash_text(R)
        if t:
            return t
        if R.code != 0:
            return "exit code %d, output ends %r" % (R.code, R.out[-200:])
        m = Model()
        got = R.out.decode("utf-8", "replace")
        pos = 0
        for n, o in enumerate(hist):
            try:
                want = m.step(*o) + "\n"
            except Skip:
                raise ValueError("history leaves the domain")
            if not got.startswith(want, pos):
                return "step %d %s: got %r, expected %r" % (n, o, got[pos:pos + 200].split("\n")[:want.count("\n")], want)
            pos += len(want)
        if got[pos:] != "done\n":
            return "unexpected output after the last operation: %r" % got[pos:pos + 100]
        return None
