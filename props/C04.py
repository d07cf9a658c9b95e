"""C04: an access outside an array, string or byte sequence (or an impossible length) stops the program, never touches memory."""
import random
from simlib import core
from simlib.harness import OpsCheck
from props.C03 import panic_split

HEAD = '''
#[RawValues]
fn simOp(n: int) int
#[RawValues]
fn simPick(n: int) int
struct item {
    name: string
    n: int
}
struct shelf {
    tag: string
    items: []item
    nums: []int
    words: []string
}
fn keep«T»(x: T) T {
    n := simPick(3)
    for i in 0 .. n {
        "c".append("hurn")
    }
    return x
}
fn word(n: int) string = "w".append(n.toString())
'''

SOURCE = HEAD + '''
fn main() {
    a0 := intArray(0)
    a1 := [7]
    a5 := [10, 11, 12, 13, 14]
    w0 := stringArray(0, "")
    w3 := [word(0), word(1), word(2)]
    it := [Item(word(50), 1), Item(word(51), 2)]
    sh := Shelf("t".append("ag"), [Item(word(60), 5), Item(word(61), 6), Item(word(62), 7)], [20, 21, 22, 23], [word(70), word(71)])
    nest := [[1, 2, 3], [4, 5], [6]]
    nests := [[word(80)], [word(81), word(82)]]
    s := "abc".append("defghi")
    e := ""
    b := Bytes(6)
    for i in 0 .. 6 {
        b.set(i, 100 + i)
    }
    b0 := Bytes(0)
    buf := NewByteBuffer(3).append("hello").append(" world")
    capI := fn(i: int) int {
        return a5[i]
    }
    capW := fn(i: int, v: string) string {
        w3[i] = v
        return w3[i]
    }
    op := simOp(0)
    while op > 0 {
        x := simOp(0)
        y := simOp(0)
        if op == 1 {
            printf("%d\\n", a5[x])
        } elseif op == 2 {
            a5[x] = y
            printf("set\\n")
        } elseif op == 3 {
            printf("%d\\n", a0[x])
        } elseif op == 4 {
            a0[x] = y
            printf("set\\n")
        } elseif op == 5 {
            printf("%d\\n", a1[x])
        } elseif op == 6 {
            println(w3[x])
        } elseif op == 7 {
            w3[x] = word(y)
            println("set")
        } elseif op == 8 {
            println(w0[x])
        } elseif op == 9 {
            println(it[x].name)
        } elseif op == 10 {
            it[x].name = word(y)
            println("set")
        } elseif op == 11 {
            it[x] = Item(word(y), y)
            println("set")
        } elseif op == 12 {
            println(sh.items[x].name)
        } elseif op == 13 {
            sh.nums[x] = y
            println("set")
        } elseif op == 14 {
            printf("%d\\n", sh.nums[x])
        } elseif op == 15 {
            sh.words[x] = word(y)
            println(sh.words[x])
        } elseif op == 16 {
            printf("%d\\n", nest[x][y])
        } elseif op == 17 {
            nest[x][y] = 99
            println("set")
        } elseif op == 18 {
            println(nests[x][y])
        } elseif op == 19 {
            nests[x][y] = word(x)
            println("set")
        } elseif op == 20 {
            printf("%d\\n", s.byte(x))
        } elseif op == 21 {
            printf("%d\\n", e.byte(x))
        } elseif op == 22 {
            printf("%d\\n", b.get(x))
        } elseif op == 23 {
            b.set(x, 40 + y)
            println("set")
        } elseif op == 24 {
            printf("%d\\n", b0.get(x))
        } elseif op == 25 {
            b0.set(x, y)
            println("set")
        } elseif op == 26 {
            println(Substring(s, x, y))
        } elseif op == 27 {
            println(buf.substring(x, y))
        } elseif op == 28 {
            println(b.toString(x, y))
        } elseif op == 29 {
            println(b.toString(x))
        } elseif op == 30 {
            printf("%d\\n", Bytes(x).length())
        } elseif op == 31 {
            printf("%d\\n", intArray(x).length)
        } elseif op == 32 {
            printf("%d\\n", stringArray(x, word(y)).length)
        } elseif op == 33 {
            printf("%d\\n", array(x, Item(word(y), y)).length)
        } elseif op == 34 {
            printf("%d\\n", capI(x))
        } elseif op == 35 {
            println(capW(x, word(y)))
        } elseif op == 36 {
            printf("%d\\n", keep(a5)[x] + keep(1))
        } elseif op == 37 {
            println(keep(sh).items[keep(x)].name.append(word(y)))
        } elseif op == 38 {
            setElement(w3, x, word(y))
            println("set")
        } elseif op == 39 {
            printf("%d\\n", a5[x + y])
        } elseif op == 40 {
            printf("%d\\n", nest[a5[x] - 10][y])
        } elseif op == 41 {
            z := sh.items[x]
            z.name = word(y)
            println(sh.items[x].name)
        } elseif op == 42 {
            println(Substring(e, x, y))
        } elseif op == 43 {
            println(array(4, keep([word(y)]))[x][0])
        } elseif op == 44 {
            sh.items[x] = sh.items[y]
            println(sh.items[x].name)
        } elseif op == 45 {
            printf("%d\\n", a5[a5.length - 1 - x])
        } elseif op == 46 {
            keep(w3)[keep(x)] = keep(word(y))
            println("set")
        } elseif op == 47 {
            printf("%d\\n", a5[2] + a1[0] + a5[4])
        } elseif op == 48 {
            printf("%d\\n", a5[5])
        } elseif op == 49 {
            w3[3] = word(y)
            println("set")
        } elseif op == 50 {
            printf("%d\\n", a5[-1])
        } elseif op == 51 {
            println(w0[0])
        }
        op = simOp(0)
    }
    println("done")
}
'''

BIG = [-(1 << 62), -(1 << 61), -(1 << 60) - 1, -(1 << 32), -(1 << 31) - 1, -9, -8, -2, -1, 6, 7, 8, 16, 1 << 16, (1 << 31) - 1, 1 << 31,
       (1 << 32), (1 << 32) + 1, 1 << 58, 1 << 59, 1 << 60, (1 << 60) + 1, (1 << 61), (1 << 61) + 1, (1 << 61) - 1, (1 << 62) - 1]
M63 = 1 << 62


class Stop(Exception):
    def __init__(self, idx=None, n=None):
        self.idx, self.n = idx, n


def w(n):
    return "w%d" % n


class Model(object):
    def __init__(self):
        self.a0, self.a1, self.a5 = [], [7], [10, 11, 12, 13, 14]
        self.w0, self.w3 = [], [w(0), w(1), w(2)]
        self.it = [[w(50), 1], [w(51), 2]]
        self.items = [[w(60), 5], [w(61), 6], [w(62), 7]]
        self.nums, self.words = [20, 21, 22, 23], [w(70), w(71)]
        self.nest = [[1, 2, 3], [4, 5], [6]]
        self.nests = [[w(80)], [w(81), w(82)]]
        self.s, self.e = "abcdefghi", ""
        self.b, self.b0 = [100 + i for i in range(6)], []
        self.buf = "hello world"

    def at(self, a, i):
        if not 0 <= i < len(a):
            raise Stop(i, len(a))
        return a[i]

    def put(self, a, i, v):
        if not 0 <= i < len(a):
            raise Stop(i, len(a))
        a[i] = v
        return "set"

    def byte(self, a, i):
        if not 0 <= i < len(a):
            raise Stop()
        return a[i]

    def sub(self, a, p, n):
        if p < 0 or n < 0 or p + n > len(a):
            raise Stop()
        return a[p:p + n]

    def length(self, n):
        if n < 0 or n >= 1 << 26:
            raise Stop()
        return n

    def step(self, op, x, y):
        at, put = self.at, self.put
        if op in (1, 34):
            return at(self.a5, x)
        if op == 2:
            return put(self.a5, x, y)
        if op == 3:
            return at(self.a0, x)
        if op == 4:
            return put(self.a0, x, y)
        if op == 5:
            return at(self.a1, x)
        if op == 6:
            return at(self.w3, x)
        if op in (7, 38, 46):
            return put(self.w3, x, w(y))
        if op == 8:
            return at(self.w0, x)
        if op == 9:
            return at(self.it, x)[0]
        if op == 10:
            at(self.it, x)[0] = w(y)
            return "set"
        if op == 11:
            return put(self.it, x, [w(y), y])
        if op == 12:
            return at(self.items, x)[0]
        if op == 13:
            return put(self.nums, x, y)
        if op == 14:
            return at(self.nums, x)
        if op == 15:
            put(self.words, x, w(y))
            return w(y)
        if op == 16:
            return at(at(self.nest, x), y)
        if op == 17:
            return put(at(self.nest, x), y, 99)
        if op == 18:
            return at(at(self.nests, x), y)
        if op == 19:
            return put(at(self.nests, x), y, w(x))
        if op == 20:
            return ord(self.byte(self.s, x))
        if op == 21:
            return ord(self.byte(self.e, x))
        if op == 22:
            return self.byte(self.b, x)
        if op == 23:
            self.byte(self.b, x)
            self.b[x] = 40 + y
            return "set"
        if op == 24:
            return self.byte(self.b0, x)
        if op == 25:
            self.byte(self.b0, x)
        if op == 26:
            return self.sub(self.s, x, y - x)
        if op == 27:
            return self.sub(self.buf, x, y)
        if op == 28:
            return "".join(map(chr, self.sub(self.b, x, y)))
        if op == 29:
            return "".join(map(chr, self.sub(self.b, 0, x)))
        if op in (30, 31, 32, 33):
            return self.length(x)
        if op == 35:
            put(self.w3, x, w(y))
            return w(y)
        if op == 36:
            return at(self.a5, x) + 1
        if op == 37:
            return at(self.items, x)[0] + w(y)
        if op == 39:
            return at(self.a5, (x + y + M63) % (2 * M63) - M63)
        if op == 40:
            i = (at(self.a5, x) - 10)
            return at(at(self.nest, i), y)
        if op == 41:
            at(self.items, x)[0] = w(y)
            return w(y)
        if op == 42:
            return self.sub(self.e, x, y - x)
        if op == 43:
            return at([w(y)] * 4, x)
        if op == 44:
            v = at(self.items, y)
            put(self.items, x, v)
            return v[0]
        if op == 45:
            return at(self.a5, (5 - 1 - x + M63) % (2 * M63) - M63)
        if op == 47:
            return self.a5[2] + self.a1[0] + self.a5[4]
        if op == 48:
            raise Stop(5, 5)
        if op == 49:
            raise Stop(3, 3)
        if op == 50:
            raise Stop(-1, 5)
        if op == 51:
            raise Stop(0, 0)
        raise Exception(op)


LENS = {1: 5, 2: 5, 3: 0, 4: 0, 5: 1, 6: 3, 7: 3, 8: 0, 9: 2, 10: 2, 11: 2, 12: 3, 13: 4, 14: 4, 15: 2, 16: 3, 17: 3, 18: 2, 19: 2, 20: 9,
        21: 0, 22: 6, 23: 6, 24: 0, 25: 0, 34: 5, 35: 3, 36: 5, 37: 3, 38: 3, 39: 5, 40: 5, 41: 3, 43: 4, 44: 3, 45: 5, 46: 3}


class CHECK(OpsCheck):
    id = "C04"
    source = SOURCE
    quick, thorough = 260, 16000
    runs = 240
    recheck = 60
    rule = "a run counts when it ended in an out of range access or impossible length (distinct by event hash)"

    def op(self, rng, m, valid):
        for _ in range(200):
            op = rng.randint(1, 51)
            if op in (48, 49, 50, 51) and valid:
                continue
            n = LENS.get(op, 9)
            if valid:
                x = rng.choice([0, max(0, n - 1), rng.randrange(n + 1)])
                y = rng.choice([0, 1, 2, rng.randint(0, 9)])
                if op in (26, 27, 28, 29, 42):
                    x = rng.randint(0, 11)
                    y = rng.randint(0, 11)
                if op in (30, 31, 32, 33):
                    x = rng.choice([0, 1, 2, rng.randint(0, 40)])
            else:
                x = rng.choice([n, -1, rng.choice(BIG), n + rng.randint(0, 4), -rng.randint(1, 70)] + ([0, 1] if op in (16, 17, 18, 19, 26, 27, 28, 40, 42, 44) else []))
                y = rng.choice([0, 1, rng.randint(0, 99), 3, 2] + ([rng.choice(BIG), -1, 12] if op in (16, 17, 18, 26, 27, 28, 39, 40, 42, 44) else []))
                if op in (30, 31, 32, 33):
                    x = rng.choice([-1, -8, -9, -16, -24, -25, rng.choice([b for b in BIG if b < 0 or b >= 1 << 31])])
            try:
                import copy
                copy.deepcopy(m).step(op, x, y)
                ok = True
            except Stop:
                ok = False
            if ok == valid:
                if valid:
                    m.step(op, x, y)
                return [op, x, y]
        return [47, 0, 0]

    def history(self, i, k, rng):
        m = Model()
        h = [self.op(rng, m, True) for _ in range(rng.choice([0, 1, 3, 8, 20]))]
        if rng.random() < 0.9:
            h.append(self.op(rng, m, False))
            h += [self.op(rng, Model(), True) for _ in range(rng.randint(0, 3))]
        return h

    def nontrivial(self, meta, spec, R):
        return R.f["evhash"] if R.code == 1 else None

    def judge_ops(self, hist, spec, R):
        t = self.crash_text(R)
        m = Model()
        out, stop, at = "", None, None
        for op, x, y in hist:
            try:
                v = m.step(op, x, y)
            except Stop as e:
                stop, at = e, (op, x, y)
                break
            out += "%s\n" % v
        if t:
            return "%s (operation %s)" % (t, at)
        exp = out.encode("latin-1")
        if stop is None:
            if R.code != 0 or R.out != exp + b"done\n":
                return "every access was in range, yet exit %d, output %r (expected %r)" % (R.code, R.out[-200:], exp[-100:])
            return None
        if R.code != 1:
            return "operation %s is out of range but the program went on and ended with exit code %d, output %r" % (at, R.code, R.out[-200:])
        pre, ok = panic_split(R.out, b"Panic: ")
        if not ok:
            return "operation %s is out of range but no panic was reported: %r" % (at, R.out[-200:])
        if pre != exp:
            return "operation %s: output before the panic is %r, expected %r" % (at, pre[-200:], exp[-200:])
        if stop.idx is not None and abs(stop.idx) < 1 << 30:
            want = ("index = %d, array.length = %d" % (stop.idx, stop.n)).encode()
            if want not in R.out:
                return "operation %s: the panic does not name the access (%s): %r" % (at, want.decode(), R.out[-300:])
        return None
