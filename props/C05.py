"""C05: a hash map behaves like a map: every history of operations gives what a plain dictionary gives."""
import random
from simlib import core
from simlib.harness import OpsCheck
from props.C04 import HEAD

SOURCE = HEAD.replace('''struct item {
    name: string
    n: int
}
struct shelf {
    tag: string
    items: []item
    nums: []int
    words: []string
}
''', "") + '''
struct point {
    x: int
    y: int
}
fn hash1(s: string) int = 5
fn hash2(s: string) int = s.length
fn hashP(p: point) int = (p.x & 0xff) * 31 + (p.y & 0xff)
fn eqP(a: point, b: point) bool = a.x == b.x and a.y == b.y
fn hashI(i: int) int = i & 0xffff
fn eqI(a: int, b: int) bool = a == b
fn key(n: int) string {
    if n == 0 {
        return ""
    }
    if n > 50 {
        return "key-with-a-longer-name-".append(n.toString())
    }
    return "k".append(keep(n).toString())
}
fn val(n: int) string = "v".append(n.toString())
fn show(o: option«string») {
    match o {
        case Some(v):
            printf("+%s\\n", v)
        case None():
            println("-")
    }
}
fn dump(m: map«string, string») {
    print("D")
    m.foreach(fn(k: string, v: string) {
        t := keep(v)
        printf(" %s=%s", k, t)
    })
    println("")
}
fn run(maps: []map«string, string», pm: map«point, []string», im: map«int, string») {
    op := simOp(0)
    while op > 0 {
        t := simOp(0)
        k := simOp(0)
        v := simOp(0)
        if op == 1 {
            show(maps[t].put(key(k), val(v)))
        } elseif op == 2 {
            show(maps[t].get(key(k)))
        } elseif op == 3 {
            println(maps[t].contains(key(k)))
        } elseif op == 4 {
            show(maps[t].remove(key(k)))
        } elseif op == 5 {
            dump(maps[t])
        } elseif op == 6 {
            println(maps[t].orElse(key(k), val(v)))
        } elseif op == 7 {
            println(maps[t].size)
        } elseif op == 8 {
            maps[t] = t == 0 ? NewHashMap«string, string»(fnv1a, Equals) : t == 1 ? NewHashMap«string, string»(hash1, Equals) : NewHashMap«string, string»(hash2, Equals)
            println("new")
        } elseif op == 9 {
            p := Point(k, k + t)
            match pm.put(p, [val(v), val(k)]) {
                case Some(a):
                    printf("+%s,%s\\n", a[0], a[1])
                case None():
                    println("-")
            }
        } elseif op == 10 {
            match pm.get(Point(k, k + t)) {
                case Some(a):
                    printf("+%s,%s\\n", a[0], a[1])
                case None():
                    println("-")
            }
        } elseif op == 11 {
            match pm.remove(Point(k, k + t)) {
                case Some(a):
                    printf("+%s,%s\\n", a[0], a[1])
                case None():
                    println("-")
            }
            println(pm.size)
        } elseif op == 12 {
            show(im.put(k, val(v)))
        } elseif op == 13 {
            show(im.get(k))
        } elseif op == 14 {
            show(im.remove(k))
        } elseif op == 15 {
            for i in 0 .. v {
                im.put(k + i, val(i))
            }
            println(im.size)
        } elseif op == 16 {
            for i in 0 .. v {
                maps[t].put(key(k + i), val(i))
            }
            println(maps[t].size)
        } elseif op == 17 {
            print("D")
            im.foreach(fn(k: int, v: string) {
                printf(" %d=%s", k, v)
            })
            println("")
        }
        op = simOp(0)
    }
    println("done")
}
fn main() {
    maps := [NewHashMap«string, string»(fnv1a, Equals), NewHashMap«string, string»(hash1, Equals), NewHashMap«string, string»(hash2, Equals)]
    run(maps, NewHashMap«point, []string»(hashP, eqP), NewHashMap«int, string»(hashI, eqI))
}
'''


def key(n):
    return "" if n == 0 else "key-with-a-longer-name-%d" % n if n > 50 else "k%d" % n


def opt(v):
    return "-" if v is None else "+" + v


class CHECK(OpsCheck):
    id = "C05"
    source = SOURCE
    quick, thorough = 120, 8000
    runs = 24
    recheck = 12
    rule = "a run counts when the history holds at least one update and one read and memory was reclaimed (distinct by event hash)"

    def history(self, i, k, rng):
        n = rng.choice([3, 10, 30, 60, 120])
        dom = rng.choice([2, 5, 12, 30, 70])
        wt = [rng.choice([0, 1, 3]) for _ in range(17)]
        wt[0] = wt[1] = 3
        if rng.random() < 0.7:
            wt[7] = 0
        if rng.random() < 0.7:
            wt[14] = wt[15] = 0
        h = []
        for _ in range(n):
            op = rng.choices(range(1, 18), wt)[0]
            t = rng.randrange(3)
            kk = rng.randrange(dom)
            v = rng.randrange(1000)
            if op in (15, 16):
                v = rng.choice([3, 12, 13, 14, 25, 50])
            if op in (9, 10, 11):
                t = rng.randrange(2)
            if op in (12, 13, 14) and rng.random() < 0.3:
                kk = kk * 65536 + rng.randrange(3)
            h.append([op, t, kk, v])
        return h

    def nontrivial(self, meta, spec, R):
        ops = [o[0] for o in spec["hist"]]
        return R.f["evhash"] if R.f["nfree"] and any(o in (1, 9, 12) for o in ops) else None

    def judge_ops(self, hist, spec, R):
        t = self.crash_text(R)
        if t:
            return t
        if R.code != 0:
            return "exit code %d, output ends %r" % (R.code, R.out[-200:])
        lines = R.out.decode("latin-1").split("\n")
        maps = [{}, {}, {}]
        pm, im = {}, {}
        pos = 0

        def nxt():
            nonlocal pos
            pos += 1
            return lines[pos - 1] if pos - 1 < len(lines) else None

        for n, (op, t, k, v) in enumerate(hist):
            m = maps[t] if t < 3 else None
            want, bag = None, None
            if op == 1:
                want = opt(m.get(key(k)))
                m[key(k)] = "v%d" % v
            elif op == 2:
                want = opt(m.get(key(k)))
            elif op == 3:
                want = "true" if key(k) in m else "false"
            elif op == 4:
                want = opt(m.pop(key(k), None))
            elif op == 5:
                bag = m
            elif op == 6:
                want = m.get(key(k), "v%d" % v)
            elif op == 7:
                want = str(len(m))
            elif op == 8:
                maps[t] = {}
                want = "new"
            elif op in (9, 10, 11):
                p = (k, k + t)
                a = pm.get(p)
                want = opt(None if a is None else "v%d,v%d" % a)
                if op == 9:
                    pm[p] = (v, k)
                elif op == 11:
                    pm.pop(p, None)
            elif op == 12:
                want = opt(im.get(k))
                im[k] = "v%d" % v
            elif op == 13:
                want = opt(im.get(k))
            elif op == 14:
                want = opt(im.pop(k, None))
            elif op == 15:
                for j in range(v):
                    im[k + j] = "v%d" % j
                want = str(len(im))
            elif op == 16:
                for j in range(v):
                    m[key(k + j)] = "v%d" % j
                want = str(len(m))
            elif op == 17:
                bag = {str(a): b for a, b in im.items()}
            got = nxt()
            if bag is not None:
                exp = sorted("%s=%s" % kv for kv in bag.items())
                if got is None or not got.startswith("D") or sorted(got[2:].split(" ") if len(got) > 1 else []) != exp:
                    return "step %d %s: iteration gave %r, the map holds %s" % (n, (op, t, k, v), got, exp)
            elif got != want:
                return "step %d %s: got %r, expected %r" % (n, (op, t, k, v), got, want)
            if op == 11:
                g = nxt()
                if g != str(len(pm)):
                    return "step %d %s: size %s, expected %d" % (n, (op, t, k, v), g, len(pm))
        if nxt() != "done":
            return "unexpected output after the last operation"
        return None
