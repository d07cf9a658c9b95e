"""C08: reading a file gives exactly its bytes or an error, whatever the system calls do (short, interrupted, failing)."""
import random, re
from simlib import core
from simlib.harness import OpsCheck
from props.C04 import HEAD

BASE = '''
#[RawValues]
fn simOp(n: int) int
#[RawValues]
fn simPick(n: int) int
#[RawValues]
fn simNote(n: int) int
fn keep«T»(x: T) T {
    n := simPick(3)
    for i in 0 .. n {
        "c".append("hurn")
    }
    return x
}
fn path(n: int) string {
    if n == 0 {
        return "/data/".append("empty")
    } elseif n == 1 {
        return "/data/a".append(".txt")
    } elseif n == 2 {
        return "/data/with space/".append("b")
    } elseif n == 3 {
        return "c"
    } elseif n == 4 {
        return "/missing/".append("file")
    }
    return "/also-".append("missing")
}
fn showErr(e: error) {
    printf("E %d %s\\n", e.err, e.msg.orElse("(no message)"))
}
fn showErrFull(e: error) {
    d := e.describe()
    printf("E %d %s\\n", e.err, e.msg.orElse("(no message)"))
    print("d")
    for i in 0 .. d.length {
        printf(" %d", d.byte(i))
    }
    println("")
}
fn showText(s: string) {
    printf("T %d", s.length)
    for i in 0 .. s.length {
        printf(" %d", s.byte(i) & 0xff)
    }
    println("")
}
fn showBytes(b: bytes, n: int) {
    printf("T %d", n)
    for i in 0 .. n {
        printf(" %d", b.get(i) & 0xff)
    }
    println("")
}
'''

SOURCE = BASE + '''
fn run(fs: []option«file», kept: []string) {
    op := simOp(0)
    while op > 0 {
        x := simOp(0)
        y := simOp(0)
        simNote(1000 + op)
        if op == 1 {
            match open(path(y)) {
                case Ok(f):
                    fs[x] = Some(f)
                    printf("O %s\\n", f.path)
                case Err(e):
                    showErr(e)
            }
        } elseif op == 2 {
            match fs[x] {
                case Some(f):
                    match f.readAll() {
                        case Ok(s):
                            kept[y] = s
                            showText(s)
                        case Err(e):
                            showErr(e)
                    }
                case None():
                    println("closed")
            }
        } elseif op == 3 {
            match fs[x] {
                case Some(f):
                    match f.size() {
                        case Ok(n):
                            printf("S %lli\\n", n)
                        case Err(e):
                            showErr(e)
                    }
                case None():
                    println("closed")
            }
        } elseif op == 4 {
            match fs[x] {
                case Some(f):
                    b := Bytes(y + 3)
                    for i in 0 .. y + 3 {
                        b.set(i, 35)
                    }
                    match f.read(b, y) {
                        case Some(e):
                            showErr(e)
                        case None():
                            showBytes(b, y + 3)
                    }
                case None():
                    println("closed")
            }
        } elseif op == 5 {
            match fs[x] {
                case Some(f):
                    match f.seek(y, 0) {
                        case Ok(n):
                            printf("P %lli\\n", n)
                        case Err(e):
                            showErr(e)
                    }
                case None():
                    println("closed")
            }
        } elseif op == 6 {
            showText(kept[y])
        } elseif op == 7 {
            match open(path(y)).then(fn(f: file) result«string, error» = f.readAll()) {
                case Ok(s):
                    showText(s)
                case Err(e):
                    showErr(e)
            }
        }
        op = simOp(0)
    }
    simNote(1000)
    println("done")
}
fn main() {
    fs := array(3, None«file»())
    run(fs, stringArray(4, ""))
}
'''
PATHS = ["/data/empty", "/data/a.txt", "/data/with space/b", "c", "/missing/file", "/also-missing"]
EINTR = 4
BIG = [1 << 31, 1 << 32, (1 << 32) + (1 << 31), 1 << 33, 3 << 40, 1 << 53]


def segments(syslog):
    """System calls of every operation, in order."""
    segs, cur = [], None
    for l in syslog.split("\n"):
        m = re.match(r"note (\d+)$", l)
        if m:
            cur = []
            segs.append(cur)
        elif cur is not None and l:
            cur.append(l)
    return segs


def errnos(seg):
    out = []
    for l in seg:
        m = re.search(r"-> errno (\d+)$", l)
        if m:
            out.append(int(m.group(1)))
        elif l.endswith("-> EINTR"):
            out.append(EINTR)
        elif l.endswith("-> EINVAL"):
            out.append(22)
        elif l.endswith("-> EBADF"):
            out.append(9)
        elif l.startswith("alloc#"):
            out.append(-12)
    return out


class World(object):
    """The files, as the simulated file system had them; follows the recorded changes."""

    def __init__(self, files, holes=None):
        self.holes = holes or {}
        self.f = {p: c.encode("latin-1") for p, c in files}
        self.ever = {p: [set([b]) for b in c] for p, c in self.f.items()}

    def at(self, path, pos, n):
        """Up to n bytes from pos."""
        h = self.holes.get(path, 0)
        z = b"\0" * max(0, min(n, h - pos))
        k = max(0, pos - h)
        return z + self.f[path][k:k + n - len(z)]

    def apply(self, l):
        m = re.match(r"(truncated|extended) (.*) (\d+) -> (\d+)$", l)
        if not m:
            return False
        p, n = m.group(2), int(m.group(4))
        c = self.f[p]
        c = c[:n] if m.group(1) == "truncated" else c + b"g" * (n - len(c))
        self.f[p] = c
        ev = self.ever[p]
        for i, b in enumerate(c):
            if i < len(ev):
                ev[i].add(b)
            else:
                ev.append(set([b]))
        return True


class CHECK(OpsCheck):
    id = "C08"
    source = SOURCE
    quick, thorough = 1200, 60000
    runs = 60
    recheck = 30
    rule = "a run counts when a read or seek was short, interrupted, failed or met a concurrent change of the file (distinct by event hash)"

    def spec(self, i, k, rng, meta):
        s = OpsCheck.spec(self, i, k, rng, meta)
        fl = []
        for n in range(4):
            ln = 0 if n == 0 else rng.choice([1, 2, 3, 7, 8, 9, 16, 31, 100, 300])
            fl.append((PATHS[n], "".join(chr(rng.choice([0, 10, 65, 66, 67, 127, 128, 200, 255])) for _ in range(ln))))
        s["files"] = [(p, c.encode("latin-1").decode("latin-1")) for p, c in fl]
        r = s["rates"]
        mode = rng.randrange(5)
        if mode >= 1:
            r["read"] = rng.choice([100, 400, 800])
        if mode >= 2 and rng.random() < 0.5:
            r["seek"] = rng.choice([50, 300])
        if mode >= 3 and rng.random() < 0.5:
            r["open"] = rng.choice([50, 300])
        if mode == 4:
            r["mutate"] = rng.choice([100, 300])
        elif rng.random() < 0.2:
            # sparse files far beyond 32 bits: sizes, positions and reads around them
            s["holes"] = {p: rng.choice(BIG) + rng.choice([-3, -1, 0, 1, 5]) for p, c in fl if rng.random() < 0.7}
            h = []
            for op, x, y in s["hist"]:
                if op in (2, 7):
                    op, y = rng.choice([3, 5]), 2
                if op == 5 and s["holes"]:
                    y = rng.choice(list(s["holes"].values())) + rng.choice([-9, -2, 0, 1, 4])
                h.append([op, x, y])
                if op == 5:
                    h.append([4, x, rng.choice([1, 5, 8, 40])])
            s["hist"] = h
            s["ops"] = self.flatten(h)
        return s

    def history(self, i, k, rng):
        h = []
        for x in range(3):
            h.append([1, x, rng.choice([0, 1, 2, 3, 1, 2, 3, 4])])
        for _ in range(rng.choice([2, 5, 12])):
            op = rng.choice([1, 2, 2, 2, 3, 4, 4, 5, 6, 7, 7])
            x = rng.randrange(3)
            y = rng.randrange(6) if op in (1, 7) else rng.randrange(4) if op in (2, 6) else rng.choice([0, 1, 2, 5, 8, 40, 310])
            h.append([op, x, y])
        return h

    def nontrivial(self, meta, spec, R):
        return R.f["evhash"] if any(R.kinds.get(q, (0, 0))[0] for q in ("read", "seek", "open", "mutate")) else None

    def judge_ops(self, hist, spec, R):
        t = self.crash_text(R)
        if t:
            return t
        if R.code != 0:
            return "exit code %d, output ends %r" % (R.code, R.out[-300:])
        lines = R.out.decode("latin-1").split("\n")
        segs = segments(R.syslog)
        if len(segs) != len(hist) + 1 or len(lines) != len(hist) + 2:
            return "operations and results do not line up: %d operations, %d results" % (len(hist), len(lines) - 2)
        W = World(spec["files"], spec.get("holes"))
        mutating = bool(spec["rates"].get("mutate")) if spec.get("devs") is None else any(d[0] == "mutate" for d in spec["devs"])
        fs = [None] * 3       # [path, position, position known]
        kept = [b""] * 4
        for n, ((op, x, y), seg, got) in enumerate(zip(hist, segs, lines)):
            where = "step %d %s" % (n, (op, x, y))
            before = dict(W.f)
            for l in seg:
                W.apply(l)
            errs = [e for e in errnos(seg)]
            hard = [e for e in errs if e != EINTR]
            if op in (2, 3, 4, 5) and fs[x] is None:
                if got != "closed":
                    return "%s: got %r" % (where, got)
                continue
            if got.startswith("E "):
                m = re.match(r"E (-?\d+) (.*)$", got)
                e, path = int(m.group(1)), m.group(2)
                want = PATHS[y] if op in (1, 7) else fs[x][0]
                # an error has a cause, and names it and the file
                if not errs:
                    return "%s: reported error %d though no system call failed" % (where, e)
                if e not in errs:
                    return "%s: reported error %d, the failing calls set %s" % (where, e, errs)
                if e == EINTR and hard:
                    return "%s: reported error %d, the failing calls set %s" % (where, e, errs)
                if path != want:
                    return "%s: the error names %r, the file is %r" % (where, path, want)
                if op in (2, 3, 4, 5):
                    fs[x][2] = False     # position unspecified after a failure
                continue
            if hard and op != 6:
                return "%s: a system call failed with %s but the result was %r" % (where, hard, got[:60])
            if op == 1:
                if PATHS[y] not in W.f:
                    return "%s: opening a missing file gave %r" % (where, got)
                if got != "O " + PATHS[y]:
                    return "%s: got %r" % (where, got)
                fs[x] = [PATHS[y], 0, True]
            elif op in (2, 7):
                if op == 7 and PATHS[y] not in W.f:
                    return "%s: reading a missing file gave %r" % (where, got[:60])
                path, pos, known = fs[x] if op == 2 else (PATHS[y], 0, True)
                data = self.text(got)
                if data is None:
                    return "%s: got %r" % (where, got[:80])
                if op == 2:
                    kept[y] = data
                    fs[x][1] = pos + len(data)
                m = self.compare(W, before, path, pos if known else None, data, mutating)
                if m:
                    return "%s: %s" % (where, m)
            elif op == 3:
                path = fs[x][0]
                sizes = set([W.holes.get(path, 0) + z for z in (len(before[path]), len(W.f[path]))])
                if got not in ["S %d" % z for z in sizes] and not mutating:
                    return "%s: size %r, the file has %s bytes" % (where, got, sizes)
            elif op == 4:
                path, pos, known = fs[x]
                data = self.text(got)
                if data is None or len(data) != y + 3:
                    return "%s: got %r" % (where, got[:80])
                if data[y:] != b"###":
                    return "%s: bytes past the requested size were overwritten: %r" % (where, data)
                if known and not mutating:
                    c = W.at(path, pos, y)
                    if data[:y] != c + b"#" * (y - len(c)):
                        return "%s: read %r, the file holds %r there" % (where, data[:y], c)
                    fs[x][1] = pos + len(c)
                else:
                    fs[x][2] = False
            elif op == 5:
                if got != "P %d" % y:
                    return "%s: got %r" % (where, got)
                fs[x][1], fs[x][2] = y, True
            elif op == 6:
                data = self.text(got)
                exp = kept[y]
                if data != exp:
                    return "%s: contents read earlier changed: %r, was %r" % (where, data, exp)
        if lines[len(hist)] != "done":
            return "unexpected output after the last operation"
        return None

    def text(self, got):
        m = re.match(r"T (\d+)((?: \d+)*)$", got)
        if not m:
            return None
        b = bytes(int(v) for v in m.group(2).split())
        return b if len(b) == int(m.group(1)) else None

    def compare(self, W, before, path, pos, data, mutating):
        c = W.f[path]
        if not mutating:
            if pos is None:
                if not c.endswith(data):
                    return "read %r, not the rest of the file %r" % (data, c)
            elif data != c[pos:]:
                return "read %r, the file holds %r from %d" % (data, c[pos:], pos)
            return None
        if pos is None:
            return None
        ev = W.ever[path]
        for i, b in enumerate(data):
            if pos + i >= len(ev) or b not in ev[pos + i]:
                return "read %r: byte %d was never in the file at that position" % (data, i)
        return None
