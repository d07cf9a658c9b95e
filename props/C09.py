"""C09: a failing system call is reported as an error with its errno, its description and the file's path."""
import random, re
from simlib.harness import OpsCheck
from props import C08

TEXT = """Operation not permitted|No such file or directory|No such process|Interrupted system call|I/O error|No such device or address|
Argument list too long|Exec format error|Bad file descriptor|No child processes|Try again|Out of memory|Permission denied|Bad address|
Block device required|Device or resource busy|File exists|Cross-device link|No such device|Not a directory|Is a directory|Invalid argument|
File table overflow|Too many open files|Not a typewriter|Text file busy|File too large|No space left on device|Illegal seek|
Read-only file system|Too many links|Broken pipe|Math argument out of domain of func|Math result not representable""".replace("\n", "").split("|")

SOURCE = C08.BASE + '''
fn hold(e: error) error {
    keep(1)
    return keep(e)
}
fn run(fs: []option«file», kept: list«error») {
    op := simOp(0)
    while op > 0 {
        x := simOp(0)
        y := simOp(0)
        simNote(1000 + op)
        if op == 1 {
            match open(path(y)) {
                case Ok(f):
                    fs[x] = Some(f)
                    printf("O %s\\n", f.path)
                case Err(e):
                    kept = kept.append(e)
                    showErrFull(hold(e))
            }
        } elseif op == 2 {
            match fs[x] {
                case Some(f):
                    match f.readAll() {
                        case Ok(s):
                            printf("R %d\\n", s.length)
                        case Err(e):
                            kept = kept.append(e)
                            showErrFull(hold(e))
                    }
                case None():
                    println("closed")
            }
        } elseif op == 3 {
            match fs[x] {
                case Some(f):
                    match f.size() {
                        case Ok(n):
                            printf("S %lli\\n", n)
                        case Err(e):
                            kept = kept.append(e)
                            showErrFull(hold(e))
                    }
                case None():
                    println("closed")
            }
        } elseif op == 4 {
            match fs[x] {
                case Some(f):
                    match f.read(Bytes(y), y) {
                        case Some(e):
                            kept = kept.append(e)
                            showErrFull(hold(e))
                        case None():
                            println("R")
                    }
                case None():
                    println("closed")
            }
        } elseif op == 5 {
            match fs[x] {
                case Some(f):
                    match f.seek(y, 0) {
                        case Ok(n):
                            printf("P %lli\\n", n)
                        case Err(e):
                            kept = kept.append(e)
                            showErrFull(hold(e))
                    }
                case None():
                    println("closed")
            }
        } elseif op == 6 {
            match fs[x] {
                case Some(f):
                    match f.read(Bytes(y), y + 1) {
                        case Some(e):
                            println("refused")
                        case None():
                            println("R")
                    }
                case None():
                    println("closed")
            }
        } elseif op == 7 {
            match open(path(y)).then(fn(f: file) result«int, error» = f.seek(x, 0).then(fn(n: int) result«int, error» = f.size())) {
                case Ok(n):
                    printf("S %lli\\n", n)
                case Err(e):
                    kept = kept.append(e)
                    showErrFull(hold(e))
            }
        }
        op = simOp(0)
    }
    simNote(1000)
    kept.reverse().foreach(showErr)
    println("done")
}
fn main() {
    run(array(3, None«file»()), Empty«error»())
}
'''


class CHECK(C08.CHECK):
    id = "C09"
    source = SOURCE
    quick, thorough = 1200, 60000
    rule = "a run counts when at least one system call failed (distinct by event hash)"

    def spec(self, i, k, rng, meta):
        s = C08.CHECK.spec(self, i, k, rng, meta)
        r = s["rates"]
        r.pop("mutate", None)
        r["open"] = rng.choice([0, 100, 400, 1000])
        r["read"] = rng.choice([0, 200, 600, 1000])
        r["seek"] = rng.choice([0, 100, 400, 1000])
        r["errno"] = rng.choice([0, 300, 1000])
        return s

    def history(self, i, k, rng):
        h = [[1, x, rng.randrange(4)] for x in range(3)]
        for _ in range(rng.choice([1, 4, 10])):
            op = rng.choice([1, 1, 2, 2, 3, 4, 5, 6, 7])
            h.append([op, rng.randrange(3), rng.randrange(6) if op in (1, 7) else rng.choice([0, 1, 2, 5, 8, 40])])
        return h

    def nontrivial(self, meta, spec, R):
        return R.f["evhash"] if "errno " in R.syslog else None

    def judge_ops(self, hist, spec, R):
        t = self.crash_text(R)
        if t:
            return t
        if R.code != 0:
            return "exit code %d, output ends %r" % (R.code, R.out[-300:])
        lines = R.out.decode("latin-1").split("\n")
        segs = C08.segments(R.syslog)
        if len(segs) != len(hist) + 1:
            return "operations and results do not line up"
        names = [p for p, _ in spec["files"]]
        fs = [None] * 3
        kept = []
        pos = 0
        for n, ((op, x, y), seg) in enumerate(zip(hist, segs)):
            where = "step %d %s" % (n, (op, x, y))
            if pos >= len(lines):
                return "%s: no result" % where
            got = lines[pos]
            pos += 1
            errs = C08.errnos(seg)
            hard = [e for e in errs if e != 4 or seg[-1].startswith(("open", "lseek"))]
            if op in (2, 3, 4, 5, 6) and fs[x] is None:
                if got != "closed":
                    return "%s: got %r" % (where, got)
                continue
            if op == 6:
                if got != "refused":
                    return "%s: reading past the end of the buffer gave %r" % (where, got)
                if seg:
                    return "%s: reading past the end of the buffer made system calls: %s" % (where, seg)
                continue
            if not got.startswith("E "):
                if hard:
                    return "%s: a system call failed with errno %s but the result was %r" % (where, hard, got[:80])
                if got.split(" ")[0] not in ("O", "R", "S", "P"):
                    return "%s: got %r" % (where, got)
                if op == 1:
                    fs[x] = names[y]
                continue
            m = re.match(r"E (-?\d+) (.*)$", got)
            e, path = int(m.group(1)), m.group(2)
            want = C08.PATHS[y] if op in (1, 7) else fs[x]
            if not errs:
                return "%s: reported error %d though no system call failed" % (where, e)
            if e != errs[-1]:
                return "%s: reported errno %d, the call that failed set %d" % (where, e, errs[-1])
            if path != want:
                return "%s: the error names %r, the file is %r" % (where, path, want)
            kept.append("E %d %s" % (e, path))
            d = lines[pos] if pos < len(lines) else ""
            pos += 1
            text = bytes(int(v) & 255 for v in d[1:].split()).decode("latin-1") if d.startswith("d") else None
            if text != "%s:\n - %s" % (TEXT[e - 1] if e <= len(TEXT) else "Unknown error code: %d" % e, want):
                return "%s: errno %d is described as %r" % (where, e, text)
        if lines[pos:] != kept + ["done", ""]:
            return "errors kept from earlier changed: %r, were %r" % (lines[pos:][:20], kept)
        return None
