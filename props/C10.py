"""C10: Now() is the system's clock: exact, whatever the clock does (jumps, steps backwards, far dates)."""
import random
from simlib import core
from simlib.harness import OpsCheck

SOURCE = '''
#[RawValues]
fn simOp(n: int) int
#[RawValues]
fn simPick(n: int) int
fn churn(n: int) int {
    m := simPick(4)
    for i in 0 .. m {
        "c".append("hurn")
    }
    return 0
}
struct log {
    at: time
    name: string
}
fn main() {
    kept := Empty«log»()
    op := simOp(0)
    t := Now()
    printf("%lli %lli\\n", t.sec, t.usec)
    while op > 0 {
        if op == 1 {
            u := Now()
            printf("%lli %lli\\n", u.sec, u.usec)
        } elseif op == 2 {
            printf("%lli\\n", Now().toMicros() + churn(1))
        } elseif op == 3 {
            u := Now()
            churn(1)
            printf("%lli %lli %lli\\n", u.toMicros(), u.toMillis(), u.toSecs())
        } elseif op == 4 {
            a := Now()
            b := Now()
            printf("%lli\\n", b.toMicros() - a.toMicros())
        } elseif op == 5 {
            kept = kept.append(Log(Now(), "n".append("ame")))
            println("kept")
        } elseif op == 6 {
            kept.foreach(fn(l: log) {
                printf("%lli.%lli ", l.at.sec, l.at.usec)
            })
            println("")
        } elseif op == 7 {
            ts := [Now(), Now(), Now()]
            churn(2)
            printf("%lli %lli %lli\\n", ts[0].toMicros(), ts[1].toMicros(), ts[2].toMicros())
        } elseif op == 8 {
            printf("%lli %lli\\n", t.sec, t.usec)
        } elseif op == 9 {
            t = Now()
            println(t.toSecs())
        }
        op = simOp(0)
    }
    println("done")
}
'''


class CHECK(OpsCheck):
    id = "C10"
    source = SOURCE
    quick, thorough = 1000, 60000
    runs = 60
    recheck = 30
    rule = "a run counts when the clock jumped (backwards, far forwards, across a second or 32-bit boundary, or stood still) between readings (distinct by event hash)"
    stub = ["heap behind calloc/free", "schedule of the collector", "clock"]

    def spec(self, i, k, rng, meta):
        s = OpsCheck.spec(self, i, k, rng, meta)
        s["rates"]["clock"] = rng.choice([0, 200, 600, 1000])
        s["clock"] = rng.choice([1600000000000000, 1, 999999, 1000000, (1 << 31) * 1000000 - 1, (1 << 32) * 1000000 + 5, -1, -1500001, -(1 << 31) * 1000000 - 7, rng.randrange(1 << 50)])
        return s

    def history(self, i, k, rng):
        return [[rng.randint(1, 9)] for _ in range(rng.choice([2, 8, 25]))]

    def nontrivial(self, meta, spec, R):
        return R.f["evhash"] if R.kinds.get("clock", (0, 0))[0] else None

    def judge_ops(self, hist, spec, R):
        t = self.crash_text(R)
        if t:
            return t
        if R.code != 0:
            return "exit code %d, output ends %r" % (R.code, R.out[-200:])
        clock = [R.notes[j + 1] for j in range(0, len(R.notes), 2) if R.notes[j] == -777]
        ci = 0
        kept = []
        T = None

        def now():
            nonlocal ci
            if ci >= len(clock):
                raise IndexError
            ci += 1
            return clock[ci - 1]

        def q(v, n):
            return v // n if v >= 0 else -(-v // n)     # towards zero

        def su(v):
            return "%d %d" % (v // 1000000, v % 1000000)

        exp = []
        try:
            T = now()
            exp.append(su(T))
            for (op,) in hist:
                if op == 1:
                    exp.append(su(now()))
                elif op == 2:
                    exp.append(str(now()))
                elif op == 3:
                    v = now()
                    exp.append("%d %d %d" % (v, q(v, 1000), q(v, 1000000)))
                elif op == 4:
                    a = now()
                    exp.append(str(now() - a))
                elif op == 5:
                    kept.insert(0, now())
                    exp.append("kept")
                elif op == 6:
                    exp.append("".join("%d.%d " % (v // 1000000, v % 1000000) for v in kept))
                elif op == 7:
                    exp.append("%d %d %d" % (now(), now(), now()))
                elif op == 8:
                    exp.append(su(T))
                elif op == 9:
                    T = now()
                    exp.append(str(q(T, 1000000)))
        except IndexError:
            return "the clock was read %d times, fewer than the program asked for" % len(clock)
        exp += ["done", ""]
        got = R.out.decode("latin-1").split("\n")
        for n in range(max(len(exp), len(got))):
            a = exp[n] if n < len(exp) else None
            b = got[n] if n < len(got) else None
            if a != b:
                return "result %d is %r, the clock said %r" % (n, b, a)
        return None
