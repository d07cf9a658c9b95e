"""C02: memory no longer reachable is reclaimed (once), so a program's memory use is bounded by what it keeps."""
import random, re
from simlib import gen, large, core
from simlib.harness import RtCheck

MAIN = '''fn main() {
    a := settle()
    simNote(-5)
    for rep in 0 .. REPS {
        work()
        simNote(settle() - a)
    }
    say("fin")
}
fn settle() int {
    low := simLive(0) + 1000
    for i in 0 .. 60 {
        "s".append("t")
        n := simLive(0)
        if n < low {
            low = n
        }
    }
    return low
}
'''

CLOSED = '''
struct holder«T» {
    v: T
}
fn blockProbe() {
    a := settle()
    if simOp(1) == 1 {
        keepBig := stringArray(4, "b".append("c"))
        nest := [Holder("x".append("y")), Holder("z".append("w"))]
        for q in nest {
            inner := Pair(q, "in".append("ner"))
            keep(inner)
        }
        keep(keepBig)
    }
    simNote(-6)
    simNote(settle() - a)
    for i in 0 .. 3 {
        w := ["p".append("q"), "r".append("s")]
        keep(w)
    }
    simNote(-6)
    simNote(settle() - a)
    match Some("m".append("n")) {
        case Some(mm):
            m2 := Pair(mm, mm)
            keep(m2)
        case None():
            say("no")
    }
    simNote(-6)
    simNote(settle() - a)
    c := 0
    while c < 2 {
        u := Holder("u".append("u"))
        keep(u)
        c = c + 1
    }
    simNote(-6)
    simNote(settle() - a)
    x := Holder("old".append("val"))
    b := settle()
    x = Holder("new".append("val"))
    simNote(-7)
    simNote(settle() - b)
    x.v = "third".append("val")
    simNote(-7)
    simNote(settle() - b)
    arr := [x, x, x]
    arr[1] = Holder("el".append("em"))
    b = settle()
    arr[1] = Holder("el2".append("em"))
    simNote(-7)
    simNote(settle() - b)
    say(arr[1].v)
}
'''


class CHECK(RtCheck):
    id = "C02"
    quick, thorough = 150, 8000
    runs = 10
    rule = "a run counts when memory was allocated and freed and the live count was read back at every repetition (distinct by event hash)"

    def program(self, i, rng):
        if i % 10 == 7:
            # much in memory, of many types, deep down
            name, c, e = large.heap(rng, i // 10)
            c = (gen.PRELUDE + c).replace("fn main() {", "fn work() {\n    blockProbe()")
            c = c.replace("fn simLive(n: int) int\n", "fn simLive(n: int) int\n#[RawValues]\nfn simOp(n: int) int\n")
            return c + MAIN.replace("REPS", "2") + CLOSED, {"expected": ("el2em\n" + e) * 2 + "fin\n", "reps": 2, "runs": 4}
        c, p, exp = gen.generate("mem/%s/%d" % (rng.random(), i), [0.5, 0.8, 1.2][i % 3], {"clo": True} if i % 5 == 0 else None)
        reps = rng.choice([2, 3, 4])
        c = c.replace("fn main() {", "fn work() {\n    blockProbe()")
        c = c.replace("fn simLive(n: int) int\n", "fn simLive(n: int) int\n#[RawValues]\nfn simOp(n: int) int\n")
        c += MAIN.replace("REPS", str(reps)) + CLOSED
        e = exp.decode("latin-1")
        return c, {"expected": ("el2em\n" + e) * reps + "fin\n", "reps": reps}

    def spec(self, i, k, rng, meta):
        s = core.swarm(rng)
        s["rates"]["gcskip"] = rng.choice([0, 0, 20, 300, 600])
        return s

    def nontrivial(self, meta, spec, R):
        return R.f["evhash"] if R.f["nfree"] and len(R.notes) > 2 else None

    def judge(self, meta, spec, R):
        t = self.crash_text(R)
        if t:
            return t
        if R.code != 0 or R.out != meta["expected"].encode("latin-1"):
            return "wrong result while memory is reclaimed: exit %d, output ends %r" % (R.code, R.out[-200:])
        if R.f["nalloc"] - R.f["nfail"] - R.f["nfree"] != R.f["live"]:
            return "blocks are not conserved: %d allocated, %d freed, %d live" % (R.f["nalloc"], R.f["nfree"], R.f["live"])
        notes = R.notes
        # a block of the closed scopes, and a value that was overwritten, must be gone once a collection has run
        reps = []
        j = 0
        while j < len(notes):
            if notes[j] == -6:
                if notes[j + 1] > 0:
                    return "%d blocks of a closed scope are still live after collections" % notes[j + 1]
                j += 2
            elif notes[j] == -7:
                if notes[j + 1] > 0:
                    return "%d blocks of an overwritten value are still live after collections" % notes[j + 1]
                j += 2
            elif notes[j] == -5:
                j += 1
            else:
                reps.append(notes[j])
                j += 1
        if len(reps) != meta["reps"]:
            return "expected %d repetitions, saw %d" % (meta["reps"], len(reps))
        for n, r in enumerate(reps):
            if r > 0:
                return "%d blocks are still live after work returned (repetition %d) though nothing refers to them" % (r, n + 1)
        return None
