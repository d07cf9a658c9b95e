"""C01: whatever the collector's schedule and the heap's layout, a program prints what its source says."""
from simlib import gen, large
from simlib.harness import RtCheck


class CHECK(RtCheck):
    id = "C01"
    quick, thorough = 360, 16000
    runs = 16
    rule = "a run counts when at least one collection freed memory while the program went on running (distinct by event hash)"

    def program(self, i, rng):
        if i % 12 == 5:
            # much in memory, of many types, deep down
            name, c, exp = large.heap(rng, i // 12)
            return gen.PRELUDE + c, {"expected": exp, "large": name, "runs": 6}
        size = [0.6, 1.0, 1.0, 1.6][i % 4]
        c, p, exp = gen.generate("%s/%d" % (rng.random(), i), size)
        return c, {"expected": exp.decode("latin-1")}

    def nontrivial(self, meta, spec, R):
        return R.f["evhash"] if R.f["nfree"] else None

    def judge(self, meta, spec, R):
        t = self.crash_text(R)
        if t:
            return t
        exp = meta["expected"].encode("latin-1")
        if R.code != 0:
            return "the program ended with exit code %d: %r" % (R.code, R.out[-300:])
        if R.out != exp:
            n = next((j for j in range(min(len(exp), len(R.out))) if exp[j] != R.out[j]), min(len(exp), len(R.out)))
            return "output differs from the reference at byte %d: expected %r, got %r" % (n, exp[max(0, n - 20):n + 40], R.out[max(0, n - 20):n + 40])
        return None
