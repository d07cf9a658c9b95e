"""C03: when an allocation fails, the program stops with the panic message and exit code 1; what it printed before stands."""
import random
from simlib import gen, core
from simlib.harness import RtCheck

MSG = b"Panic: Failed to allocate memory!"


def panic_split(out, msg):
    """(text printed before the panic banner, True) or (out, False)."""
    i = out.rfind(b"// Panic: ")
    if i < 0:
        return out, False
    j = out.rfind(b"\n// -----", 0, i)
    return (out[:j] if j >= 0 else out[:i]), out[i:].startswith(b"// " + msg)


class CHECK(RtCheck):
    id = "C03"
    quick, thorough = 340, 16000
    runs = 44
    rule = "a run counts when an allocation actually failed (distinct by event hash)"

    def program(self, i, rng):
        c, p, exp = gen.generate("oom/%s/%d" % (rng.random(), i), [0.5, 0.9, 1.3][i % 3])
        return c, {"expected": exp.decode("latin-1")}

    def case(self, i, seed, stats):
        self.total = None
        return RtCheck.case(self, i, seed, stats)

    def spec(self, i, k, rng, meta):
        s = core.swarm(rng)
        n = meta.get("allocs")
        if n is None:
            P, out = self._pp
            R = P.run(dict(s, rates={}))
            n = meta["allocs"] = R.f["nalloc"]
            meta["maxbytes"] = R.f["maxlivebytes"]
        if k % 4 == 3:
            s["cap"] = rng.randint(200, max(201, meta["maxbytes"]))   # memory runs out for good
        elif k % 4 == 2:
            s["rates"]["oom"] = rng.choice([1, 5, 30])                 # any allocation may fail
        else:
            # exactly one allocation fails: early ones (process start), then anywhere
            idx = rng.randrange(min(n, 40)) if k % 4 == 0 and rng.random() < 0.4 else rng.randrange(n)
            s["one"] = idx
            s["devs"] = [["oom", idx, 0]] + self.other(rng, n)
        return s

    def other(self, rng, n):
        d = [["gcskip", x, 0] for x in sorted(rng.sample(range(n), rng.randint(0, n // 2)))] if rng.random() < 0.5 else []
        if rng.random() < 0.5:
            d += [["place", x, rng.randrange(1000)] for x in sorted(rng.sample(range(n), rng.randint(0, n)))]
        return d

    def nontrivial(self, meta, spec, R):
        return R.f["evhash"] if R.f["nfail"] else None

    def judge(self, meta, spec, R):
        t = self.crash_text(R)
        exp = meta["expected"].encode("latin-1")
        if t:
            return "after %d failed allocation(s): %s" % (R.f["nfail"], t) if R.f["nfail"] else t
        if R.f["nfail"] == 0:
            if R.code != 0 or R.out != exp:
                return "no allocation failed, yet exit %d and output ending %r" % (R.code, R.out[-200:])
            return None
        pre, ok = panic_split(R.out, MSG)
        if R.code != 1:
            return "an allocation failed but the program ended with exit code %d" % R.code
        if not ok:
            return "an allocation failed but the program did not report it: output ends %r" % R.out[-200:]
        if not exp.startswith(pre):
            return "output before the failed allocation is not what the program had printed: %r" % pre[-200:]
        return None
