"""C23: an external function receives exactly the values of its arguments, and its result is what the program goes on with."""
from simlib import gen
from props import C01


class CHECK(C01.CHECK):
    id = "C23"
    quick, thorough = 260, 12000
    rule = "a run counts when external functions were called with values built meanwhile, memory was collected and the program went on (distinct by event hash)"

    def program(self, i, rng):
        size = [0.6, 1.0, 1.3][i % 3]
        f = {"ext": True}
        if i % 4 == 0:
            f["clo"] = True
        c, p, exp = gen.generate("ext/%s/%d" % (rng.random(), i), size, f)
        return c, {"expected": exp.decode("latin-1"), "calls": p.count("xcall(") + p.count("xsame(") - 2}

    def nontrivial(self, meta, spec, R):
        return R.f["evhash"] if R.f["nfree"] and meta["calls"] > 0 else None
