"""C07: closures see the values captured when they were created, each instance its own, whenever they are called."""
import random
from simlib import gen
from props import C01


class CHECK(C01.CHECK):
    id = "C07"
    quick, thorough = 260, 12000
    rule = "a run counts when closures were created, memory was collected and the program went on calling them (distinct by event hash)"

    def program(self, i, rng):
        size = [0.6, 1.0, 1.3][i % 3]
        f = {"clo": True}
        if i % 4 == 0:
            f["capall"] = True
        c, p, exp = gen.generate("clo/%s/%d" % (rng.random(), i), size, f)
        return c, {"expected": exp.decode("latin-1"), "closures": p.count("Clo(")}

    def nontrivial(self, meta, spec, R):
        return R.f["evhash"] if R.f["nfree"] and meta["closures"] else None
