"""C14: what a source means does not depend on the compiler's internal choices (order of maps, switches between goroutines)."""
import json, os, random, re, time
from simlib import gen, mutate
from simlib.comp import CompCheck, put, get
from simlib.harness import Violation

OK_HELLO = 'fn main() {\n    println("hello")\n}\n'


def errors(out):
    """The reported errors without colours."""
    return re.sub(r"\x1b\[[0-9;]*m", "", out)


class CHECK(CompCheck):
    id = "C14"
    quick, thorough = 120, 6000
    seeds = 4
    rule = "a run counts when the compiler's choices differed from the reference run of the same source (distinct by execution hash)"

    def program(self, rng, i):
        f = {"clo": True} if i % 3 == 0 else None
        c, p, exp = gen.generate("det/%s/%d" % (rng.random(), i), rng.choice([0.4, 0.8, 1.2]), f)
        return c, exp.decode("latin-1")

    def run1(self, src, spec):
        w = self.fresh()
        put(w + "/p.clara", src)
        R = self.sim.run(dict(spec, Mode="cli", Args=self.cli(w)), w)
        parsed = self.sim.read_exe(w + "/out/p")
        self.drop(w)
        return R, parsed

    def judge(self, case, R, parsed):
        t = self.panic_text(R)
        if t:
            return t
        if case["expected"] is None:
            if R.code == 0:
                return "an invalid program is accepted"
            if errors(R.out) != case["errors"]:
                return "the errors depend on the compiler's internal choices: %r here, %r elsewhere" % (errors(R.out)[:300], case["errors"][:300])
            return None
        if R.code != 0:
            return "a valid program is rejected: " + R.out[:400]
        if parsed is None:
            return "no executable"
        for sp in ({"seed": 1}, {"seed": 2, "page": 1}):
            b = self.sim.behaviour(parsed[1], parsed[0], sp)
            if b[0] != "exit" or b[1] != 0 or b[2] != case["expected"]:
                n = next((j for j in range(min(len(case["expected"]), len(b[2]))) if case["expected"][j] != b[2][j]), min(len(case["expected"]), len(b[2])))
                return "the executable built with these choices misbehaves: %s %s, at byte %d of its output %r instead of %r" % (
                    b[0], b[1], n, b[2][max(0, n - 20):n + 60], case["expected"][max(0, n - 20):n + 60])
        return None

    def case(self, i, seed, stats):
        rng = random.Random("%s/%d/%d" % (self.id, seed, i))
        if i % 4 == 3:
            # invalid programs: a share of the catalogue of errors, each inside changing constructs, and an edit of a generated one
            n = 15
            first = (i // 4) * n
            for k in range(first, first + n):
                v = self.variants(i, rng, mutate.catalogue(rng, k), None, 2, stats)
                stats.seen("kinds_of_error", k % mutate.size())
                if v:
                    return v
            for k in range(6):
                v = self.variants(i, rng, mutate.combined(rng), None, 4, stats)
                if v:
                    return v
        src, exp = self.program(rng, i)
        if i % 4 == 3:
            return self.variants(i, rng, mutate.invalid(rng, src), None, 2 * self.seeds, stats)
        return self.variants(i, rng, src, exp, self.seeds, stats)

    def variants(self, i, rng, src, exp, n, stats):
        first = err = None
        for k in range(n):
            spec = {"Seed": rng.getrandbits(40), "MapSeed": rng.getrandbits(40), "Rates": {"yield": rng.choice([0, 5, 200, 5000])}, "Rare": rng.choice([0, 0, 20000, 500000])}
            R, parsed = self.run1(src, spec)
            if exp is None and err is None:
                err = errors(R.out)
            case = {"source": src, "expected": exp, "errors": err, "spec": spec}
            self.account(stats, R)
            stats.add("accepted" if R.code == 0 else "rejected")
            if parsed:
                stats.seen("assembly", hash(parsed[1]))
            if first is None:
                first = R.hash
            elif R.hash != first:
                stats.seen("nontrivial", R.hash)
            if k == 1 and i < 16:
                stats.sample("case %d: map seed %d, %s switches -> exit %d" % (i, spec["MapSeed"], R.kinds.get("yield", (0,))[0], R.code))
            m = self.judge(case, R, parsed)
            if m:
                return Violation(m, case)
            self.recheck(stats, k, R, lambda: self.run1(src, spec)[0])
        return None

    def confirm(self, case):
        return self.judge(case, *self.run1(case["source"], case["spec"]))

    def minimise(self, case, deadline):
        case = json.loads(json.dumps(case))
        c = dict(case, spec=dict(case["spec"], Rates={}, Rare=0))
        if self.confirm(c):
            return c
        return case

    def describe(self, case):
        return "map seed %s, seed %s, rates %s" % (case["spec"]["MapSeed"], case["spec"]["Seed"], case["spec"]["Rates"])
