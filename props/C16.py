"""C16: a compiler killed at any point leaves the old executable or the new one, and compiling again works."""
import json, os, random, time
from simlib import gen
from simlib.comp import CompCheck, put, get
from simlib.harness import Violation, ddmin
from props.C13 import OLD


class CHECK(CompCheck):
    id = "C16"
    quick, thorough = 200, 9000
    runs = 4
    rule = "a history counts when the compiler was killed at least once before the run that has to succeed (distinct by execution hash of the whole history)"

    def program(self, rng, i):
        if i % 3 == 0:
            t = "".join(rng.choice("abcdefg ") for _ in range(rng.randrange(30)))
            return 'fn main() {\n    println("%s")\n}\n' % t, t + "\n"
        c, p, exp = gen.generate("crash/%s/%d" % (rng.random(), i), 0.4)
        return c, exp.decode("latin-1")

    def history(self, case):
        """Run the whole history in one directory; returns (list of runs, message or None)."""
        w = self.fresh()
        runs = []
        try:
            if case["old"]:
                put(w + "/out/p", OLD)
                os.chmod(w + "/out/p", 0o755)
            before = get(w + "/out/p")
            for n, (src, exp) in enumerate(case["versions"]):
                # what the clock says proves nothing: it may be wrong, and files may come from elsewhere
                t = case["times"][n] if case.get("times") else None
                if t != "keep" or n == 0 or src != case["versions"][n - 1][0]:
                    put(w + "/p.clara", src)
                if isinstance(t, int):
                    os.utime(w + "/p.clara", (t, t))
                spec = case["specs"][n]
                last = n == len(case["versions"]) - 1
                R = self.sim.run(dict(spec, Mode="cli", Args=self.cli(w)), w)
                runs.append(R)
                killed = R.code == -9 and (R.crashed or any(e.endswith(("gcc=8", "gcc=9")) for e in R.events))
                if not killed:
                    t = self.panic_text(R)
                    if t:
                        return runs, t
                gcc = [e for e in R.events if "gcc=" in e] if R.gcc else []
                now = get(w + "/out/p")
                if not gcc and now != before:
                    return runs, "a compiler killed before gcc was started changed the executable (%s)" % R.crashed
                parsed = self.sim.read_exe(w + "/out/p")
                torn = bool(gcc) and gcc[-1].endswith("gcc=8")
                if gcc and not torn:
                    if parsed is None:
                        return runs, "gcc succeeded but the executable is incomplete"
                if not killed:
                    if R.code != 0:
                        return runs, "after %d killed runs the compilation fails: %s" % (n, R.out[:300])
                if parsed is not None and (gcc and not torn):
                    b = self.sim.behaviour(parsed[1], parsed[0])
                    if b[0] != "exit" or b[1] != 0 or b[2] != exp:
                        return runs, "after %d earlier runs the executable is wrong: %s instead of %r" % (n, str(b)[:200], exp[:100])
                elif not killed:
                    return runs, "success is reported but there is no executable"
                before = now
            return runs, None
        finally:
            self.drop(w)

    def case(self, i, seed, stats):
        rng = random.Random("%s/%d/%d" % (self.id, seed, i))
        progs = [self.program(rng, i + 3 * k) for k in range(2)]
        ms = rng.getrandbits(40)
        c0 = {"old": False, "versions": [progs[0]], "specs": [{"Seed": 1, "MapSeed": ms, "Devs": []}]}
        runs, m = self.history(c0)
        for R in runs:
            self.account(stats, R)
        if m:
            return Violation(m, c0)
        points = runs[0].kinds["crash"][1]
        # where the assembly file has been written and what follows
        for k in range(self.runs):
            n = rng.choice([1, 1, 2, 3])
            vs, sp = [], []
            for q in range(n):
                w = rng.random()
                if w < 0.15:
                    devs = [["gcc", 0, rng.choice([8, 9])]]
                elif w < 0.5:
                    devs = [["crash", max(0, points - 1 - rng.randrange(12)), rng.randrange(8)]]
                elif w < 0.7:
                    devs = [["crash", rng.randrange(min(points, 120)), rng.randrange(8)]]
                else:
                    devs = [["crash", rng.randrange(points), rng.randrange(8)]]
                vs.append(rng.choice(progs))
                sp.append({"Seed": rng.getrandbits(40), "MapSeed": rng.choice([ms, ms, rng.getrandbits(40)]), "Devs": devs})
            vs.append(rng.choice(progs))
            sp.append({"Seed": rng.getrandbits(40), "MapSeed": rng.choice([ms, sp[-1]["MapSeed"], rng.getrandbits(40)]), "Devs": []})
            case = {"old": rng.random() < 0.5, "versions": vs, "specs": sp,
                    "times": [rng.choice([None, "keep", "keep", 10 ** 9, 10 ** 9 + rng.randrange(3), 4 * 10 ** 9]) for _ in vs]}
            runs, m = self.history(case)
            for R in runs:
                self.account(stats, R)
                if R.crashed:
                    stats.add("kill." + R.crashed.split(" ")[0])
                    stats.seen("kill points", (R.crashed.split(" ")[0], R.kinds["crash"][1]))
            if any(R.code == -9 for R in runs):
                stats.seen("nontrivial", "/".join(R.hash for R in runs))
            if k == 0 and i < 16:
                stats.sample("case %d: killed at %s" % (i, [R.crashed or "gcc" for R in runs if R.code == -9]))
            if m:
                return Violation(m, case)
            self.recheck(stats, k, runs[-1], lambda: self.history(case)[0][-1])
        return None

    def confirm(self, case):
        return self.history(case)[1]

    def minimise(self, case, deadline):
        case = json.loads(json.dumps(case))
        j = 0
        while j < len(case["specs"]) - 1 and time.time() < deadline:
            c = dict(case, versions=case["versions"][:j] + case["versions"][j + 1:], times=case["times"][:j] + case["times"][j + 1:] if case.get("times") else None, specs=case["specs"][:j] + case["specs"][j + 1:])
            if self.confirm(c):
                case = c
            else:
                j += 1
        return case

    def describe(self, case):
        return "runs: %s" % ([s["Devs"] for s in case["specs"]],)
