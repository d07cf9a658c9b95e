"""C15: compilations running at the same time, or one after another in one process, do not affect each other."""
import json, os, random, time
from simlib import gen, mutate
from simlib.comp import CompCheck, put, get
from simlib.harness import Violation
from props.C13 import failing, benign
from props.C14 import errors


def hexed(t):
    return t.encode("utf-8", "surrogateescape").hex()


class CHECK(CompCheck):
    id = "C15"
    quick, thorough = 90, 5000
    runs = 3
    rule = "a run counts when at least two compilations overlapped and the schedule switched between them (distinct by execution hash)"

    def sources(self, rng, i):
        """Sources with what they mean: (text, expected output or None)."""
        r = []
        for k in range(rng.randint(2, 4)):
            w = rng.random()
            if w < 0.25:
                t = "".join(rng.choice("abcdefg ") for _ in range(rng.randrange(20)))
                r.append(('fn main() {\n    println("%s")\n}\n' % t, t + "\n"))
                continue
            c, p, exp = gen.generate("par/%s/%d/%d" % (rng.random(), i, k), 0.4, {"clo": True} if rng.random() < 0.5 else None)
            if w < 0.45:
                r.append((mutate.invalid(rng, c), None))
            else:
                r.append((c, exp.decode("latin-1")))
        return r

    def text(self, case, j):
        """(source, expected output or None, library file or None) of compilation j. Some use a further library file, which
        changes from one compilation to the next."""
        job = case["jobs"][j]
        src, exp = case["sources"][job["source"]]
        if job["extra"] is None:
            return src, exp, None
        return (src.replace("fn main() {\n", "fn main() {\n    println(zzExtra())\n", 1), None if exp is None else "version %d\n%s" % (job["extra"], exp),
                "fn zzExtra() string = \"version %d\"\n" % job["extra"])

    def job(self, case, j, w):
        """The compilation as the simulator gets it; its files are there when it starts, not earlier."""
        job = case["jobs"][j]
        d = "%s/j%d" % (w, job["dir"])
        os.makedirs(d + "/out", exist_ok=True)
        src, exp, lib = self.text(case, j)
        prog = "%s/%s.clara" % (d, job["name"])
        r = {"Prog": prog, "Out": d + "/out", "Lane": job["lane"], "Files": {prog: hexed(src)}, "Keep": "%s/keep%d" % (w, j)}
        if lib is not None:
            r["Lib"] = [d + "/zzextra.clara"]
            r["Files"][d + "/zzextra.clara"] = hexed(lib)
        return r

    def run1(self, case):
        w = self.fresh()
        jobs = [self.job(case, j, w) for j in range(len(case["jobs"]))]
        R = self.sim.run(dict(case["spec"], Mode="multi", Jobs=jobs, Lib=self.sim.lib(), CLib=self.sim.clib()), w, timeout=60)
        exes = []
        for j, job in enumerate(case["jobs"]):
            try:
                names = sorted(os.listdir("%s/keep%d" % (w, j)))
            except FileNotFoundError:
                names = []
            exes.append((self.sim.read_exe("%s/keep%d/%s" % (w, j, job["name"])), names))
        left = os.listdir(w + "/tmp")
        for r in R.results.values():
            r["Errs"] = [errors(e.replace(w, "$W")) for e in (r["Errs"] or [])]
        self.drop(w)
        return R, exes, left

    def alone(self, case, j):
        """What the same source gives when it is compiled alone."""
        job = case["jobs"][j]
        key = (self.text(case, j), job["name"], job["dir"])
        if not hasattr(self, "_alone"):
            self._alone = {}
        if key not in self._alone:
            if len(self._alone) > 60:
                self._alone.clear()
            w = self.fresh()
            R = self.sim.run({"Seed": 1, "Devs": [], "Mode": "multi", "Jobs": [dict(self.job(case, j, w), Lane=0)], "Lib": self.sim.lib(), "CLib": self.sim.clib()}, w, timeout=60)
            self._alone[key] = [errors(e.replace(w, "$W")) for e in ((R.results.get(0) or {}).get("Errs") or [])]
            self.drop(w)
        return self._alone[key]

    def judge(self, case, res):
        R, exes, left = res
        t = self.panic_text(R)
        if t:
            return t
        faults = failing(R.events)
        bad = [e for e in faults if not benign(e)]
        why = "; ".join(e[:100] for e in faults[:3]) or "no fault"
        if len(R.results) != len(case["jobs"]):
            return "%d of %d compilations gave a result" % (len(R.results), len(case["jobs"]))
        failed = 0
        for j, job in enumerate(case["jobs"]):
            r = R.results[j]
            name = job["name"]
            exp = self.text(case, j)[1]
            if r["Panic"]:
                return "compilation %d crashed: %s (%s)" % (j, r["Panic"][:400], why)
            exe, names = exes[j]
            if set(names) - {name}:
                return "compilation %d left %s (%s)" % (j, names, why)
            if not r["Errs"]:
                if exp is None:
                    return "compilation %d accepts an invalid program (%s)" % (j, why)
                if exe is None:
                    return "compilation %d reports success without an executable (%s)" % (j, why)
                b = self.sim.behaviour(exe[1], exe[0])
                if b[0] != "exit" or b[1] != 0 or b[2] != exp:
                    return "compilation %d produced the wrong program: %s instead of %r (%s)" % (j, str(b)[:200], exp[:100], why)
                continue
            if not any(e.strip() for e in r["Errs"]):
                return "compilation %d fails without a message" % j
            if not bad:
                if exp is not None:
                    return "compilation %d of a valid program fails: %s (%s)" % (j, r["Errs"][0][:300], why)
                if r["Errs"] != self.alone(case, j):
                    return "compilation %d reports other errors than alone: %s instead of %s" % (j, str(r["Errs"])[:200], str(self.alone(case, j))[:200])
            elif exp is not None:
                failed += 1
        if failed > len(bad):
            return "%d compilations fail after %d faults (%s)" % (failed, len(bad), why)
        if left and not any(e.startswith("unlink ") for e in faults):
            return "temporary files are left behind: %s (%s)" % (left, why)
        if R.leaked:
            return "%d goroutines are left behind" % R.leaked
        return None

    def case(self, i, seed, stats):
        rng = random.Random("%s/%d/%d" % (self.id, seed, i))
        src = self.sources(rng, i)
        for k in range(self.runs):
            n = rng.randint(2, 5)
            lanes = 1 if rng.random() < 0.15 else n if rng.random() < 0.5 else 2
            jobs = [{"source": rng.randrange(len(src)), "name": rng.choice(["p", "p", "p", "q"]), "lane": j % lanes, "dir": j, "extra": None} for j in range(n)]
            for j in range(lanes, n):
                if rng.random() < 0.7:
                    # the same file again, with other content
                    jobs[j]["dir"], jobs[j]["name"] = jobs[j - lanes]["dir"], jobs[j - lanes]["name"]
            if rng.random() < 0.5:
                for j in range(n):
                    jobs[j]["extra"] = j
            spec = {"Seed": rng.getrandbits(40), "MapSeed": rng.getrandbits(40)}
            rates = {"yield": rng.choice([2, 20, 200, 2000, 20000])}
            if k % 3 == 2:
                # faults hit some compilation or other
                rates.update({kd: rng.choice([0, 200, 20000]) for kd in ("open", "read", "close")})
                rates["gcc"] = rng.choice([0, 200000])
                rates["write"] = rng.choice([0, 0, 20])
            spec["Rates"] = rates
            spec["Rare"] = rng.choice([0, 0, 20000, 200000])
            case = {"sources": src, "jobs": jobs, "spec": spec}
            res = self.run1(case)
            R = res[0]
            self.account(stats, R)
            stats.add("compilations", n)
            stats.add("lanes", lanes)
            if R.kinds.get("yield", (0, 0))[0] and lanes > 1:
                stats.seen("nontrivial", R.hash)
            if k == 0 and i < 16:
                stats.sample("case %d: %d compilations in %d lanes, %d switches" % (i, n, lanes, R.kinds.get("yield", (0, 0))[0]))
            m = self.judge(case, res)
            if m:
                return Violation(m, case)
            self.recheck(stats, k, R, lambda: self.run1(case)[0])
        return None

    def confirm(self, case):
        return self.judge(case, self.run1(case))

    def minimise(self, case, deadline):
        case = json.loads(json.dumps(case))
        for rates in ({"yield": case["spec"]["Rates"].get("yield", 0)}, {}):
            c = dict(case, spec=dict(case["spec"], Rates=rates, Rare=case["spec"]["Rare"] if rates else 0))
            if time.time() < deadline and self.confirm(c):
                case = c
        j = 0
        while j < len(case["jobs"]) and len(case["jobs"]) > 1 and time.time() < deadline:
            c = dict(case, jobs=case["jobs"][:j] + case["jobs"][j + 1:])
            if self.confirm(c):
                case = c
            else:
                j += 1
        return case

    def describe(self, case):
        return "compilations: %s; seed %s map seed %s rates %s" % (case["jobs"], case["spec"]["Seed"], case["spec"]["MapSeed"], case["spec"]["Rates"])
