"""C22: the compiler's listings (-lex, -ast, -types, -asm, -in) change nothing but what is printed, whatever becomes of the output."""
import json, random
from simlib import gen, mutate
from simlib.comp import put
from simlib.harness import Violation
from props import C14
from props.C14 import errors

REGEX = [".", ".*", "main", "^[a-c]", "=", "zz.*q", "\\+", "for|while|if", "(x)(y)?", "[0-9]+", "\"", "opFor", "", " "]
BAD = ["(", "[", "*a", "a**", "\\", "[z-a]", "(?P<x", "a{2,1}", "x)", "(?!y)"]      # no regular expressions


def flags(rng):
    """A choice of switches; all of them at times."""
    f = [x for x in ("-lex", "-types", "-asm", "-in") if rng.random() < 0.4]
    if rng.random() < 0.5:
        f += ["-ast", rng.choice(REGEX if rng.random() < 0.85 else BAD)]
    if not f:
        f = [rng.choice(["-lex", "-types", "-asm", "-in"])]
    return f


class CHECK(C14.CHECK):
    id = "C22"
    quick, thorough = 110, 5000
    runs = 5
    rule = "a run counts when a listing was printed (distinct by execution hash)"

    def program(self, rng, i):
        if i % 5 == 0:
            t = "".join(rng.choice("abcdefg %") for _ in range(rng.randrange(20)))
            return 'fn main() {\n    printf("%%s\\n", "%s")\n}\n' % t, t + "\n"
        c, p, exp = gen.generate("list/%s/%d" % (rng.random(), i), rng.choice([0.3, 0.5]), {"clo": True} if i % 2 else None)
        return c, exp.decode("latin-1")

    def run1(self, src, spec):
        w = self.fresh()
        put(w + "/p.clara", src)
        R = self.sim.run(dict(spec, Mode="cli", Args=self.cli(w) + spec["Flags"]), w)
        parsed = self.sim.read_exe(w + "/out/p")
        self.drop(w)
        return R, parsed

    def judge(self, case, R, parsed):
        spec = case["spec"]
        t = self.panic_text(R)
        if t:
            return "with %s: %s" % (" ".join(spec["Flags"]), t[:100] + " ... " + R.out[-700:] if "crashed" in t else t)
        torn = any("listing" in e and "(short)" not in e and "interrupted" not in e for e in R.events)
        text = errors(R.out)
        if any(a == "-ast" and b in BAD for a, b in zip(spec["Flags"], spec["Flags"][1:])):
            if R.code == 0 or parsed is not None:
                return "the invalid pattern of %s goes unreported" % " ".join(spec["Flags"])
            if not torn and not R.out.strip():
                return "the invalid pattern of %s is rejected without a message" % " ".join(spec["Flags"])
            return None
        if case["expected"] is None:
            if R.code == 0:
                return "with %s an invalid program is accepted" % " ".join(spec["Flags"])
            if not torn and not text.endswith(case["errors"]):
                return "with %s other errors are reported: %r instead of %r" % (" ".join(spec["Flags"]), text[-300:], case["errors"][-300:])
            return None
        if torn and R.code == 1:
            return None     # saying that the listing could not be written is fine
        if R.code == 0 and not spec["Flags"] and text:
            return "no listing was asked for, yet %r is printed" % text[:100]
        if R.code == 0 and not torn:
            for f in ("-lex", "-types"):
                if f in spec["Flags"] and "main" not in text:
                    return "%s lists nothing" % f
        m = C14.CHECK.judge(self, dict(case, expected=case["expected"]), R, parsed)
        return m and "with %s: %s" % (" ".join(spec["Flags"]), m)

    def case(self, i, seed, stats):
        rng = random.Random("%s/%d/%d" % (self.id, seed, i))
        if i % 3 == 2:
            for src in (mutate.catalogue(rng, i), mutate.combined(rng), mutate.invalid(rng, self.program(rng, i)[0])):
                v = self.variants(i, rng, src, None, self.runs, stats)
                if v:
                    return v
            return None
        src, exp = self.program(rng, i)
        return self.variants(i, rng, src, exp, self.runs, stats)

    def variants(self, i, rng, src, exp, n, stats):
        err = None
        for k in range(n):
            rates = {"yield": rng.choice([0, 5, 200, 5000])}
            if k % 2 == 0 and k:
                rates["listing"] = rng.choice([100, 3000, 100000])
            spec = {"Seed": rng.getrandbits(40), "MapSeed": rng.getrandbits(40), "Rates": rates, "Flags": flags(rng) if k else []}
            R, parsed = self.run1(src, spec)
            if exp is None and err is None:
                err = errors(R.out)
            case = {"source": src, "expected": exp, "errors": err, "spec": spec}
            self.account(stats, R)
            stats.add("accepted" if R.code == 0 else "rejected")
            for f in spec["Flags"]:
                if f in ("-lex", "-types", "-ast", "-asm", "-in"):
                    stats.add("switch." + f)
            if k and len(R.out) > 200:
                stats.seen("nontrivial", R.hash)
            if k == 1 and i < 16:
                stats.sample("case %d: %s -> exit %d, %d bytes of listing" % (i, " ".join(spec["Flags"]), R.code, len(R.out)))
            m = self.judge(case, R, parsed)
            if m:
                return Violation(m, dict(case, spec=dict(spec, Devs=R.devs) if len(R.devs) < 20000 else spec))
            self.recheck(stats, k, R, lambda: self.run1(src, spec)[0])
        return None

    def minimise(self, case, deadline):
        case = json.loads(json.dumps(case))
        for rates in ({}, dict(case["spec"]["Rates"], listing=0)):
            c = dict(case, spec=dict(case["spec"], Rates=rates, Devs=[]))
            if self.confirm(c):
                case = c
                break
        fl, k = case["spec"]["Flags"], 0
        while k < len(fl) and len(fl) > 1:
            n = 2 if fl[k] == "-ast" else 1
            c = dict(case, spec=dict(case["spec"], Flags=fl[:k] + fl[k + n:]))
            if c["spec"]["Flags"] and self.confirm(c):
                case, fl = c, c["spec"]["Flags"]
            else:
                k += n
        return case

    def describe(self, case):
        return "switches %s, seed %s, rates %s" % (" ".join(case["spec"]["Flags"]), case["spec"]["Seed"], case["spec"]["Rates"])
