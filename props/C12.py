"""C12: turning the collector's debug output on changes nothing the program itself does."""
import random
from simlib import gen, core
from props import C01
from props.C03 import MSG

# how the program may end: what is put at the end of main, and what it must report
ENDS = [None, None, ('panic("zz the end")', b"Panic: zz the end"), ('zzq := intArray(2)\n    zzq[2] = 1', b"Panic: "),
        ('assert(false, "zz not so")', b"Panic: zz not so"), ("exit(3)", None)]

SHOW = '''fn main() {
    zzrt := getRuntime()
    for zza in zzrt.args {
        if not zza.Equals("--gc.debug") and not zza.Equals("-g") {
            printf("@@ arg %s\\n", zza)
        }
    }
    printf("@@ env %d\\n", zzrt.env.size)
    printf("@@ HOME %s\\n", zzrt.env.orElse("HOME", "unset"))
'''


class CHECK(C01.CHECK):
    id = "C12"
    quick, thorough = 130, 6000
    runs = 12
    rule = "a run counts when debug output was on and collections were logged (distinct by event hash)"
    stub = C01.CHECK.stub

    def program(self, i, rng):
        c, p, exp = gen.generate("dbg/%s/%d" % (rng.random(), i), [0.4, 0.7][i % 2], {"mark": True})
        # the program also tells what it was started with, leaving out the switch itself
        c = c.replace("fn main() {\n", SHOW, 1)
        meta = {"expected": exp.decode("latin-1"), "args": SHOW in c, "end": rng.randrange(len(ENDS))}
        if ENDS[meta["end"]] and c.rstrip().endswith('say("end")\n}'):
            c = c.rstrip()[:-1] + "    " + ENDS[meta["end"]][0] + "\n}\n"
        else:
            meta["end"] = 0
        return c, meta

    def spec(self, i, k, rng, meta):
        s = core.swarm(rng)
        debug = k % 6 != 0
        if debug:
            # keep what is logged to a few megabytes: every collection logs every live block
            R = self._pp[0].run(dict(s, args=["prog"]))
            if (R.f["nalloc"] - R.f["ngcskip"]) * (R.f["maxlive"] + 5) * 90 > 20 << 20:
                s["rates"]["gcskip"] = 990
                if R.f["nalloc"] * (R.f["maxlive"] + 300) * 2 > 20 << 20:
                    debug = False
        rest = rng.choice([[], ["x"], ["y", "z"], ["-v"], ["a", "--name=b", "c"], ["--file", "f", "-x"], ["", "last"]])
        at = rng.randrange(len(rest) + 1)
        s["args"] = ["prog"] + rest[:at] + ([rng.choice(["--gc.debug", "--gc.debug", "-g"])] if debug else []) + rest[at:]
        if k % 4 == 3:
            # memory runs out: the log is no excuse for another ending
            s["rates"]["oom"] = rng.choice([1, 3, 10])
        s["env"] = rng.choice([[], ["HOME=/home/me"], ["A=1", "HOME=", "B=x=y"]])
        return s

    def debug(self, spec):
        return "--gc.debug" in spec["args"] or "-g" in spec["args"]

    def nontrivial(self, meta, spec, R):
        return R.f["evhash"] if self.debug(spec) and R.f["nfree"] else None

    def judge(self, meta, spec, R):
        t = self.crash_text(R)
        if t:
            return t
        e = ENDS[meta.get("end", 0)]
        says, code = (MSG, 1) if R.f["nfail"] else (e[1], 1 if e[1] else 3) if e else (None, 0)
        if R.code != code:
            return "the program ended with exit code %d, not %d: %r" % (R.code, code, R.out[-300:])
        exp = meta["expected"].encode("latin-1")
        got = R.out
        if meta.get("args"):
            e = dict(x.split("=", 1) for x in spec["env"])
            exp = "".join("@@ arg %s\n" % a for a in spec["args"] if a not in ("--gc.debug", "-g")).encode() + (
                "@@ env %d\n@@ HOME %s\n" % (len(e), e.get("HOME", "unset"))).encode() + exp
        if self.debug(spec):
            got = b"".join(l + b"\n" for l in R.out.split(b"\n") if l.startswith(b"@@ "))
            if R.f["ngc"] > R.f["ngcskip"] and len(got) == len(R.out):
                return "the debug switch was given but nothing was logged"
        if says:
            i = R.out.rfind(b"\n// " + says)
            if i < 0:
                return "with %s the program does not end with its panic: %r" % (spec["args"][1:], R.out[-200:])
            if not self.debug(spec):
                got = got[:max(0, got.rfind(b"\n// ----", 0, i))]
            if R.f["nfail"]:
                # lines printed in part are left out
                got = got[:got.rfind(b"\n") + 1]
                exp = exp[:len(got)]
        if got != exp:
            n = next((j for j in range(min(len(exp), len(got))) if exp[j] != got[j]), min(len(exp), len(got)))
            return "with %s the program's own output differs at byte %d: expected %r, got %r" % (
                spec["args"][1:], n, exp[max(0, n - 20):n + 40], got[max(0, n - 20):n + 40])
        return None
