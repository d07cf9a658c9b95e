"""C18: a source file damaged by a crash or a bad disk is compiled or rejected with an error; the compiler never breaks down."""
import json, os, random, shutil, time
from simlib import gen
from simlib.comp import CompCheck, put, get
from simlib.harness import Violation

# damaged installations and flipped bits are not what this is about (see DESIGN.md)
LIBS = BITS = False


def damage(rng, new, old):
    """What may be on disk after a crash while `old` was being replaced by `new`, or after losing part of it."""
    w = rng.random()
    n = len(new)
    if w < 0.40:
        return "cut", new[:rng.randrange(n + 1)]
    if w < 0.50:
        # cut where something interesting stands
        marks = [j for j in range(n) if new[j:j + 1] in b"({[,:=.+-*/<>\"\n]})?#"]
        j = rng.choice(marks) if marks else 0
        return "cut at mark", new[:j + rng.randrange(2)]
    blk = rng.choice([16, 64, 512, 4096])
    if w < 0.62:
        j = rng.randrange(n // blk + 1) * blk
        return "zeroes", new[:j] + b"\0" * (n - j)
    if w < 0.72:
        j = rng.randrange(n // blk + 1) * blk
        return "hole", new[:j] + b"\0" * min(blk, n - j) + new[j + blk:]
    if w < 0.90:
        j = rng.randrange(n // blk + 1) * blk
        return "torn", new[:j] + old[j:]
    if BITS and w < 0.96:
        j = rng.randrange(n)
        return "bit", new[:j] + bytes([new[j] ^ (1 << rng.randrange(8))]) + new[j + 1:]
    return "extended", new + bytes(rng.randrange(256) for _ in range(rng.choice([1, 7, 100])))



class CHECK(CompCheck):
    id = "C18"
    quick, thorough = 220, 12000
    runs = 10
    rule = "a run counts when the compiler read a damaged file (distinct by execution hash)"

    def program(self, rng, i):
        if i % 4 == 0:
            d = os.path.join(self.build.repo, "tests")
            try:
                fs = sorted(f for f in os.listdir(d) if f.endswith(".clara"))
                return get(os.path.join(d, rng.choice(fs)))
            except (FileNotFoundError, IndexError):
                pass
        return gen.generate("torn/%s/%d" % (rng.random(), i), rng.choice([0.3, 0.6]), {"clo": True} if i % 2 else None)[0].encode("utf-8", "surrogateescape")

    def run1(self, case):
        w = self.fresh()
        b = bytes.fromhex(case["text"])
        args = self.cli(w)
        if case["lib"]:
            os.mkdir(w + "/install")
            shutil.copytree(self.sim.install + "/lib", w + "/install/lib")
            shutil.copytree(self.sim.install + "/init", w + "/install/init")
            put(w + "/install/lib/" + case["lib"], b)
            put(w + "/p.clara", 'fn main() {\n    println("x")\n}\n')
            args[1] = w + "/install"
        else:
            put(w + "/p.clara", b)
        R = self.sim.run(dict(case["spec"], Mode="cli", Args=args), w)
        left = os.listdir(w + "/tmp")
        exe = os.path.exists(w + "/out/p")
        self.drop(w)
        return R, left, exe

    def judge(self, case, res):
        R, left, exe = res
        t = self.panic_text(R)
        if t:
            return "%s (source damaged: %s)" % (t, case["how"])
        if left:
            return "temporary files are left behind: %s" % left
        if R.code == 1:
            if not R.out.replace("Errors", "").strip(" \n-"):
                return "a damaged source is rejected without a message (%s)" % case["how"]
            if exe:
                return "an executable was written though the source is rejected (%s)" % case["how"]
        elif not exe:
            return "success without an executable (%s)" % case["how"]
        return None

    def case(self, i, seed, stats):
        rng = random.Random("%s/%d/%d" % (self.id, seed, i))
        new, old = self.program(rng, i), self.program(rng, i + 1)
        for k in range(self.runs):
            lib = None
            src, other = new, old
            if LIBS and k % 5 == 4:
                fs = [os.path.basename(f) for f in self.sim.lib()]
                lib = rng.choice(fs)
                src = get(os.path.join(self.sim.install, "lib", lib))
                other = get(os.path.join(self.sim.install, "lib", rng.choice(fs)))
            how, b = damage(rng, src, other)
            case = {"text": b.hex(), "how": how, "lib": lib, "spec": {"Seed": 1, "MapSeed": rng.getrandbits(40), "Rates": {"yield": rng.choice([0, 200])}, "Rare": rng.choice([0, 200000])}}
            res = self.run1(case)
            R = res[0]
            self.account(stats, R)
            stats.add("fault." + how)
            stats.add("accepted" if R.code == 0 else "rejected")
            stats.seen("nontrivial", R.hash)
            if k == 0 and i < 16:
                stats.sample("case %d: %s, %d of %d bytes -> exit %d" % (i, how, len(b), len(src), R.code))
            m = self.judge(case, res)
            if m:
                return Violation(m, case)
            self.recheck(stats, k, R, lambda: self.run1(case)[0])
        return None

    def confirm(self, case):
        return self.judge(case, self.run1(case))

    def minimise(self, case, deadline):
        case = json.loads(json.dumps(case))
        c = dict(case, spec=dict(case["spec"], Rates={}, Rare=0))
        if self.confirm(c):
            case = c
        if case["lib"]:
            return case
        b = bytes.fromhex(case["text"]).split(b"\n")
        step = max(1, len(b) // 2)
        while step and time.time() < deadline:
            a = 0
            while a < len(b) and time.time() < deadline:
                c = dict(case, text=b"\n".join(b[:a] + b[a + step:]).hex())
                if self.confirm(c):
                    case = c
                    b = b[:a] + b[a + step:]
                else:
                    a += step
            step //= 2
        return case

    def describe(self, case):
        return "%s %s:\n%s" % (case["lib"] or "program", case["how"], bytes.fromhex(case["text"]).decode(errors="replace")[-1500:])
