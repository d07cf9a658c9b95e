"""C13: whatever the system does to its files and to gcc, the compiler produces the right executable or reports an error."""
import json, os, random, time
from simlib import gen
from simlib.comp import CompCheck, put, get
from simlib.harness import Violation, ddmin

OLD = b"#!/bin/sh\n# what an earlier compilation left here\necho old\n"
WEIGHTS = [("open", 5), ("read", 4), ("write", 6), ("close", 4), ("unlink", 2), ("pipe", 1), ("exec", 2), ("stat", 1), ("dir", 1), ("gcc", 5)]
TEXT = {"permission denied", "too many open files", "input/output error", "cannot allocate memory", "no such file", "no space left", "read-only file system",
        "is a directory", "stale", "quota", "too large", "resource temporarily unavailable", "exec format", "file exists", "bad", "interrupted"}
ODD = ["in[st", "in*", "i?st", "[a-z]", "in\\st", "in]st", "{in}", "in%st", "in$HOME", "-inst", "in\u00e9st", "in'st", "in\"st", "lib", "a;b", "~"]


def benign(e):
    """An event every correct program absorbs: a transfer that is short or interrupted, a name already taken."""
    return "(short)" in e or e.endswith("interrupted system call") or e.endswith("file exists") or e.startswith("unlink ") or e.endswith("gcc=6")


def failing(events):
    r = []
    for e in events:
        if "gcc=" in e:
            if not e.endswith("gcc=-1"):
                r.append(e)
        elif "(short)" in e or e.startswith("unlink ") and "->" in e:
            r.append(e)
        elif "->" in e and not e.rsplit("->", 1)[1].strip().lstrip("-").isdigit():
            r.append(e)
    return r


class CHECK(CompCheck):
    id = "C13"
    quick, thorough = 220, 9000
    runs = 9
    rule = "a run counts when at least one system call or gcc failed, was short or was interrupted (distinct by execution hash)"

    def program(self, rng, i):
        if i % 3 == 0:
            t = "".join(rng.choice("abcdefg ") for _ in range(rng.randrange(30)))
            return 'fn main() {\n    println("%s")\n}\n' % t, t + "\n"
        c, p, exp = gen.generate("io/%s/%d" % (rng.random(), i), 0.4)
        return c, exp.decode("latin-1")

    def run1(self, src, spec, old, odd=None):
        """One compilation; `odd` is an unusual name for the directory the compiler is installed in."""
        w = self.fresh()
        put(w + "/p.clara", src)
        if old:
            put(w + "/out/p", OLD)
            os.chmod(w + "/out/p", 0o755)
            os.utime(w + "/out/p", (3e9, 3e9) if spec["Seed"] % 2 else (1e9, 1e9))
        os.utime(w + "/p.clara", (2e9, 2e9))
        args = self.cli(w)
        if odd:
            os.symlink(self.sim.install, w + "/" + odd)
            args[1] = w + "/" + odd
        s = dict(spec, Mode="cli", Args=args)
        R = self.sim.run(s, w)
        left = os.listdir(w + "/tmp")
        outs = sorted(os.listdir(w + "/out"))
        exe = get(w + "/out/p")
        parsed = self.sim.read_exe(w + "/out/p")
        if odd and parsed:
            parsed = [f.replace(w + "/" + odd + "/", self.sim.install + "/") for f in parsed[0]], parsed[1]
        same = get(w + "/p.clara") == (src if isinstance(src, bytes) else src.encode("utf-8", "surrogateescape"))
        self.drop(w)
        return R, left, outs, exe, parsed, same

    def judge(self, case, res, baseasm=None):
        R, left, outs, exe, parsed, same = res
        t = self.panic_text(R)
        if t:
            return t
        faults = failing(R.events)
        why = "; ".join(e[:120] for e in faults[:4]) or "no fault"
        if not same:
            return "the compiler changed its input (%s)" % why
        if set(outs) - {"p"}:
            return "unexpected files beside the executable: %s (%s)" % (outs, why)
        gcc = R.gcc
        before = OLD if case["old"] else None
        if not gcc and exe != before:
            return "the executable changed though gcc was never started (%s)" % why
        if left and not any(e.startswith("unlink ") for e in faults):
            return "temporary files are left behind: %s (%s)" % (left, why)
        if R.code == 0:
            if parsed is None:
                return "success is reported but there is no complete executable (%s)" % why
            if any("gcc=" in e and not e.endswith("gcc=-1") and not e.endswith("gcc=6") for e in R.events):
                return "success is reported though gcc failed (%s)" % why
            if baseasm is not None and parsed[1] == baseasm[1] and parsed[0] == baseasm[0]:
                return None
            b = self.sim.behaviour(parsed[1], parsed[0])
            if b[0] != "exit" or b[1] != 0 or b[2] != case["expected"]:
                return "success is reported but the executable is wrong: %s (%s)" % (str(b)[:300], why)
            return None
        text = R.out.replace("Errors", "").strip(" \n-")
        if not text:
            return "failure without any message (%s)" % why
        if all(benign(e) for e in faults):
            return "the compilation fails though nothing prevents it: %s (%s)" % (text[:200], why)
        if len(faults) == 1 and not faults[0].startswith(("stat ", "getdents ")) and not (faults[0].startswith("open ") and faults[0].split(" ")[1].endswith(("/lib", "/init"))):
            f = faults[0]
            if "gcc=" in f:
                want = {"0": "simulated failure", "1": "internal compiler error", "2": "killed", "3": "undefined reference number 4999", "4": "No space left",
                        "5": "segmentation", "7": "killed"}.get(f.rsplit("=", 1)[1])
            else:
                want = f.rsplit("->", 1)[1].strip()
            if want and want.lower() not in R.out.lower():
                return "the message does not tell the cause (%s): %s" % (why, text[:200])
        return None

    def case(self, i, seed, stats):
        rng = random.Random("%s/%d/%d" % (self.id, seed, i))
        src, exp = self.program(rng, i)
        ms = rng.getrandbits(40)
        case = {"source": src, "expected": exp, "old": False, "spec": {"Seed": 1, "MapSeed": ms, "Devs": []}}
        res = self.run1(src, case["spec"], False)
        self.account(stats, res[0])
        m = self.judge(case, res)
        if m:
            return Violation(m, case)
        base, asm = res[0].kinds, res[4]
        if i % 4 == 1:
            case = dict(case, odd=rng.choice(ODD))
            res = self.run1(src, case["spec"], False, case["odd"])
            self.account(stats, res[0])
            stats.add("unusual install directory")
            m = self.judge(case, res, asm)
            if m:
                return Violation("installed in a directory called %s: %s" % (case["odd"], m), case)
        for k in range(self.runs):
            devs, frm = [], {}
            n = rng.choice([1, 1, 1, 1, 2, 3])
            for _ in range(n):
                kinds = [x for x, wt in WEIGHTS for _ in range(wt) if base.get(x, (0, 0))[1]]
                kd = rng.choice(kinds)
                cnt = base[kd][1]
                v = rng.randrange(64) if kd != "gcc" else rng.randrange(8)
                if rng.random() < 0.2:
                    # endless interruptions are no fault anything could absorb
                    ends = {"read": [0, 3, 24, 26, 27], "write": [0, 1, 2, 4, 41], "open": [0, 1, 2, 3, 4, 5], "gcc": range(8)}.get(kd, range(64))
                    frm[kd] = [rng.randrange(cnt), rng.choice(ends)]
                else:
                    idx = cnt - 1 - rng.randrange(min(cnt, 4)) if rng.random() < 0.25 else rng.randrange(cnt)
                    devs.append([kd, idx, v])
            spec = {"Seed": rng.getrandbits(40), "MapSeed": ms, "Devs": devs, "From": frm}
            case = {"source": src, "expected": exp, "old": rng.random() < 0.5, "spec": spec}
            res = self.run1(src, spec, case["old"])
            R = res[0]
            self.account(stats, R)
            if failing(R.events):
                stats.seen("nontrivial", R.hash)
            if k == 0 and i < 16:
                stats.sample("case %d: decisions %s from %s -> exit %d, %s" % (i, devs, frm, R.code, "; ".join(failing(R.events))[:200]))
            m = self.judge(case, res, asm)
            if m:
                return Violation(m, case)
            self.recheck(stats, k, R, lambda: self.run1(src, spec, case["old"])[0])
        return None

    def confirm(self, case):
        return self.judge(case, self.run1(case["source"], case["spec"], case["old"], case.get("odd")))

    def minimise(self, case, deadline):
        case = json.loads(json.dumps(case))

        def ok(c):
            return bool(self.confirm(c))

        devs = ddmin(case["spec"]["Devs"], lambda d: ok(dict(case, spec=dict(case["spec"], Devs=d))), deadline)
        c = dict(case, spec=dict(case["spec"], Devs=devs))
        if ok(c):
            case = c
        for f in list(case["spec"].get("From", {})):
            fr = {a: b for a, b in case["spec"]["From"].items() if a != f}
            c = dict(case, spec=dict(case["spec"], From=fr))
            if ok(c):
                case = c
        hello = dict(case, source='fn main() {\n    println("x")\n}\n', expected="x\n")
        if time.time() < deadline and ok(hello):
            case = hello
        return case

    def describe(self, case):
        if case.get("odd"):
            return "installed in a directory called %s" % case["odd"]
        return "faults: %s from %s" % (case["spec"]["Devs"], case["spec"].get("From"))
