"""C11: a program sees exactly the arguments and environment it was started with."""
import random
from simlib import core
from simlib.harness import OpsCheck

SOURCE = '''
#[RawValues]
fn simOp(n: int) int
#[RawValues]
fn simPick(n: int) int
fn churn(n: int) int {
    m := simPick(4)
    for i in 0 .. m {
        "c".append("hurn")
    }
    return 0
}
fn bytesOf(s: string) {
    printf("%d", s.length)
    for i in 0 .. s.length {
        printf(" %d", s.byte(i) & 0xff)
    }
    println("")
}
fn main() {
    r := getRuntime()
    println(r.args.length)
    for a in r.args {
        churn(1)
        bytesOf(a)
    }
    println(r.env.size)
    r.env.foreach(fn(k: string, v: string) {
        churn(1)
        bytesOf(k)
        bytesOf(v)
    })
    // look every name up again, through a string built here
    r.env.foreach(fn(k: string, v: string) {
        q := k.append("")
        churn(2)
        match getRuntime().env.get(q) {
            case Some(w):
                println(w.Equals(v))
            case None():
                println("lost")
        }
    })
    println(r.env.contains("NO_SUCH_NAME".append("_SET")))
    println("done")
}
'''


class CHECK(OpsCheck):
    id = "C11"
    source = SOURCE
    quick, thorough = 800, 40000
    runs = 40
    recheck = 20
    rule = "a run counts when there was at least one argument and one environment entry (distinct by arguments, environment and event hash)"
    stub = ["heap behind calloc/free", "schedule of the collector", "argv and environment"]

    def word(self, rng, mx=40, first=None):
        n = rng.choice([0, 1, 2, 7, 8, 9, 15, 16, 17, 31, 33, rng.randrange(mx + 1)])
        al = rng.choice(["ab", "abcdefghijklmnopqrstuvwxyz0123456789-_=/ ", "".join(map(chr, range(1, 256)))])
        return "".join(rng.choice(al) for _ in range(n))

    def spec(self, i, k, rng, meta):
        s = core.swarm(rng)
        args = ["prog"]
        for _ in range(rng.choice([0, 1, 2, 3, 8, 20])):
            w = self.word(rng, 60)
            if rng.random() < 0.3:
                w = rng.choice(["-x", "--", "-", "--verbose", "--file=x", "-abc", "---", "--=", "-h", "-o", "name", "=", "--no-such-option", "-1"])
            if w.startswith("-"):
                w = w.replace("g", "q")      # -g and --gc.debug are the runtime's own switches
            args.append(w)
        if rng.random() < 0.1:
            args.append("L" * rng.choice([500, 3000]))
        env, names = [], set()
        for _ in range(rng.choice([0, 1, 2, 5, 11, 12, 13, 30])):
            n = self.word(rng, 20).replace("=", "_")
            if n in names or n == "":
                continue
            names.add(n)
            env.append(n + "=" + self.word(rng, 60) if rng.random() < 0.95 else n)
        s["args"], s["env"] = args, env
        s["hist"] = []
        s["ops"] = []
        return s

    def nontrivial(self, meta, spec, R):
        return R.f["evhash"] + str(hash((tuple(spec["args"]), tuple(spec["env"])))) if len(spec["args"]) > 1 and spec["env"] else None

    def minimise_more(self, case, P, deadline):
        from simlib.harness import ddmin
        for f, keep in (("args", 1), ("env", 0)):
            def fails(x):
                s = dict(case["spec"])
                s[f] = case["spec"][f][:keep] + x
                return bool(self.evaluate(case["meta"], s, P)[1])
            r = ddmin(case["spec"][f][keep:], fails, deadline)
            if fails(r):
                case["spec"][f] = case["spec"][f][:keep] + r
        return case

    def judge_ops(self, hist, spec, R):
        t = self.crash_text(R)
        if t:
            return t
        if R.code != 0:
            return "exit code %d, output ends %r" % (R.code, R.out[-200:])

        def enc(w):
            return "%d%s" % (len(w), "".join(" %d" % ord(c) for c in w))

        L = R.out.decode("latin-1").split("\n")
        a = spec["args"]
        exp = [str(len(a))] + [enc(x) for x in a]
        if L[:len(exp)] != exp:
            n = next(j for j in range(len(exp)) if j >= len(L) or L[j] != exp[j])
            return "argument %d is %r, it was given as %r (%d arguments)" % (n - 1, L[n] if n < len(L) else None, exp[n], len(a))
        L = L[len(exp):]
        e = dict((x.split("=", 1) + [""])[:2] for x in spec["env"])
        if L[0] != str(len(e)):
            return "environment has %s entries, %d were given" % (L[0], len(e))
        pairs = sorted((L[1 + 2 * j], L[2 + 2 * j]) for j in range(len(e)))
        if pairs != sorted((enc(k), enc(v)) for k, v in e.items()):
            want = set((enc(k), enc(v)) for k, v in e.items())
            return "environment differs: unexpected %r" % (sorted(set(pairs) - want)[:2],)
        L = L[1 + 2 * len(e):]
        if L != ["true"] * len(e) + ["false", "done", ""]:
            return "looking names up again gave %r" % (L[:len(e) + 2],)
        return None
