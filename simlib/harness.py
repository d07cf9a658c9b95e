"""Search driver: seeded cases spread over worker processes, violations confirmed and minimised, evidence written."""
import json, multiprocessing, os, random, sys, time, traceback, hashlib
from . import core
from .core import Broken

REPLAYS = os.path.join(core.VERIF, "replays")


class Violation(object):
    """A property violation. `case` is everything a replay needs (JSON)."""

    def __init__(self, msg, case):
        self.msg, self.case = msg, case


class Stats(object):
    """What the search covered; merged over the workers."""

    def __init__(self):
        self.n = {}        # plain counters
        self.sets = {}     # distinct values by measure
        self.mx = {}
        self.samples = []

    def add(self, k, v=1):
        self.n[k] = self.n.get(k, 0) + v

    def seen(self, k, v):
        s = self.sets.setdefault(k, set())
        if len(s) < 2000000:
            s.add(v)

    def max(self, k, v):
        self.mx[k] = max(self.mx.get(k, v), v)

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    def merge(self, o):
        for k, v in o.n.items():
            self.add(k, v)
        for k, v in o.sets.items():
            self.sets.setdefault(k, set()).update(v)
        for k, v in o.mx.items():
            self.max(k, v)
        for s in o.samples:
            self.sample(s)

    def result(self, R):
        """Account for one simulated run."""
        self.add("runs")
        for k, (fired, asked) in R.kinds.items():
            self.add("fault." + k, fired)
            self.add("asked." + k, asked)
        for k in ("nalloc", "nfree", "nfail", "ngc", "ngcskip", "nreuse", "nsys", "events"):
            self.add("sim." + k, R.f.get(k, 0))
        self.add("sim.time_us", R.f.get("simtime", 0))
        self.seen("schedules", R.f["schedhash"])
        self.seen("executions", R.f["evhash"])


class Check(object):
    id = None
    rule = ""
    assumptions = []
    real = ["compiler (cmd clarac, built from /repo's working tree)", "Clara runtime and standard library (install/lib)",
            "C half of the runtime (install/init)", "generated machine code, running natively", "gcc assembler and linker"]
    stub = ["heap behind calloc/free", "schedule of the collector", "files", "clock", "argv and environment"]
    quick = 64          # cases
    thorough = 2000
    quick_deadline = 240.0
    thorough_deadline = 3600.0
    workers = 8

    def setup(self):
        """Runs once, before the workers are forked."""
        self.build = core.Build()

    def case(self, i, seed, stats):
        """Run case i. Returns None or a Violation."""
        raise NotImplementedError

    def confirm(self, case):
        """Re-run a recorded case. Returns None or the message."""
        raise NotImplementedError

    def minimise(self, case, deadline):
        return case

    def describe(self, case):
        return None

    # -----------------------------------------------------------------------------------------------------------------
    def work(self, w, nxt, seed, total, stop, deadline, q):
        stats = Stats()
        viol = None
        done = 0
        try:
            while not stop.is_set() and time.time() < deadline:
                with nxt.get_lock():
                    i = nxt.value
                    nxt.value += 1
                if i >= total:
                    break
                v = self.case(i, seed, stats)
                done += 1
                if v is not None:
                    viol = (i, v.msg, v.case)
                    stop.set()
                    break
            self.finish_worker()
            q.put(("ok", w, stats, viol, done))
        except Broken as e:
            stop.set()
            q.put(("broken", w, str(e), None, done))
        except BaseException:
            stop.set()
            q.put(("broken", w, traceback.format_exc(), None, done))
        q.close()
        q.join_thread()
        os._exit(0)

    def finish_worker(self):
        pass

    def run(self, tier, seed):
        t0 = time.time()
        total = int(os.environ.get("VERIF_CASES") or (self.quick if tier == "quick" else self.thorough))
        limit = self.quick_deadline if tier == "quick" else self.thorough_deadline
        self.tier = tier
        self.setup()
        q = multiprocessing.Queue()
        stop = multiprocessing.Event()
        ps = []
        nw = min(self.workers, total)
        deadline = t0 + limit
        nxt = multiprocessing.Value("i", 0)
        for w in range(nw):
            p = multiprocessing.Process(target=self.work, args=(w, nxt, seed, total, stop, deadline, q))
            p.start()
            ps.append(p)
        stats = Stats()
        viols, broken, done = [], [], 0
        got = 0
        while got < nw:
            try:
                kind, w, s, v, d = q.get(timeout=limit + 300)
            except Exception:
                broken.append("a worker gave no answer")
                break
            got += 1
            done += d
            if kind == "broken":
                broken.append(s)
                continue
            stats.merge(s)
            if v:
                viols.append(v)
        for p in ps:
            p.join(10)
            if p.is_alive():
                p.kill()
        viols.sort()
        confirmed = None
        unconfirmed = 0
        for i, msg, case in viols:
            m = None
            for _ in range(3):
                m = self.confirm(case)
                if m:
                    break
            if not m:
                unconfirmed += 1
                print("note: case %d (%s) did not happen again when replayed" % (i, msg), file=sys.stderr)
                continue
            try:
                small = self.minimise(case, time.time() + (60 if tier == "quick" else 240))
                m2 = self.confirm(small)
                if m2:
                    case, m = small, m2
            except Broken:
                pass
            confirmed = (i, m, case)
            break
        path = None
        if confirmed:
            i, msg, case = confirmed
            os.makedirs(REPLAYS, exist_ok=True)
            path = os.path.join(REPLAYS, "%s-seed%d-case%d.json" % (self.id, seed, i))
            with open(path, "w") as f:
                json.dump({"property": self.id, "seed": seed, "case": i, "violation": msg, "replay": case}, f, indent=1)
        wall = time.time() - t0
        self.evidence(tier, seed, stats, done, total, wall, confirmed, unconfirmed)
        if confirmed:
            print("%s: %s" % (self.id, confirmed[1]))
            print("seed=%d case=%d" % (seed, confirmed[0]))
            print("VIOLATION property=%s replay=%s" % (self.id, path))
            return 1
        if broken:
            print("%s: the check could not run: %s" % (self.id, broken[0]), file=sys.stderr)
            return 2
        if viols and unconfirmed == len(viols):
            print("%s: %d unrepeatable observation(s)" % (self.id, unconfirmed), file=sys.stderr)
        print("%s: held on %d cases, %d simulated runs (%.1f s)" % (self.id, done, stats.n.get("runs", 0), wall))
        return 0

    def evidence(self, tier, seed, stats, done, total, wall, confirmed, unconfirmed):
        runs = stats.n.get("runs", 0)
        cov = {
            "evaluations": runs,
            "distinct_nontrivial": len(stats.sets.get("nontrivial", ())),
            "rule": self.rule,
            "samples": stats.samples or ["(no sample recorded)"],
            "cases": done, "cases_planned": total,
            "runs_per_hour": int(runs / wall * 3600) if wall > 0 else 0,
            "seeds_per_hour": int(done / wall * 3600) if wall > 0 else 0,
            "simulated_time_s": stats.n.get("sim.time_us", 0) / 1e6,
            "faults_injected": {k[6:]: v for k, v in sorted(stats.n.items()) if k.startswith("fault.")},
            "simulator": {k[4:]: v for k, v in sorted(stats.n.items()) if k.startswith("sim.")},
            "other": {k: v for k, v in sorted(stats.n.items()) if "." not in k and k != "runs"},
            "distinct": {k: len(v) for k, v in sorted(stats.sets.items())},
            "distinct_measure": "schedules: hash of every decision that was taken; executions: hash of the whole event sequence of a run",
            "maxima": stats.mx,
            "unrepeatable_observations": unconfirmed,
            "components_real": self.real, "components_stubbed": self.stub,
        }
        ev = {"property": self.id, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "wall_s": round(wall, 2),
              "assumptions": self.assumptions or ["the simulated environment behaves like the real one at its interface"],
              "violations": 1 if confirmed else 0}
        if confirmed:
            cov["violation"] = {"case": confirmed[0], "message": confirmed[1]}
        d = os.path.join(core.VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        tmp = os.path.join(d, ".%s.tmp" % self.id)
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1, default=str)
        os.replace(tmp, os.path.join(d, self.id + ".json"))


def ddmin(items, fails, deadline):
    """Smallest sublist (1-minimal unless out of time) for which fails() is true."""
    n = 2
    while len(items) >= 1 and time.time() < deadline:
        if len(items) == 1:
            if fails([]):
                return []
            return items
        chunk = max(1, len(items) // n)
        reduced = False
        i = 0
        while i < len(items) and time.time() < deadline:
            rest = items[:i] + items[i + chunk:]
            if fails(rest):
                items = rest
                n = max(n - 1, 2)
                reduced = True
                break
            i += chunk
        if not reduced:
            if chunk == 1:
                break
            n = min(len(items), n * 2)
    return items


class RtCheck(Check):
    """Checks which run compiled programs inside the runtime simulator.

    A case is one program (source + meta) and several simulated runs of it."""
    runs = 20
    hello_ok = None
    recheck = 8         # every n-th run is executed twice and both executions compared

    def program(self, i, rng):
        """Returns (source, meta)."""
        raise NotImplementedError

    def spec(self, i, k, rng, meta):
        return core.swarm(rng)

    def judge(self, meta, spec, R):
        raise NotImplementedError

    def nontrivial(self, meta, spec, R):
        """Key when this run exercised what the property is about, else None."""
        return (R.f["evhash"]) if R.f["ngc"] else None

    def crash_text(self, R):
        if R.bad:
            return R.bad
        if R.crash:
            return "signal %d: %s" % (R.crash[0], R.crash[1])
        if R.status == "signal":
            if R.code == 24:
                return "no progress: processor time limit exceeded"
            return "killed by signal %d" % R.code
        return None

    def prog(self, source):
        key = hashlib.sha1(source.encode("utf-8", "surrogateescape")).hexdigest()
        if getattr(self, "_pk", None) == key:
            return self._pp
        self.close_prog()
        b, out = self.build.compile(source)
        if b is None:
            h, hout = self.build.compile('fn main() {\n    println("hello")\n}\n')
            if h is None:
                raise Broken("the compiler does not compile anything: " + hout[-2000:])
            return None, out
        self._pk, self._pp, self._pb = key, (core.Prog(b), None), b
        return self._pp

    def close_prog(self):
        if getattr(self, "_pk", None):
            self._pp[0].close()
            self.build.discard(self._pb)
            self._pk = None

    def finish_worker(self):
        self.close_prog()

    def evaluate(self, meta, spec, P):
        R = P.run(spec)
        if R.f["nfail"] and spec.get("page") and not spec.get("cap") and not spec.get("rates", {}).get("oom") and not any(d[0] == "oom" for d in (spec.get("devs") or [])):
            # the simulator ran out of guarded pages, which is no fault of the program
            spec = dict(spec, page=0)
            R = P.run(spec)
        m = self.judge(meta, spec, R)
        if m and R.status == "signal" and R.code == 24:
            # a time limit is only believed when a much larger one is exceeded as well
            s2 = dict(spec)
            s2["cpu"] = 60
            R = P.run(s2)
            m = self.judge(meta, s2, R)
        return R, m

    def case(self, i, seed, stats):
        rng = random.Random("%s/%d/%d" % (self.id, seed, i))
        source, meta = self.program(i, rng)
        P, out = self.prog(source)
        stats.add("programs")
        if P is None:
            return Violation("a valid program does not compile: " + out[-600:], {"source": source, "meta": meta, "spec": None})
        for k in range(meta.get("runs", self.runs) if isinstance(meta, dict) else self.runs):
            spec = self.spec(i, k, rng, meta)
            R, m = self.evaluate(meta, spec, P)
            stats.result(R)
            key = self.nontrivial(meta, spec, R)
            if key is not None:
                stats.seen("nontrivial", key)
            if k == 0 and i < 16:
                stats.sample(self.show_sample(i, k, meta, spec, R))
            if self.recheck and k % self.recheck == 0:
                stats.add("rechecked")
                R2 = self.evaluate(meta, spec, P)[0]
                if R2.key() != R.key():
                    stats.add("recheck_differences")
            if m:
                return Violation(m, self.pack(source, meta, spec, R))
        return None

    def show_sample(self, i, k, meta, spec, R):
        return "case %d run %d: seed=%s page=%s rates=%s -> %s %d, %d allocations, %d collections (%d deferred), %d faults, %d bytes out" % (
            i, k, spec.get("seed"), spec.get("page"), json.dumps(spec.get("rates", {}), sort_keys=True), R.status, R.code,
            R.f["nalloc"], R.f["ngc"], R.f["ngcskip"], sum(a for a, _ in R.kinds.values()), len(R.out))

    def pack(self, source, meta, spec, R):
        s = dict(spec)
        if R.f["ndev"] < 60000:
            s["devs"] = R.devs
        return {"source": source, "meta": meta, "spec": s}

    def confirm(self, case):
        P, out = self.prog(case["source"])
        if P is None:
            return "a valid program does not compile: " + out[-600:]
        if case["spec"] is None:
            return None
        return self.evaluate(case["meta"], case["spec"], P)[1]

    def minimise(self, case, deadline):
        if case["spec"] is None or case["spec"].get("devs") is None:
            return case
        case = json.loads(json.dumps(case))
        P, out = self.prog(case["source"])

        def fails(devs):
            s = dict(case["spec"])
            s["devs"] = devs
            return bool(self.evaluate(case["meta"], s, P)[1])

        if not fails(case["spec"]["devs"]):
            return case
        case["spec"]["devs"] = ddmin(case["spec"]["devs"], fails, deadline)
        # simpler environment
        for k, v in (("quarantine", 0), ("page", 0), ("cap", 0)):
            if case["spec"].get(k) and time.time() < deadline:
                s = dict(case["spec"])
                s[k] = v
                if self.evaluate(case["meta"], s, P)[1]:
                    case["spec"] = s
        case = self.minimise_more(case, P, deadline)
        return case

    def minimise_more(self, case, P, deadline):
        return case

    def describe(self, case):
        if case["spec"] is None:
            return "compilation"
        return "environment decisions: %s" % (case["spec"].get("devs"),)


class OpsCheck(RtCheck):
    """A fixed interpreter program driven by a history of operations."""
    source = None

    def program(self, i, rng):
        return self.source, {}

    def judge(self, meta, spec, R):
        return self.judge_ops(spec["hist"], spec, R)

    def spec(self, i, k, rng, meta):
        s = core.swarm(rng)
        s["hist"] = self.history(i, k, rng)
        s["ops"] = self.flatten(s["hist"])
        return s

    def flatten(self, hist):
        return [x for op in hist for x in self.op_ints(op)]

    def op_ints(self, op):
        return op

    def pack(self, source, meta, spec, R):
        c = RtCheck.pack(self, source, meta, spec, R)
        return c

    def minimise_more(self, case, P, deadline):
        def with_hist(h):
            s = dict(case["spec"])
            s["hist"] = h
            s["ops"] = self.flatten(h)
            return s

        def fails(h):
            try:
                return bool(self.evaluate(case["meta"], with_hist(h), P)[1])
            except (KeyError, IndexError, ValueError):
                return False

        h = ddmin(case["spec"]["hist"], fails, deadline)
        if fails(h):
            case["spec"] = with_hist(h)
        return case

    def describe(self, case):
        return "history: %s; environment decisions: %s" % (case["spec"].get("hist"), case["spec"].get("devs"))
