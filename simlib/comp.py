"""Core of the compiler simulator: the compiler's real sources, with a yield point before every statement, built with a Go
runtime whose randomness is seeded and whose system calls go through the simulator (see simgo/)."""
import hashlib, json, os, re, resource, shutil, signal, subprocess, tempfile
from . import core, harness
from .core import Broken, sh, goenv

SIMGO = os.path.join(core.VERIF, "simgo")


def _patch(text, old, new, what):
    if text.count(old) != 1:
        raise Broken("cannot patch %s: %r found %d times" % (what, old, text.count(old)))
    return text.replace(old, new)


RAND = '''
// Simulator: seeded streams for every random choice of the process (apart: what threads of the runtime draw must not
// shift what the program draws).
var simOn bool
var simState, simState1, simState2, simState3 uint64

func simInit() {
	for i := int32(0); ; i++ {
		p := argv_index(argv, argc+1+i)
		if p == nil {
			return
		}
		s := gostringnocopy(p)
		if len(s) > 9 && s[:9] == "SIM_SEED=" {
			v := uint64(0)
			for _, c := range s[9:] {
				v = v*10 + uint64(c-'0')
			}
			simState, simState1, simState2, simState3 = v, v+1, v+2, v+3
			simOn = true
			return
		}
	}
}

//go:nosplit
func simRand(s *uint64) uint64 {
	*s += 0x9e3779b97f4a7c15
	x := *s
	x ^= x >> 30
	x *= 0xbf58476d1ce4e5b9
	x ^= x >> 27
	x *= 0x94d049bb133111eb
	x ^= x >> 31
	return x
}
'''

SYSC = '''package syscall

// SimExit, when set, is told about the end of the process.
var SimExit func(code int)

// SimHook, when set, decides what a system call does.
var SimHook func(op int, path string, fd int, flags int, p []byte) (n int, err error, done bool)

func simJoin(a []string) (b []byte) {
	for _, s := range a {
		b = append(append(b, s...), 0)
	}
	return b
}

const (
	SimOpen = iota
	SimRead
	SimWrite
	SimClose
	SimUnlink
	SimPipe
	SimExec
	SimStat
	SimDir
)
'''


def overlay(d):
    """Write the patched standard library files into d; returns the overlay file."""
    root = subprocess.check_output(["go", "env", "GOROOT"], env=goenv()).decode().strip() + "/src/"
    rep = {}

    def put(name, text):
        p = os.path.join(d, name.replace("/", "_"))
        with open(p, "w") as f:
            f.write(text)
        rep[root + name] = p

    def get(name):
        with open(root + name) as f:
            return f.read()

    t = get("runtime/proc.go")
    t = _patch(t, 'const haveSysmon = GOARCH != "wasm"', "const haveSysmon = false", "runtime/proc.go")
    put("runtime/proc.go", t)
    t = get("runtime/rand.go")
    t = _patch(t, "func randinit() {\n", "func randinit() {\n\tsimInit()\n", "runtime/rand.go")
    for f, r in (("bootstrapRand() uint64", "simRand(&simState1)"), ("rand() uint64", "simRand(&simState)"),
                 ("cheaprand() uint32", "uint32(simRand(&simState2))"), ("cheaprand64() int64", "int64(simRand(&simState3) >> 1)")):
        t = _patch(t, "func %s {\n" % f, "func %s {\n\tif simOn {\n\t\treturn %s\n\t}\n" % (f, r), "runtime/rand.go")
    put("runtime/rand.go", t + RAND)
    t = get("syscall/zsyscall_linux_amd64.go")
    for f, call, ret in (
            (r"func openat\(dirfd int, path string, flags int, mode uint32\) \(fd int, err error\) \{\n", "SimOpen, path, dirfd, flags, nil", "n, e"),
            (r"func read\(fd int, p \[\]byte\) \(n int, err error\) \{\n", "SimRead, \"\", fd, 0, p", "n, e"),
            (r"func write\(fd int, p \[\]byte\) \(n int, err error\) \{\n", "SimWrite, \"\", fd, 0, p", "n, e"),
            (r"func Close\(fd int\) \(err error\) \{\n", "SimClose, \"\", fd, 0, nil", "e"),
            (r"func unlinkat\(dirfd int, path string, flags int\) \(err error\) \{\n", "SimUnlink, path, dirfd, flags, nil", "e"),
            (r"func pipe2\(p \*\[2\]_C_int, flags int\) \(err error\) \{\n", "SimPipe, \"\", 0, flags, nil", "e"),
            (r"func fstatat\(fd int, path string, stat \*Stat_t, flags int\) \(err error\) \{\n", "SimStat, path, fd, flags, nil", "e"),
            (r"func Getdents\(fd int, buf \[\]byte\) \(n int, err error\) \{\n", "SimDir, \"\", fd, 0, buf", "n, e")):
        m = re.findall(f, t)
        if len(m) != 1:
            raise Broken("cannot patch syscall: " + f)
        t = t.replace(m[0], m[0] + "\tif SimHook != nil {\n\t\tif n, e, done := SimHook(%s); done {\n\t\t\t_ = n\n\t\t\treturn %s\n\t\t}\n\t}\n" % (call, ret))
    put("syscall/zsyscall_linux_amd64.go", t)
    t = get("syscall/exec_unix.go")
    h = "func forkExec(argv0 string, argv []string, attr *ProcAttr) (pid int, err error) {\n"
    t = _patch(t, h, h + "\tif SimHook != nil {\n\t\tif n, e, done := SimHook(SimExec, argv0, 0, 0, simJoin(argv)); done {\n\t\t\treturn n, e\n\t\t}\n\t}\n", "syscall/exec_unix.go")
    put("syscall/exec_unix.go", t)
    put("syscall/zz_sim.go", SYSC)
    t = get("os/proc.go")
    t = _patch(t, "func Exit(code int) {\n", "func Exit(code int) {\n\tif syscall.SimExit != nil {\n\t\tsyscall.SimExit(code)\n\t}\n", "os/proc.go")
    put("os/proc.go", t)
    t = get("os/exec.go")
    # who reads the child's output has to do so before this process waits for the child: there is no second thread
    t = _patch(t, "func (p *Process) Wait() (*ProcessState, error) {\n", "func (p *Process) Wait() (*ProcessState, error) {\n\tfor i := 0; i < 8; i++ {\n\t\truntime.Gosched()\n\t}\n", "os/exec.go")
    if '"runtime"' not in t:
        t = _patch(t, "import (\n", "import (\n\t\"runtime\"\n", "os/exec.go")
    put("os/exec.go", t)
    p = os.path.join(d, "overlay.json")
    with open(p, "w") as f:
        json.dump({"Replace": rep}, f)
    return p


class Run:
    """What one simulated run of the compiler process did."""
    __slots__ = ("code", "out", "log", "devs", "kinds", "results", "leaked", "crashed", "timeout", "events", "hash", "gcc")


class CompSim:
    def __init__(self, build=None):
        self.build = build or core.Build()
        self.dir = core.scratch()
        d = os.path.join(self.dir, "src")
        ov = os.path.join(self.dir, "overlay")
        os.mkdir(ov)
        env = goenv()
        env["CGO_ENABLED"] = "0"
        tool = os.path.join(self.dir, "instrument")
        r = sh(["go", "build", "-o", tool, os.path.join(SIMGO, "instrument.go")], cwd=SIMGO, env=dict(env, GO111MODULE="off", GOFLAGS=""))
        if r.returncode:
            raise Broken("instrument: " + r.stdout.decode(errors="replace"))
        r = sh([tool, self.build.repo, d], env=env)
        if r.returncode:
            raise Broken("instrument: " + r.stdout.decode(errors="replace"))
        with open(os.path.join(d, "go.mod")) as f:
            mod = re.search(r"^module\s+(\S+)", f.read(), re.M).group(1)
        os.mkdir(os.path.join(d, "zzsimhook"))
        shutil.copy(os.path.join(SIMGO, "zzsimhook.go.txt"), os.path.join(d, "zzsimhook", "sim.go"))
        with open(os.path.join(SIMGO, "zz_sim_main.go.txt")) as f:
            t = f.read().replace("MODULE", mod)
        with open(os.path.join(d, "zz_sim_main.go"), "w") as f:
            f.write(t)
        self.exe = os.path.join(self.dir, "simclarac")
        r = sh(["go", "build", "-overlay", overlay(ov), "-o", self.exe, "."], cwd=d, env=env)
        if r.returncode:
            raise Broken("building the simulated compiler: " + r.stdout.decode(errors="replace"))
        self.bin = os.path.join(self.dir, "bin")
        os.mkdir(self.bin)
        r = sh([self.build.gcc, "-O1", "-w", "-o", os.path.join(self.bin, "gcc"), os.path.join(SIMGO, "gccstub.c")])
        if r.returncode:
            raise Broken("gccstub: " + r.stdout.decode(errors="replace"))
        self.install = os.path.join(self.build.repo, "install")
        self._verdict = {}

    def workdir(self):
        return tempfile.mkdtemp(dir=self.dir)

    def lib(self):
        d = os.path.join(self.install, "lib")
        return sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith(".clara"))

    def clib(self):
        d = os.path.join(self.install, "init")
        return sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith(".c"))

    def run(self, spec, work, timeout=20):
        """Run one specification; `work` is its directory (TMPDIR is work/tmp)."""
        s = dict(spec)
        tmp = os.path.join(work, "tmp")
        os.makedirs(tmp, exist_ok=True)
        s["Log"] = os.path.join(work, ".log")
        s["Plan"] = os.path.join(work, ".plan")
        for f in os.listdir(work):
            if f.startswith(".log") or f.startswith(".plan"):
                os.unlink(os.path.join(work, f))
        s["Scope"] = [work + "/", self.install]
        s["Expl"] = s.get("Devs") is not None
        sp = os.path.join(work, ".spec")
        with open(sp, "w") as f:
            json.dump(s, f)
        env = {"SIM_SPEC": sp, "SIM_SEED": str(s.get("MapSeed", s["Seed"])), "GOMAXPROCS": "1", "GODEBUG": "asyncpreemptoff=1", "TMPDIR": tmp,
               "PATH": s.get("Path", self.bin), "HOME": work, "SIM_GCC_PLAN": s["Plan"], "GOGC": "off", "USER": "root"}

        def pre():
            try:
                core._libc.personality(0x0040000)
            except Exception:
                pass
            resource.setrlimit(resource.RLIMIT_CPU, (timeout, timeout + 5))

        R = Run()
        R.timeout = False
        p = subprocess.Popen([self.exe], env=env, cwd=work, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                             preexec_fn=pre)
        try:
            o, _ = p.communicate(timeout=timeout * 3)
        except subprocess.TimeoutExpired:
            p.kill()
            o, _ = p.communicate()
            R.timeout = True
        R.code = p.returncode
        if R.code in (-signal.SIGXCPU,):
            R.timeout = True
        R.out = o.decode(errors="replace")
        R.devs, R.kinds, R.results, R.leaked, R.crashed, R.events = [], {}, {}, None, None, []
        try:
            with open(s["Log"], errors="replace") as f:
                R.log = f.read().replace(work, "$W")
        except FileNotFoundError:
            raise Broken("the simulated compiler did not start: " + R.out[-500:])
        for l in R.log.split("\n"):
            if l.startswith("D "):
                t = l.split()
                R.devs.append([t[1], int(t[2]), int(t[3])])
            elif l.startswith("K "):
                t = l.split()
                R.kinds[t[1]] = (int(t[2]), int(t[3]))
            elif l.startswith("R "):
                t = l.split(" ", 2)
                R.results[int(t[1])] = json.loads(t[2])
            elif l.startswith("G "):
                R.leaked = int(l.split()[1])
            elif l.startswith("CRASH "):
                R.crashed = l[6:]
            elif l.startswith("E "):
                R.events.append(l[2:])
        R.out = R.out.replace(work, "$W")
        try:
            R.gcc = os.path.getsize(s["Plan"] + ".ran")     # how often gcc was started
        except OSError:
            R.gcc = 0
        R.hash = hashlib.sha1((R.log + "\0" + R.out).encode()).hexdigest()
        return R

    # ------------------------------------------------------------------------------------------------------------
    def read_exe(self, path):
        """(C files, assembly text) of what the stand-in for gcc wrote, or None when it is not complete."""
        try:
            with open(path, "rb") as f:
                b = f.read()
        except FileNotFoundError:
            return None
        if not b.startswith(b"EXE ") or not b.endswith(b"\nEND\n"):
            return None
        head, body = b.split(b"\n", 1)
        return head.decode().split(" ")[2:], body[:-5]

    def behaviour(self, asm, cfiles, spec=None):
        """Link with the real gcc and run in the program simulator: (status, code, output), cached by content."""
        key = hashlib.sha1(asm + b"\0" + "\0".join(cfiles).encode() + json.dumps(spec, sort_keys=True).encode()).hexdigest()
        if key in self._verdict:
            return self._verdict[key]
        d = self.workdir()
        try:
            p = os.path.join(d, "p.S")
            with open(p, "wb") as f:
                f.write(asm)
            env = goenv()
            env["SIM_TMP"] = d
            r = sh([os.path.join(self.build.bin, "gcc"), "-fno-pie", "-no-pie", "-o", os.path.join(d, "p"), p] + list(cfiles), env=env)
            if r.returncode:
                v = ("link", r.returncode, r.stdout.decode(errors="replace")[-500:])
            else:
                P = core.Prog(os.path.join(d, "p"))
                R = P.run(spec or {"seed": 1})
                P.close()
                v = (R.status if not R.bad else "bad: " + R.bad, R.code, R.out.decode("latin-1"))
        finally:
            shutil.rmtree(d, ignore_errors=True)
        self._verdict[key] = v
        return v


# ----------------------------------------------------------------------------------------------------------------------
REAL = ["compiler (every package of /repo, compiled with yield points before each statement)", "Go runtime scheduler, channels and maps (randomness seeded)",
        "Go standard library above the system calls", "standard library sources (install/lib)"]
STUB = ["system calls of the compiler process (real files below a scratch directory, the simulator decides which calls fail, are short or never return)",
        "gcc (stand-in which fails as planned; what it was given is linked by the real gcc and run in the program simulator to judge it)"]


class CompCheck(harness.Check):
    """Checks which run the compiler inside the compiler simulator."""
    real, stub = REAL, STUB
    assumptions = ["goroutines switch at statement boundaries and channel operations only", "the stand-in for gcc fails and succeeds like gcc does",
                   "the operating system below the simulated calls is reliable"]

    def setup(self):
        self.build = core.Build()
        self.sim = CompSim(self.build)
        self._work = None

    def account(self, stats, R):
        stats.add("runs")
        for k, (fired, asked) in R.kinds.items():
            stats.add("fault." + k, fired)
            stats.add("asked." + k, asked)
            stats.add("sim.decision_points", asked)
        stats.seen("executions", R.hash)
        stats.seen("schedules", hashlib.sha1(repr((R.devs, sorted(R.kinds.items()), R.events)).encode()).hexdigest())

    def recheck(self, stats, k, R, again):
        """Every 8th run is executed twice: one specification must be one execution."""
        if k % 8 == 0:
            stats.add("rechecked")
            if again().hash != R.hash:
                stats.add("recheck_differences")

    def panic_text(self, R):
        if R.timeout:
            return "the compiler did not come to an end"
        if R.code < 0 and not R.crashed:
            return "the compiler was killed by signal %d: %s" % (-R.code, R.out[-300:])
        if R.code not in (0, 1) and R.code >= 0:
            return "the compiler crashed (exit code %d): %s" % (R.code, R.out[:400])
        return None

    def fresh(self):
        w = self.sim.workdir()
        os.mkdir(os.path.join(w, "out"))
        return w

    def drop(self, w):
        shutil.rmtree(w, ignore_errors=True)

    def cli(self, w, name="p"):
        return ["-install", self.sim.install, "-prog", os.path.join(w, name + ".clara"), "-out", os.path.join(w, "out")]


def put(path, data):
    with open(path, "wb") as f:
        f.write(data if isinstance(data, bytes) else data.encode("utf-8", "surrogateescape"))


def get(path):
    try:
        with open(path, "rb") as f:
            return f.read()
    except FileNotFoundError:
        return None
