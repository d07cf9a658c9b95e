"""Core of the runtime simulator: builds the real compiler from /repo's working tree, compiles Clara programs with it,
links them against simrt (the simulated heap, files, clock, process arguments and collector schedule) and runs
simulated executions of them."""
import ctypes, os, sys, subprocess, shutil, tempfile, json, time, hashlib, atexit, signal

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("CLARA_REPO", "/repo")

WRAPS = ["main", "malloc", "calloc", "realloc", "free", "printf", "exit", "open", "open64", "close", "read", "pread", "pread64",
         "lseek", "lseek64", "fstat", "gettimeofday", "clock_gettime", "time"]


_libc = ctypes.CDLL(None)


class Broken(Exception):
    """The check itself cannot run (build trouble, watchdog): an error exit, never a verdict."""


def goenv():
    e = dict(os.environ)
    e["PATH"] = "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:" + e.get("PATH", "")
    e.setdefault("HOME", "/root")
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off")
    e.pop("GOOS", None)
    e.pop("GOARCH", None)
    return e


_scratch = []


def scratch():
    d = tempfile.mkdtemp(prefix="claraverif-")
    _scratch.append((os.getpid(), d))
    return d


def _cleanup():
    for pid, d in _scratch:
        if pid == os.getpid():
            shutil.rmtree(d, ignore_errors=True)


atexit.register(_cleanup)


def _sig(n, f):
    _cleanup()
    os._exit(3)


def install_signal_cleanup():
    signal.signal(signal.SIGTERM, _sig)
    signal.signal(signal.SIGINT, _sig)


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


SHIM = r'''#!/bin/bash
# Stands in for gcc when the compiler links a program: same inputs, plus the simulator.
args=()
gate=()
work=$(mktemp -d "${SIM_TMP:-/tmp}/ln.XXXXXX")
trap 'rm -rf "$work"' EXIT
for a in "$@"; do
  case "$a" in
    *.S|*.s)
      if grep -q '^clara_gc:' "$a"; then
        sed 's/^\([[:space:]]*call[[:space:]]\+\)clara_gc[[:space:]]*$/\1sim_gc_gate/' "$a" > "$work/p.S"
        args+=("$work/p.S"); gate=("@SIM@/gate.o")
      else
        args+=("$a")
      fi;;
    *.c)
      o="@SIM@/$(basename "$a").o"
      if [ -f "$o" ]; then args+=("$o"); else args+=("$a"); fi;;
    *) args+=("$a");;
  esac
done
@GCC@ -Wl,--no-warn-execstack @WRAPS@ "${args[@]}" "@SIM@/simrt.o" "${gate[@]}"
'''


class Build:
    """One build of the compiler from the working tree, with the simulator's objects. Lives in a scratch directory."""

    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.dir = scratch()
        self.sim = os.path.join(self.dir, "sim")
        os.mkdir(self.sim)
        self.bin = os.path.join(self.dir, "shim")
        os.mkdir(self.bin)
        self.clarac = os.path.join(self.dir, "clarac")
        env = goenv()
        self.gcc = shutil.which("gcc", path=env["PATH"])
        if not self.gcc:
            raise Broken("no gcc")
        r = sh(["go", "build", "-o", self.clarac, "."], cwd=self.repo, env=env)
        if r.returncode != 0:
            raise Broken("go build failed:\n" + r.stdout.decode(errors="replace"))
        r = sh([self.gcc, "-O2", "-c", "-o", self.sim + "/simrt.o", VERIF + "/simrt/simrt.c"])
        if r.returncode != 0:
            raise Broken("simrt: " + r.stdout.decode(errors="replace"))
        r = sh([self.gcc, "-DSIM_GC_TARGET=clara_gc", "-c", "-o", self.sim + "/gate.o", VERIF + "/simrt/gate.S"])
        if r.returncode != 0:
            raise Broken("gate: " + r.stdout.decode(errors="replace"))
        # the C half of the runtime, exactly as the working tree has it
        initd = os.path.join(self.repo, "install", "init")
        for f in sorted(os.listdir(initd)):
            if f.endswith(".c"):
                r = sh([self.gcc, "-fno-pie", "-w", "-c", "-o", "%s/%s.o" % (self.sim, f), os.path.join(initd, f)])
                if r.returncode != 0:
                    raise Broken("runtime C file does not compile: " + r.stdout.decode(errors="replace"))
        shim = SHIM.replace("@SIM@", self.sim).replace("@GCC@", self.gcc).replace(
            "@WRAPS@", " ".join("-Wl,--wrap=" + w for w in WRAPS))
        with open(self.bin + "/gcc", "w") as f:
            f.write(shim)
        os.chmod(self.bin + "/gcc", 0o755)

    def compile(self, src, name="p", sim=True, timeout=120, install=None, tmp=None):
        """Compile a Clara source text with the real compiler. Returns (binary path or None, compiler output)."""
        d = tempfile.mkdtemp(dir=self.dir)
        p = os.path.join(d, name + ".clara")
        with open(p, "wb") as f:
            f.write(src if isinstance(src, bytes) else src.encode("utf-8", "surrogateescape"))
        env = goenv()
        env["TMPDIR"] = tmp or d
        env["SIM_TMP"] = d
        if sim:
            env["PATH"] = self.bin + ":" + env["PATH"]
        try:
            r = sh([self.clarac, "-install", install or os.path.join(self.repo, "install"), "-prog", p, "-out", d], cwd=d, env=env,
                   timeout=timeout)
        except subprocess.TimeoutExpired:
            return None, "compiler did not terminate within %d s" % timeout
        out = r.stdout.decode(errors="replace")
        b = os.path.join(d, name)
        if r.returncode != 0 or not os.path.exists(b):
            return None, "exit %d\n%s" % (r.returncode, out)
        return b, out

    def discard(self, binary):
        shutil.rmtree(os.path.dirname(binary), ignore_errors=True)


class Result:
    __slots__ = ("status", "code", "f", "kinds", "devs", "notes", "syslog", "out", "err", "bad", "crash", "exited")

    def key(self):
        """What must be identical when the same specification is run again."""
        return (self.status, self.code, self.f["evhash"], self.f["schedhash"], self.out, self.err, self.bad,
                self.crash[1] if self.crash else None)


class Prog:
    """A compiled program inside the simulator."""

    def __init__(self, binary):
        self.binary = binary
        cr, cw = os.pipe()
        rr, rw = os.pipe()

        def pre():
            # one address space layout for every run: stale words on the stack are then the same too
            try:
                _libc.personality(0x0040000)
            except Exception:
                pass
            # keep clear of the target numbers before duplicating
            import fcntl
            a = fcntl.fcntl(cr, fcntl.F_DUPFD, 300)
            b = fcntl.fcntl(rw, fcntl.F_DUPFD, 300)
            os.dup2(a, 198)
            os.dup2(b, 199)
            for fd in (a, b):
                os.close(fd)

        self.p = subprocess.Popen([binary], preexec_fn=pre, close_fds=False, stdin=subprocess.DEVNULL,
                                  env={"PATH": "/usr/bin:/bin"}, cwd="/")
        os.close(cr)
        os.close(rw)
        self.w = os.fdopen(cw, "wb")
        self.r = os.fdopen(rr, "rb")

    def run(self, spec):
        self.w.write(encode(spec))
        self.w.flush()
        R = Result()
        R.f, R.kinds, R.devs, R.notes = {}, {}, [], []
        R.bad = R.crash = R.exited = None
        R.status = None
        while True:
            line = self.r.readline()
            if not line:
                raise Broken("simulator server died (%s)" % self.binary)
            t = line.decode(errors="replace").split()
            if not t:
                continue
            k = t[0]
            if k == "status":
                R.status, R.code = t[1], int(t[2])
            elif k == "bad":
                R.bad = " ".join(t[2:])
                if t[1] == "2":
                    raise Broken(R.bad)
            elif k == "crash":
                R.crash = (int(t[1]), " ".join(t[2:]))
            elif k == "exited":
                R.exited = int(t[1])
            elif k == "kind":
                R.kinds[t[1]] = (int(t[2]), int(t[3]))
            elif k == "d":
                R.devs.append((t[1], int(t[2]), int(t[3])))
            elif k == "notes":
                R.notes = [int(x) for x in t[1:]]
            elif k == "syslog":
                R.syslog = self.r.read(int(t[1])).decode(errors="replace")
            elif k == "out":
                R.out = self.r.read(int(t[1]))
            elif k == "err":
                R.err = self.r.read(int(t[1]))
            elif k == "done":
                break
            elif k in ("evhash", "schedhash"):
                R.f[k] = t[1]
            else:
                R.f[k] = int(t[1])
        return R

    def close(self):
        try:
            self.w.close()
            self.r.close()
        except Exception:
            pass
        self.p.wait()


def _hex(b):
    return (b if isinstance(b, bytes) else b.encode("latin-1")).hex()


def encode(spec):
    L = ["seed %d" % spec.get("seed", 0)]
    for k in ("page", "quarantine", "cap", "cpu", "clock", "stackkb"):
        if spec.get(k):
            L.append("%s %d" % (k, spec[k]))
    if "poison" in spec:
        L.append("poison %x" % spec["poison"])
    for k, v in sorted(spec.get("rates", {}).items()):
        L.append("rate %s %d" % (k, v))
    if spec.get("devs") is not None:
        L.append("explicit 1")
        for d in spec["devs"]:
            L.append("dev %s %d %d" % tuple(d))
    for a in spec.get("args", ["prog"]):
        L.append("arg " + _hex(a))
    for a in spec.get("env", []):
        L.append("env " + _hex(a))
    for p, c in spec.get("files", []):
        L.append("file %s %s" % (_hex(p), _hex(c)))
        if spec.get("holes", {}).get(p):
            L.append("hole %d" % spec["holes"][p])
    if spec.get("ops"):
        ops = spec["ops"]
        for i in range(0, len(ops), 500):
            L.append("ops " + " ".join(map(str, ops[i:i + 500])))
    L.append("go")
    return ("\n".join(L) + "\n").encode()


POISONS = [0xDEADBEEFDEADBEE0, 0x0101010101010101, 0, 0xFFFFFFFFFFFFFFFF, 0x4141414141414141, 0x8, 0x7FF0]


def swarm(rng, **fixed):
    """A random configuration of the simulated environment (swarm style: each run enables a different subset)."""
    s = {"seed": rng.getrandbits(60)}
    s["page"] = 1 if rng.random() < 0.5 else 0
    s["quarantine"] = 1 if rng.random() < 0.3 else 0
    s["poison"] = rng.choice(POISONS)
    r = {}
    if rng.random() < 0.6:
        r["gcskip"] = rng.choice([20, 100, 300, 600, 900, 990])
    if rng.random() < 0.8:
        r["place"] = rng.choice([50, 300, 700, 1000])
    if rng.random() < 0.4:
        r["errno"] = rng.choice([50, 500])
    if rng.random() < 0.7:
        r["pick"] = rng.choice([50, 200, 500])
    s["rates"] = r
    s.update(fixed)
    return s
