"""C24: whatever text the compiler accepts runs soundly, and whatever it does not accept it rejects with errors."""
import random, re
from simlib import core, flow, gen, large, mutate
from simlib.harness import RtCheck, Violation, ddmin

TOK = re.compile(r'"(?:\\.|[^"\\])*"|\b\d+\b|[A-Za-z_][A-Za-z_0-9]*')
KEY = {"fn", "return", "if", "else", "elseif", "while", "for", "in", "match", "case", "struct", "enum", "and", "or", "not", "type"}
# Names of the library an edit may bring in: none of these gives access to raw memory
LIB = ["append", "toString", "reverse", "map", "filter", "find", "reduce", "orElse", "toList", "Some", "None", "Element", "Empty", "Pair", "Left", "Right", "Ok", "Err", "Bytes", "length",
       "first", "second", "isNone", "isSome", "peek", "then", "foreach", "remove", "Equals", "IndexOf", "Substring", "array", "intArray", "stringArray", "setElement", "mod", "println", "print", "fnv1a",
       "int", "string", "bool", "bytes", "option", "list", "pair", "either", "nothing", "true", "false", "0", "1", "-1", "\"\"", "NewHashMap", "put", "get", "contains", "toBinary"]
AROUND = ["(%s)", "-%s", "not %s", "%s.length", "%s[0]", "[%s]", "%s()", "%s(1)", "Some(%s)", "fn() int = %s", "true ? %s : %s", "%s + 1", "%s == %s", "%s.v", "%s.first", "Pair(%s, %s)", "[]%s", "option«%s»", "keep(%s)", "churn(%s)",
          "%s«int»", "fn(%s) %s", "fn(int) %s", "%s.f0", "%s.toString()", "array(3, %s)", "%s < 2", "Gbox(%s, 1)", "Gleaf(%s)", "hput(%s)", "rleaf(%s)", "list«%s»", "gbox«%s»", "%s, %s", "fn(q: int) { %s }", "%s.append(%s)", "%s = %s", "%s := %s"]
TROUBLE = re.compile(r"goroutine \d|panic:|\.S:\d|\.s:\d|ld returned|undefined reference|runtime error|did not terminate")


# Functions whose types are parameters: values of one are of no use as values of another
GENERICS = '''
struct gs2«A, B» {
    a: A
    b: B
    oa: option«A»
    fb: fn(A) B
}
enum ge2«A, B» {
    Gl2(x: A)
    Gr2(y: B)
    Gb2(x: A, y: B)
}
fn g1«A, B»(a: A, b: B, o: option«A», p: option«B») option«A» {
    x := o
    y := p
    match p {
        case Some(v): return x
        case None(): return Some(a)
    }
}
fn g2«A, B»(x: pair«A, B», y: pair«B, A») pair«A, B» {
    z := swap(y)
    w := Pair(x.first, z.second)
    churn(1)
    return i3(w, z)
}
fn g3«A, B»(f: fn(A) B, g: fn(B) A, a: A, b: B) A {
    r := g(f(a))
    q := f(g(b))
    h := fn(u: A) A = g(q)
    churn(1)
    return h(r)
}
fn g4«A, B»(a: []A, b: []B, i: int) []B {
    c := array(2, b[i])
    d := [a[0], a[i]]
    d[0] = a[i]
    c[i] = b[0]
    for e in b {
        c[0] = e
    }
    return c
}
fn g5«A, B»(e: ge2«A, B», a: A, b: B) ge2«B, A» {
    match e {
        case Gl2(x): return Gr2«B, A»(x)
        case Gr2(y): return Gl2«B, A»(y)
        case Gb2(x, y):
            if churn(1) == 1 {
                return Gb2(b, x)
            }
            return Gb2(y, a)
    }
}
fn g6«A, B»(s: gs2«A, B», t: gs2«B, A») gs2«A, B» {
    u := Gs2(s.a, t.a, t.oa.map(t.fb), s.fb)
    u.a = t.b
    u.b = s.fb(s.a)
    u.oa = Some(u.a)
    churn(1)
    return u
}
fn g7«A, B»(l: list«A», f: fn(A) B, b: B) list«B» {
    m := l.map(f)
    return Element(b, m.reverse())
}
fn gshow«A, B»(e: ge2«A, B», f: fn(A) string, g: fn(B) string) string {
    match e {
        case Gl2(x): return f(x)
        case Gr2(y): return g(y)
        case Gb2(x, y): return f(x).append(g(y))
    }
}
fn gmain«A, B»(a: A, b: B, f: fn(A) B, g: fn(B) A, fa: fn(A) string, fb: fn(B) string) {
    say(fa(g1(a, b, Some(a), None«B»()).orElse(a)))
    p := g2(Pair(a, b), Pair(b, a))
    say(fa(p.first).append(fb(p.second)))
    say(fa(g3(f, g, a, b)))
    say(fb(g4([a, a], [b, b], 1)[1]))
    say(gshow(g5(Gl2«A, B»(a), a, b), fb, fa))
    say(gshow(g5(Gb2(a, b), a, b), fb, fa))
    s := g6(Gs2(a, b, Some(a), f), Gs2(b, a, Some(b), g))
    say(fa(s.a).append(fb(s.b)).append(fa(s.oa.orElse(a))))
    say(fb(s.fb(a)))
    say(fb(g7(Element(a, Empty«A»()), f, b).find(fn(x: B) bool = true).orElse(b)))
    say(fa(hget(hput(a), 1)).append(fb(unbox(Gbox(b, 1)))))
    say(fb(gfirst(gmap(Gnode(Gleaf(a), 3, Gnil«A»()), f), b)))
    say(fa(rtop(rnode(a, [rleaf(a)]))).append(fb(call1(f, a))))
}
fn main() {
    is := fn(i: int) string = i.toString()
    ss := fn(s: string) string = s.append("!")
    bs := fn(b: gbox«int») string = b.v.toString()
    gmain(1, "one", fn(i: int) string = i.toString(), fn(s: string) int = s.length, is, ss)
    gmain("two", Gbox(2, 3), fn(s: string) gbox«int» = Gbox(s.length, 4), fn(b: gbox«int») string = b.v.toString(), ss, bs)
    gmain(7, 8, fn(i: int) int = i + 1, fn(i: int) int = i * 2, is, is)
}
'''+ "fn i3«T»(x: T, y: T) T = churn(2) == 0 ? x : y\n"


def edit(rng, src, low):
    """One to three small edits of the text from position low on, made without knowing what they mean."""
    toks = [m for m in TOK.finditer(src, low)]
    names = [m for m in toks if m.group() not in KEY]
    pool = sorted({m.group() for m in names})
    s = src
    for _ in range(rng.choice([1, 1, 1, 2, 2, 3])):
        names = [m for m in TOK.finditer(s, low) if m.group() not in KEY]
        if not names:
            return s
        m = rng.choice(names)
        a, b, w = m.start(), m.end(), rng.random()
        if w < 0.28:
            x = rng.choice(pool)
        elif w < 0.55:
            x = rng.choice([y for y in names if abs(y.start() - a) < 300]).group()
        elif w < 0.62:
            x = rng.choice(LIB)
        elif w < 0.68:
            # a type instead of a type, a variable instead of a variable
            same = [y for y in pool if re.sub(r"\d", "", y) == re.sub(r"\d", "", m.group())]
            x = rng.choice(same or pool)
        elif w < 0.78:
            # a line less
            a, b, x = s.rfind("\n", 0, a), s.find("\n", a), ""
        elif w < 0.87:
            # a line, or several, somewhere else as well
            y = rng.choice(names)
            p = s.rfind("\n", low, y.start())
            e = y.start()
            for _ in range(rng.choice([1, 1, 1, 3])):
                e = max(e, s.find("\n", e + 1))
            x = s[p:e] if p >= 0 else ""
            a = b = s.find("\n", b)
            if rng.random() < 0.3:
                a, b = s.rfind("\n", 0, m.start()), b
        elif w < 0.9:
            # two lines change places
            y = rng.choice(names)
            (i, j), (k, l) = sorted([(s.rfind("\n", 0, m.start()), s.find("\n", m.start())), (s.rfind("\n", 0, y.start()), s.find("\n", y.start()))])
            if j > k or i < low:
                continue
            s = s[:i] + s[k:l] + s[j:k] + s[i:j] + s[l:]
            continue
        else:
            x = rng.choice(AROUND).replace("%s", m.group())
        if a < low or b < a:
            continue
        s = s[:a] + x + s[b:]
    return s


class CHECK(RtCheck):
    id = "C24"
    quick, thorough = 360, 16000
    quick_deadline = 150.0
    runs = 6
    recheck = 6
    rule = "a run counts when an edited text was accepted and its program allocated memory (distinct by event hash)"
    assumptions = ["the edits bring in no function which gives access to raw memory (unsafe, printf with a format of its own, functions of the collector)",
                   "programs which exhaust the stack, the heap, the output or the time of the simulated machine, or divide by zero, are not judged"]

    def text(self, i, rng):
        """What is edited, and from where on."""
        f = {"plain": True, "nofmt": True}
        if i % 3 == 0:
            f["clo"] = True
        if i % 8 == 7:
            # small programs of invalid parts
            src = gen.PRELUDE + mutate.catalogue(rng, rng.randrange(1 << 20))
            if re.search("debug|printf|malloc|exit|pointer|unsafe|readInt", src[len(gen.PRELUDE):]):
                src = gen.PRELUDE + mutate.DECLS + "fn main() {\n    vzv(1)\n    println(vzf(1, \"a\").toString())\n    println(vzi(\"a\"))\n}\n"
            return src, len(gen.PRELUDE)
        if i % 8 in (1, 5):
            return gen.PRELUDE + GENERICS, gen.PRELUDE.index("fn clamp3")
        return gen.generate("sound/%s/%d" % (rng.random(), i), rng.choice([0.3, 0.4, 0.6]), f)[0], len(gen.PRELUDE)

    def prog(self, source):
        key = hash(source)
        if getattr(self, "_pk", None) == key:
            return self._pp
        self.close_prog()
        b, out = self.build.compile(source)
        if b is None:
            return None, out
        self._pk, self._pp, self._pb = key, (core.Prog(b), None), b
        return self._pp

    def spec(self, i, k, rng, meta):
        if k == 0:
            return {"seed": 1, "rates": {}, "cpu": 2, "cap": 1 << 26, "page": 0, "poison": 0}
        s = core.swarm(rng)
        s.update(cpu=4, cap=1 << 26)
        if k % 3 == 1:
            s["page"], s["rates"]["gcskip"] = 1, 0
        return s

    def outcome(self, R):
        """None: not judged. Else what has to be the same in every run."""
        if R.f["nfail"] or R.status == "signal" or (R.crash and R.crash[1] in ("stack exhausted", "arithmetic trap")):
            return None
        return [R.status, R.code, R.out.decode("latin-1"), R.err.decode("latin-1")]

    def judge(self, meta, spec, R):
        o = self.outcome(R)
        if o is None:
            return None
        t = self.crash_text(R)
        if t:
            return "an accepted program breaks down: " + t
        if R.code not in (0, 1):
            return "an accepted program ends with exit code %d: %r" % (R.code, R.out[-200:])
        e = meta["expected"]
        if e is not None and e != o and meta.get("large"):
            return "a large program (%s) prints %r instead of %r (exit %s)" % (meta["large"], o[2][-200:], e[2][-200:], o[1])
        if e is not None and e != o:
            return "an accepted program's behaviour depends on the schedule of the collector or the layout of the heap: exit %s %r here, exit %s %r elsewhere" % (
                o[1], o[2][-200:], e[1], e[2][-200:])
        return None

    def evaluate(self, meta, spec, P):
        R = P.run(spec)
        return R, self.judge(meta, spec, R)

    def rejected(self, out, meta):
        t = re.sub(r"\x1b\[[0-9;]*m", "", out)
        if TROUBLE.search(t):
            return "the compiler breaks down instead of accepting or rejecting: " + t[max(0, TROUBLE.search(t).start() - 100):][:500]
        if not t.startswith("exit 1\n"):
            return "a text is neither accepted nor rejected: " + t[:300]
        if "error" not in t.lower():
            return "a text is rejected without an error: " + t[:300]
        if meta.get("large") and not meta["may"]:
            return "a large program (%s) is rejected: %s" % (meta["large"], t[:300])
        return None

    def case(self, i, seed, stats):
        rng = random.Random("%s/%d/%d" % (self.id, seed, i))
        if i % 8 == 3:
            # what is large is accepted and works, or is too large
            name, src, out, may = large.pick(rng, i // 8)
            stats.add("large")
            return self.one(i, 0, rng, src, stats, {"expected": ["exit", 0, out, ""], "large": name, "may": may}, 2)
        if i % 4 == 2:
            # values which get where they do not belong, functions which end without a value
            for j in range(20):
                s = flow.ends(rng) if j >= 15 else flow.flow(rng, j + 15 * (i // 4 + 7 * seed))
                v = self.one(i, j, rng, gen.PRELUDE + s, stats)
                if v:
                    return v
            return None
        src, low = self.text(i, rng)
        for j in range(20):
            s = edit(rng, src, low)
            if s.count("arrayNoInit") != s.count("= Rtree(v, arrayNoInit«rtree«T»»(0), None«"):
                continue    # memory which was not written may be read
            v = self.one(i, j, rng, s, stats)
            if v:
                return v
        return None

    def one(self, i, j, rng, source, stats, meta=None, runs=None):
        meta = meta or {"expected": None}
        P, out = self.prog(source)
        stats.add("texts")
        if P is None:
            stats.add("rejected")
            stats.seen("kinds_of_error", re.sub(r"'[^']*'|\d+|/\S+", "", re.sub(r"\x1b\[[0-9;]*m", "", out))[:120])
            m = self.rejected(out, meta)
            return Violation(m, {"source": source, "meta": meta, "spec": None}) if m else None
        stats.add("accepted")
        for k in range(runs or self.runs):
            spec = self.spec(i, k, rng, meta)
            R, m = self.evaluate(meta, spec, P)
            stats.result(R)
            o = self.outcome(R)
            if o is None:
                stats.add("not_judged")
            else:
                if R.f["nalloc"]:
                    stats.seen("nontrivial", R.f["evhash"])
                stats.add("ended_well" if R.code == 0 else "panicked")
            if k == 1 and j < 3:
                stats.sample(self.show_sample(i, k, meta, spec, R))
            if m:
                return Violation(m, self.pack(source, meta, spec, R))
            if meta["expected"] is None:
                meta["expected"] = o
            if o is None and k > 0:
                break
        return None

    def confirm(self, case):
        P, out = self.prog(case["source"])
        if P is None:
            return self.rejected(out, case["meta"])
        if case["spec"] is None:
            return None
        return self.evaluate(case["meta"], case["spec"], P)[1]

    def minimise(self, case, deadline):
        if case["spec"] is not None:
            return RtCheck.minimise(self, case, deadline)
        if case["meta"].get("large"):
            return case
        # a breakdown of the compiler: fewer declarations, fewer lines
        def fails(lines):
            c = dict(case, source="\n".join(lines))
            return bool(self.confirm(c))

        decls = re.split(r"\n(?=fn |struct |enum |#\[)", case["source"])
        decls = ddmin(decls, lambda d: fails(d), deadline)
        return dict(case, source="\n".join(ddmin("\n".join(decls).split("\n"), fails, deadline)))
