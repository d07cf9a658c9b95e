"""C17: the lexer hands its consumer every token of the text, in order, whatever the schedule."""
import json, os, random, time, unicodedata
from simlib import gen
from simlib.comp import CompCheck
from simlib.harness import Violation

KEYWORDS = "fn return if elseif else true false not and or struct while for in enum match case type".split()
ONE = {"(": "(", ")": ")", "{": "{", "}": "}", "[": "[", "]": "]", "\u00ab": "\u00ab", "\u00bb": "\u00bb", "#": "#", "?": "?", ",": ",", "+": "+", "*": "*",
       "~": "~", "^": "^", "|": "|", "&": "&"}
AFTER = set("( :,)\r\n.+-*/><[]\u00ab\u00bb")


def runes(b):
    """Decode like Go: an invalid byte is one replacement character. Returns [(char, byte offset)]."""
    r, i = [], 0
    while i < len(b):
        n = 1
        c = "\ufffd"
        x = b[i]
        for k in ((1,) if x < 0x80 else (2,) if 0xC2 <= x < 0xE0 else (3,) if 0xE0 <= x < 0xF0 else (4,) if 0xF0 <= x < 0xF5 else ()):
            try:
                c = b[i:i + k].decode("utf-8")
                n = k
            except UnicodeDecodeError:
                c = "\ufffd"
        r.append((c, i))
        i += n
    return r


def letter(c):
    return c == "_" or unicodedata.category(c).startswith("L")


def digit(c):
    return unicodedata.category(c) == "Nd"


def reference(b):
    """[(class, text bytes, line)], ending with EOF or Err (whose text is not given)."""
    rs = runes(b)
    cs = [c for c, _ in rs] + [None]
    off = [o for _, o in rs] + [len(b)]
    out = []
    i = 0

    def emit(cls, j):
        out.append((cls, b[off[i]:off[j]], 1 + b[:off[i]].count(b"\n"), column(off[i])))
        return j

    def column(o):
        nl = b.rfind(b"\n", 0, o)
        return len(runes(b[max(nl, 0):o]))

    def err():
        out.append(("<error>", None, 1 + b[:off[i]].count(b"\n"), None))

    while True:
        c = cs[i]
        if c is None:
            emit("<EOF>", i)
            return out
        n = cs[i + 1]
        if c == " ":
            j = i
            while cs[j] == " ":
                j += 1
            i = emit("<space>", j)
        elif c in ONE:
            i = emit(ONE[c], i + 1)
        elif c == ":":
            i = emit(":=", i + 2) if n == "=" else emit(":", i + 1)
        elif c == "-":
            i = emit("- (binary)", i + 1)
        elif c == ">":
            i = emit(">>", i + 2) if n == ">" else emit(">=", i + 2) if n == "=" else emit(">", i + 1)
        elif c == "<":
            i = emit("<<", i + 2) if n == "<" else emit("<=", i + 2) if n == "=" else emit("<", i + 1)
        elif c == ".":
            i = emit("..", i + 2) if n == "." else emit(".", i + 1)
        elif c == "=":
            i = emit("==", i + 2) if n == "=" else emit("=", i + 1)
        elif c == "/":
            if n == "/":
                j = i + 2
                while cs[j] is not None and cs[j] not in "\r\n":
                    j += 1
                i = emit("//", j)
            else:
                i = emit("/", i + 1)
        elif c == '"':
            j = i + 1
            bad = False
            while cs[j] is not None and cs[j] != '"':
                if cs[j] == "\\":
                    j += 1
                    if cs[j] is None or cs[j] not in 'rn\\"':
                        bad = True
                        break
                j += 1
            if bad or cs[j] is None:
                err()
                return out
            i = emit("<string lit>", j + 1)
        elif c == "0" and n == "x":
            j = i + 2
            hexa = lambda x: x is not None and (digit(x) or x in "abcdefABCDEF")
            if not hexa(cs[j]):
                err()
                return out
            while hexa(cs[j]):
                j += 1
            i = emit("<integer lit>", j)
        elif "0" <= c <= "9":
            j = i + 1
            while cs[j] is not None and digit(cs[j]):
                j += 1
            i = emit("<integer lit>", j)
        elif letter(c):
            j = i + 1
            while cs[j] is not None and (letter(cs[j]) or digit(cs[j])):
                j += 1
            if cs[j] is not None and cs[j] not in AFTER:
                err()
                return out
            word = "".join(cs[i:j])
            i = emit(word if word in KEYWORDS else "<identifier>", j)
        elif c in "\r\n":
            i = emit("<EOL>", i + 1)
        else:
            err()
            return out


# classes the compiler's own table of names does not distinguish
NAMELESS = {"or", "?", "//"}

SOUP = (["fn ", "return ", "if ", "else ", "elseif ", "x", "abc", "a1_b", "\u00e9t\u00e9", "\u03b1", "0", "7", "123", "0xff", "0x", "007", "\"s\"", "\"a\\n\\\"b\"", "\"\"",
         "\"\u20ac \u00df\"", "\"un", "\"bad\\q\"", "// c\n", "// \u00e9\r\n", "//", "/", "\n", "\r\n", "\n\n", " ", "   ", "\t", "\u00ab", "\u00bb", "$", "\x00", "'", "@"]
        + list("(){}[],:.#?+-*~^|&<>=") + [":=", "==", ">=", "<=", "<<", ">>", "..", "..."] + [k + " " for k in KEYWORDS] + KEYWORDS[:4])


class CHECK(CompCheck):
    id = "C17"
    quick, thorough = 400, 16000
    runs = 3
    rule = "a run counts when at least one lexer and its consumer switched at a point the simulator chose (distinct by execution hash)"

    def text(self, rng, i):
        w = rng.random()
        if w < 0.35:
            s = "".join(rng.choice(SOUP) for _ in range(rng.randrange(60)))
            if rng.random() < 0.6:
                for bad in ("$", "\x00", "'", "@", "\"un", "\"bad\\q\"", "\t"):
                    s = s.replace(bad, " ")
            return s.encode()
        if w < 0.45:
            return bytes(rng.randrange(256) for _ in range(rng.randrange(40)))
        if w < 0.8:
            s = gen.generate("lex/%s/%d" % (rng.random(), i), 0.4)[0].encode("utf-8", "surrogateescape")
            a = rng.randrange(len(s))
            s = s[a:a + rng.choice([50, 400, 3000, 100000])]
            if rng.random() < 0.3:
                s = s.replace(b"\n", b"\r\n")
            if rng.random() < 0.3:
                s = s[:rng.randrange(len(s) + 1)]
            return s
        f = rng.choice(self.sim.lib())
        with open(f, "rb") as h:
            s = h.read()
        a = rng.randrange(len(s))
        return s[a:a + rng.choice([50, 400, 3000, 100000])]

    def run1(self, case):
        w = self.fresh()
        R = self.sim.run(dict(case["spec"], Mode="lex", Texts=case["texts"]), w)
        self.drop(w)
        return R

    def judge(self, case, R):
        t = self.panic_text(R)
        if t:
            return t
        numbers = {}
        for i, hx in enumerate(case["texts"]):
            b = bytes.fromhex(hx)
            ref = reference(b)
            r = R.results.get(i)
            if r is None:
                return "the consumer of lexer %d never finished" % i
            if r["Panic"]:
                return "the lexer crashed on %r: %s" % (b[-60:], r["Panic"][:200])
            if r["After"]:
                return "the token stream of %r ends without end marker (%s)" % (b[-60:], r["After"])
            toks = r["Toks"]
            for n in range(max(len(ref), len(toks))):
                where = "token %d of %r" % (n, b if len(b) < 80 else b[:40] + b"..." + b[-30:])
                if n >= len(toks):
                    return "%s is missing: %r" % (where, ref[n])
                if n >= len(ref):
                    return "%s should not be there: %r" % (where, toks[n])
                cls, text, line, col = ref[n]
                g = toks[n]
                val = bytes.fromhex(g["Val"])
                if text is not None and val != text:
                    return "%s is %r instead of %r" % (where, val, text)
                if text is None and not val:
                    return "%s: an error without a message" % where
                if g["Name"] != ("" if cls in NAMELESS else cls):
                    return "%s has kind %r instead of %r" % (where, g["Name"], cls)
                if cls in NAMELESS and numbers.setdefault(cls, g["Kind"]) != g["Kind"]:
                    return "%s has a changing kind" % where
                if g["Line"] != line:
                    return "%s is reported on line %d instead of %d" % (where, g["Line"], line)
                if col is not None and g["Pos"] != col:
                    return "%s is reported at position %d instead of %d" % (where, g["Pos"], col)
                if g["File"] != "f%d" % i:
                    return "%s is attributed to %s" % (where, g["File"])
        if len(set(numbers.values())) != len(numbers):
            return "different kinds of tokens are not told apart: %s" % sorted(numbers)
        if R.leaked:
            return "%d goroutines are left behind" % R.leaked
        return None

    def case(self, i, seed, stats):
        rng = random.Random("%s/%d/%d" % (self.id, seed, i))
        for k in range(self.runs):
            texts = [self.text(rng, i).hex() for _ in range(rng.choice([1, 2, 2, 3, 5, 12]))]
            spec = {"Seed": rng.getrandbits(40), "MapSeed": rng.getrandbits(40),
                    "Rates": {"yield": rng.choice([0, 2000, 50000, 300000]), "consume": rng.choice([0, 50000, 500000, 900000])}, "Rare": rng.choice([0, 0, 300000])}
            case = {"texts": texts, "spec": spec}
            R = self.run1(case)
            self.account(stats, R)
            stats.add("texts", len(texts))
            stats.add("tokens", sum(len(r["Toks"] or []) for r in R.results.values()))
            if any(R.kinds.get(x, (0, 0))[0] for x in ("yield", "consume")):
                stats.seen("nontrivial", R.hash)
            if k == 0 and i < 16:
                stats.sample("case %d: %d texts of %s bytes, %s" % (i, len(texts), [len(t) // 2 for t in texts], R.kinds))
            m = self.judge(case, R)
            if m:
                return Violation(m, case)
            self.recheck(stats, k, R, lambda: self.run1(case))
        return None

    def confirm(self, case):
        return self.judge(case, self.run1(case))

    def minimise(self, case, deadline):
        case = json.loads(json.dumps(case))
        c = dict(case, spec=dict(case["spec"], Rates={}, Rare=0))
        if self.confirm(c):
            case = c
        j = 0
        while j < len(case["texts"]) and len(case["texts"]) > 1 and time.time() < deadline:
            c = dict(case, texts=case["texts"][:j] + case["texts"][j + 1:])
            if self.confirm(c):
                case = c
            else:
                j += 1
        if len(case["texts"]) == 1:
            b = bytes.fromhex(case["texts"][0])
            step = max(1, len(b) // 2)
            while step and time.time() < deadline:
                a = 0
                while a < len(b) and time.time() < deadline:
                    c = dict(case, texts=[(b[:a] + b[a + step:]).hex()])
                    if self.confirm(c):
                        case = c
                        b = bytes.fromhex(c["texts"][0])
                    else:
                        a += step
                step //= 2
        return case

    def describe(self, case):
        return "texts: %s; seed %s rates %s" % ([bytes.fromhex(t)[:120] for t in case["texts"]], case["spec"]["Seed"], case["spec"]["Rates"])
