"""Small edits which make programs invalid: one for every kind of error the compiler knows, inside any surrounding construct."""
import re

# Declarations the invalid statements refer to
DECLS = '''struct vzs {
    va: int
    vb: string
}
struct vzg«T» {
    vt: T
    vn: []T
}
enum vze {
    VzA(n: int)
    VzB(s: string, t: int)
    VzC()
}
fn vzf(a: int, b: string) int = a
fn vzv(a: int) {
}
fn vzi«T»(x: T) T = x
fn vzn«T»(x: int) option«T» = None«T»()
fn vzo(a: int) int = a
fn vzo(a: string) int = 1
fn vzh(f: fn(int) int) int = f(1)
enum vzm {
    VmA()
    VmB(n: int)
    VmC()
    VmD(s: string)
    VmE()
    VmF()
    VmG(a: int, b: int)
}
enum vzq2«T, U» {
    VqA(t: T)
    VqB(u: U)
    VqC()
    VqD(t: T, u: U)
    VqE()
}
fn vzp«A, B, C, D»(x: int) vzt«A, B, C, D» = vzp«A, B, C, D»(x)
struct vzt«A, B, C, D» {
    a: A
    b: B
    c: C
    d: D
}
fn vzo(a: bool, b: int) int = 2
fn vzo(a: []bool, b: bool) int = 3
fn vzk(f: fn(bool) int) int = f(true)
fn vzl«T»(f: fn(T, T, T) int, t: T) int = f(t, t, t)
'''

# Statements the compiler has to reject, wherever a statement can stand
STMTS = [
    'undeclaredName(1)', 'zz := undeclared', 'undeclared = 1', 'println(undeclared)',
    'println(1 + "a")', 'zz := "a" + "b"', 'zz := 1 + true', 'zz := "a" * 2', 'zz := 2 - "a"', 'zz := 1 / "b"', 'zz := true / 2',
    'zz := 1 and true', 'zz := true or 2', 'zz := "a" and "b"', 'zz := not 1', 'zz := -"a"', 'zz := -true',
    'zz := 1 & true', 'zz := "a" | 1', 'zz := true ^ true', 'zz := 1 << "a"', 'zz := "a" >> 1',
    'zz := 1 == "a"', 'zz := "a" == 1', 'zz := true < false', 'zz := "a" == "b"', 'zz := VzC() == VzC()', 'zz := 1 > true', 'zz := "a" <= "b"',
    'zz := [1] == [1]', 'zz := Vzs(1, "a") >= Vzs(1, "a")',
    'zz := 1\nzz = "a"', 'zz := "a"\nzz = 1', 'zz := Vzs(1, "a")\nzz = VzC()', 'zz := [1]\nzz = ["a"]', 'zz := [1]\nzz[0] = "a"',
    'zz := [[1]]\nzz[0][0] = "a"', 'zz := Vzs(1, "a")\nzz.va = "a"', 'zz := Vzs(1, "a")\nzz.vb = 1', 'zz := 1\nzz := 2', 'zz := 1\nzz := "a"',
    'zz := Vzs(1, "a")\nprintln(zz.nofield)', 'zz := Vzs(1, "a")\nzz.nofield = 1', 'zz := 1\nprintln(zz.va)', 'zz := "a"\nzz.length = 3',
    'zz := [1]\nzz.length = 3', 'zz := 1\nzz[0] = 1', 'zz := [1]\nzy := zz["a"]', 'zz := [1]\nzy := zz[true]', 'zz := "abc"\nzy := zz["a"]',
    'zz := []', 'zz := [1, "a"]', 'zz := ["a", 1]', 'zz := ["a", "b", true]', 'zz := [[1], ["a"]]',
    'zz := true ? 1 : "a"', 'zz := 1 ? 2 : 3', 'zz := "a" ? 2 : 3', 'zz := true ? Vzs(1, "a") : VzC()',
    'if 1 {\n}', 'if "a" {\n}', 'if true {\n} elseif 2 {\n}', 'while 1 {\n}', 'while "a" {\n}', 'for zz in 1 {\n}', 'for zz in "abc" {\n}', 'for zz in true {\n}',
    'for zz in 0 .. "a" {\n}', 'for zz in Vzs(1, "a") {\n}',
    'vzf(1)', 'vzf("a", 1)', 'vzf(1, 2)', 'vzf(1, "a", 2)', 'vzf()', 'vzf("a", "b")', 'vzv("a")', 'zz := vzf(1, "a")\nzz = "b"', 'zz := vzi("a")\nzz = 1', 'zz := vzi(1)\nzz = true',
    'vzo(true)', 'vzo()', 'vzo(1, 2)', 'vzo([1])', 'vzh(1)', 'vzh(fn(a: string) int = 1)', 'vzh(fn(a: int) string = "a")', 'vzh(fn() int = 1)', 'vzh(fn(a: int, b: int) int = 1)',
    'zz := fn(a: int) int = a\nzz("a")', 'zz := fn(a: int) int = a\nzz()', 'zz := fn(a: int) int = a\nzz(1, 2)', 'zz := fn(a: int) int = a\nzy := "a"\nzy = zz(1)', 'zz := 1\nzz(2)',
    'zz := fn(a: int) int = "a"', 'zz := fn(a: int) string = a', 'zz := fn(a: int) int { return "a" }', 'zz := fn(a: int) { return a }', 'zz := fn(a: int) int { return }',
    'zz := fn(a: int) int {\n}', 'zz := fn(a: int) int {\nif true {\nreturn 1\n}\n}', 'zz := fn(a: int) int {\nwhile true {\nreturn 1\n}\n}', 'zz := fn(a: int, a: int) int = a', 'zz := fn(a: nosuchtype) int = 1',
    'zz := fn(a: int) nosuchtype = 1', 'zz := fn(a: []nosuchtype) int = 1', 'zz := fn(a: option«nosuchtype») int = 1', 'zz := fn(a: fn(nosuchtype) int) int = 1', 'zz := fn(a: option«int, int») int = 1',
    'zz := fn(a: int«int») int = 1', 'zz := fn(a: vzs«int») int = 1', 'zz := fn(a: fn(int) nosuchtype) int = 1', 'zz := fn(a: result«int») int = 1',
    'zz := vzn(1)', 'zz := vzn«int, int»(1)', 'zz := vzi«string»(1)', 'zz := vzn«string»(1)\nzz = None«int»()', 'zz := None()',
    'zz := Some(1)\nzz = Some("a")', 'zz := Some(1)\nzz = 1', 'zz := Some(Some(1))\nzz = Some(Some("a"))',
    'zz := Vzs("a", 1)', 'zz := Vzs(1)', 'zz := Vzs(1, "a", 1)', 'zz := Nosuch(1)', 'zz := VzA("a")', 'zz := VzB("a")', 'zz := VzB(1, "a")', 'zz := VzC(1)', 'zz := VzA()',
    'zz := Vzg(1, ["a"])', 'zz := Vzg(1, [1])\nzz = Vzg("a", ["a"])', 'zz := Vzg(1, [1])\nzz.vt = "a"', 'zz := Vzg("x", ["x"])\nzy := zz.vt + 1',
    'match VzC() {\ncase VzA(n):\n}', 'match VzC() {\ncase VzA(n):\ncase VzB(s, t):\n}', 'match VzC() {\ncase VzA(n):\ncase VzC():\n}', 'match VzC() {\ncase VzA(n):\ncase VzB(s, t):\ncase VzC():\ncase VzD():\n}',
    'match VzC() {\ncase VzA(n):\ncase VzB(s, t):\ncase VzC():\ncase VzA(n):\n}', 'match VzC() {\ncase VzA():\ncase VzB(s, t):\ncase VzC():\n}', 'match VzC() {\ncase VzA(n):\ncase VzB(s):\ncase VzC():\n}',
    'match VzC() {\ncase VzA(n, m):\ncase VzB(s, t):\ncase VzC():\n}', 'match VzC() {\ncase VzA(n):\ncase VzB(s, s):\ncase VzC():\n}', 'match VzC() {\ncase Some(n):\ncase None():\n}', 'match 1 {\ncase VzA(n):\n}',
    'match "a" {\ncase VzA(n):\n}', 'match Vzs(1, "a") {\ncase Vzs(a, b):\n}', 'match VzC() {\ncase VzA(n):\nn = "a"\ncase VzB(s, t):\ncase VzC():\n}', 'match VzC() {\ncase VzA(n):\ncase VzB(s, t):\nzz := s + t\ncase VzC():\n}',
    'match VzC() {\ncase VzA(n):\ncase VzB(s, t):\nprintln(n)\ncase VzC():\n}', 'match Some("a") {\ncase Some(v):\nzz := v + 1\ncase None():\n}',
    'zz := 9223372036854775808', 'zz := 99999999999999999999', 'zz := 0xFFFFFFFFFFFFFFFFF', '1 = 2', 'vzf(1, "a") = 2', '"a" = "b"', 'zz + 1 = 2', 'zz := 1\nzz + 1 = 2', 'vzf := 1\nvzf = 2\nvzf(1, "a")',
    'if true {\nzz := 1\n}\nzz = 2', 'while false {\nzz := 1\n}\nprintln(zz.toString())', 'for zz in 0 .. 1 {\n}\nzy := zz', 'zz := fn(qq: int) int = qq\nzy := qq', 'zz := 1 .. 2',
    'zz := vzv(1)\nzz = 1', 'zz := [vzv(1), 1]',
    'match VmC() {\ncase VmA():\n}', 'match VmC() {\ncase VmF():\ncase VmG(a, b):\n}', 'match VmC() {\ncase VmA():\ncase VmB(n):\ncase VmC():\ncase VmD(s):\ncase VmE():\n}', 'zz := VqA«int, string»(1)\nmatch zz {\ncase VqB(x):\n}',
    'match VmC() {\n}', 'match VmC() {\ncase VzA(n):\ncase Some(x):\ncase VqC():\n}', 'zz := vzp(1)', 'zz := vzp«int»(1)', 'zz := vzp«int, string»(1)', 'zz := VqC()', 'zz := VqA(1)', 'zz := Vzt(1, "a", true, [1])\nzz = Vzt("a", 1, [1], true)',
    'vzo([true], 7)', 'vzo("a", "b")', 'vzh(vzo)\nvzh(vzf)\nvzh(vzi)', 'println(1, 2, 3)', 'zz := append(1, 2)', 'zz := [1]\nzz.append(true, false)',
    'zz := vzo', 'zz := [vzo]', 'vzk(vzo)', 'vzl(vzo, 1)', 'zz := fn() fn(int) int {\nreturn vzo\n}', 'zz := Vzs(1, "a").1', 'zz := Vzs(1, "a")."va"', 'vzv(1) := 2', 'zz := unsafe(1, 2)', '1(2)', 'zz := "a"(1)', 'zz := (1 + 2)(3)',
    'printf("a", 1, 2, 3, 4, 5, 6)', 'zz := true ? undeclared : 1', 'zz := undeclared ? 1 : 2', 'zz := true ? 1 : undeclared', 'zz := [undeclared, 1]', 'zz := not undeclared', 'zz := -undeclared', 'if undeclared {\n}', 'while undeclared {\n}',
    'if false {\n} elseif undeclared {\n}', 'for zz in undeclared {\n}', 'for zz in 0 .. undeclared {\n}', 'for zz in undeclared .. 1 {\n}', 'zz := fn() int {\nreturn undeclared\n}', 'match undeclared {\ncase VzA(n):\n}', 'zz := vzi«nosuchtype»(1)', 'undeclared.foo()',
    'zz := undeclared.va', 'zz := undeclared[0]', 'zz := [1][undeclared]', 'undeclared[0] = 1', 'zz := [1]\nzz[undeclared] = 1', 'zz := [1]\nzz[0] = undeclared', 'zz := 1 + undeclared', 'zz := undeclared == 1', 'zz := true and undeclared', 'vzf(undeclared, "a")',
    'vzf(1, undeclared)', 'zz := Vzs(undeclared, "a")', 'zz := vzf(1, "a").foo()', 'zz := vzh(undeclared)', 'zz := fn(a: vze«int») int = 1', 'zz := fn(a: []option«nosuchtype») int = 1', 'zz := fn(a: option«vze«int»») int = 1',
    'match Some(1) {\ncase VzC():\ncase VmA():\n}', 'match VzC() {\ncase VmA():\ncase VmC():\ncase VmE():\n}', 'match VzC() {\ncase VzA(n):\ncase VzA(m):\ncase VzC():\n}', 'match Some(1) {\ncase Some(a):\ncase Some(b):\n}',
    'match Some(1) {\ncase None():\ncase None():\n}', 'match Some(1) {\ncase println(x):\ncase None():\n}', 'match Some(1) {\ncase Some(a):\ncase vzv(b):\n}', 'match VzC() {\ncase VzA(n):\ncase VzB(s, t):\ncase Vzs(a, b):\n}',
    'match VmC() {\ncase VmA():\ncase VmB(n):\ncase VmC():\ncase VmD(s):\ncase VmE():\ncase VmF():\ncase VmG(a, a):\n}', 'vzf(1, 2, 3, 4, 5, 6, 7)', 'printf("a", 1, 2, 3, 4, 5, 6, 7)', 'zz := Vzs(1, "a")\nzz.va := 1',
    'zz := [1]\nzz[0] := 1', 'zz := fn(a: int) fn(string) int = fn(b: string) int = 1\nzy := zz(1)(2)', 'zz := fn(a: int) fn(string) int = fn(b: string) int = 1\nzy := zz(1)()', 'zz := [fn(a: int) int = a]\nzy := zz[0]("a")',
    'zz := [fn(a: int) int = a]\nzy := zz[0](1, 2)', 'zz := [1]\nzy := zz[0](1)', 'zz := fn(a: int) int {\nif a == 1 {\nreturn 1\n} elseif a == 2 {\n} else {\nreturn 3\n}\n}',
    'zz := fn(a: int) int {\nif a == 1 {\nreturn 1\n} elseif a == 2 {\nreturn 2\n}\n}', 'zz := fn(a: int) int {\nif a == 1 {\nreturn 1\n} elseif a == 2 {\nreturn 2\n} else {\n}\n}',
    'zz := fn(a: int) int {\nif a == 1 {\n} else {\nreturn 1\n}\n}', 'zz := fn(a: int) int {\nif a == 1 {\nvzv(a)\n} else {\nreturn 1\n}\n}',
    'zz := fn(a: int) int {\nif a == 1 {\nreturn 1\n} else {\nif a == 2 {\nreturn 2\n}\n}\n}', 'zz := fn(a: vze) int {\nmatch a {\ncase VzA(n):\nreturn n\ncase VzB(s, t):\ncase VzC():\nreturn 1\n}\n}',
    'zz := fn(a: vze) int {\nmatch a {\ncase VzA(n):\nreturn n\ncase VzB(s, t):\nreturn t\ncase VzC():\nvzv(1)\n}\n}',
    'zz := fn(a: vze) int {\nmatch a {\ncase VzA(n):\nvzv(1)\ncase VzB(s, t):\nreturn t\ncase VzC():\nreturn 2\n}\n}',
    'zz := fn(a: vze) int {\nmatch a {\ncase VzA(n):\nif n == 1 {\nreturn 1\n}\ncase VzB(s, t):\nreturn t\ncase VzC():\nreturn 2\n}\n}', 'zz := fn(a: int) int {\nfor zy in 0 .. 2 {\nreturn 1\n}\n}',
    'zz := fn(a: int) int {\nvzv(a)\n}', 'zz := fn(a: int) int {\nzy := a\n}', 'zz := fn(a: int) int {\nreturn 1\nvzv(a)\n}', 'vzi(1) = 2', 'vzf(1, "a") = vzf(2, "b")', 'zz := fn() int = 1\nzz() = 2', 'true ? 1 : 2 = 3',
    'not true = false', 'zz := Vzs(1, "a")\nzz.va()', 'zz := Vzs(1, "a")\nzz.vb(1)', 'zz := 1\nzz.length', 'zz := true.length', 'zz := Vzs(1, "a").length', 'zz := VzA(1).n', 'zz := 1\nzy := zz[0]', 'zz := Vzs(1, "a")[0]',
    'zz := true[0]', 'zz := VzC()[0]', 'zz := vzf.va', 'zz := vzf[0]', 'zz := 1 + vzf', 'zz := vzf + vzf', 'zz := vzf == vzf', 'zz := fn(a: int) int = a\nzz = fn(a: string) int = 1',
    'zz := fn(a: int) int = a\nzz = fn(a: int) string = "a"', 'zz := fn(a: int) int = a\nzz = fn(a: int, b: int) int = b', 'zz := fn(a: int) fn(int) int = a', 'zz := [fn(a: int) int = a, fn(a: string) int = 1]',
    'zz := true ? fn(a: int) int = a : fn(a: string) int = 1', 'zz := Some(fn(a: int) int = a)\nzz = Some(fn(a: string) int = 1)', 'zz := vzg', 'zz := vzs', 'vzs = 1', 'vzs(1, "a")', 'for zz in [1] {\nzz = "a"\n}',
    'for zz in ["a"] {\nzy := zz + 1\n}', 'for zz in 0 .. 3 {\nzz = "a"\n}', 'for zz in "a" .. "b" {\n}', 'for zz in true .. false {\n}', 'for zz in [1] .. 2 {\n}', 'vzf = vzf', 'vzf = fn(a: int, b: string) int = a', 'VzA = VzA',
    'VzC = VzC', 'vzi = vzi', 'vzo = vzo', 'vzh(vzs)', 'zz := [vzs]', 'zz := vze', 'zz := Some(vzs)', 'zz := true ? vzs : vzs', 'vzi(vzs)', 'zz := fn() vzs = vzs', 'zz := vzs.va', 'zz := vzs[0]', 'vzs.va = 1',
    'zz := fn(a: int«int») int {\nreturn 1\n}', 'zz := fn(a: vzs«int», b: nosuchtype) int {\nreturn 1\n}', 'zz := [fn(a: vzs«int») int {\nreturn 1\n}]', 'vzh(fn(a: vzs«int») int {\nreturn 1\n})',
    'zz := Vzs("a", "a")\nzz = 1',
    # texts which are no clara at all
    'zz := 0x', 'zz := "a\\q"', 'zz := 1@', 'zz := (1 + 2', 'zz := "unclosed', 'zz := $', 'zz := 1 + )', 'zz := ) 1', 'vzf(1, "a"', 'zz := [1, 2', 'zz := fn(a int) int = a', 'zz := =', 'if true', 'case VzA(n):', 'zz := 1 ? 2', "zz := 'ab'", 'for zz 0 .. 1 {\n}', 'zz := {',
]

# The same for names of the library, which a program may give another meaning
LIBRARY = [
    'zz := int', 'int = 1', 'int(1)', 'option(1)', 'zz := list', 'zz := readInt', 'zz := printf', 'zz := [readInt]', 'zz := Some(readInt)', 'vzh(readInt)', 'vzi(printf)', 'zz := debug', 'zz := true ? readInt : readInt',
    'readInt = readInt', 'printf = printf', 'println = println', 'printf()', 'printf(1)', 'printf([1])', 'debug("a")', 'debug("a", 1)', 'debug()', 'debug(1, 2)', 'zz := string.length', 'zz := bytes', 'bytes = 1',
    'zz := fn() pointer = pointer', 'zz := [int, bool]', 'vzh(malloc)', 'zz := malloc', 'zz := exit',
]

# Declarations the compiler has to reject
BAD_DECLS = [
    'struct vzq«T» {\n    a: vzs«T»\n}\nfn vzr(x: vzq«int») int = 1', 'struct vzq«T» {\n    a: nosuchtype\n    b: T\n}\nfn vzr«T»(x: vzq«T») T = x.b', 'enum vzq«T» {\n    VzQ(a: vzs«T»)\n}\nfn vzr(x: vzq«int») int = 1', 'struct vzq«T» {\n    a: option«vzs«T»»\n    b: []vzq«T»\n}\nfn vzr() int = Vzq«int»(1, 2).a',
    'fn vzq(a: int, b: int, c: int, d: int, e: int, f: int, g: int) int = a', 'struct vzq {\n    a: int\n    b: int\n    c: int\n    d: int\n    e: int\n    f: int\n    g: int\n}', 'fn vzq() {\n    vzl := fn(a: int, b: int, c: int, d: int, e: int, f: int) int = a\n}', 'fn vzq(a: int, b: int, c: int, d: int, e: int, f: int) fn() int {\n    g := a\n    return fn() int = a + b + c + d + e + f + g\n}', 'fn vzq(v: fn(int, int, int, int, int, int) int) int = v(1, 2, 3, 4, 5, 6)', 'fn vzq(v: fn(int, int, int, int, int, string) int) int = v(1, 2, 3, 4, 5, \"a\")',
    'struct some {\n    a: int\n}', 'struct vzC {\n    a: int\n}', 'struct vzq {\n    a: int\n}\nenum Vzq {\n    VzQ()\n}', 'struct vzq {\n    a: int\n}\nfn Vzq(a: int) int = a', 'fn vzq(a: vze«int») int = 1', 'struct vzq {\n    a: vze«int»\n}',
    'struct vzq {\n    a: fn(nosuchtype) int\n}', 'struct vzq {\n    a: []nosuchtype\n}', 'enum vzq {\n    VzQ(a: option«nosuchtype»)\n}', 'enum vzq {\n    VzQ(a: fn(int) nosuchtype)\n}', 'fn vzq(a: option«vzs«int»») int = 1', 'fn vzq(a: []vzg) vzg«nosuchtype» = a',
    'fn vzq(a: nosuchtype) int = 1', 'fn vzq(a: int, a: int) int = 1', 'fn vzq(a: int) nosuchtype = 1', 'fn vzq(a: int) int = "a"', 'fn vzq(a: int) int {\n}', 'fn vzq(a: int) int {\n    if a == 1 {\n        return 1\n    }\n}',
    'fn vzf(a: int, b: string) int = 2', 'struct vzs {\n    q: int\n}', 'enum vze {\n    VzQ()\n}', 'struct vzq {\n    a: int\n    a: int\n}', 'struct vzq {\n    a: nosuchtype\n}', 'enum vzq {\n    VzQ(a: nosuchtype)\n}',
    'fn vzq«T, T»(a: T) T = a', 'struct vzq«T, T» {\n    a: T\n}', 'enum vzq«T, T» {\n    VzQ(a: T)\n}', 'enum vzq {\n    VzQ(a: int, b: int, c: int, d: int, e: int, f: int)\n}', 'enum vzq {\n    VzA(n: int)\n}', 'enum vzq {\n    VzQ(a: int)\n    VzQ(a: int)\n}',
    'struct Vzq {\n    a: int\n}', 'fn vzq(a: int) int {\n    return\n}', 'fn vzq(a: int) {\n    return a\n}', 'fn vzq«T»(a: T) int = a', 'fn vzq«T»(a: T) T = 1', 'fn vzq«T, U»(a: T, b: U) T = b', 'fn vzq«T»(a: T) T = a + a', 'fn vzq«T»(a: []T) T = a',
    'fn vzq(a: option«int») option«string» = a', 'fn vzq(a: vzs«int») int = 1', 'struct vzq {\n    a: option«nosuchtype»\n}', 'struct vzq {\n    a: vzg«int, int»\n}', 'fn vzq(a: T) T = a', 'struct vzq {\n    a: T\n}',
    'fn vzq(a: int) int = vzq("a")', 'fn vzq() int = vzq()\nfn vzq() string = "a"', 'struct vzq {', 'fn vzq(', 'fn vzq) int = 1', 'enum vzq {\n    VzQ\n}', 'fn vzq«(a: int) int = 1', 'vzq := 1', 'println("a")', 'fn 1vzq() int = 1', 'struct vzq {\n    a int\n}', '#if',
]

# Declarations which clash with the standard library: the program's are the wrong ones, whatever is looked at first
CLASHES = [
    'fn println(s: string) {\n}', 'fn println(n: int) {\n}', 'fn toString(n: int) string = "a"', 'fn append(a: string, b: string) string = a', 'fn panic(s: string) {\n}', 'fn reverse«T»(l: list«T») list«T» = l', 'struct block {\n    a: int\n}',
    'struct list«T» {\n    a: T\n}', 'enum option«T» {\n    Some(t: T)\n    None()\n}', 'enum result«T» {\n    Ok(t: T)\n}', 'struct map«K, V» {\n    k: K\n    v: V\n}', 'fn gc() {\n}', 'fn gcMark() {\n}', 'fn isMarked(b: block) bool = true',
    'enum typeInfo {\n    VzQ()\n}', 'struct error {\n    a: int\n}', 'struct time {\n    a: int\n}', 'fn main() {\n}\nfn main() {\n}', 'fn entrypoint(argc: int, argv: pointer, envp: pointer) {\n}', 'fn isNull(p: pointer) bool = true',
    'struct runtime {\n    a: int\n}', 'fn getRuntime() runtime = getRuntime()', 'enum either«L, R» {\n    Left(l: L)\n    Right(r: R)\n}', 'struct frame {\n    a: int\n}',
]


def combined(rng):
    """Many errors of one kind of stage at once: their order and number must not depend on anything."""
    w = rng.randrange(3)
    if w == 0:
        d = rng.sample(CLASHES, rng.randint(1, 6))
        return DECLS + "\n".join(d) + "\nfn main() {\n    vzv(1)\n}\n"
    if w == 1:
        d = rng.sample(BAD_DECLS[:56], rng.randint(2, 6))
        return DECLS + "\n".join(x.replace("vzq", "vzq%d" % k).replace("Vzq", "Vzr%d" % k).replace("VzQ", "Vz%dQ" % k) for k, x in enumerate(d)) + "\nfn main() {\n    vzv(1)\n}\n"
    t = DECLS
    for f in range(rng.randint(1, 5)):
        t += "fn vzw%d() {\n" % f
        for k in range(rng.randint(1, 4)):
            st = rng.choice(STMTS[:-18] + LIBRARY).split("\n")
            for _ in range(rng.choice([0, 1, 1, 2])):
                st = wrapped(st, rng.choice(WRAPS))
            t += "".join("    " + l.replace("zz", "z%dz" % k).replace("vzx", "vz%dx" % k) + "\n" for l in st)
        t += "}\n"
    return t + "fn main() {\n    vzv(1)\n}\n"


# Constructs around a statement: {} takes its lines
WRAPS = [
    ['{}'], ['{}'], ['{}'],
    ['if true {', '{}', '}'], ['if false {', '} else {', '{}', '}'], ['if false {', '} elseif true {', '{}', '}'], ['if false {', '} elseif true {', '} else {', '{}', '}'], ['while false {', '{}', '}'],
    ['for vzx in 0 .. 2 {', '{}', '}'], ['for vzx in [1, 2] {', '{}', '}'],
    ['match VzC() {', 'case VzA(vzx):', 'case VzB(vzx, vzy):', '{}', 'case VzC():', '}'], ['match Some(1) {', 'case Some(vzx):', '{}', 'case None():', '}'], ['match Some(1) {', 'case Some(vzx):', 'case None():', '{}', '}'],
    ['vzx := fn() {', '{}', '}'], ['vzx := fn() int {', '{}', 'return 1', '}'], ['vzx := [fn() {', '{}', '}]'], ['vzx := [fn() {', '}, fn() {', '{}', '}]'],
    ['vzx := true ? fn() {', '{}', '} : fn() {', '}'], ['vzx := true ? fn() {', '} : fn() {', '{}', '}'], ['vzx := vzh(fn(vzy: int) int {', '{}', 'return vzy', '})'], ['vzx := Some(fn(vzy: int) int {', '{}', 'return vzy', '})'],
    ['vzx := vzi(fn(vzy: int) int {', '{}', 'return vzy', '})'], ['vzx := (fn(vzy: int) int {', '{}', 'return vzy', '})(1)'], ['vzx := fn() fn() int {', 'return fn() int {', '{}', 'return 1', '}', '}'],
    ['vzx := [1][vzh(fn(vzy: int) int {', '{}', 'return vzy', '})]'], ['vzx := 1 + vzh(fn(vzy: int) int {', '{}', 'return vzy', '})'], ['vzx := fn(vzy: int) int = vzh(fn(vzy: int) int {', '{}', 'return vzy', '})'],
    ['vzx := [1]', 'vzx[vzh(fn(vzy: int) int {', '{}', 'return vzy', '})] = 2'], ['if vzh(fn(vzy: int) int {', '{}', 'return vzy', '}) == 1 {', '}'], ['for vzx in 0 .. vzh(fn(vzy: int) int {', '{}', 'return vzy', '}) {', '}'],
    ['while vzh(fn(vzy: int) int {', '{}', 'return vzy', '}) == 7 {', '}'], ['match Some(vzh(fn(vzy: int) int {', '{}', 'return vzy', '})) {', 'case Some(vzx):', 'case None():', '}'], ['printf("%d", vzh(fn(vzy: int) int {', '{}', 'return vzy', '}))'],
]


def wrapped(lines, wrap):
    out = []
    for l in wrap:
        out.extend(lines if l == "{}" else [l])
    return out


def catalogue(rng, k):
    """The k-th of the invalid texts, alone in a small program."""
    k %= size()
    if k < len(BAD_DECLS):
        return DECLS + BAD_DECLS[k] + "\nfn main() {\n    vzv(1)\n}\n"
    st = (STMTS + LIBRARY)[k - len(BAD_DECLS)].split("\n")
    for _ in range(rng.choice([0, 1, 1, 2])):
        st = wrapped(st, rng.choice(WRAPS))
    return DECLS + "fn main() {\n    vzv(1)\n" + "\n".join("    " + l for l in st) + "\n    vzv(2)\n}\n"


def size():
    return len(STMTS) + len(LIBRARY) + len(BAD_DECLS)


def invalid(rng, src):
    """An edit which the compiler has to reject (a name nobody declares, a wrong type, a missing bracket, ...). Returns text."""
    lines = src.split("\n")
    body = [i for i, l in enumerate(lines) if l.startswith("    ") and l.strip() not in ("}", "") and "case " not in l]
    w = rng.random()
    if w < 0.2:
        lines.extend([DECLS, rng.choice(BAD_DECLS)])
    else:
        i = rng.choice(body)
        ind = lines[i][:len(lines[i]) - len(lines[i].lstrip())]
        st = rng.choice(STMTS).split("\n")
        for _ in range(rng.choice([0, 1, 1, 2])):
            st = wrapped(st, rng.choice(WRAPS))
        lines[i:i] = [ind + l for l in st]
        lines.append(DECLS)
    if rng.random() < 0.3:
        lines.append("fn main() {\n}")
    if rng.random() < 0.4:
        # several errors at once
        j = rng.choice(body)
        lines.insert(j, "    otherUndeclared%d(2)" % rng.randrange(9))
    return "\n".join(lines)
