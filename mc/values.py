"""Values: for each place in which a value occurs, every value of a corpus of unusual strings, numbers, file names and names of packages (and every pair of
values where two meet). The values come from the functions o1() and o2() of the environment, so that no literal is between them and the place."""

import math

S = lambda x: ("s", x)  # noqa: E731
I = lambda x: ("i", x)  # noqa: E731,E741
V = lambda x: ("v", x)  # noqa: E731
o = lambda k: ("call", "o%d" % k, ())  # noqa: E731
SP = ("SP",)

STR = ["", " ", "  ", "\t", "\n", "\n\n", "\r\n", "a", "A", "a ", " a", " a ", "a\n", "\na", "a\t", "\ta", "a\r\nb", "a\nb\n", "a  b", "ab", "aB", "aa", "aba",
       "\x00", "a\x00b", "\x07", "\x1b[0m", "\x7f", "\x85", "\xa0", "a\xa0", "\xad", "\u200b", "\u200ba", "\ufeff", "\ufeffa", "\u2028", "a\u2029b", "\u3000",
       "é", "e\u0301", "É", "ß", "ẞ", "ss", "SS", "İ", "i\u0307", "ı", "I", "ﬁ", "fi", "Σ", "σ", "ς", "😀", "a😀", "\U0010ffff", "²", "٣", "Ⅷ", "½", "你好",
       "\\", "\\\\", "a\\b", "a/b", "/", "C:\\x", "\\n", ".", "..", ".esp", "a.esp", "A.ESP", "*", "%", "%d", "%s%n", "{0}", "{}", "$x", "${x}", "#", ";", ";a", "a;b", "//", "<b>",
       '"', "'", '"a"', "|", "|a", "||a", "a|b", "=", "a=b", "[a]", ",", "(", "&amp;", "0", "00", "1", "01", "-1", "+1", " 1", "1 ", "1_0", "1.5", ".5", "1.", "1e3", "0x10", "1,5",
       "inf", "-inf", "nan", "NaN", "infinity", "True", "False", "true", "None", "none", "null", "void", "If", "EndIf", "Return", "SubPackages", "True ", "١٢", "1" * 20, "9" * 40,
       "a" * 63, "a" * 64, "a" * 65, "é" * 33]
NUM = [0, 1, -1, 2, -2, 3, 7, 10, 63, 64, 255, 256, -5, -128, 65535, 65536, 2**31 - 1, 2**31, -2**31, 2**32, 2**53 - 1, 2**53, 2**53 + 1, -2**53 - 1, 2**63 - 1, 2**63, -2**63, 2**64 + 1, 10**18 + 1,
       10**30 + 1, -10**30 - 7, 0.0, -0.0, 0.5, -0.5, 1.0, -1.0, 1.5, 2.5, -2.5, 0.1, 0.2, 0.3, 1e-7, 1e15, 1e16, 1e17, 123456789.125, 9007199254740993.0, 1e22, 1e300, -1e300, 5e-324, 2.0**31, 1.7976931348623157e308,
       math.inf, -math.inf, math.nan]
BOOLS = [True, False]
OTHER = [SP, ("P", 0), ("P", 1), ("void",)]
ALL = STR + NUM + BOOLS + OTHER
SOME = ["", " ", "a", "A", "0", "1", "é", "%d", 0, 1, -1, 2**63, 0.0, 1.0, 1.5, math.inf, math.nan, True, False, SP, ("P", 0)]
FILES = ["", "a.esp", "A.ESP", "a.Esp", ".esp", "d/.esp", "d/a.esp", "d\\a.esp", "d/e/a.esm", "d.esp/a", "d.esp/", "d/", "/a.esl", "a.esp ", " a.esp", "a.esp\n", "a.esp.txt", "a.b.esm", "a..esp", "..esp", "esp",
         "aesp", "./a.esp", "../a.esp", "C:\\a.esp", "C:a.esp", "a b.esl", "é.esp", "e\u0301.esp", "É.esp", "ß.esm", "ss.esm", "a.esp;x", "a.es", "a.espx", "a.esm", "a.esl", "a.ESL", "a", "b.txt", "d/a.txt", "%d.esp",
         "\u200b.esp", "a\xa0.esp", "d//a.esl", "a.esp/.", "CON.esp", "a*.esp", "😀.esp", "x" * 70 + ".esp"]
LAYOUTS = [[("P", FILES), ("Q", ["a.esp"])], [("a", ["a.esp"]), ("A", ["b.esp"]), ("a ", ["c.esp"])], [("ß", ["x.esp"]), ("ss", ["y.esp"]), ("SS", ["z.esm"])],
           [("é", ["é.esp"]), ("e\u0301", ["e\u0301.esp"]), ("É", ["É.esp"])], [(s, ["%d.esp" % k, s]) for k, s in enumerate(STR)], [("P", ["a.esp"]), ("P", ["a.esp"]), ("p", ["A.ESP", "d/a.esp"])],
           [("P", FILES[::-1]), ("P ", FILES[:9]), ("", [])], [("00 Core", ["x/é.esm", "X/É.ESM"]), ("00 core\n", [])]]
NAMES = sorted(set(STR + FILES))
HUGE = [0, 1, -1, 2**31 - 1, 2**31, -2**31, 2**53 - 1, 2**53, 2**63 - 1, 2**63, -2**63, 2**64, 10**30, -10**30]


def distinct(layout):
    """The packages of different names: no two folders of an archive have the same name but for case."""
    out = {}
    for n, fs in layout:
        out.setdefault(n.casefold(), (n, fs))
    return list(out.values())


def m(x):
    return ("op=", "t", "+=", S("<%s>" % x))


def rec(e):
    return ("op=", "t", "+=", ("bin", "+", ("call", "str", (e,)), S(",")))


# a place: statements with o1() (and o2() ...), and the values these functions take
def P(body, *doms, packages=None, dup=False):
    return body, doms, packages


def truth():
    for c in (o(1), ("not", o(1)), ("par", o(1)), ("bin", "or", o(1), ("b", False)), ("bin", "and", ("b", True), o(1))):
        yield P((("if", ((c, (m(1),)),), (m(2),)), ("if", ((("b", False), ()), (c, (m(3),))), None)), ALL, ALL[::7])
        yield P((("while", c, (m(1), ("break",))), m(2)), ALL)
    yield P((("=", "x", o(1)), ("if", ((V("x"), (m(1),)), (("not", V("x")), (m(2),))), (m(3),))), ALL)
    for op in ("and", "or", "|", "&"):
        yield P((("=", "x", ("bin", op, o(1), o(2))),), ALL, SOME)


def ends():
    yield P((m(1), ("cancel", o(1))), ALL)
    yield P((("for", "i", I(1), I(2), None, (("if", ((("b", True), (("cancel", o(1)),)),), None),)),), ALL)
    yield P((("exec", (("cancel", o(1)),)), m(2)), STR)


def for_values():
    yield P((("forin", "i", o(1), (rec(V("i")), ("=", "x", V("i")))), m(1)), ALL)
    yield P((("=", "x", o(1)), ("forin", "x", V("x"), (rec(V("x")),)), ("=", "y", V("x"))), STR)
    yield P((("forin", "i", o(1), (("forin", "j", o(2), (rec(V("i")), rec(V("j")))),)),), STR[::3], ["ab", "é\n", "", "a b"])
    yield P((("forin", "i", ("bin", "+", o(1), o(2)), (rec(V("i")),)),), STR, ["", " ", "\n", "a"])
    yield P((("forin", "i", o(1), (("if", ((("bin", "==", V("i"), o(2)), (("continue",),)),), None), rec(V("i")))),), STR[::2], ["a", " ", "é", "\n"])


def for_packages():
    for k in range(len(LAYOUTS)):
        yield P((("forin", "p", SP, (rec(V("p")), ("=", "last", V("p")), ("forin", "f", V("p"), (rec(V("f")),)))), m(1)), packages=LAYOUTS[k])
        yield P((("forin", "p", SP, (("forin", "q", SP, (("if", ((("bin", "==", V("p"), V("q")), (rec(V("q")),)),), None),)),)),), packages=LAYOUTS[k][:20])


def for_ranges():
    for by in (1, -1, 2, -3, 2**31, 2**53, -2**53, 10**30):
        for d in (-1, 0, 1, 2, 3):
            for more in (0, 1, -1):
                yield P((("=", "a", o(1)), ("for", "i", V("a"), ("bin", "+", V("a"), I(d * by + more) if d * by + more >= 0 else ("neg", I(-(d * by + more)))), I(by) if by >= 0 else ("neg", I(-by)), (rec(V("i")),)), m(1)),
                        [x for x in HUGE if abs(d * by + more) <= 5 * abs(by)])
    for k in range(3):
        h = [I(1), I(2), I(1)]
        h[k] = o(1)
        yield P((("if", ((("b", True), (("for", "i", h[0], h[1], h[2], (rec(V("i")), ("if", ((("bin", ">", ("call", "len", (V("t"),)), I(9)), (("break",),)),), None))),)),), None), m(1)), [v for v in SOME + [2.0, "2", 2**31] if k or v is not True and v is not False])


A = ((S("A"), S(""), S("")),)


def menus():
    for kind in ("SelectOne", "SelectMany"):
        yield P((("sel", kind, o(1), A, ((S("A"), (m(1),)),), None),), ALL)
        yield P((("sel", kind, S("d"), ((o(1), S("t"), S("")), (S("B"), S(""), S(""))), ((o(1), (m(1), ("break",))), (S("B"), (m(2), ("break",)))), (m(3),)),), STR + [1, True, SP], STR[:1] + [1])
        yield P((("sel", kind, S("d"), ((S("A"), o(1), S("")), (S("|B"), S(""), S(""))), ((S("A"), (m(1), ("break",))),), (m(3),)),), STR)
        yield P((("sel", kind, S("d"), ((S("A"), S("t"), o(1)), (S("|B"), S(""), S(""))), ((S("A"), (m(1), ("break",))),), (m(3),)),), STR)
        yield P((("=", "x", o(1)), ("=", "y", o(2)), ("sel", kind, V("x"), ((V("x"), V("x"), V("x")), (V("y"), V("y"), V("y"))), ((V("y"), (m(1), ("break",))), (V("x"), (m(2), ("break",)))), (m(3),))), STR, STR[::6])
        yield P((("=", "x", o(1)), ("sel", kind, S("d"), ((V("x"), S(""), S("")), (S("B"), S(""), S(""))), ((o(2), (m(1), ("break",))),), (m(3),))), ["a", "é", "|a", " ", "ß", "", "B"], STR)
        yield P((("=", "x", o(1)), ("sel", kind, S("d"), ((("bin", "+", S("|"), V("x")), S(""), S("")), (S("B"), S(""), S(""))), ((V("x"), (m(1), ("break",))),), (m(3),))), STR)


def execs():
    for x in STR:
        yield P((("exec", (("=", "x", S(x)), ("=", "l", ("call", "len", (V("x"),))))), m(1)))
        yield P((("exec", (("exec", (("=", "x", ("sq", x)), m(2))),)), m(1)))
        if "\n" not in x and "\r" not in x and "\u2028" not in x:
            yield P((("execx", lambda text, x=x: ("bin", "+", S("; %s\n" % x), S(text)), (m(1),)), m(2)))


def binary():
    n2 = [x for x in NUM + BOOLS]
    for op in ("+", "-", "*", "/", "%", "==", "!=", "<", "<=", ">", ">="):
        yield P((("=", "x", ("bin", op, o(1), o(2))),), n2, n2)
        if op[0] not in "=!<>":
            yield P((("=", "x", o(1)), ("op=", "x", op + "=", o(2))), n2, n2[::2])
    yield P((("=", "x", ("bin", "^", o(1), o(2))),), [x for x in n2 if abs(x) < 2**33 or isinstance(x, float)], [-2, -1, 0, 1, 2, 3, 0.0, 0.5, -0.5, 1.0, 2.5, True, False, math.inf, math.nan])
    yield P((("=", "x", o(1)), ("op=", "x", "^=", o(2))), [x for x in n2 if abs(x) < 2**33 or isinstance(x, float)], [-1, 0, 2, 0.5, True])
    for op in ("+", "==", "!=", "<", "<=", ">", ">=", "==:", "!=:", "<:", "<=:", ">:", ">=:"):
        yield P((("=", "x", ("bin", op, o(1), o(2))),), STR, STR)
    yield P((("=", "x", o(1)), ("op=", "x", "+=", o(2)), ("=", "y", ("call", "len", (V("x"),)))), STR, STR[::3])
    for op in ("==", "!="):
        yield P((("=", "x", ("bin", op, o(1), o(2))),), ALL[:-1], SOME)
    for e in (("neg", o(1)), ("not", o(1)), ("bang", o(1)), ("neg", ("neg", o(1))), ("par", o(1)), o(1)):
        yield P((("=", "x", e), ("=", "y", V("x"))), [v for v in ALL if v != ("void",)])
    for k in ("++", "--"):
        for w in ("pre", "post"):
            yield P((("=", "x", o(1)), ("=", "y", (w, k, "x")), ("E", (w, k, "x"))), NUM + BOOLS)


def membership():
    for op in ("in", "in:"):
        for k in range(len(LAYOUTS)):
            yield P((("=", "x", ("bin", op, o(1), SP)),), NAMES, packages=LAYOUTS[k])
            yield P((("=", "x", ("bin", op, o(1), ("idx", SP, I(0)))), ("=", "y", ("bin", op, o(1), ("idx", SP, ("neg", I(1)))))), NAMES[k % 2::2], packages=LAYOUTS[k])
            yield P((("=", "x", ("bin", op, o(1), SP)), ("=", "y", ("bin", "==", o(1), S("a")))), [("P", j) for j in range(min(len(LAYOUTS[k]), 12))], packages=LAYOUTS[k])
    for k in range(len(LAYOUTS)):
        j = [("P", j) for j in range(min(len(LAYOUTS[k]), 40))]
        for op in ("==", "!="):
            yield P((("=", "x", ("bin", op, o(1), o(2))),), j, STR + j, packages=LAYOUTS[k])
            yield P((("=", "x", ("bin", op, o(2), o(1))),), j, STR, packages=LAYOUTS[k])


def mixed():
    for op in ("+", "-", "*", "/", "%", "<", ">=", "<:", "==:", "in", "in:"):
        yield P((("if", ((("b", True), (("=", "x", ("bin", op, o(1), o(2))), m(1))),), None),), STR, [0, 1, 2, 1.5, True, SP, ("P", 0), ("void",)])
        yield P((("if", ((("b", True), (("=", "x", ("bin", op, o(1), o(2))), m(1))),), None),), NUM + BOOLS + OTHER, ["", "a", "%d", "1", " "] + OTHER)
        if op in ("+", "-", "*", "/", "%"):
            yield P((("=", "x", o(1)), ("if", ((("b", True), (("op=", "x", op + "=", o(2)), m(1))),), None)), STR[::2], [0, 1, 2.5, True, ("P", 0)])
            yield P((("=", "x", o(1)), ("if", ((("b", True), (("op=", "x", op + "=", o(2)), m(1))),), None)), NUM[::2], ["", "a", "%s", "1", SP])
    yield P((("=", "x", ("neg", o(1))),), STR + BOOLS + OTHER)
    for k in ("++", "--"):
        yield P((("=", "x", o(1)), ("if", ((("b", True), (("E", ("pre", k, "x")),)),), None)), STR + OTHER)


IDX = [0, 1, -1, 2, -2, 5, -5, 2**31, -2**63, 10**30, -10**30, True, 1.0, 0.5, "0", "", math.nan, SP]


def indexes():
    yield P((("if", ((("b", True), (("=", "x", ("idx", o(1), o(2))), m(1))),), None),), STR + [SP, ("P", 0), 0, 1.5], IDX)
    packs = [(x, []) for x in STR]
    yield P((("if", ((("b", True), (("=", "x", ("idx", o(1), o(2))), m(1))),), None),), [("P", j) for j in range(len(packs))], [0, 1, -1, 2, -2, 5, -5], packages=packs)
    w = [x for x in STR if len(x) < 5]
    yield P((("if", ((("b", True), (("=", "x", ("sl", o(1), o(2), None, None, False)), m(1))),), None),), STR + [SP, ("P", 0), 0], IDX)
    yield P((("if", ((("b", True), (("=", "x", ("sl", o(1), None, o(2), None, False)), m(1))),), None),), STR, IDX)
    yield P((("if", ((("b", True), (("=", "x", ("sl", o(1), None, None, o(2), True)), m(1))),), None),), STR, IDX)
    yield P((("if", ((("b", True), (("=", "x", ("sl", o(1), o(2), o(3), None, True)), m(1))),), None),), w, IDX[:14], [0, 1, -1, 2**63, "a"])
    yield P((("if", ((("b", True), (("=", "x", ("sl", o(1), o(2), o(3), o(4), True)), m(1))),), None),), ["", "a", "éa", "ab\n", "aba", 0], [0, -1, 2**63, -2**63, 1.5], [0, -1, 2**63, -2**63, ""], [1, -1, 2, 0, 2**64, -2**64, 1.0])


def literals():
    """Each string written as a literal: quoted, and as it is."""
    for x in STR:
        for q in ("s", "sq"):
            yield P((("=", "x", (q, x)), ("=", "l", ("call", "len", ((q, x),))), ("=", "y", ("bin", "+", (q, x), (q, x))), ("=", "e", ("bin", "==", V("x"), o(1)))), [x])
            yield P((("kw", "Note", ((q, x),)), ("cancel", (q, x))))
        for q in "\"'":
            if q not in x and "\\" not in x:
                yield P((("=", "x", ("raw", q + x + q, x)), ("=", "l", ("call", "len", (V("x"),)))))
                yield P((("=", "x", ("raw", q + x + q, x)), ("=", "y", ("raw", q + "b" + x + "b" + q, "b" + x + "b")), ("=", "z", ("bin", "+", V("x"), V("y")))))


UNARY = ["str", "int", "float", "len", "lower"]


def functions():
    for f in UNARY:
        yield P((("if", ((("b", True), (("=", "x", ("call", f, (o(1),))), m(1))),), None),), [v for v in ALL if v != ("void",) or f != "str"])
        yield P((("if", ((("b", True), (("=", "x", ("meth", o(1), f, ())), m(1))),), None),), [v for v in ALL if v != ("void",) or f != "str"])
        for g in UNARY:
            yield P((("if", ((("b", True), (("=", "x", ("call", g, (("call", f, (o(1),)),))), m(1))),), None),), ALL[:-1])


def searches():
    for f in ("startswith", "endswith", "find", "rfind"):
        yield P((("=", "x", ("call", f, (o(1), o(2)))),), STR, STR)
        yield P((("=", "x", ("meth", o(1), f, (o(2),))),), STR[::2], STR[1::3] + [1, SP])
        yield P((("=", "x", ("call", f, (("bin", "+", o(1), o(2)), o(1)))), ("=", "y", ("call", f, (("bin", "+", o(2), o(1)), o(1))))), STR, STR[::9])
    for f in ("find", "rfind"):
        yield P((("=", "x", ("call", f, (o(1), o(2), o(3)))),), ["", "aba", "é\ne", "a b a"], ["", "a", "\n", " ", "é"], [0, 1, -1, 3, -3, 2**31, 2**63, -2**63, 10**30, -10**30, True, 1.0])
        yield P((("=", "x", ("call", f, (o(1), S("a"), o(2), o(3)))),), ["", "aba", "xaxax"], [0, 1, -1, -9, 2**63, -10**30], [0, -1, 2, -2, 2**63, -2**63, 10**30, True, 1.5])
    for f in ("startswith", "endswith"):
        yield P((("=", "x", ("call", f, (o(1), o(2), o(3)))),), STR, ["", "a", "\n", " "], ["é", "b", 1])


def picks():
    for k, layout in enumerate(map(distinct, LAYOUTS)):
        names = sorted({n for n, _ in layout} | set(NAMES[k % 3::3]) | {n.upper() for n, _ in layout} | {n.strip() for n, _ in layout} | {n + " " for n, _ in layout})
        files = sorted({f for _, fs in layout for f in fs} | {f.rsplit("/", 1)[-1] for _, fs in layout for f in fs} | set(NAMES[k % 3::3]))
        for kw, doms in (("SelectSubPackage", names), ("SelectPlugin", files)):
            yield P((("kw", kw, (o(1),)), m(1)), doms, packages=layout)
            yield P((("kw", kw, (o(1),)), ("kw", "De" + kw, (o(2),)), ("kw", "SelectAllPlugins", ())), doms, doms[::8], packages=layout)
            yield P((("kw", "SelectAll", ()), ("kw", "De" + kw, (o(1),))), doms, packages=layout)
            yield P((("kw", "SelectAll", ()), ("kw", "De" + kw, (o(1),)), ("kw", kw, (o(1),))), doms[::2], packages=layout)
        yield P((("kw", "SelectAll", ()),), packages=layout)
        yield P((("forin", "p", SP, (("kw", "SelectSubPackage", (("call", "str", (V("p"),)),)), ("forin", "f", V("p"), (("kw", "SelectPlugin", (V("f"),)),)))),), packages=layout)


def notes():
    for e in (o(1), ("bin", "+", o(1), S("")), ("call", "str", (o(1),))):
        yield P((("kw", "Note", (e,)), m(1)), STR if e[0] == "bin" else [v for v in ALL if v != ("void",)])
    yield P((("kw", "Note", (o(1),)), ("kw", "Note", (o(2),)), ("kw", "Note", (o(1),))), STR[::2], STR[::7])


def renames():
    n = sorted(set(NAMES))
    yield P((("kw", "RenamePlugin", (o(1), S("n.esp"))),), n)
    yield P((("kw", "RenamePlugin", (S("o.esp"), o(1))),), n)
    yield P((("kw", "RenamePlugin", (o(1), o(2))), ("kw", "RenamePlugin", (o(2), o(1)))), n[::2], n[1::9])
    yield P((("kw", "RenamePlugin", (o(1), S("n.esp"))), ("kw", "ResetPluginName", (o(2),))), n[::2], n[::5])
    yield P((("kw", "RenamePlugin", (o(1), o(1))), ("kw", "RenamePlugin", (S("k"), o(1)))), n)


def tweaks():
    for k in range(3):
        a = [S("f.ini"), S("s"), S("k")]
        a[k] = o(1)
        yield P((("E", ("call", "DisableINILine", tuple(a))),), STR)
    for k in range(5):
        a = [S("f.ini"), S("s"), S("k"), S("v"), S("c")]
        a[k] = o(1)
        yield P((("E", ("call", "EditINI", tuple(a))),), [v for v in ALL if v not in OTHER] if k == 3 else STR)
    yield P((("E", ("call", "EditINI", (o(1), o(2), o(1), o(2)))), ("E", ("call", "DisableINILine", (o(2), o(1), o(2)))), ("E", ("call", "EditINI", (o(1), o(2), S("x"), o(1), o(2))))), STR, STR[::12])


def names_of_variables():
    for n in ("a", "A", "_", "a1", "a_b", "T1", "iff", "Endif", "EndI", "notx", "andy", "orx", "inx", "byx", "tox", "fromx", "Cases", "Notes", "SelectA", "Break1", "x" * 64, "Truex", "false", "none", "SubPackage", "EXEC", "self",
              "Exec1", "state", "visit", "value"):
        yield P((rec(V(n)), ("=", n, o(1)), rec(V(n)), ("op=", n, "+=", o(1)), ("=", n + "_", V(n)), ("=", "x", V(n.swapcase() + "0"))), ["a", 1, 0.5])


def missing():
    for k in (0, 1, 4):
        for kw in ("SelectSubPackage", "SelectPlugin"):
            yield P((("kw", kw, (o(1),)), ("kw", kw, (o(1),)), m(1)), NAMES, packages=distinct(LAYOUTS[k]))
    for kw in ("SelectSubPackage", "SelectPlugin", "DeSelectSubPackage", "DeSelectPlugin"):
        for packages in ([], [("P", [])]):
            yield P((("kw", kw, (o(1),)), ("kw", kw, (o(1),)), m(1)), NAMES[::4], packages=packages)


MIXED = {"mixed1": {"unset": "error", "note": "allow", "subpackage": "warning", "plugin": "error", "defaults": "allow"},
         "mixed2": {"unset": "allow", "note": "error", "subpackage": "error", "plugin": "warning", "defaults": "error"}}


# name -> (property, places)
FAMILIES = {
    "truth": ("01", truth), "ends": ("01", ends), "for": ("02", for_values), "for packages": ("02", for_packages), "for ranges": ("02", for_ranges), "menus": ("03 13", menus), "exec": ("04", execs),
    "operators": ("06", binary), "membership": ("06", membership), "mixed": ("07", mixed), "indexes": ("07 08", indexes), "literals": ("08", literals), "functions": ("09", functions),
    "searches": ("09", searches), "picks": ("11", picks), "notes": ("12 13", notes), "renames": ("12", renames), "tweaks": ("12", tweaks), "variables": ("15", names_of_variables), "missing": ("15 13", missing),
    "ends ": ("13", ends), "notes ": ("15", notes),
}
RULE = "every value of a corpus of %d strings, %d numbers, %d file names and %d lists of packages at every place of a value in the constructs of this property (pairs of them where two values meet)" % (
    len(STR), len(NUM), len(FILES), len(LAYOUTS))


def cases(prop, thorough=False):
    for name, (props, fn) in FAMILIES.items():
        if prop in props.split():
            for i, (body, doms, packages) in enumerate(fn()):
                first = len(doms[0]) if doms else 1
                size = 1
                for d in doms[1:]:
                    size *= len(d)
                n = max(1, 3000 // size)
                for k in range(0, first, n):
                    if prop == "15":
                        for s in ("allow", "warning", "error", "mixed1", "mixed2"):
                            yield ("corpus", name, i, k, k + n, s == "warning", s)
                    else:
                        yield ("corpus", name, i, k, k + n, prop == "13", None)


_places = {}


def place(name, i):
    if name not in _places:
        _places[name] = list(FAMILIES[name][1]())
    return _places[name][i]


def check(case, st):
    from . import common, lang, ref
    from .explore import all_choices
    from .runner import RunnerBench

    _, name, i, a, b, runner, severity = case
    body, doms, packages = place(name, i)
    prog = lang.compile_((("=", "t", S("")),) + body)
    st.sample(prog.text[:400], 1)
    world = ref.World(packages=LAYOUTS[0][:1] + [("Q", ["a.esp"])] if packages is None else packages,
                      default_severity="warning" if severity in MIXED else severity or "warning", severity=MIXED.get(severity), bound=10**5)
    dom = {"o%d" % (k + 1): d for k, d in enumerate(doms)}
    if doms:
        dom["o1"] = doms[0][a:b]
    if runner:
        bench = RunnerBench(prog, world, dom=dom)
        bench.helper.once = True
        st.c["executions"] += all_choices(lambda ch: bench.pair(ch, st))
    else:
        bench = common.Bench(prog, world, dom=dom)
        bench.once = True
        st.c["executions"] += all_choices(lambda ch: bench.pair(ch, st))
    st.c["places"] += 1
