"""C07. States: contexts reached; transitions: exec() steps. (1) every operator, built-in function, method, index, slice and compound
assignment on every combination of operand types (and boundary values); (2) every failing construct at every expression
position of every statement, inside every nesting of blocks up to depth 2; the class, line and column of the error, its
text, and the state before the failing step are compared with the reference interpreter, by stepping and with the callback runner."""

from .. import common, holes, impl, lang, ref, values
from ..explore import all_choices
from ..runner import RunnerBench

BOUNDS = {
    "quick": "24 binary, 3 prefix operators, 6 compound assignments, 9 functions with <=4 arguments in both call forms, index and slice x 7 types "
             "(12 values); 34 failing constructs x 46 positions at 2 nestings, 34 x 3 positions x 20 nestings of depth <= 2; all places x the corpora of values.py",
    "thorough": "34 failing constructs x 46 positions x 20 nestings",
}
CHUNK = 2
S = lambda x: ("s", x)  # noqa: E731
V = lambda x: ("v", x)  # noqa: E731
o = lambda i: ("call", "o%d" % i, ())  # noqa: E731
m = lambda k: ("op=", "t", "+=", ("call", "m%d" % k, ()))  # noqa: E731
PK = [("P", ["f.esp", "G"]), ("Q", [])]
SP = ("SP",)
VALS = [0, 1, -3, 2.5, "", "ab", "7", True, False, SP, ("P", 0), ("void",)]
TYPES = [2, 0, 1.5, "ab", True, SP, ("P", 0), ("void",)]
BIN = ["+", "-", "*", "/", "%", "^", "<", "<=", ">", ">=", "<:", "<=:", ">:", ">=:", "==:", "!=:", "and", "or", "in", "in:"]
CMP = ["==", "!="]
FUN = ["str", "int", "float", "len", "lower", "startswith", "endswith", "find", "rfind"]

# failing constructs (the variable n is 1, s is "abc", u is not set; a is incremented by some before they fail)
FAIL = [
    ("bin", "+", ("i", 1), S("a")), ("bin", "-", S("b"), S("a")), ("bin", "*", SP, ("i", 2)), ("bin", "/", V("n"), ("i", 0)), ("bin", "%", V("n"), ("i", 0)),
    ("bin", "^", ("i", 0), ("neg", ("i", 1))), ("bin", "^", ("neg", ("i", 8)), ("d", "0.5")), ("bin", "<", S("a"), ("i", 1)), ("bin", ">=", SP, SP),
    ("bin", "==:", ("i", 1), S("a")), ("bin", "in", S("a"), S("abc")), ("bin", "in:", ("i", 1), SP), ("neg", S("a")), ("neg", ("b", True)),
    ("idx", V("s"), ("i", 3)), ("idx", V("s"), ("neg", ("i", 4))), ("idx", SP, ("i", 2)), ("idx", V("n"), ("i", 0)), ("idx", V("s"), S("a")),
    ("sl", V("n"), ("i", 0), None, None, False), ("sl", V("s"), S("a"), None, None, False), ("sl", V("s"), None, None, ("i", 0), True),
    ("call", "nofunc", ()), ("call", "nofunc", (("pre", "++", "a"),)), ("call", "len", ()), ("call", "len", (S("a"), S("b"))), ("call", "int", (S("x"),)),
    ("call", "float", (S("1,5"),)), ("meth", V("n"), "len", ()), ("meth", V("s"), "nomethod", ()), ("meth", V("s"), "find", ()),
    ("pre", "++", "u"), ("post", "--", "u"), ("bin", "+", ("pre", "++", "a"), S("x")),
    ("bin", "==", ("idx", SP, ("i", 0)), ("i", 1)), ("call", "Exec", (S("n = 2"),)), ("bin", "/", ("d", "1.5"), ("d", "0.0")), ("pre", "++", "s"),
]
# positions of an expression
EXPR = [
    lambda e: e, lambda e: ("par", e), lambda e: ("bin", "+", e, ("i", 1)), lambda e: ("bin", "-", ("i", 1), e), lambda e: ("bin", "and", ("b", False), e),
    lambda e: ("bin", "or", ("b", True), e), lambda e: ("bin", "==", e, e), lambda e: ("not", e), lambda e: ("neg", e), lambda e: ("call", "str", (e,)),
    lambda e: ("call", "startswith", (S("a"), S("b"), e)), lambda e: ("meth", S("a"), "startswith", (e,)), lambda e: ("meth", ("par", e), "str", ()),
    lambda e: ("idx", S("abc"), e), lambda e: ("idx", ("par", e), ("i", 0)), lambda e: ("sl", S("abc"), e, None, None, False), lambda e: ("sl", S("abc"), None, e, None, True),
    lambda e: ("sl", S("abc"), ("i", 0), ("i", 1), e, True), lambda e: ("bin", "in", e, SP), lambda e: ("bin", "in", S("a"), e), lambda e: ("bin", "^", ("i", 2), e),
    lambda e: ("bin", ">", ("pre", "++", "a"), e),
]
A = ((S("A"), S(""), S("")),)
CS = ((S("A"), (m(30),)),)
# positions of an expression in a statement
STMT = [
    lambda e: ("=", "r", e), lambda e: ("op=", "n", "+=", e), lambda e: ("op=", "u", "+=", e), lambda e: ("if", ((e, (m(20),)),), None),
    lambda e: ("if", ((("b", False), (m(20),)), (e, (m(21),))), (m(22),)), lambda e: ("while", e, (m(20),)),
    lambda e: ("while", ("bin", "and", ("call", "w1", ()), e), (m(20),)), lambda e: ("for", "i", e, ("i", 2), None, (m(20),)),
    lambda e: ("for", "i", ("i", 1), e, None, (m(20),)), lambda e: ("for", "i", ("i", 1), ("i", 2), e, (m(20),)), lambda e: ("forin", "i", e, (m(20),)),
    lambda e: ("sel", "SelectOne", e, A, CS, None), lambda e: ("sel", "SelectMany", S("d"), ((e, S(""), S("")),), CS, None),
    lambda e: ("sel", "SelectOne", S("d"), A + ((S("B"), e, S("")),), CS, None), lambda e: ("sel", "SelectMany", S("d"), A + ((S("B"), S(""), e),), CS, None),
    lambda e: ("sel", "SelectOne", S("d"), A, ((e, (m(30),)),), None), lambda e: ("sel", "SelectMany", S("d"), A, CS + ((e, (m(31),)),), (m(32),)),
    lambda e: ("cancel", e), lambda e: ("kw", "Note", (e,)), lambda e: ("kw", "SelectPlugin", (e,)), lambda e: ("kw", "RenamePlugin", (S("a"), e)),
    lambda e: ("kw", "RequireVersions", (S("1"), S(""), e)), lambda e: ("E", ("call", "EditINI", (S("f"), S("s"), S("k"), e))), lambda e: ("execbad2", e),
]


def nest(k, x):
    """Block k of nesting around the statements x."""
    b = (m(40),) + x + (m(41),)
    if k == 0:
        return (("if", ((("b", True), b),), None),)
    if k == 1:
        return (("if", ((("b", False), ()), (("b", False), ()),), b),)
    if k == 2:
        return (("while", ("call", "w5", ()), b),)
    if k == 3:
        return (("for", "j", ("i", 1), ("i", 2), None, b),)
    if k == 4:
        return (("sel", "SelectOne", S("d"), A, ((S("A"), b),), None),)
    if k == 5:
        return (("sel", "SelectMany", S("d"), A, (), b),)
    if k == 6:
        return (("if", ((("b", False), ()), (("b", True), b)), ()),)
    return (("exec", b),)


NESTS = [()] + [(i,) for i in range(8)] + [(0, 3), (3, 0), (2, 4), (4, 2), (5, 5), (1, 6), (3, 3), (0, 7), (7, 0), (4, 1), (7, 7)]


def cases(tier):
    yield from values.cases("07", tier == "thorough")
    t = tier == "thorough"
    yield from holes.cases("", None if t else ["top", "elif", "for", "exec for", "case", "while"], bad=True)
    for op in BIN + CMP:
        yield ("bin", op)
    for u in ("neg", "not", "bang"):
        yield ("un", u)
    for op in ("+", "-", "*", "/", "%", "^"):
        yield ("compound", op)
    for f in FUN + ["nofunc", "visitNot", "Value"]:
        for k in range(0, 6):
            yield ("fun", f, k, 0)
            if k:
                yield ("fun", f, k, 1)
    yield ("index",)
    for k in range(8):
        yield ("slice", k)
    for k in ("++", "--"):
        for w in ("pre", "post"):
            yield ("inc", w, k)
    for i in range(len(KEYWORDS)):
        yield ("keyword", i)
    for i in range(len(FAIL)):
        for j in range(len(EXPR)):
            for n in NESTS if t else (NESTS[0], NESTS[1 + (i + j) % 19]):
                yield ("pos", i, j, 0, n)
        for j in range(len(STMT)):
            for n in NESTS if t else (NESTS[0], NESTS[1 + (i + j) % 19]):
                yield ("pos", i, 0, j, n)
        for n in NESTS:
            yield ("pos", i, 2, 3, n)
            yield ("pos", i, 0, 0, n)


KEYWORDS = [(k, n) for k in ref.Ref.KW for n in range(0, 6)]


def run(body, st, dom=None, extra=(), both=False, skip=None):
    prog = lang.compile_(body)
    st.sample(prog.text)
    world = ref.World(packages=PK)
    bench = common.Bench(prog, world, dom=dom)
    n = all_choices(lambda ch: bench.pair(ch, st, watch=True))
    if both:
        b = RunnerBench(prog, world)
        n += all_choices(lambda ch: b.pair(ch, st))
    st.c["programs"] += 1
    st.c["executions"] += n


def one(stmts, st, dom):
    run((("=", "t", S("")), ("=", "x", o(1))) + stmts, st, dom)


def check(case, st):
    if case[0] == "corpus":
        return values.check(case, st)
    kind = case[0]
    if kind == "hole":
        return holes.check(case, st)
    pre = (("=", "t", S("")), ("=", "n", ("i", 1)), ("=", "s", S("abc")), ("=", "a", ("i", 5)))
    if kind == "bin":
        op = case[1]
        vals = VALS if op not in CMP else [v for v in VALS if v != ("void",)]
        run((("=", "t", S("")), ("if", ((("b", True), (("=", "r", ("bin", op, o(1), o(2))), m(1))),), None)), st, {"o1": vals, "o2": vals})
    elif kind == "un":
        run((("=", "t", S("")), ("=", "r", (case[1], o(1))), m(1)), st, {"o1": [v for v in VALS if v != ("void",) or case[1] == "neg"]})
    elif kind == "compound":
        one((("op=", "x", case[1] + "=", o(2)), m(1)), st, {"o1": VALS, "o2": VALS})
    elif kind == "fun":
        _, f, k, meth = case
        vals = VALS if k <= 2 else TYPES if k == 3 else ["ab", 0, SP] if k == 4 else ["a"]
        if f == "str":
            vals = [v for v in vals if v != ("void",)]
        dom = {"o%d" % i: vals for i in range(1, k + 1)}
        if f in ("find", "rfind") and k >= 3:
            dom["o1"] = ["abab", "ab", "", 1, SP]
            dom["o2"] = ["ab", "", 2]
            dom["o3"] = [0, 1, -1, 5, "a", 1.5]
            if k == 4:
                dom["o4"] = [0, 2, -2, 5, "a", 1.5]
        args = tuple(o(i) for i in range(1, k + 1))
        e = ("meth", args[0], f, args[1:]) if meth else ("call", f, args)
        run((("=", "t", S("")), ("=", "r", e), m(1)), st, dom)
    elif kind == "index":
        run((("=", "t", S("")), ("=", "r", ("idx", o(1), o(2))), m(1)), st, {"o1": VALS + ["abc"], "o2": VALS + [2, -2, 5, -1, 1.0, 0.0, -1.0, "1"]})
    elif kind == "slice":
        k = case[1]
        dom = {"o1": TYPES}
        part = [None, None, None]
        for b in range(3):
            if k >> b & 1:
                part[b] = o(b + 2)
                dom["o%d" % (b + 2)] = TYPES + [-1, 1.0]
        run((("=", "t", S("")), ("=", "r", ("sl", o(1), part[0], part[1], part[2], bool(k & 4))), m(1)), st, dom)
    elif kind == "inc":
        _, w, k = case
        one((("if", ((("b", True), (("E", (w, k, "x")),)),), None), m(1)), st, {"o1": VALS})
    elif kind == "keyword":
        k, n = KEYWORDS[case[1]]
        # keywords without any argument take what follows on the next line as their arguments
        args = tuple(S(x) for x in ("P", "f.esp", "1", "2", "3")[:n])
        run(pre + (m(1), ("if", ((("b", True), (("kw", k, args), m(3))),), None), m(2)), st, both=True)
    elif kind == "pos":
        _, i, j, k, ns = case
        e = EXPR[j](FAIL[i])
        if k == 23:
            s = ("execbad", (e,))
        else:
            s = STMT[k](e)
        body = (m(1), s, m(2))
        for b in reversed(ns):
            body = nest(b, body)
        run(pre + (("kw", "Note", (S("before"),)),) + body + (m(3),), st, both=k in (0, 3, 7, 11, 15, 18, 22))
