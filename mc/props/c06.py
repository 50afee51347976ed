"""C06. States: contexts reached; transitions: exec() steps. Every expression tree of two operators (all binary, prefix and postfix
operators, both shapes, minimally and fully parenthesised) is run for every combination of operand values of a mixed domain,
every tree of three operators (one per precedence level, all five shapes) for representative operand tuples, every compound
assignment and increment for every pair of values, and every sequence of assignments up to the length bound; value, type, number and order
of operand evaluations and errors with their position are compared with the reference evaluator."""

from itertools import product

from .. import common, holes, lang, ref, wide, values
from ..explore import all_choices

BOUNDS = {
    "quick": "all trees of 2 operators (23 binary, 3 prefix, 3 postfix) x 9^3 operand values; all trees of 3 operators (15 binary) x 5 "
             "operand tuples; all assignment sequences of <=3 of 12 statements; all places x the corpora of values.py",
    "thorough": "11^3 operand values, 19 binary operators in 3-operator trees, assignment sequences of <=4",
}
CHUNK = 2
BIN = ["+", "-", "*", "/", "%", "^", "<", "<=", ">", ">=", "==", "!=", "<:", "<=:", ">:", ">=:", "==:", "!=:", "and", "or", "&", "|", "in", "in:"]
NUM = ["+", "-", "*", "/", "%", "^"]
UN = ["neg", "not", "bang"]
B3 = ["+", "-", "*", "%", "^", "<", ">", ">=", "==", "!=", "==:", "and", "or", "in", "<="]
D = [0, 2, -1, 3, 0.5, "a", "B", "", True]
DT = D + [False, "ab"]
SPD = [("SP",), ("P", 0), "P", "p", "f", 1]
S = lambda x: ("s", x)  # noqa: E731
o = lambda i: ("call", "o%d" % i, ())  # noqa: E731
PK = [("P", ["f", "G"]), ("Q", [])]


def nodes2():
    """Trees of two operators over the operands o1 o2 o3."""
    for a in BIN:
        for b in BIN:
            yield ("bin", a, ("bin", b, o(1), o(2)), o(3))
            yield ("bin", a, o(1), ("bin", b, o(2), o(3)))
    for u in UN:
        for a in BIN:
            yield (u, ("bin", a, o(1), o(2)))
            yield ("bin", a, (u, o(1)), o(2))
            yield ("bin", a, o(1), (u, o(2)))
        for v in UN:
            yield (u, (v, o(1)))
        for f in POST:
            yield (u, f(o(1)))
            yield f((u, o(1)))
    for f in POST:
        for a in BIN:
            yield f(("bin", a, o(1), o(2)))
            yield ("bin", a, f(o(1)), o(2))
            yield ("bin", a, o(1), f(o(2)))
        for g in POST:
            yield f(g(o(1)))
    for a in BIN:
        yield ("idx", S("abc"), ("bin", a, o(1), o(2)))
        yield ("sl", S("abc"), ("bin", a, o(1), o(2)), o(3), None, False)
        yield ("call", "str", (("bin", a, o(1), o(2)),))


POST = [lambda e: ("idx", e, o(3)), lambda e: ("sl", e, o(3), None, None, False), lambda e: ("meth", e, "str", ())]


def shapes3(a, b, c):
    x, y, z, w = o(1), o(2), o(3), o(4)
    B = lambda op, l, r: ("bin", op, l, r)  # noqa: E731
    yield B(a, B(b, B(c, x, y), z), w)
    yield B(a, B(b, x, B(c, y, z)), w)
    yield B(a, B(b, x, y), B(c, z, w))
    yield B(a, x, B(b, B(c, y, z), w))
    yield B(a, x, B(b, y, B(c, z, w)))


def unary3(u, a, b):
    x, y, z = o(1), o(2), o(3)
    B = lambda op, l, r: ("bin", op, l, r)  # noqa: E731
    yield (u, B(a, B(b, x, y), z))
    yield (u, B(a, x, B(b, y, z)))
    yield B(a, (u, B(b, x, y)), z)
    yield B(a, B(b, (u, x), y), z)
    yield B(a, B(b, x, (u, y)), z)
    yield B(a, B(b, x, y), (u, z))
    yield B(a, (u, x), B(b, y, z))
    yield B(a, x, (u, B(b, y, z)))
    yield B(a, x, B(b, (u, y), z))
    yield B(a, x, B(b, y, (u, z)))


def full(e):
    """Every operand in parentheses."""
    k = e[0]
    if k == "bin":
        return ("bin", e[1], ("par", full(e[2])), ("par", full(e[3])))
    if k in UN:
        return (k, ("par", full(e[1])))
    if k in ("idx", "sl"):
        return (k, ("par", full(e[1]))) + e[2:]
    if k == "meth":
        return (k, ("par", full(e[1]))) + e[2:]
    return e


TUPLES3 = [(2, 3, 5, 7), (3, 0.5, -2, 2), ("a", "B", "b", "a"), (True, 0, 2, 0), ("P", "p", ("SP",), ("P", 0)), (0, 0, 1, 3), ("f", ("P", 0), 1, "f")]
ASSIGN = [
    ("=", "x", ("i", 1)), ("=", "x", S("s")), ("=", "y", ("v", "x")), ("=", "x", ("v", "y")), ("=", "X", ("i", 9)),
    ("op=", "x", "+=", ("i", 2)), ("op=", "x", "-=", ("v", "y")), ("if", ((("b", True), (("E", ("pre", "++", "x")),)),), None), ("if", ((("b", True), (("E", ("post", "--", "y")),)),), None),
    ("=", "x", ("bin", "+", ("v", "x"), ("v", "x"))), ("=", "y", ("pre", "--", "x")), ("op=", "y", "*=", ("v", "y")),
]


def cases(tier):
    yield from values.cases("06", tier == "thorough")
    t = tier == "thorough"
    yield from holes.cases("06")
    yield from wide.cases("06", tier == "thorough")
    for i, e in enumerate(nodes2()):
        yield ("tree", e, 1 if t else 0)
    for a in BIN:
        yield ("one", ("bin", a, o(1), o(2)))
    for u in UN:
        yield ("one", (u, o(1)))
    b3 = B3 + ["/", "!=:", ">=:", "in:"] if t else B3
    for a in b3:
        for b in b3:
            for c in b3:
                yield ("tree3", a, b, c)
            for u in UN:
                yield ("unary3", u, a, b)
    for op in NUM:
        for i in range(len(RHS)):
            yield ("compound", op, i)
    for k in range(len(INC)):
        yield ("inc", k)
    for n in (1, 2, 3, 4) if t else (1, 2, 3):
        for seq in product(range(len(ASSIGN)), repeat=n):
            if n < 3 or len(set(seq)) == n:
                yield ("assign", seq)
    yield ("literals",)
    for n in range(len(PKS)):
        for i in range(len(PKE)):
            yield ("packages", n, i)
    for e in MIXED:
        yield ("lit", e)


# right hand sides of compound assignments: x op= rhs must be x = x op (rhs)
RHS = [o(2), ("bin", "+", o(2), o(3)), ("bin", "-", o(2), o(3)), ("bin", "*", o(2), o(3)), ("neg", o(2)), ("par", o(2)), ("bin", "or", o(2), o(3)),
       ("bin", "==", o(2), o(3)), ("v", "x"), ("bin", "+", ("v", "x"), o(2)), ("pre", "++", "x"), ("bin", "^", o(2), o(3))]
INC = [("E", ("pre", "++", "x")), ("E", ("pre", "--", "x")), ("E", ("post", "++", "x")), ("E", ("post", "--", "x")),
       ("=", "y", ("pre", "++", "x")), ("=", "y", ("pre", "--", "x")), ("=", "y", ("bin", "+", ("pre", "++", "x"), ("v", "x"))),
       ("=", "y", ("bin", "-", ("v", "x"), ("pre", "--", "x"))), ("=", "y", ("bin", "*", ("pre", "++", "x"), ("pre", "++", "x"))),
       ("=", "y", ("bin", "+", ("v", "x"), ("neg", ("v", "x")))), ("=", "y", ("neg", ("pre", "--", "x"))), ("=", "y", ("not", ("pre", "--", "x"))),
       ("=", "x", ("pre", "++", "x")), ("op=", "x", "+=", ("pre", "++", "x")), ("E", ("pre", "++", "u")), ("E", ("post", "--", "u")), ("op=", "u", "+=", ("i", 1))]
_t, _f, V_ = ("b", True), ("b", False), ("v", "x")
MIXED = [
    ("bin", "+", ("d", "0.1"), ("d", "0.2")), ("bin", "^", ("i", 2), ("d", "0.5")), ("bin", "^", ("i", 2), ("i", 10)), ("bin", "^", ("i", 2), ("neg", ("i", 1))),
    ("bin", "/", ("i", 7), ("i", 2)), ("bin", "/", ("i", 4), ("i", 2)), ("bin", "%", ("neg", ("i", 7)), ("i", 3)), ("bin", "%", ("d", "7.5"), ("i", 2)),
    ("bin", "%", ("i", 7), ("neg", ("i", 3))), ("bin", "*", ("i", 123456789), ("i", 987654321)), ("bin", "-", ("i", 0), ("i", 0)), ("d", "0.0"), ("d", "10.25"),
    ("i", 12345678901234567890), ("bin", "<:", S("a"), S("B")), ("bin", ">:", S("É"), S("é")), ("bin", "==:", S("ÀÉ"), S("àé")), ("bin", "==:", S("ß"), S("SS")),
    ("bin", "<", S("a"), S("B")), ("bin", "==", S("a"), S("A")), ("bin", "+", S("é"), S("\n")), ("bin", "and", _t, _f), ("bin", "or", S(""), ("i", 0)),
    ("bin", "and", S("x"), ("i", 3)), ("bin", "or", S("x"), ("i", 3)), ("bin", "and", ("SP",), _t), ("not", ("SP",)), ("not", S("")), ("bin", "==", ("SP",), ("SP",)),
    ("bin", "!=", ("idx", ("SP",), ("i", 0)), S("p")), ("bin", "==", S("p"), ("idx", ("SP",), ("i", 0))), ("bin", "in", S("P"), ("SP",)), ("bin", "in:", S("p"), ("SP",)),
    ("bin", "in", S("p"), ("SP",)), ("bin", "in:", S("F"), ("idx", ("SP",), ("i", 0))), ("bin", "in", S("F"), ("idx", ("SP",), ("i", 0))),
    ("bin", "in", ("idx", ("SP",), ("i", 1)), ("SP",)), ("bin", "==", _t, _t), ("bin", "!=", _t, _f), ("bin", "+", ("i", 9007199254740993), ("i", 0)),
    ("bin", "==", ("i", 9007199254740993), ("i", 9007199254740992)), ("bin", "^", ("i", 3), ("i", 40)), ("bin", "-", ("d", "1.0"), ("i", 1)),
    ("bin", "/", ("i", 1), ("i", 3)), ("bin", "*", ("d", "1.5"), ("i", 2)),
]


# lists of sub-packages, and every way to look at them
PKS = [[], [("P", [])], [("P", ["f", "G"]), ("Q", [])], [("q", ["x"]), ("P", []), ("a b", ["P"])]]
_SP = ("SP",)
PKE = [_SP, ("not", _SP), ("bang", _SP), ("bin", "and", _SP, _t), ("bin", "or", _SP, _f), ("bin", "or", _SP, _SP), ("bin", "==", _SP, _SP), ("bin", "!=", _SP, _SP),
       ("bin", "in", S("P"), _SP), ("bin", "in:", S("p"), _SP), ("idx", _SP, ("i", 0)), ("idx", _SP, ("neg", ("i", 1))), ("call", "len", (_SP,)), ("bin", "+", _SP, _SP), ("neg", _SP),
       ("bin", "==", ("idx", _SP, ("i", 0)), S("p")), ("bin", "==", _SP, S("")), ("bin", "==", _SP, ("i", 0)), ("bin", "==", _SP, _f), ("bin", "<", _SP, ("i", 1)), ("sl", _SP, ("i", 0), None, None, False)]


def run(e, dom, st, tuples=None, pk=None):
    body = (("=", "r", e),) if not isinstance(e[0], tuple) else e
    prog = lang.compile_(body)
    st.sample(prog.text)
    world = ref.World(packages=PK if pk is None else pk)
    names = {"o%d" % i for i in (1, 2, 3, 4) if "o%d()" % i in prog.text}
    n = 0
    if tuples is None:
        bench = common.Bench(prog, world, dom={k: dom for k in names})
        n += all_choices(lambda ch: bench.pair(ch, st))
    else:
        bench = common.Bench(prog, world, dom={k: None for k in names})
        for t in tuples:
            bench.dom = {k: [t[int(k[1]) - 1]] for k in names}
            n += all_choices(lambda ch: bench.pair(ch, st))
    st.c["programs"] += 1
    st.c["executions"] += n


def has_in(e):
    return isinstance(e, tuple) and (e[:1] == ("bin",) and e[1] in ("in", "in:") or any(has_in(x) for x in e))


def check(case, st):
    if case[0] == "corpus":
        return values.check(case, st)
    kind = case[0]
    if kind == "hole":
        return holes.check(case, st)
    if case[0] == "wide":
        return wide.check(case, st)
    if kind == "tree":
        _, e, big = case
        run(e, DT if big else D, st)
        if has_in(e):
            run(e, SPD, st)
        run(full(e), [0, 2, "a", True], st)
    elif kind == "one":
        run(case[1], D + ["A", "É", "é", "b", "ab", 1, 1.0, False, -0.5, 100, ("SP",), ("P", 0), ("P", 1), "p", "P"], st)
    elif kind == "tree3":
        _, a, b, c = case
        for e in shapes3(a, b, c):
            run(e, None, st, TUPLES3 if "in" in (a, b, c) else TUPLES3[:4] + TUPLES3[5:6])
    elif kind == "unary3":
        for e in unary3(*case[1:]):
            run(e, None, st, [t[1:] for t in TUPLES3] + [(2, 3, 5), (0, 0, 0), (2, 0, 1)])
    elif kind == "compound":
        _, op, i = case
        rhs = RHS[i]
        d = [0, 2, -1, 0.5, "a", "", True]
        run((("=", "x", o(1)), ("op=", "x", op + "=", rhs)), d, st)
        run((("=", "x", o(1)), ("=", "x", ("bin", op, ("v", "x"), ("par", rhs)))), d, st)
    elif kind == "inc":
        run((("=", "x", o(1)), INC[case[1]]), D + [-1, 10, False, 1.5, ("SP",), ("P", 0)], st)
    elif kind == "assign":
        run((("=", "y", ("i", 5)),) + tuple(ASSIGN[i] for i in case[1]), None, st, [()])
    elif kind == "literals":
        lits = [("i", 0), ("i", 7), ("i", 10**20), ("d", "0.0"), ("d", "1.5"), ("d", "12.125"), ("d", "100.001"), ("raw", "007", 7), ("raw", "010", 10), ("raw", "00", 0), ("raw", "0123456789", 123456789), ("raw", "1.50", 1.5), ("raw", "007.250", 7.25),
                ("raw", "0.10", 0.1), ("raw", "00.0", 0.0), ("raw", "09.5", 9.5), ("b", True), ("b", False), ("SP",), S(""), S("x")]
        for x in lits:
            for e in (x, ("par", x), ("par", ("par", x)), ("neg", x), ("not", x), ("par", ("neg", ("par", x)))):
                run(e, None, st, [()])
    elif kind == "packages":
        e = PKE[case[2]]
        run(e, None, st, [()], PKS[case[1]])
        x = ("=", "x", _SP)
        over = lambda e: tuple(V_ if y == _SP else over(y) if isinstance(y, tuple) else y for y in e) if e != _SP else V_  # noqa: E731
        run((x, ("=", "r", over(e)), ("if", ((over(e), (("=", "y", ("i", 1)),)),), (("=", "y", ("i", 2)),)), ("=", "k", ("i", 0)),
             ("while", ("bin", "and", ("bin", "<", ("pre", "++", "k"), ("i", 3)), e), (("=", "z", ("v", "k")),))), None, st, [()], PKS[case[1]])
    elif kind == "lit":
        e = case[1]
        run(e, None, st, [()])
        run(full(e), None, st, [()])
        run((("if", ((e, (("=", "r", ("i", 1)),)),), (("=", "r", ("i", 2)),)),), None, st, [()])
