"""C02. States: contexts reached by the stepping interpreter; transitions: exec() steps. Every loop body shape (loop variable and
header variables overwritten, jumps, nesting in every other construct, re-entry) x every header form is run for every
combination of start, end and step of the range (or every collection) and every answer to its conditions, and each execution is
compared with the reference interpreter: values visited, order, number of header evaluations, final variables, errors
with their position. Also every part of a header x expressions with side effects x 12 constructs around the loop."""

from .. import common, holes, lang, ref, wide, values
from ..explore import all_choices

BOUNDS = {
    "quick": "start, end in -4..4, step in -4..4 (and values of the wrong type) for 22 bodies x 6 headers; strings of <=3 "
             "characters, package lists of <=3 packages with <=2 files; nested ranges over -2..2; all places x the corpora of values.py",
    "thorough": "start, end in -9..9, step in -9..9; strings of <=4 characters; nested ranges over -3..3 with steps",
}
CHUNK = 1


def V(n):
    return ("v", n)


def call(n):
    return ("call", n, ())


def rec(*names):
    """Appends the variables to the trace t."""
    return tuple(("op=", "t", "+=", ("bin", "+", ("call", "str", (V(n),)), ("s", ","))) for n in names)


def m(k):
    return ("op=", "t", "+=", call("m%d" % k))


# bodies: statements run in every iteration; i is the loop variable, a b c the header variables
BODIES = {
    "plain": rec("i"),
    "empty": (),
    "set i": rec("i") + (("=", "i", ("i", 100)),) + rec("i"),
    "step i": rec("i") + (("op=", "i", "+=", ("i", 1)),) + rec("i"),
    "text i": rec("i") + (("=", "i", ("s", "x")),) + rec("i"),
    "set abc": rec("i") + (("=", "a", ("i", 2)), ("=", "b", ("i", 9)), ("=", "c", ("i", 1))),
    "inc b": rec("i") + (("E", ("pre", "++", "b")), ("E", ("post", "--", "a"))),
    "break": rec("i") + (("if", ((call("c1"), (("break",),)),), None),) + rec("i"),
    "continue": rec("i") + (("if", ((call("c1"), (("continue",),)),), None),) + rec("i"),
    "break all": rec("i") + (("break",),),
    "continue all": rec("i") + (("continue",), m(1)),
    "return": rec("i") + (("if", ((call("c1"), (("return",),)),), None),),
    "cancel": rec("i") + (("if", ((call("c1"), (("cancel", ("s", "x")),)),), None),),
    "nested same": rec("i") + (("for", "i", ("i", 5), ("i", 6), None, rec("i")),) + rec("i"),
    "nested": (("for", "j", V("i"), ("i", 2), None, rec("i", "j")),) + rec("j"),
    "nested break": (("for", "j", ("i", 1), ("i", 2), None, rec("i", "j") + (("if", ((call("c1"), (("break",),)),), None),)),) + rec("i"),
    "nested continue": (("for", "j", ("i", 1), ("i", 2), None, (("if", ((call("c1"), (("continue",),)),), None),) + rec("i", "j")),) + rec("i"),
    "nested in": (("forin", "s", ("s", "ab"), rec("i", "s")),) + rec("s"),
    "while": (("=", "k", ("i", 0)), ("while", ("bin", "<", V("k"), ("i", 2)), rec("i", "k") + (("E", ("pre", "++", "k")),))),
    "exec": (("exec", rec("i") + (("=", "i", ("i", 7)),)),) + rec("i"),
    "exec break": rec("i") + (("exec", (("if", ((call("c1"), (("break",),)),), None),)),) + rec("i"),
    "select": (("sel", "SelectOne", ("s", "m"), ((("s", "A"), ("s", ""), ("s", "")), (("s", "B"), ("s", ""), ("s", ""))),
                ((("s", "A"), rec("i") + (("break",),)), (("s", "B"), (("continue",),))), None),) + rec("i"),
}
JUMPY = ("break", "continue", "return", "cancel", "nested break", "nested continue", "exec break", "select")
HEADERS = {
    "calls": (call("lo"), call("hi"), call("inc")),
    "calls, no step": (call("lo"), call("hi"), None),
    "variables": (V("a"), V("b"), V("c")),
    "variables, no step": (V("a"), V("b"), None),
    "computed": (("bin", "+", V("a"), ("i", 0)), ("bin", "*", V("b"), ("i", 1)), ("neg", ("neg", V("c")))),
    "effects": (("bin", "-", ("pre", "++", "a"), ("i", 1)), ("bin", "-", ("pre", "++", "b"), ("i", 1)), ("bin", "-", ("pre", "++", "c"), ("i", 1))),
}
WRONG = [1.0, "1", "", 0.5]
SP = ("SP",)
LAYOUTS = [
    [], [("P", [])], [("P", ["f"])], [("P", ["b", "a"]), ("Q", [])], [("Q", ["x"]), ("P", ["x", "y"]), ("A", ["z"])],
]


def cases(tier):
    yield from values.cases("02", tier == "thorough")
    n = 9 if tier == "thorough" else 4
    for h in HEADERS:
        for b in BODIES:
            for a in range(-n, n + 1):
                if b in JUMPY:
                    if abs(a) <= 1 or tier == "thorough" and abs(a) <= 3:
                        yield ("range", h, b, a, 3 if tier == "thorough" else 2)
                else:
                    yield ("range", h, b, a, n)
    k = 3 if tier == "thorough" else 2
    for a in range(-k, k + 1):
        for s in (1, -1, 2, None):
            for s2 in (1, -1, 2, -2, None):
                yield ("double", a, s, s2, k)
    for w in range(3):
        for h in ("calls", "calls, no step", "variables", "computed"):
            yield ("wrong", h, w)
    for k, lit in enumerate(LITERAL):
        yield ("literal", k)
    al = "aé\n" if tier != "thorough" else "aAé\n😀"
    words = [""]
    for _ in range(3 if tier != "thorough" else 4):
        words = words + [w + c for w in words for c in al]
    words = sorted(set(words))
    for b in BODIES:
        yield ("string", b, tuple(words) if b not in JUMPY else ("", "a", "ab", "aba"))
        for i in range(len(LAYOUTS)):
            yield ("packages", b, i)
            yield ("files", b, i)
    for k in range(len(NONITER)):
        yield ("noniter", k)
    yield from holes.cases("02")
    yield from wide.cases("02", tier == "thorough")


NONITER = [("i", 0), ("i", 3), ("d", "1.5"), ("b", True), ("b", False), V("u"), ("call", "void", ()), ("bin", "+", ("i", 1), ("i", 2)),
           ("bin", "==", ("s", "a"), ("s", "a")), ("call", "len", (("s", "abc"),)), ("neg", ("i", 2))]
# headers written with literals
LITERAL = []
for _a in (("i", 0), ("i", 2), ("neg", ("i", 2)), ("par", ("neg", ("i", 1)))):
    for _b in (("i", 0), ("i", 3), ("neg", ("i", 3))):
        for _c in (None, ("i", 1), ("i", 2), ("neg", ("i", 1)), ("neg", ("i", 2)), ("par", ("neg", ("i", 2))), ("i", 0), ("neg", ("i", 0))):
            LITERAL.append((_a, _b, _c))

INIT = (("=", "t", ("s", "")),)


def run(body, world, dom, st, loops=2):
    prog = lang.compile_(body)
    st.sample(prog.text)
    bench = common.Bench(prog, world, dom=dom)
    n = all_choices(lambda ch: bench.pair(ch, st, loops))
    st.c["programs"] += 1
    st.c["executions"] += n


def after(*names):
    return (m(60),) + rec(*names) + (m(61),)


def check(case, st):
    if case[0] == "corpus":
        return values.check(case, st)
    kind = case[0]
    if kind == "hole":
        return holes.check(case, st)
    if case[0] == "wide":
        return wide.check(case, st)
    world = ref.World(packages=[("P", ["f"])])
    if kind == "range":
        _, h, b, a, n = case
        lo, hi, by = HEADERS[h]
        dom = {"lo": [a], "hi": list(range(-n, n + 1)), "inc": [x for x in range(-n, n + 1)]}
        if "no step" in h:
            del dom["inc"]
        body = INIT
        if h not in ("calls", "calls, no step"):
            body += (("=", "a", call("lo")), ("=", "b", call("hi"))) + ((("=", "c", call("inc")),) if "inc" in dom else ())
        body += (("for", "i", lo, hi, by, BODIES[b]),) + after("i")
        return run(body, world, dom, st)
    if kind == "double":
        # an inner loop whose bounds are variables of the outer one, entered several times
        _, a, s, s2, k = case
        dom = {"lo": [a], "hi": list(range(-k, k + 1)), "lo2": list(range(-k, k + 1)), "hi2": list(range(-k, k + 1))}
        lit = lambda x: None if x is None else ("i", x) if x >= 0 else ("neg", ("i", -x))  # noqa: E731
        body = INIT + (("=", "p", call("lo2")), ("=", "q", call("hi2")))
        body += (("for", "i", call("lo"), call("hi"), lit(s),
                  (("for", "j", V("p"), V("q"), lit(s2), rec("i", "j")), ("op=", "p", "+=", ("i", 1)))),) + after("i", "j")
        return run(body, world, dom, st)
    if kind == "wrong":
        _, h, w = case
        lo, hi, by = HEADERS[h]
        dom = {"lo": [1], "hi": [2], "inc": [1, 0]}
        if w == 2:
            dom["inc"] = WRONG + [0]
        else:
            dom["lo" if w == 0 else "hi"] = WRONG + [1]
        if "no step" in h:
            if w == 2:
                return None
            del dom["inc"]
        body = INIT
        if h in ("variables", "computed"):
            body += (("=", "a", call("lo")), ("=", "b", call("hi")), ("=", "c", call("inc")))
        body += (("if", ((("b", True), (("for", "i", lo, hi, by, BODIES["plain"]),)),), None),) + after("i")
        return run(body, world, dom, st)
    if kind == "literal":
        lo, hi, by = LITERAL[case[1]]
        return run(INIT + (("for", "i", lo, hi, by, BODIES["plain"]),) + after("i"), world, {}, st)
    if kind == "string":
        _, b, words = case
        dom = {"str1": list(words)}
        run(INIT + (("forin", "i", call("str1"), BODIES[b]),) + after("i"), world, dom, st)
        run(INIT + (("=", "b", call("str1")), ("forin", "i", V("b"), BODIES[b] if b not in ("inc b",) else ())) + after("i"), world, dom, st)
        return None
    if kind in ("packages", "files"):
        _, b, i = case
        world = ref.World(packages=LAYOUTS[i])
        if kind == "packages":
            return run(INIT + (("forin", "i", SP, BODIES[b]),) + after("i"), world, {}, st)
        body = INIT + (("forin", "p", SP, rec("p") + (("forin", "i", V("p"), BODIES[b]),)),) + after("i", "p")
        return run(body, world, {}, st)
    if kind == "noniter":
        x = NONITER[case[1]]
        extra = {"void": (0, 0, lambda r, a: ref.VOID)}
        from ..impl import Void
        body = INIT + (m(1), ("if", ((("b", True), (("forin", "i", x, rec("i")),)),), None), m(2))
        prog = lang.compile_(body)
        bench = common.Bench(prog, world, extra, {"void": lambda a, s: Void()})
        all_choices(lambda ch: bench.pair(ch, st))
        return None
    raise ValueError(case)
