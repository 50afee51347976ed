"""C01. States: contexts reached by the stepping interpreter; transitions: exec() steps. Every control skeleton up to the
size bound (If/Elif/Else, While, For, Select, all jumps; markers before, between and after the statements of every body)
x every sequence of answers to its conditions and menus (bounded number of true While conditions); each execution is
compared action by action, and at its end, with the big-step reference interpreter. Also every condition and Cancel message x
expressions with side effects x 12 constructs around it."""

from .. import common, holes, lang, ref, skel, wide, values
from ..explore import all_choices

L, C = skel.FULL_LEAVES, skel.FULL_COMP
BOUNDS = {
    "quick": "all skeletons of <=3 control nodes; <=4 over {Break,Continue,Return,If,IfElse,While,For}; <=3 with "
             "selects and Exec; <=2 true answers to While conditions; programs of <=2 nodes without markers; all places x the corpora of values.py",
    "thorough": "all skeletons of <=4 control nodes; <=5 over {Break,Continue,If,While,For}; <=4 with selects",
}
L3, C4 = ("break", "continue", "return"), ("if", "ifelse", "while", "for")
LS, CS = ("break", "continue", "cancel"), ("if", "while", "forin", "one", "onedef", "many")


def cases(tier):
    yield from values.cases("01", tier == "thorough")
    t = tier == "thorough"
    for n in range(0, 3):
        for b in skel.bodies(n, L, C):
            yield ("bare", b)
    for n in range(0, 5 if t else 4):
        for b in skel.bodies(n, L, C):
            yield ("full", b)
    for n in range(2, 5 if t else 4):
        for b in skel.bodies(n, LS, CS):
            yield ("full", b)
    for b in skel.bodies(4, L3, C4):
        yield ("full", b)
    if t:
        for b in skel.bodies(5, ("break", "continue"), ("if", "while", "for")):
            yield ("full", b)
    yield from DATA
    for b in EMPTY:
        yield ("empty", b)
    yield from holes.cases("01")
    yield from wide.cases("01", tier == "thorough")


# conditions of every type of value and computed from variables
def _v(x):
    return ("v", x)


COND = [
    ("i", 0), ("i", 1), ("i", 7), ("neg", ("i", 1)), ("d", "0.0"), ("d", "0.5"), ("s", ""), ("s", "0"), ("s", "False"), ("b", True),
    ("b", False), ("SP",), ("idx", ("SP",), ("i", 0)), _v("n"), _v("z"), ("bin", ">", _v("n"), ("i", 2)),
    ("not", _v("n")), ("bin", "and", _v("n"), _v("z")), ("bin", "or", _v("z"), _v("n")),
]
EMPTY = ["", " ", "\n", "\t\n\n  ", ";", "; text", "; If\n;EndIf\n", "\n;\n\n", "\\\n", ()]
for _c in (("b", True), ("b", False)):
    EMPTY += [(("if", ((_c, ()),), None),), (("if", ((_c, ()),), ()),), (("if", ((_c, ()), (_c, ())), ()),), (("exec", ()),), (("if", ((_c, (("exec", ()),)),), None),)]
EMPTY += [(("while", ("call", "w1", ()), ()),), (("for", "i", ("i", 1), ("i", 0), None, ()),), (("for", "i", ("i", 1), ("i", 3), None, ()),), (("forin", "i", ("s", ""), ()),),
          (("forin", "i", ("s", "ab"), ()),)]
for _k in ("SelectOne", "SelectMany"):
    _o = (("s", "A"), ("s", ""), ("s", "")), (("s", "B"), ("s", ""), ("s", ""))
    EMPTY += [(("sel", _k, ("s", "d"), _o, _l, _d),) for _l in ((), ((("s", "A"), ()),), ((("s", "A"), ()), (("s", "B"), ()))) for _d in (None, (), (("break",),))]
EMPTY += [(("break",),), (("continue",),), (("return",),), (("cancel", None),), (("cancel", ("s", "")),), (("cancel", ("s", "m")),), (("exec", (("return",),)),), (("exec", (("cancel", ("s", "")),)),)]
DATA = []
_m = lambda x: ("op=", "t", "+=", ("s", x))  # noqa: E731
for _c in COND:
    DATA.append(("data", (("if", ((_c, (_m("a"),)),), None), _m("z"))))
    DATA.append(("data", (("if", ((_c, (_m("a"),)),), (_m("b"),)), _m("z"))))
    for _d in COND[:6] + COND[13:15]:
        DATA.append(("data", (("if", ((_c, (_m("a"),)), (_d, (_m("b"),))), (_m("c"),)), _m("z"))))
        DATA.append(("data", (("if", ((_c, (_m("a"),)), (_d, (_m("b"),)), (("b", True), (_m("c"),))), (_m("d"),)), _m("z"))))
    DATA.append(("data", (("while", _c, (_m("a"), ("break",), _m("b"))), _m("z"))))
    DATA.append(("data", (("while", _c, (_m("a"), ("if", ((("bin", "==", ("meth", _v("t"), "len", ()), ("i", 3)), (("break",),)),), None),
                                         ("continue",), _m("b"))), _m("z"))))
for _k in range(4):
    # loops driven by variables, conditions with side effects, state kept across branches
    DATA.append(("data", (("while", ("bin", ">", _v("n"), ("i", _k)), (_m("a"), ("E", ("post", "--", "n")))), _m("z"))))
    DATA.append(("data", (("while", ("bin", ">", ("pre", "--", "n"), ("i", _k)), (_m("a"),)), _m("z"))))
    DATA.append(("data", (("while", ("bin", ">", ("pre", "--", "n"), ("i", _k)), (_m("a"), ("continue",), _m("b"))), _m("z"))))
    DATA.append(("data", (("while", ("bin", ">", ("pre", "--", "n"), ("i", _k)), (_m("a"), ("break",), _m("b"))), _m("z"))))
    DATA.append(("data", (("if", ((("bin", ">", ("pre", "++", "n"), ("i", _k + 3)), (_m("a"),)),
                                  (("bin", ">", ("pre", "++", "n"), ("i", _k + 3)), (_m("b"),))), (_m("c"),)), _m("z"))))
    DATA.append(("data", (("if", ((("bin", ">", ("pre", "++", "n"), ("i", _k + 3)), ()),
                                  (("bin", ">", ("pre", "++", "n"), ("i", _k + 3)), ())), ()), _m("z"))))
    DATA.append(("data", (("if", ((("bin", ">", ("pre", "++", "n"), ("i", _k + 3)), ()),
                                  (("bin", ">", ("pre", "++", "n"), ("i", _k + 3)), ())), None), _m("z"))))
    DATA.append(("data", (("cancel", ("bin", "+", ("s", "x"), ("meth", _v("n"), "str", ()))), _m("z"))))
    DATA.append(("data", (("while", ("b", True), (("op=", "n", "-=", ("i", 1)), ("if", ((("bin", "==", _v("n"), ("i", _k - 1)), (("return",),)),), None),
                                                 _m("a"))), _m("z"))))
    DATA.append(("data", (("while", ("b", True), (("op=", "n", "-=", ("i", 1)), ("if", ((("bin", "==", _v("n"), ("i", _k - 1)), (("cancel", ("s", "c")),)),), None),
                                                 _m("a"))), _m("z"))))


def check(case, st):
    if case[0] == "corpus":
        return values.check(case, st)
    if case[0] == "hole":
        return holes.check(case, st)
    if case[0] == "wide":
        return wide.check(case, st)
    kind, b = case
    if kind == "empty":
        body = () if isinstance(b, str) else b
    elif kind == "data":
        body = (("=", "t", ("s", "")), ("=", "n", ("i", 3)), ("=", "z", ("i", 0))) + b
    else:
        body = skel.Complete(markers=kind == "full").body(b, top=True)
    prog = lang.compile_(body)
    if isinstance(b, str):
        prog.text = b
    st.sample(prog.text)
    world = ref.World(packages=[("P", ["f"])])
    bench = common.Bench(prog, world)
    n = all_choices(lambda ch: bench.pair(ch, st))
    st.c["programs"] += 1
    st.c["executions"] += n
