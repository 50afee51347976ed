"""C09. States: contexts reached; transitions: exec() steps. Every built-in function, as a function and as a method, with every argument
list of the bound (strings of every content up to a length over an alphabet with case, accents and repetition; positions covering both ends;
values of every type at every argument position; too few and too many arguments), against definitions written by counting characters; function
and method form are compared with each other for every receiver for which the method is defined."""

from itertools import product

from .. import common, impl, lang, ref, wide, values
from ..explore import Violation, all_choices

BOUNDS = {
    "quick": "strings of <=4 characters over 2 letters and 20 special ones; all substrings of <=2; positions -6..6 except an explicit end of -1; <=3 prefixes/suffixes; 12 values of 7 types at "
             "every argument position; 0..6 arguments; all places x the corpora of values.py",
    "thorough": "strings of <=6 characters, substrings of <=3, positions -8..8; <=4 prefixes/suffixes",
}
CHUNK = 1
S = lambda x: ("s", x)  # noqa: E731
o = lambda i: ("call", "o%d" % i, ())  # noqa: E731
PK = [("P", ["f"]), ("Q", [])]
SP = ("SP",)
ANY = [0, 1, -3, 2.5, -0.0, "", "ab", " 7 ", "1.5", True, False, SP, ("P", 0), ("void",)]
SPECIAL = ["A", "Ab", "É", "éÀ", "ß", "İ", "a b", "ab\n", "😀a", "ΑΣ", "0", "007", "-12", "+3", " 5", "1_000", "0x10", "1e3", "nan", "inf", "-Infinity", "٣", ".5", "5.", "1.5",
           "True", "--1", "1 2", "²", "abcabc", "x" * 40]
FUN = ["str", "int", "float", "len", "lower", "startswith", "endswith", "find", "rfind"]


def words(al, n):
    return ["".join(w) for k in range(n + 1) for w in product(al, repeat=k)]


def cases(tier):
    yield from values.cases("09", tier == "thorough")
    t = tier == "thorough"
    yield from wide.cases("09", t)
    n, sub, pos = (6, 3, 8) if t else (4, 2, 6)
    strs = words("ab", n)
    subs = words("ab", sub) + ["é", "A", "aba"]
    for f in ("find", "rfind"):
        for s in strs + ["é😀é", "Aé", "abAB"]:
            for form in (0, 1):
                yield ("find", f, s, tuple(subs), 2, pos, form)
                yield ("find", f, s, tuple(subs), 3, pos, form)
                yield ("find", f, s, tuple(subs), 4, pos, form)
    for f in ("startswith", "endswith"):
        for s in strs + ["é😀", "Aé", "abAB"]:
            for form in (0, 1):
                for k in range(0, 4 if not t else 5):
                    yield ("affix", f, s, tuple(words("ab", 2 if k < 3 else 1) + (["é", "A", "😀", "ba", "aba"] if k < 3 else ["ab"])) , k, form)
    for f in FUN:
        for form in (0, 1):
            for k in range(0, 7):
                yield ("types", f, k, form)
    for f in ("str", "int", "float", "len", "lower"):
        for form in (0, 1):
            yield ("unary", f, form)
    for i in range(len(FORMS)):
        yield ("form", i)
    for name in METHODS:
        yield ("method", name)


V = lambda n: ("v", n)  # noqa: E731
# written call forms on every receiver
FORMS = []
for _f in ("len", "lower", "str", "int", "float"):
    for _r in (S("Ab"), S("12"), V("s"), V("d"), ("par", ("bin", "+", V("s"), S("1"))), ("call", "str", (("i", 12),)), ("idx", S("12"), ("i", 1)), ("sl", S("xyz"), ("i", 1), None, None, False),
               ("meth", V("s"), "lower", ()), ("i", 12), ("d", "1.5"), ("b", True), V("k"), ("par", ("neg", ("i", 3))), ("par", ("bin", "==", ("i", 1), ("i", 1))), SP, ("idx", SP, ("i", 0))):
        FORMS.append((_f, _r, ()))
for _f in ("startswith", "endswith"):
    for _r in (S("AbA"), V("s"), ("meth", S("ABC"), "lower", ()), ("i", 12), SP, ("idx", SP, ("i", 0))):
        for _a in ((), (S("A"),), (S("x"), S("A")), (S("A"), S("x")), (("i", 1), S("A")), (S(""),), (S("x"), S("y"), S("bA"), S("Ab"))):
            FORMS.append((_f, _r, _a))
METHODS = ["len", "lower", "str", "int", "float", "startswith", "endswith", "find", "rfind", "upper", "Str", "str_", "int_", "name", "value", "files", "type", "visitNot", "__len__", "replace"]
METHOD_VALUES = ["ab", 1, 1.5, True, SP, ("P", 0), ("void",)]


def run(e, dom, st):
    prog = lang.compile_((("=", "s", S("AbA")), ("=", "d", S("12")), ("=", "k", ("i", 4)), ("=", "r", e)))
    st.sample(prog.text)
    bench = common.Bench(prog, ref.World(packages=PK), dom=dom)
    n = all_choices(lambda ch: bench.pair(ch, st))
    st.c["programs"] += 1
    st.c["executions"] += n


def call(f, args, form):
    return ("meth", args[0], f, args[1:]) if form else ("call", f, args)


def check(case, st):
    if case[0] == "corpus":
        return values.check(case, st)
    kind = case[0]
    if kind == "wide":
        return wide.check(case, st)
    if kind == "find":
        _, f, s, subs, k, pos, form = case
        ends = [x for x in range(-pos, pos + 1) if x != -1]
        dom = {"o1": [s], "o2": list(subs) if k < 4 else list(subs)[:7] + ["ba"]}
        if k > 2:
            dom["o3"] = list(range(-pos, pos + 1))
        if k > 3:
            dom["o4"] = ends
        run(call(f, tuple(o(i) for i in range(1, k + 1)), form), dom, st)
    elif kind == "affix":
        _, f, s, subs, k, form = case
        dom = {"o1": [s]}
        for i in range(k):
            dom["o%d" % (i + 2)] = list(subs)
        run(call(f, tuple(o(i) for i in range(1, k + 2)), form), dom, st)
    elif kind == "types":
        _, f, k, form = case
        if form and not k:
            return
        # one argument of every value, the others fitting
        good = {"startswith": ["ab", "a", "b", "ab", "c", "d"], "endswith": ["ab", "a", "b", "ab", "c", "d"], "find": ["abab", "ab", 1, 3, 1, 1],
                "rfind": ["abab", "ab", 1, 3, 1, 1]}.get(f, ["12", "a", "b", "c", "d", "e"])
        for j in range(max(k, 1)):
            dom = {"o%d" % (i + 1): [good[i]] for i in range(k)}
            if k:
                dom["o%d" % (j + 1)] = [v for v in ANY if not (f == "str" and v == ("void",)) and not (f in ("find", "rfind") and j == 3 and v == -1)]
            run(call(f, tuple(o(i) for i in range(1, k + 1)), form), dom, st)
        if k == 2:
            run(call(f, (o(1), o(2)), form), {"o1": [v for v in ANY if f != "str" or v != ("void",)], "o2": ANY}, st)
    elif kind == "unary":
        _, f, form = case
        run(call(f, (o(1),), form), {"o1": SPECIAL + words("aB1", 3) + [v for v in ANY if not (f == "str" and v == ("void",))] + [10**18, 1.0, 1e16, 0.1, -2.5, 3.99, -3.99]}, st)
    elif kind == "form":
        f, r, a = FORMS[case[1]]
        run(("call", f, (r,) + a), {}, st)
        run(("meth", r if r[0] not in ("neg", "bin") else ("par", r), f, a), {}, st)
    elif kind == "method":
        # a method is defined exactly for the types for which the reference has it; both forms agree there
        name = case[1]
        for k in range(0, 4):
            dom = {"o1": [v for v in METHOD_VALUES if name != "str" or v != ("void",)]}
            for i in range(k):
                dom["o%d" % (i + 2)] = ["a", 1]
            run(("meth", o(1), name, tuple(o(i + 2) for i in range(k))), dom, st)
            if name not in FUN:
                run(("call", name, (o(1),) + tuple(o(i + 2) for i in range(k))), dom, st)
