"""C20. States: pairs and triples of named objects, of values and of options over an alphabet of names with case variants; each is one
deterministic execution of the real comparison, hashing, sorting and membership operations, in both operand orders. All pairs are compared
with the order of the case-folded names; all triples are checked for a total order; all multisets up to the bound are sorted, searched and put in
sets and dictionaries. Sub-packages: every list of files up to the bound."""

import operator
from functools import lru_cache
from itertools import permutations, product

from .. import impl, values as corpus
from ..explore import Violation
from ..impl import Package, SubPackage, Plugin, SelectOption, SubPackages, Value, VariableType, Void

BOUNDS = {
    "quick": "22 names x {SubPackage, Plugin, str}: all pairs and triples; all lists of <=5 of 8 names; all lists of <=4 of 14 files; 25 values: all pairs; "
             "containers of <=3 of 10 names x 14 items x 2 forms; 4 x 4 x 4 options: all pairs; all places x the corpora of values.py",
    "thorough": "all lists of <=6 of 8 names; all lists of <=5 of 14 files; containers of <=4 names",
}
CHUNK = 1
NAMES = ["", "a", "A", "b", "B", "ab", "aB", "Ab", "AB", "a b", "aa", "a.esp", "A.ESP", "00 Core", "00 core", "é", "É", "ß", "ss", "SS", "_", "Z"]
OPS = {"==": operator.eq, "!=": operator.ne, "<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge}
FILES = ["a.esp", "B.esm", "c.esl", "d.txt", "dir/e.esp", "dir/sub/F.esm", "g.esp.txt", "h.espx", "dir.esp/i.txt", "dir.esm/j.esl", "k", "xesp", "A.esp", "dir/a.esp"]


def make(kind, n):
    return Package(n, []) if kind == "SP" else Plugin(n) if kind == "P" else n


def cases(tier):
    t = tier == "thorough"
    for a, b in product(("SP", "P", "str"), repeat=2):
        if a != "str" or b != "str":
            yield ("pairs", a, b)
    for a in range(len(NAMES)):
        yield ("triples", a)
    for a in range(len(LIST)):
        yield ("lists", a, 6 if t else 5)
    for a in range(len(FILES)):
        yield ("files", a, 5 if t else 4)
    yield ("others",)
    for k in range(len(corpus.NAMES)):
        yield ("names", k)
    for k in range(0, len(corpus.FILES), 3):
        yield ("odd files", k)
    yield ("values",)
    for a in range(len(CONT)):
        yield ("contains", a, 4 if t else 3)
    for a in range(len(FIELDS)):
        yield ("options", a)


LIST = ["a", "A", "b", "B", "ab", "aB", "", "Z"]
CONT = ["a", "A", "b", "a.esp", "A.esp", "dir/a.esp", "ab", "É", "é", ""]
FIELDS = ["", "a", "A", "b"]


def bad(what, want, got, **k):
    raise Violation(what, expected=want, observed=got, **k)


def attempt(f, *a):
    try:
        return f(*a)
    except Exception as ex:
        return type(ex).__name__


def check(case, st):
    kind = case[0]
    st.sample({"case": repr(case)}, 1)
    if kind == "pairs":
        for m, n in product(NAMES, repeat=2):
            st.c["traces"] += 1
            x, y = make(case[1], m), make(case[2], n)
            for o, f in OPS.items():
                st.c["transitions"] += 1
                want = f(m.casefold(), n.casefold())
                got = attempt(f, x, y)
                if got is not want:
                    bad("%s(%r) %s %s(%r)" % (case[1], m, o, case[2], n), want, got)
            if case[1] != "str" and case[2] != "str":
                if m.casefold() == n.casefold() and hash(x) != hash(y):
                    bad("equal objects with different hashes: %r %r" % (m, n), hash(x), hash(y))
            st.state((case[1], m, case[2], n))
            if n and case[2] != "str" and case[1] != "str":
                z = type(x)(y, []) if case[1] == "SP" else Plugin(y)
                if z.name != n or z != y or type(z.name) is not str:
                    bad("an object made from another", n, z.name)
            if case[1] != "str":
                if (x.name, str(x), repr(x)) != (m, m, repr(m)):
                    bad("the display of a name", m, (x.name, str(x), repr(x)))
    elif kind == "triples":
        a = NAMES[case[1]]
        for b, c in product(NAMES, repeat=2):
            for k in (("SP", "P", "SP"), ("P", "P", "P"), ("SP", "str", "P"), ("SP", "SP", "SP")):
                st.c["transitions"] += 1
                st.c["traces"] += 1
                x, y, z = (make(t, n) for t, n in zip(k, (a, b, c)))
                if x <= y and y <= z and not x <= z:
                    bad("<= is not transitive", True, False, names=(a, b, c))
                if x == y and y == z and not x == z:
                    bad("== is not transitive", True, False, names=(a, b, c))
                if x < y and y < z and not x < z:
                    bad("< is not transitive", True, False, names=(a, b, c))
                if (x < y) + (x == y) + (x > y) != 1:
                    bad("not exactly one of <, ==, >", 1, ((x < y), (x == y), (x > y)), names=(a, b))
    elif kind == "lists":
        first = LIST[case[1]]
        for n in range(0, case[2]):
            for rest in product(LIST, repeat=n):
                names = (first,) + rest
                for k in ("SP", "P"):
                    st.c["transitions"] += 1
                    st.c["traces"] += 1
                    xs = [make(k, m) for m in names]
                    got = [x.name for x in sorted(xs)]
                    want = sorted(names, key=str.casefold)
                    if got != want:
                        bad("sorting", want, got, names=names)
                    folded = {m.casefold() for m in names}
                    if {m.casefold() for m in folded} != {x.name.casefold() for x in set(xs)} or len(set(xs)) != len(folded):
                        bad("a set of them", sorted(folded), sorted(x.name for x in set(xs)), names=names)
                    d = {}
                    for i, x in enumerate(xs):
                        d[x] = i
                    e = {}
                    for i, m in enumerate(names):
                        e[m.casefold()] = i
                    if {q.name.casefold(): v for q, v in d.items()} != e:
                        bad("a dictionary of them", e, d, names=names)
                    for q in ("a", "B", "zz"):
                        want = [i for i, m in enumerate(names) if m.casefold() == q.casefold()]
                        for y in (q, make("SP", q), make("P", q)):
                            if (y in xs) != bool(want) or xs.count(y) != len(want) or (want and xs.index(y) != want[0]):
                                bad("searching %r" % q, want, (y in xs, xs.count(y)), names=names)
                    if (min(xs).name.casefold(), max(xs).name.casefold()) != (min(folded), max(folded)):
                        bad("minimum and maximum", (min(folded), max(folded)), (min(xs), max(xs)), names=names)
    elif kind == "files":
        first = FILES[case[1]]
        for n in range(0, case[2]):
            for rest in product(FILES, repeat=n):
                st.c["transitions"] += 1
                st.c["traces"] += 1
                files = (first,) + rest
                p = Package("p", files)
                want = [f.split("/")[-1] for f in files if f[-4:] in (".esp", ".esm", ".esl")]
                for _ in range(2):
                    got = list(p.plugins())
                    if [x.name for x in got] != want or any(type(x) is not Plugin for x in got):
                        bad("the plugins of a package", want, got, files=files)
                if list(p.files) != list(files):
                    bad("the files of a package changed", files, list(p.files))
                for f in files:
                    if p.is_plugin(f) is not (f[-4:] in (".esp", ".esm", ".esl")):
                        bad("is_plugin(%r)" % f, not p.is_plugin(f), p.is_plugin(f))
    elif kind == "names":
        m = corpus.NAMES[case[1]]
        for n in corpus.NAMES:
            for a, b in (("SP", "SP"), ("P", "P"), ("SP", "str"), ("P", "SP")):
                st.c["transitions"] += 1
                st.c["traces"] += 1
                x, y = make(a, m), make(b, n)
                for o, f in OPS.items():
                    if f(x, y) is not f(m.casefold(), n.casefold()):
                        bad("%s(%r) %s %s(%r)" % (a, m, o, b, n), f(m.casefold(), n.casefold()), f(x, y))
                if (x.name, str(x), repr(x)) != (m, m, repr(m)):
                    bad("the display of a name", m, (x.name, str(x), repr(x)))
                if b != "str" and m.casefold() == n.casefold() and hash(x) != hash(y):
                    bad("equal objects with different hashes: %r %r" % (m, n), hash(x), hash(y))
            st.state((m, n))
            boxes = [Value(Package("box", [n])), Value(SubPackages([Package(n, [m])])), Value(Package(n, [m + "x", n]))]
            for c in boxes:
                for item in (Value(m), Value(Package(m, ["zz"]))):
                    for fold in (False, True):
                        want = m == n if not fold else m.lower() == n.lower()
                        if c.contains(item, fold).value is not want:
                            bad("%r in [%r] (ignoring case: %r)" % (m, n, fold), want, not want)
            v, w = Value(m), Value(n)
            if ((v == w), (v != w), v.equals(w).value, (v < w).value, (v >= w).value) != (m == n, m != n, m == n, m < n, m >= n):
                bad("comparison of strings %r %r" % (m, n), m < n, (v < w).value)
    elif kind == "odd files":
        first = corpus.FILES[case[1]:case[1] + 3]
        for f in corpus.FILES:
            for files in ([f], first + [f], [f] + first):
                st.c["transitions"] += 1
                st.c["traces"] += 1
                p = Package(f, files)
                want = [x.split("/")[-1] for x in files if x[-4:] in (".esp", ".esm", ".esl")]
                got = [x.name for x in p.plugins()]
                if got != want or list(p.files) != files:
                    bad("the plugins of a package", want, got, files=files)
            if SubPackage.is_plugin(f) is not (f[-4:] in (".esp", ".esm", ".esl")):
                bad("is_plugin(%r)" % f, not SubPackage.is_plugin(f), SubPackage.is_plugin(f))
    elif kind == "others":
        alien = [0, 1, 1.5, None, True, b"a", ("a",), ["a"], {"a": 1}, object(), Value("a"), Void(), SubPackages(), SelectOption("a", "")]
        for n, a in product(("", "a", "1"), alien):
            for x in (make("SP", n), make("P", n)):
                for o, f in OPS.items():
                    st.c["transitions"] += 1
                    st.c["traces"] += 1
                    got = [attempt(f, x, a)]
                    if not isinstance(a, (Value, SelectOption)):
                        got.append(attempt(f, a, x))
                    for g in got:
                        if g != "TypeError" and not (isinstance(a, Value)):
                            bad("a comparison %s with %r is not rejected" % (o, a), "TypeError", g)
    elif kind == "values":
        values(st)
    elif kind == "contains":
        contains(case[1], case[2], st)
    elif kind == "options":
        a = FIELDS[case[1]]
        for b, c, d, e, f in product(FIELDS, FIELDS + [None], FIELDS, FIELDS, FIELDS + [None]):
            st.c["transitions"] += 1
            st.c["traces"] += 1
            x, y = SelectOption(a, b, c), SelectOption(d, e, f)
            want = (a, b, c) == (d, e, f)
            if (x == y) is not want or (x != y) is want:
                bad("equality of options", want, (x == y, x != y), options=((a, b, c), (d, e, f)))
            if (x in [y]) is not want or (x.name, x.description, x.image) != (a, b, c):
                bad("an option", want, (x in [y], x), options=((a, b, c), (d, e, f)))
        for alien in (None, "", a, 0, ("a", "a", None), Value("a")):
            x = SelectOption(a, "", None)
            if not isinstance(alien, Value) and ((x == alien) is not False or (x != alien) is not True):
                bad("an option equals %r" % (alien,), False, True)


def content(v):
    if isinstance(v, Package):
        return v.name.casefold()
    if isinstance(v, SubPackages):
        return tuple(p.name.casefold() for p in v)
    return None if isinstance(v, Void) else v


@lru_cache(None)
def pool():
    p = [Package("A", ["x"]), Package("a", []), Package("B", []), Package("", [])]
    return [0, 1, -1, 2, 0.0, 1.0, 1.5, True, False, "", "a", "A", "0", "1", "True", "a.esp", Void(), Void(), p[0], p[1], p[2], SubPackages(), SubPackages(p[:1]),
            SubPackages(p[1:2]), SubPackages(p[:3]), SubPackages(p[2::-1])]


TYPES = [(bool, "bool", VariableType.BOOL), (int, "integer", VariableType.INTEGER), (float, "float", VariableType.FLOAT), (str, "string", VariableType.STRING),
         (Void, "void", VariableType.VOID), (SubPackages, "SubPackage[]", VariableType.LIST_SUBPACKAGES), (Package, "SubPackage", VariableType.SUBPACKAGE)]


def values(st):
    for a in pool():
        t = next(t for t in TYPES if type(a) is t[0])
        v = Value(a)
        if v.value is not a or v.type is not t[2] or str(v.type) != t[1] or v.is_void() is not isinstance(a, Void):
            bad("a value of %r" % (a,), t[1], (v.type, v.value))
        truth = bool(content(a)) if not isinstance(a, (Package, Void)) else True
        if bool(v) is not truth or v.logical_not() != Value(not truth):
            bad("the truth of %r" % (a,), truth, bool(v))
        for b in pool():
            st.c["transitions"] += 1
            st.c["traces"] += 1
            w = Value(b)
            want = type(a) is type(b) and content(a) == content(b)
            got = (v == w, w == v, v != w)
            if got != (want, want, not want) or any(type(g) is not bool for g in got):
                bad("equality of values %r %r" % (a, b), want, got)
            if not isinstance(b, Void) and type(a) is not Package and ((v == b) is not want or (v != b) is want):
                bad("a value compared with %r" % (b,), want, (v == b, v != b))
            if type(a) is type(b) and not isinstance(a, Void):
                e, n = v.equals(w), v.not_equals(w)
                if (e.type, e.value, n.value) != (VariableType.BOOL, want, not want):
                    bad("the operators == and != of %r %r" % (a, b), want, (e, n))
    if Value(None) != Value(Void()) or not Value(None).is_void():
        bad("None is not void", True, False)
    for x in (Value(object), Value(b"a"), Value([])) if False else ():
        bad("a value of an unknown type", None, x)
    for x in (b"a", [], object(), {}, Plugin("a"), ("a",)):
        got = attempt(Value, x)
        if got != "ValueError":
            bad("a value of an unknown type is not rejected", "ValueError", got)


def contains(first, n, st):
    items = CONT + ["A.ESP", "esp", "zz", "DIR/A.ESP"]
    for k in range(0, n):
        for rest in product(CONT, repeat=k):
            names = (CONT[first],) + rest
            for c in (Value(Package("box", names)), Value(SubPackages([Package(x, ["in" + x]) for x in names]))):
                for i in items:
                    for item in (Value(i), Value(Package(i, ["zz"]))):
                        st.c["transitions"] += 1
                        st.c["traces"] += 1
                        for fold in (False, True):
                            want = i in names if not fold else i.lower() in [x.lower() for x in names]
                            got = c.contains(item, fold)
                            if got.value is not want:
                                bad("%r in %r (ignoring case: %r)" % (i, names, fold), want, got.value)
                        if c.contains(item).value is not (i in names):
                            bad("%r in %r" % (i, names), i in names, c.contains(item).value)
                got = [x.value for x in c.__iter__()]
                if got != list(names) or [v.type for v in c.__iter__()] != [VariableType.STRING] * len(names):
                    bad("the elements", names, got)
                for alien in (1, 1.5, True, Void(), SubPackages()):
                    if attempt(c.contains, Value(alien)) != "TypeError":
                        bad("membership of %r is not rejected" % alien, "TypeError", attempt(c.contains, Value(alien)))
    for alien in (1, 1.5, True, Void(), "abc"):
        if attempt(Value(alien).contains, Value("a")) != "TypeError":
            bad("membership in %r is not rejected" % alien, "TypeError", "accepted")
