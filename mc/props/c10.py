"""C10. States: manager call histories; transitions: callbacks and steps of the callback runner. Every query function under each of its names x
every argument list of the bound (strings, variables, computed values, repeated and empty ones; optional and variable arguments; wrong
types at every position; too few and too many) x every manager answer x every position of a statement in which the call is
evaluated zero, one or several times; and every RequireVersions list; the calls received by a recording manager (method, exact
arguments, order, number) and the resulting values are compared with the reference."""

from itertools import product

from .. import common, holes, impl, lang, ref, values
from ..explore import Chooser, all_choices
from ..runner import RunnerBench

BOUNDS = {
    "quick": "11 names x argument lists of 0..4 x 14 argument expressions x 2-3 manager answers; 20 statement positions x 11 names; pairs of queries in one "
             "expression; RequireVersions with 0..5 arguments x 5 values each; up to 300 arguments and calls (one answer different from the others); all places x the corpora of values.py",
    "thorough": "argument lists of 0..5, triples of queries",
}
CHUNK = 4
S = lambda x: ("s", x)  # noqa: E731
V = lambda x: ("v", x)  # noqa: E731
m = lambda k: ("op=", "t", "+=", ("call", "m%d" % k, ()))  # noqa: E731
SP = ("SP",)
# name -> method, types (optional marked), variable arguments, answers
Q = {
    "CompareGameVersion": ("compareGameVersion", (str,), 1, False, [-1, 0, 1]),
    "CompareSEVersion": ("compareSEVersion", (str,), 1, False, [-1, 1]),
    "CompareGEVersion": ("compareGEVersion", (str,), 1, False, [-1, 1]),
    "CompareWBVersion": ("compareWBVersion", (str,), 1, False, [-1, 1]),
    "GetPluginLoadOrder": ("getPluginLoadOrder", (str, int), 1, False, [-1, 7]),
    "GetPluginStatus": ("getPluginStatus", (str,), 1, False, [0, 2]),
    "GetEspmStatus": ("getPluginStatus", (str,), 1, False, [-1, 2]),
    "GetFilename": ("getFilename", (str,), 1, False, ["", "x.esp"]),
    "GetFolder": ("getFolder", (str,), 1, False, ["", "dir"]),
    "DataFileExists": ("dataFileExists", (str,), 1, True, [False, True]),
}
ARGS = [S("A b.Esp"), S(""), V("s"), ("bin", "+", V("s"), S("1É")), S("dir\\f é\n"), ("call", "str", (("i", 3),)), ("idx", V("s"), ("i", 0))]
# a boolean counts as an integer
INTS = [("i", 5), ("neg", ("i", 1)), V("n"), ("pre", "++", "n"), ("i", 0), ("b", True), ("bin", "==", V("s"), S("x"))]
VOID = ("call", "DisableINILine", (S("f"), S("s"), S("k")))
BAD = [VOID, ("i", 1), ("d", "1.5"), ("b", True), SP, ("idx", SP, ("i", 0)), V("n")]
BADINT = [VOID, S("1"), ("d", "1.0"), SP, ("idx", SP, ("i", 0))]


def query_functions(session, answers=None):
    out = {}
    for name, (meth, types, lo, var, alts) in Q.items():
        alts = answers or alts
        def fn(r, a, meth=meth, types=types, var=var, alts=alts):
            for k, v in enumerate(a):
                t = types[min(k, len(types) - 1)]
                if not isinstance(v, t):
                    raise ref.RErr("type")
            return session().query(meth, a, alts)
        out[name] = (lo, None if var else len(types), fn)
    return out


def positions(e, text):
    """Statements that evaluate the expression; numeric and textual calls both fit (only truth is used)."""
    A = ((S("A"), S(""), S("")),)
    yield (("=", "r", e),)
    yield (("E", e), m(1))
    yield (("if", ((e, (m(1),)),), (m(2),)),)
    yield (("if", ((("b", False), ()), (e, (m(1),)), (e, (m(2),))), (m(3),)),)
    yield (("=", "k", ("i", 0)), ("while", ("bin", "and", ("bin", "<", ("pre", "++", "k"), ("i", 3)), ("bin", "or", e, ("b", True))), (m(1),)))
    yield (("for", "i", ("i", 1), ("i", 2), None, (("=", "r", e), m(1))),)
    yield (("=", "r", ("bin", "==", e, e)),)
    yield (("=", "r", ("bin", "and", ("b", False), e)),)
    yield (("=", "r", ("bin", "or", ("b", True), e)),)
    yield (("=", "r", ("not", e)),)
    yield (("=", "r", ("call", "str", (e,))),)
    yield (("=", "r", ("meth", e, "str", ())),)
    yield (("E", ("call", "EditINI", (S("f"), S("s"), S("k"), e))), m(1))
    yield (("=", "r", ("call", "find", (S("abc"), ("call", "str", (e,))))),)
    yield (("exec", (("=", "r", e), m(1))),)
    yield (("sel", "SelectMany", ("call", "str", (e,)), A, ((S("A"), (m(1),)),), None),)
    yield (("sel", "SelectOne", S("d"), A + ((("call", "str", (e,)), S(""), S("")),), ((("call", "str", (e,)), (m(1),)),), (m(2),)),)
    yield (("cancel", ("call", "str", (e,))),)
    yield (("=", "r", ("par", e)), ("=", "r2", V("r")), ("op=", "r2", "+=", V("r")))
    yield (("if", ((("b", False), (("=", "r", e),)),), None), m(1))
    if not text:
        yield (("for", "i", ("i", 1), ("bin", "+", ("bin", "*", e, ("i", 0)), ("i", 2)), None, (m(1),)),)


def cases(tier):
    t = tier == "thorough"
    yield from holes.cases("10")
    for name, (meth, types, lo, var, alts) in Q.items():
        n = (5 if t else 4) if var else len(types)
        for k in range(0, n + 2):
            if var and k > n:
                continue
            doms = []
            for i in range(k):
                if types[min(i, len(types) - 1)] is int:
                    doms.append(INTS)
                else:
                    doms.append(ARGS if k < 3 else ARGS[:3] if k == 3 else ARGS[:2])
            for args in product(*doms):
                yield ("call", name, args)
            # one argument of a wrong type
            for i in range(k):
                for b in BADINT if types[min(i, len(types) - 1)] is int else BAD:
                    for j in range(2):
                        args = [d[j] for d in doms]
                        args[i] = b
                        yield ("call", name, tuple(args))
        for k in range(21):
            yield ("position", name, k)
        yield ("method", name)
    for n in (5, 6, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 64, 100, 255, 256, 257, 300):
        yield ("many", n)
    names = sorted(Q)
    for a in names:
        for b in names:
            yield ("pair", (a, b))
            if t:
                for c in names:
                    yield ("pair", (a, b, c))
    vs = [S("1.2.3"), S(""), V("s"), V("e")]
    for n in range(0, 6):
        for args in product(vs if n < 5 else vs[:2], repeat=n):
            yield ("require", args)
    for k in range(6):
        yield ("requirepos", k)
    for name in Q:
        yield ("argument values", name)
        yield ("answer values", name)
    for n in range(1, 5):
        for k in range(n):
            yield ("required values", n, k)


class Policy(Chooser):
    """The same answer everywhere, except at one question."""

    def __init__(self, last, odd):
        super().__init__()
        self.last, self.odd = last, odd

    def pick(self, n):
        i = len(self.points)
        self.points.append((n, 0))
        return n - 1 if (i == self.odd) != self.last else 0


def run(body, st, limit=None, dom=None, answers=None):
    prog = lang.compile_((("=", "t", S("")), ("=", "s", S("vA;r")), ("=", "e", S("")), ("=", "n", ("i", 2))) + body)
    st.sample(prog.text)
    world = ref.World(packages=[("P", ["f"])])
    b = RunnerBench(prog, world, dom, {})
    b.helper.once = True
    world.funcs.update(query_functions(lambda: b.helper.session, answers))
    if limit:
        n = 0
        for last in (False, True):
            for odd in sorted({-1, 0, limit // 2, limit - 1}):
                b.pair(Policy(last, odd), st)
                n += 1
    else:
        n = all_choices(lambda ch: st.state(str(b.pair(ch, st).s.trace)))
    st.c["programs"] += 1
    st.c["executions"] += n


def default_args(name, k=0):
    types = Q[name][1]
    if name == "DataFileExists":
        return (S("a%d" % k), S("B"))
    return tuple(S("F%d.Esp" % k) if x is str else ("i", 4) for x in types)


def check(case, st):
    kind = case[0]
    if kind == "hole":
        return holes.check(case, st)
    if kind == "call":
        _, name, args = case
        run((("=", "r", ("call", name, args)), m(1)), st)
    elif kind == "position":
        _, name, k = case
        e = ("call", name, default_args(name))
        ps = list(positions(e, isinstance(Q[name][4][0], str)))
        if k < len(ps):
            run(ps[k] + (m(9),), st)
    elif kind == "method":
        name = case[1]
        run((("=", "r", ("meth", V("s"), name, ())),), st)
        run((("=", "r", ("call", name.lower(), default_args(name))),), st)
        run((("=", "r", ("call", name, (("call", "GetFilename", (S("in"),)),))),), st)
    elif kind == "many":
        n = case[1]
        args = tuple(S("D%d/f" % (k % 100)) for k in range(n))
        run((("=", "r", ("call", "DataFileExists", args)), m(1)), st)
        run((("=", "r", ("call", "DataFileExists", args[:-1] + (("i", 1),))),), st)
        run(tuple(("=", "r%d" % (k % 7), ("call", "GetFilename", (a,))) for k, a in enumerate(args)), st, n)
        run((("=", "r", ("call", "GetFolder", (S("x" * n),))), ("=", "q", ("call", "CompareGameVersion", (S("1." * n + "0"),)))), st)
        run((("for", "i", ("i", 1), ("i", n), None, (("=", "r", ("call", "GetFilename", (("call", "str", (V("i"),)),))),)),), st, n)
    elif kind == "pair":
        e = None
        for k, name in enumerate(case[1]):
            c = ("call", name, default_args(name, k))
            e = c if e is None else ("bin", "==", e, ("par", c))
        run((("=", "r", e), m(1)), st)
        run(tuple(("=", "r%d" % k, ("call", name, default_args(name, k))) for k, name in enumerate(case[1])), st)
    elif kind == "argument values":
        name = case[1]
        types = Q[name][1]
        names = values.NAMES
        o = [("call", "o%d" % k, ()) for k in (1, 2, 3)]
        last = [Q[name][4][-1]]
        if name == "DataFileExists":
            run((("=", "r", ("call", name, (o[0], o[1]))), m(1)), st, None, {"o1": names, "o2": names[::9]}, [True])
            run((("=", "r", ("call", name, (S("x"), o[0], o[0], S("y")))), m(1)), st, None, {"o1": names}, [False])
        else:
            run((("=", "r", ("call", name, (o[0],))), ("=", "q", ("call", name, (o[0],))), m(1)), st, None, {"o1": names}, last)
        if len(types) > 1:
            run((("=", "r", ("call", name, (o[0], o[1]))), m(1)), st, None, {"o1": ["", "a.esp", " A"], "o2": [v for v in values.NUM if isinstance(v, int)] + [True, False]}, last)
    elif kind == "answer values":
        name = case[1]
        a = Q[name][4][0]
        alts = values.STR + values.FILES if isinstance(a, str) else [True, False] if isinstance(a, bool) else [v for v in values.NUM if isinstance(v, int)]
        e = ("call", name, default_args(name))
        run((("=", "r", e), ("=", "s2", ("call", "str", (V("r"),))), ("=", "l", ("call", "len", (V("r"),))), ("=", "n2", ("not", V("r"))), ("if", ((V("r"), (m(1),)),), (m(2),)), ("=", "c", ("bin", "==", V("r"), V("r")))), st, None, None, alts)
    elif kind == "required values":
        args = [S("1")] * case[1]
        args[case[2]] = ("call", "o1", ())
        run((("kw", "RequireVersions", tuple(args)), m(1)), st, None, {"o1": values.STR})
    elif kind == "require":
        run((("if", ((("b", True), (("kw", "RequireVersions", case[1]), m(1))),), None), m(2)), st)
    elif kind == "requirepos":
        k = case[1]
        q = ("kw", "RequireVersions", (S("1"), V("s")))
        body = [
            (("for", "i", ("i", 1), ("i", 3), None, (q, m(1))),),
            (q, q, m(1)),
            (("exec", (q,)), m(1)),
            (("if", ((("b", False), (q,)),), (m(1),)),),
            (("sel", "SelectMany", S("d"), ((S("A"), S(""), S("")), (S("B"), S(""), S(""))), ((S("A"), (q,)), (S("B"), (q,))), (q,)),),
            (("kw", "RequireVersions", (("call", "GetFilename", (S("x"),)), ("call", "GetFolder", (S("y"),)))), m(1)),
        ][k]
        run(body, st)
