"""C04. States: contexts reached by the stepping interpreter; transitions: exec() steps. For every control skeleton up to the
size bound, every contiguous range of statements of every body is replaced by an Exec of its text (and for small skeletons every range of
the result once more), and all executions over all answers are compared with the reference interpreter, which runs the text
in place. Argument expressions of every form (with side effects inside 12 constructs around the Exec) and wrong arguments are enumerated with their error position."""

from .. import common, holes, impl, lang, ref, skel, wide, values
from ..explore import all_choices
from ..runner import RunnerBench

BOUNDS = {
    "quick": "all ranges of all skeletons of <=2 control nodes (Break, Continue, Return, Cancel, If, If-Else, While, For, both selects) and "
             "of <=3 over {Break, Continue, If, While, For}; double wrapping of all skeletons of 1 control node; 14 statement kinds; 40 "
             "wrong or computed arguments at 6 places; 48 unusual characters in the literals of the text; 48 texts that cannot be parsed; all places x the corpora of values.py",
    "thorough": "<=3 control nodes over all, double wrapping of <=2",
}
CHUNK = 1
S = lambda x: ("s", x)  # noqa: E731
m = lambda k: ("op=", "t", "+=", ("call", "m%d" % k, ()))  # noqa: E731
L, C = ("break", "continue", "return", "cancelm"), ("if", "ifelse", "while", "for", "one3", "many")


def single_line(toks):
    """The whole text on one line."""
    return lang.default_layout([(x, False, 0) for x, _, _ in toks])


def wraps(body, unit=1):
    """All programs that differ from the body by one contiguous range (of at least unit statements) of one body
    being inside Exec."""
    n = len(body)
    for i in range(n):
        for j in range(i + 1, n + 1):
            if j - i >= unit or j - i == n or not plain(body[i]):
                yield body[:i] + (("exec", body[i:j]),) + body[j:]
    for i, s in enumerate(body):
        for s2 in wraps_stmt(s, unit):
            yield body[:i] + (s2,) + body[i + 1 :]


def plain(s):
    return s[0] in ("op=", "=", "E", "kw")


def wraps_stmt(s, unit):
    k = s[0]
    if k == "if":
        for i, (c, b) in enumerate(s[1]):
            for b2 in wraps(b, unit):
                yield (k, s[1][:i] + ((c, b2),) + s[1][i + 1 :], s[2])
        if s[2] is not None:
            for b2 in wraps(s[2], unit):
                yield (k, s[1], b2)
    elif k == "while":
        for b2 in wraps(s[2], unit):
            yield (k, s[1], b2)
    elif k == "for":
        for b2 in wraps(s[5], unit):
            yield s[:5] + (b2,)
    elif k == "forin":
        for b2 in wraps(s[3], unit):
            yield s[:3] + (b2,)
    elif k == "exec":
        for b2 in wraps(s[1], unit):
            yield (k, b2)
    elif k == "sel":
        for i, (c, b) in enumerate(s[4]):
            for b2 in wraps(b, unit):
                yield s[:4] + (s[4][:i] + ((c, b2),) + s[4][i + 1 :], s[5])
        if s[5] is not None:
            for b2 in wraps(s[5], unit):
                yield s[:5] + (b2,)


# statements with effects other than control
STMTS = [
    (("=", "x", ("i", 5)),), (("=", "x", S('a"b\\c')),), (("op=", "x", "*=", ("i", 3)),), (("=", "y", ("pre", "++", "x")),),
    (("kw", "Note", (S("it's"),)),), (("kw", "SelectAll", ()), ("kw", "Note", (S("n"),))), (("kw", "SelectSubPackage", (S("P"),)),),
    (("kw", "SelectPlugin", (S("q.esp"),)),), (("kw", "RenamePlugin", (S("a"), S("b"))),),
    (("E", ("call", "EditINI", (S("f"), S("s"), S("k"), ("v", "x")))),), (("E", ("call", "DisableINILine", (S("f"), S("s"), S("k")))),),
    (("kw", "RequireVersions", (S("1"),)),), (("kw", "DeSelectAll", ()), ("op=", "x", "+=", ("i", 0))), (("=", "y", ("v", "unset")),),
    (("=", "y", ("SP",)),), (("=", "x", ("bin", "+", ("v", "x"), ("i", 1))), ("=", "y", ("v", "x"))),
]


def cases(tier):
    yield from values.cases("04", tier == "thorough")
    t = tier == "thorough"
    for n in (0, 1, 2, 3) if t else (0, 1, 2):
        for b in skel.bodies(n, L, C):
            for layout in (0, 1):
                if layout == 0 or n < 2:
                    yield ("wrap", b, layout)
    for b in skel.bodies(3, ("break", "continue"), ("if", "while", "for")):
        yield ("wrap", b, 2)
    for n in (0, 1, 2) if t else (0, 1):
        for b in skel.bodies(n, L, C):
            yield ("wrap2", b)
    for i in range(len(STMTS)):
        for j in range(len(STMTS)):
            yield ("stmts", i, j)
    for i in range(len(ARGS)):
        for place in range(6):
            yield ("arg", i, place)
            for k in range(len(BLANK)):
                yield ("blank", i, place, k)
    for i in range(len(WRONG)):
        for place in range(6):
            yield ("wrong", i, place)
    for ch in ODD:
        yield ("chars", ch)
    for i in range(len(UNPARSED)):
        for p in range(len(BEFORE)):
            yield ("unparsed", i, p, t)
    yield from holes.cases("04")
    yield from wide.cases("04", tier == "thorough")


# characters inside the literals and comments of the text
ODD = [chr(c) for c in range(1, 32)] + [" ", ";", "\x7f", "\x85", "\xa0", "\xad", "\xe9", "\u0130", "\u2028", "\u200b", "\u3000", "\ufeff", "\U0001f600", "a\r\nb", "a\n\nb", "\t\t", "  "]
INNER = (("op=", "t", "+=", S("in;")), ("=", "z", ("v", "n")))
# forms of the argument
ARGS = [
    lambda x: S(x),
    lambda x: ("sq", x),
    lambda x: ("par", S(x)),
    lambda x: ("bin", "+", S(x[:3]), S(x[3:])),
    lambda x: ("bin", "+", ("bin", "+", S(x[:3]), S(x[3:9])), S(x[9:])),
    lambda x: ("sl", S("##" + x), ("i", 2), None, None, False),
    lambda x: ("bin", "+", S(x), ("sl", S("   "), ("i", 0), ("pre", "++", "n"), None, False)),
    lambda x: ("bin", "+", ("sl", S("   "), ("i", 0), ("pre", "++", "n"), None, False), S(x)),
    lambda x: ("bin", "+", S(x), ("sl", S("   "), ("post", "--", "n"), ("i", 1), None, False)),
    lambda x: ("call", "str", (S(x),)),
    lambda x: ("meth", ("par", S(x)), "str", ()),
    lambda x: ("bin", "+", S(x), ("sl", ("meth", ("call", "C1", ()), "str", ()), ("i", 0), ("i", 0), None, False)),
    lambda x: ("bin", "+", S(x), ("sl", ("meth", ("v", "unset"), "str", ()), ("i", 0), ("i", 0), None, False)),
]
# texts that cannot be parsed: the error is the one of the Exec
UNPARSED = [lambda n: "x = " + "(" * n + "1" + ")" * n, lambda n: "x = 2\n\n  y = " + "not " * n + "1", lambda n: "\n\n\n" + "If 1\n" * n + "EndIf\n" * n, lambda n: "x = 2\nz = " + "str(" * n + "1" + ")" * n,
            lambda n: "Note 1\n" + "While 1\n" * n + "EndWhile\n" * n, lambda n: "x = " + "-" * n + "1", lambda n: "x = 1\n" + "(" * n, lambda n: "x = ''" + "''[" * n]
BEFORE = ["Exec(%s)\n", "\n\n  Exec(%s)\n", "If True\n\n x = 1\n   Exec( %s )\nEndIf\n", "For i from 0 to 1\n  Exec('x = 1') ; c\n  Exec(%s)\nEndFor\n", "Exec('x = 1')\nWhile True Exec(%s) EndWhile\n",
          "SelectOne 'd', 'A', '', ''\nCase 'A'\n  Exec(%s)\nEndSelect\n"]
# texts without any statement
BLANK = ["", " ", "\n", "\t \r\n ", ";c", " ; If x\n;", "\\\n"]
X = ("call", "Exec", (S("t += \"no\""),))
# wrong statements
WRONG = [
    ("execbad", (S("t += \"a;\""), S("t += \"b;\""))),
    ("execbad", (("i", 3),)),
    ("execbad", (("d", "1.5"),)),
    ("execbad", (("b", True),)),
    ("execbad", (("SP",),)),
    ("execbad", (("v", "n"),)),
    ("execbad", (("idx", ("SP",), ("i", 0)),)),
    ("execbad", (("bin", "+", S("t"), ("i", 1)),)),
    ("execbad", ()),
    ("execbad", (X,)),
    ("=", "x", X),
    ("op=", "n", "+=", X),
    ("E", ("par", X)),
    ("E", ("bin", "+", ("i", 1), X)),
    ("E", ("bin", "+", X, ("i", 1))),
    ("E", ("not", X)),
    ("E", ("meth", X, "str", ())),
    ("E", ("call", "str", (X,))),
    ("kw", "Note", (X,)),
    ("cancel", X),
    ("if", ((X, (("op=", "t", "+=", S("y")),)),), None),
    ("while", X, (("op=", "t", "+=", S("y")),)),
    ("forin", "i", X, (("op=", "t", "+=", S("y")),)),
    ("for", "i", X, ("i", 1), None, (("op=", "t", "+=", S("y")),)),
]


def places(k, inner):
    """The statements at a place of a script."""
    if k == 0:
        return inner
    if k == 1:
        return (("if", ((("b", True), (m(41),) + inner + (m(42),)),), None),)
    if k == 2:
        return (("for", "i", ("i", 1), ("i", 2), None, (m(41),) + inner + (m(42),)),)
    if k == 3:
        return (("while", ("call", "w1", ()), (m(41),) + inner + (m(42),)),)
    if k == 4:
        return (("sel", "SelectMany", S("d"), ((S("A"), S(""), S("")),), ((S("A"), (m(41),) + inner + (m(42),)),), None),)
    return (("exec", (m(41),) + inner + (m(42),)),)


def run(body, st, layout=None, runner=False):
    prog = lang.compile_((("=", "t", S("")),) + body if body[:1] != (("=", "t", S("")),) else body, layout)
    st.sample(prog.text)
    world = ref.World(packages=[("P", ["q.esp"]), ("Q", [])])
    c1 = (0, 0, lambda r, a: 1)
    bench = common.Bench(prog, world, {"C1": c1}, {"C1": lambda a, s: 1})
    n = all_choices(lambda ch: bench.pair(ch, st))
    if runner:
        b = RunnerBench(prog, world, None, {"C1": c1}, {"C1": lambda a, s: 1})
        n += all_choices(lambda ch: b.pair(ch, st))
    st.c["programs"] += 1
    st.c["executions"] += n


def check(case, st):
    if case[0] == "corpus":
        return values.check(case, st)
    kind = case[0]
    if kind == "hole":
        return holes.check(case, st)
    if case[0] == "wide":
        return wide.check(case, st)
    if kind == "wrap":
        _, b, lay = case
        full = skel.Complete().body(b, top=True)
        pre, rest = full[:1], full[1:]
        for w in wraps(rest, unit=1 if lay != 2 else 99):
            run(pre + w, st, single_line if lay == 1 else None)
    elif kind == "wrap2":
        full = skel.Complete().body(case[1], top=True)
        for w in wraps(full[1:], 2):
            for w2 in wraps(w, 2):
                run(full[:1] + w2, st)
    elif kind == "stmts":
        _, i, j = case
        b = (("=", "x", ("i", 1)), ("exec", STMTS[i] + STMTS[j]), m(1), ("exec", STMTS[j]), m(2))
        run(b, st, runner=True)
        run(tuple(places(2, (("exec", STMTS[i]),) + STMTS[j])), st)
    elif kind == "arg":
        _, i, p = case
        run((("=", "n", ("i", 1)),) + tuple(places(p, (m(1), ("execx", ARGS[i], INNER), m(2)))) + (m(3),), st, runner=True)
    elif kind == "chars":
        ch = case[1]
        for q in "'\"":
            for v in (ch, ch + "a", "a" + ch, "a" + ch + "b" + ch):
                lit = ("raw", q + v + q, v)
                inner = (("=", "x", lit), ("op=", "t", "+=", lit), ("kw", "Note", (lit,)))
                run((("=", "n", ("i", 1)), ("exec", inner), m(1)), st)
                run((("=", "n", ("i", 1)), ("exec", (("exec", inner), m(2))), m(1)), st)
                for a in ARGS[:6]:
                    run((("=", "n", ("i", 1)), ("execx", a, inner), m(1)), st)
    elif kind == "unparsed":
        _, i, p, t = case
        world = ref.World(packages=[])
        machine = impl.Machine(world)
        outside, _, _ = BEFORE[p].partition("%s")
        outside = outside[: outside.rindex("Exec")]
        at = (outside.count("\n") + 1, len(outside) - outside.rfind("\n") - 1)
        for n in (200, 400, 1000, 2000) if t else (900,):
            text = BEFORE[p] % ('"' + UNPARSED[i](n) + '"')
            st.c["traces"] += 1
            ctx = machine.start(text)
            end = None
            with impl.guard():
                for step in range(100):
                    if end is not None or isinstance(ctx, impl.WizardTerminationContext):
                        break
                    before, state = type(ctx).__name__, impl.canon_state(ctx.state)
                    at_exec = type(ctx).__name__ == "WizardExecContext"
                    st.c["transitions"] += 1
                    st.state((i, p, n, step))
                    try:
                        nxt = ctx.exec()
                    except Exception as ex:
                        end = impl.error_kind(ex)
                        if end[0] != "error" or at_exec and (end[1], end[2]) != ("parse", at):
                            common.fail("the text of an Exec cannot be parsed, but the error is another one (executing %s)" % before, None, ("error", "parse", at), end, text=text[:200])
                        if impl.canon_state(ctx.state) != state:
                            common.fail("the context changed", None, state, impl.canon_state(ctx.state), text=text[:200])
                        if at_exec:
                            st.outcomes["unparsed"] += 1
                    else:
                        ctx = nxt
        _, i, p, k = case
        x = ("execx", lambda text: ARGS[i](BLANK[k]), ())
        run((("=", "n", ("i", 1)),) + tuple(places(p, (m(1), x, x, ("=", "t", ("bin", "+", ("v", "t"), ("call", "str", (("v", "n"),)))), m(2)))) + (m(3),), st)
        run((("=", "n", ("i", 1)),) + tuple(places(p, (x,))), st, runner=True)
    elif kind == "wrong":
        _, i, p = case
        run((("=", "n", ("i", 1)),) + tuple(places(p, (m(1), WRONG[i], m(2)))) + (m(3),), st, runner=True)
