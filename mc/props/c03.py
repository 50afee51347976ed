"""C03. States: contexts reached by the stepping interpreter; transitions: exec() steps. (1) every menu of up to three
options over names x default marks x images, for both kinds of menu and two drivers; (2) every list of up to three cases over labels that
match, repeat or match nothing, each with and without Break, x every form of default case, x every answer; (3) every control skeleton with
menus nested in loops, branches and menus up to the size bound x every answer; all compared with the reference interpreter:
menus presented, cases run, in order, and final state. (4) every description, part of an option and case label x texts with blanks
and bars and expressions with side effects x constructs around the menu."""

from itertools import product

from .. import common, holes, lang, ref, skel, runner, wide, values
from ..explore import all_choices

BOUNDS = {
    "quick": "menus of <=3 options over 3 marks/names x 3 images; <=3 cases over 3 labels with/without Break x 4 default "
             "forms x all answers (any order, equal option objects); skeletons with menus of <=2 control nodes in full, <=3 with fewer constructs; all places x the corpora of values.py",
    "thorough": "menus of <=3 options; <=4 cases; skeletons of <=3 control nodes in full",
}
S = lambda x: ("s", x)  # noqa: E731
m = lambda k: ("op=", "t", "+=", ("call", "m%d" % k, ()))  # noqa: E731
KINDS = ("SelectOne", "SelectMany")
OPTS = [(n, i) for n in ("", "|") for i in ("", " ", "p.png")]
DEFAULTS = (None, (), ("break",), ("continue",))
SK_L, SK_C = ("break", "continue", "return"), ("one", "one3", "many", "many3", "manydef", "onedef", "if", "while", "for")


def cases(tier):
    yield from values.cases("03", tier == "thorough")
    t = tier == "thorough"
    for k in KINDS:
        for n in (1, 2, 3):
            for o in product(OPTS, repeat=n):
                if n == 3 and sum(i == " " for _, i in o) > 1:
                    continue
                yield ("menu", k, o)
        for i in range(len(NAMES)):
            yield ("names", k, i)
        for n in range(0, 5 if t else 4):
            for ls in product("ABX", repeat=n):
                for bs in product((False, True), repeat=n):
                    yield ("cases", k, ls, bs)
        for i in range(len(BODIES)):
            for j in range(len(BODIES)):
                yield ("bodies", k, i, j)
        for i in range(len(WRONG)):
            for where in range(6):
                yield ("wrong", k, i, where)
    for i in range(len(LABELS)):
        for j in range(len(LABELS)):
            yield ("labels", i, j)
    for b in skel.bodies(1, SK_L, SK_C):
        yield ("skel", b)
    for b in skel.bodies(2, SK_L, SK_C):
        yield ("skel", b)
    for n in (3,):
        for b in skel.bodies(n, ("break", "continue"), SK_C if t else ("one3", "many3", "if", "for")):
            yield ("skel", b)
    yield from holes.cases("03", None if t else ["top", "for", "exec", "case", "while"])
    yield from wide.cases("03", tier == "thorough")


# option names of which the labels must be told apart
NAMES = [("A", "a"), ("A", "A "), ("", "A"), ("|", "|A"), ("||A", "A"), ("A", "A"), ("AB", "A"), ("é", "e"), ("A\\", "A"), (" |A", "|A"),
         ("A|", "A"), ("|A|B", "A"), ("Case", "Default"), ("0", "1"), ("x y", "xy")]
# other bodies of cases
BODIES = [
    (),
    (("break",),),
    (m(10), ("if", ((("call", "c1", ()), (("break",),)),), None), m(11)),
    (m(20), ("for", "i", ("i", 1), ("i", 2), None, (m(21), ("break",))), m(22)),
    (m(30), ("while", ("call", "w1", ()), (m(31), ("if", ((("call", "c2", ()), (("break",),)),), (("continue",),)))), m(32)),
    (m(40), ("sel", "SelectOne", S("inner"), ((S("A"), S(""), S("")), (S("B"), S(""), S(""))),
             ((S("A"), (m(41), ("break",))), (S("B"), (m(42),))), (m(43),)), m(44)),
    (m(45), ("if", ((("b", True), (("if", ((("b", True), (("break",), m(46))),), None), m(47))),), None)),
    (m(48), ("exec", (m(49), ("break",), m(50))), m(51)),
    (m(52), ("return",)),
    (m(53), ("cancel", S("no"))),
    (m(54), ("continue",), m(55)),
]
WRONG = [("i", 1), ("d", "1.5"), ("b", True), ("SP",)]
# labels and options as computed values
LABELS = [S("A"), ("v", "a"), ("bin", "+", S(""), S("A")), ("idx", S("xA"), ("i", 1)), ("v", "b"), ("par", S("B")), ("sl", S("ABC"), None, ("i", 1), None, False)]


def tuples(o):
    return tuple((S("%s%s" % (d, n)), S("about " + n), S(i)) for n, (d, i) in zip("ABC", o))


def all_answers(many, n, defaults):
    if not many:
        return [(i,) for i in range(n)]
    out = []
    for s in common.subsets(n):
        out.append(s)
        if len(s) > 1:
            out.append(tuple(reversed(s)))
    return out


CHUNK = 1


def run(body, st, world=None, drivers=False, full=True):
    body = (("=", "t", S("")),) + body
    prog = lang.compile_(body)
    st.sample(prog.text)
    bench = common.Bench(prog, world or ref.World(packages=[("P", ["f"])]))
    n = 0
    for fresh in (False, True) if full else (False,):
        n += all_choices(lambda ch: bench.pair(ch, st, menus=all_answers if full else None, fresh=fresh))
    if drivers:
        run_ = runner.RunnerBench(prog, bench.world)
        n += all_choices(lambda ch: run_.pair(ch, st, menus=all_answers))
    st.c["programs"] += 1
    st.c["executions"] += n


def check(case, st):
    if case[0] == "corpus":
        return values.check(case, st)
    kind = case[0]
    if kind == "hole":
        return holes.check(case, st)
    if case[0] == "wide":
        return wide.check(case, st)
    if kind == "menu":
        _, k, o = case
        cs = tuple((S(n), (m(i + 1), ("break",))) for i, n in enumerate("ABC"[: len(o)]))
        return run((("sel", k, S("pick"), tuples(o), cs, (m(9),)), m(8)), st, drivers=True)
    if kind == "names":
        _, k, i = case
        a, b = NAMES[i]
        strip = lambda x: x[1:] if x[:1] == "|" else x  # noqa: E731
        for order in (0, 1):
            labels = [a, b, strip(a), strip(b), "A"]
            if order:
                labels.reverse()
            cs = tuple((S(n), (m(j + 1), ("break",))) for j, n in enumerate(labels))
            o = ((S(a), S("one"), S("")), (S(b), S("two"), S("i")))
            run((("sel", k, S("pick\n\"it\""), o, cs, None), m(8)), st, drivers=True)
        return None
    if kind == "cases":
        _, k, ls, bs = case
        o = ((S("A"), S(""), S("")), (S("|B"), S(""), S("")))
        cs = tuple((S(n), (m(i + 1),) + ((("break",),) if b else ())) for i, (n, b) in enumerate(zip(ls, bs)))
        for d in DEFAULTS:
            db = None if d is None else (m(7),) + ((d,) if d else ())
            sel = ("sel", k, S("pick"), o, cs, db)
            if d == "continue" or d == ("continue",):
                run((("for", "i", ("i", 1), ("i", 2), None, (sel, m(8))), m(9)), st)
            else:
                run((sel, m(8)), st)
        return None
    if kind == "bodies":
        _, k, i, j = case
        o = ((S("A"), S(""), S("")), (S("B"), S(""), S("")), (S("C"), S(""), S("")))
        sel = ("sel", k, S("pick"), o, ((S("A"), BODIES[i]), (S("B"), BODIES[j])), (m(7),))
        run((("for", "k", ("i", 1), ("i", 2), None, (sel, m(8))), m(9)), st, full=False)
        run((sel, m(8)), st) if i % 3 == 0 else None
        return None
    if kind == "wrong":
        _, k, i, where = case
        x = WRONG[i]
        o = [S("A"), S("about"), S("")]
        d, lab = S("pick"), S("A")
        if where < 3:
            o[where] = x
        elif where == 3:
            d = x
        elif where == 4:
            lab = x
        opts = (tuple(o), (S("B"), S(""), S("")))
        cs = ((lab, (m(1), ("break",))), (S("B") if where != 5 else x, (m(2), ("break",))))
        return run((("if", ((("b", True), (m(3), ("sel", k, d, opts, cs, None), m(4))),), None), m(8)), st, drivers=True)
    if kind == "labels":
        _, i, j = case
        a, b = LABELS[i], LABELS[j]
        pre = (("=", "a", S("A")), ("=", "b", S("B")), ("=", "img", S("  ")))
        o = ((a, ("v", "a"), ("v", "img")), (S("B"), S("x"), ("bin", "+", ("v", "b"), S(".png"))))
        for k in KINDS:
            cs = ((b, (m(1), ("=", "b", S("A")), ("=", "a", S("B")))), (("v", "b"), (m(2), ("break",))), (("v", "a"), (m(3), ("break",))))
            run(pre + (("sel", k, ("v", "a"), o, cs, (m(7),)), m(8)), st)
        return None
    if kind == "skel":
        return run(skel.Complete().body(case[1]), st, full=False)
    raise ValueError(case)
