"""C21. States: contexts of the runs of scripts under different layouts; transitions: exec() steps. Every token boundary (including before the first and
after the last token) of a set of scripts covering every statement, operator and kind of error x every kind of layout inserted there, or every space removed
where tokens stay apart; every whole-script layout; every combination of quote styles; contents of literals that look like
layout. Each variant is run with every sequence of answers and compared with the reference interpreter run on the terms the layout was made
from: actions, variables, results, end, and the position of errors computed from the layout."""

from itertools import product

from .. import common, lang, ref
from ..explore import Violation
from .c18 import SCRIPTS as GRAMMAR

BOUNDS = {
    "quick": "every boundary of 40 scripts (22 covering the grammar, 18 ending in errors) x 17 layouts; 15 whole-script layouts; <=6 literals per script in all quote styles; 29 contents; all places x the corpora of values.py",
    "thorough": "every pair of boundaries of 40 scripts x 5 x 5 layouts",
}
CHUNK = 4
S = lambda x: ("s", x)  # noqa: E731
V = lambda x: ("v", x)  # noqa: E731
TRIVIA = [" ", "    ", "\t", "\n", "\r\n", "\n\n\n", "\n\t  ", ";c\n", " ; If x 'q\" \\ EndIf\r\n", ";\n", "\\\n", " \\\n\t", "\\\r\n", "\\\n\\\n", ";c \\\n", ";a\n;b\n", " \\\n;c\n"]
FEW = ["\n", ";c\n", "\\\n", "\t", "\r\n"]
m = lambda k: ("op=", "t", "+=", ("call", "m%d" % k, ()))  # noqa: E731
kw = lambda n, *a: ("kw", n, tuple(a))  # noqa: E731
fn = lambda n, *a: ("call", n, tuple(a))  # noqa: E731
ZERO = ("bin", "/", ("i", 1), ("i", 0))
BAD = ("bin", "+", S("a"), ("i", 1))
ERRORS = [
    (m(1), ("=", "x", BAD)), (("op=", "x", "+=", ("i", 1)), ("op=", "x", "+=", S("a;b"))), (("if", ((("b", True), (m(1), ("E", fn("nofunc", ("i", 1))))),), None),),
    (("if", ((("bin", "<", S("a"), ("i", 1)), (m(1),)),), (m(2),)),), (("while", ("bin", "and", ("call", "w1", ()), ("par", ZERO)), (m(1),)),),
    (("for", "i", ("i", 1), ("i", 2), ("i", 0), (m(1),)),), (("for", "i", S("a"), ("i", 2), None, (m(1),)),), (("forin", "i", ("i", 3), (m(1),)),),
    (("sel", "SelectOne", S("d"), ((S("A"), ("i", 1), S("")),), ((S("A"), (m(1),)),), None),), (kw("Note", ZERO),), (("cancel", ("idx", S("abc"), ("i", 7))),),
    (("=", "s", S("two\nlines")), ("=", "x", ("idx", V("s"), ("i", 99)))), (kw("SelectPlugin", S("no")), ("=", "x", ("neg", S("a")))),
    (("=", "x", ("meth", S("a"), "nomethod", ())),), (("=", "x", ("sl", S("a"), None, None, ("i", 0), True)),), (("E", ("pre", "++", "u")), ("E", ("post", "--", "s"))),
    (("sel", "SelectMany", S("d"), ((S("A"), S(""), S("")),), ((S("A"), (m(1), ("E", BAD))),), None),), (("=", "x", ("not", ("par", ("bin", "in", ("i", 1), ("SP",))))),),
]
SCRIPTS = list(GRAMMAR) + ERRORS
TEXTS = [";", "a;b", "; EndIf", "\\", "a\\;b", "If", "x\ny", "x\n;y", "\t", "  ", "'", '"', "'\"", "a\r\nb", "\\\n", "//", "#", "1.5", "\n\n", ";\n", "EndIf\nBreak", "\\n", "a\tb;", "x \\\n y", "=", "\\\"", "--", "a\u2028b\x0bc\x85d\x0ce\x1cf\u2029;", "\ufeff\xa0 "]


def separate(a, b):
    """Whether two tokens need something between them."""
    if a is None or b is None:
        return False
    w = lambda c: c.isalnum() or c == "_"  # noqa: E731
    if w(a[-1]) and w(b[0]):
        return True
    return a + b[0] in ("++", "--", "+=", "-=", "*=", "/=", "^=", "==", "!=", "<=", ">=", ";", "//") or a[-1] == "\\" or (a in "+-*/^=!<>" and b[0] in "+-=")


def position(line, col, text):
    n = text.count("\n")
    return (line + n, len(text) - text.rfind("\n") - 1) if n else (line, col + len(text))


def render(toks, seps, tail):
    parts, pos = [], []
    line, col = 1, 0
    for (text, _, _), sep in zip(toks, seps):
        parts += [sep, text]
        line, col = position(line, col, sep)
        pos.append((line, col))
        line, col = position(line, col, text)
    return "".join(parts) + tail, pos


def defaults(toks):
    out = []
    prev = None
    for text, nl, ind in toks:
        out.append("\n" + "  " * max(0, ind) if nl and prev is not None else "  " * max(0, ind) if nl else "" if lang.glue(prev, text) else " ")
        prev = text
    return out


def at(changes, before=True):
    """Layout with trivia inserted at the given boundaries (number of tokens + 1 of them)."""

    def layout(toks):
        seps, tail = defaults(toks), "\n"
        for i, g in changes:
            if i < len(toks):
                seps[i] = g + seps[i] if before else seps[i] + g
            else:
                tail = g + tail if before else tail + g
        return render(toks, seps, tail)

    return layout


def tight(only=None):
    """Layout without the space before token `only` (or any), where the tokens stay apart."""

    def layout(toks):
        seps = defaults(toks)
        for i in range(len(toks)):
            if only in (None, i) and not separate(toks[i - 1][0] if i else None, toks[i][0]):
                seps[i] = ""
        return render(toks, seps, "" if only is None else "\n")

    return layout


def whole(sep, end="\n"):
    def layout(toks):
        return render(toks, [sep] * len(toks), end)

    return layout


def lines(nl, indent, comment=""):
    def layout(toks):
        seps = [x if "\n" not in x and i else (comment + nl if i else "") + indent * max(0, toks[i][2]) for i, x in enumerate(defaults(toks))]
        return render(toks, seps, nl)

    return layout


WHOLE = [whole(" ", ""), whole("\n"), whole("\r\n"), whole("\t"), whole(" \\\n"), whole(";c\n"), whole("\n\n  "), whole(" ;'\"\n"), whole("  ", "   ;end"), lines("\r\n", "\t"), lines("\n", ""),
         lines("\n", "        ", " ; x = 'y"), lines("\n\n", " "), tight(), whole("\\\n\\\n", "\\\n")]


def strings(e, fs):
    """The term with its literals changed by the functions fs, in order (the rest keep theirs)."""
    if isinstance(e, tuple):
        if len(e) == 2 and e[0] == "s" and isinstance(e[1], str):
            f = fs.pop(0) if fs else None
            return f(e) if f else e
        return tuple(strings(x, fs) for x in e)
    return e


def count(e):
    if isinstance(e, tuple):
        if len(e) == 2 and e[0] == "s" and isinstance(e[1], str):
            return 1
        return sum(count(x) for x in e)
    return 0


def cases(tier):
    for i in range(len(SCRIPTS)):
        n = len(lang.compile_(SCRIPTS[i]).toks)
        for k in range(n + 1):
            yield ("gap", i, k)
        for k in range(len(WHOLE)):
            yield ("whole", i, k)
        if tier == "thorough":
            for k in range(n + 1):
                yield ("gaps", i, k)
        yield ("quotes", i)
    for a in range(len(TEXTS)):
        yield ("texts", a)
    for a in range(len(LINES)):
        yield ("lines", a)


# lines of a literal that spans several ones
LINES = ["", " ", "  ", "\t", "a", "a ", "a  \t", " a", "\ta", ";c", "a ;c ", "; ", "If", "EndIf ", "a\xa0", "\x0c", "=", "'", "a\r"]


def check(case, st):
    kind = case[0]
    if kind == "lines":
        a = LINES[case[1]]
        for b in LINES:
            for nl in ("\n", "\r\n", "\n\n"):
                v = a + nl + b
                x, y = ("raw", '"' + v + '"', v), ("raw", '"' + v + nl + a + '"', v + nl + a)
                body = (("=", "x", x), ("if", ((("bin", "==", V("x"), x), (("=", "y", y), kw("Note", y))),), (m(1),)), ("=", "l", fn("len", x)), ("forin", "i", y, (("op=", "t", "+=", V("i")),)), ("=", "w", ("neg", V("x"))))
                for layout in (None, whole("\n"), whole("  "), lines("\r\n", "\t"), lines("\n", "    ", " ; c ")):
                    run((("=", "t", S("")),) + body, layout, st)
        return
    if kind == "texts":
        a = TEXTS[case[1]]
        for b in TEXTS:
            for q, r in product(("s", "sq"), repeat=2):
                body = (("=", "x", (q, a)), ("if", ((("bin", "==", V("x"), (r, a)), (("=", "y", (r, b)), kw("Note", (q, b)))),), (m(1),)), ("=", "z", ("bin", "+", (q, b), (r, a))),
                        ("=", "w", ("neg", V("x"))))
                run(body, None, st)
                if b == a:
                    if q != r and ("\n" in a or "\t" in a) and "\r" not in a:
                        # the line breaks and tabs themselves inside the literals
                        raw = lambda v, s: ("raw", lang.quote(v.replace("\n", "\ue000").replace("\t", "\ue001"), s).replace("\ue000", "\n").replace("\ue001", "\t"), v)  # noqa: E731
                        if "\\\n" not in raw(a, "'")[1]:
                            run((("=", "x", raw(a, "'")), ("=", "y", raw(a, '"')), ("=", "w", ("neg", V("x")))), None, st)
                    run(body, whole("\n"), st)
                    run(body, lines("\n", "", ";c'"), st)
        return
    body = SCRIPTS[case[1]]
    if kind == "gap":
        k = case[2]
        for g in TRIVIA:
            run(body, at([(k, g)]), st)
            if g in FEW:
                run(body, at([(k, g)], False), st)
        run(body, tight(k), st)
    elif kind == "gaps":
        n = len(lang.compile_(body).toks)
        for j in range(case[2], n + 1):
            for g, h in product(FEW, repeat=2):
                run(body, at([(case[2], g), (j, h)]), st)
    elif kind == "whole":
        run(body, WHOLE[case[2]], st)
    elif kind == "quotes":
        n = min(6, count(body))
        for qs in product((None, lambda e: ("sq", e[1])), repeat=n):
            run(strings(body, list(qs)), None, st)


def run(body, layout, st):
    prog = lang.compile_(body, layout)
    world = ref.World(packages=[("P", ["a.esp"]), ("Q", [])])
    if layout:
        st.sample({"script": prog.text}, 1)
    inner = any(x[0] == "exec" for x in body)
    common.explore(common.Bench(prog, world), st, positions=not inner, loops=1, watch=True)
