"""C17. States: contexts of the runs of scripts with broken statements; transitions: exec() steps. Every nesting of blocks up to
the depth bound x every position of a statement that breaks off inside an index among the statements of the innermost body (first, last, only, between plain
statements, before or after whole blocks) x every kind of breakage x every sequence of answers to the conditions and menus. Runs that do not
reach the block do what the reference interpreter does for the intact script; runs that do end in a parse error after the
actions that come before it, with at most the actions of the statements before the broken one in its block."""

from itertools import product

from .. import common, impl, lang, ref
from ..explore import Chooser

BOUNDS = {
    "quick": "depth 1: 13 kinds of blocks x 8 places x 29 breakages; depth 2: 13 x 13 blocks x 8 places x 3 breakages; depth 3: 6 x 6 x 6 blocks x 4 places; two broken blocks: 6 x 6 x 3; in the text of an Exec: 13 x 8 x 2",
    "thorough": "depth 2: 13 x 13 blocks x 8 places x 29 breakages; depth 3: 13 x 13 x 13 blocks x 8 places x 3 breakages; depth 4: 6 x 6 x 6 x 6; two broken blocks: 13 x 13 x 3",
}
CHUNK = 4
S = lambda x: ("s", x)  # noqa: E731

BREAKS = [
    's [ 1', 'x = y [', 'x = y [ 1', 'x = y [ 1 : 2', 'x = 1 + y [', 'm60 ( s [ 1 )', 'x = ( s [ 1 )', 's [ 1 2', 's [ )',
    'x = s [ 1 )', 'str ( y [ 1', 'Exec ( s [ 1', 'x [', 'x += y [', 'x = s [ 1 = 2', 'x = s [ ]', 'x = s [ 1 + ]', 'x = ( s [',
    'RenamePlugin "a" , s [', 'x = s [ "a"', 'not s [ 1', 'x = s [ 1 , 2 ]', 'x = s [ 1 =', 'x = s [ Note', 'x = s [ Return',
    'x = s [ Break', 'y = f ( s [ 1', 'x *= m60 ( ) [', 'Note "n" , s [ ]',
]
FEW = ['x = y [ 1', 's [ 1 2', 'm60 ( s [ 1 )']
PLACES = ("only", "first", "last", "mid", "afterif", "beforeif", "beforefor", "beforesel")
KINDS = ("if", "then", "else", "elif", "elifelse", "while", "for", "forin", "one", "onedef", "many", "manydef", "one2")
CORE = ("if", "else", "while", "forin", "many", "onedef")


class Maker:
    def __init__(self):
        self.n = 0
        self.pre = set()

    def mark(self):
        self.n += 1
        return ("E", ("call", "m%d" % self.n, ()))

    def cond(self, p="c"):
        self.n += 1
        return ("call", "%s%d" % (p, self.n), ())

    def small(self, kind):
        """An intact block."""
        if kind == "if":
            return ("if", ((self.cond(), (self.mark(),)), (self.cond(), ())), (self.mark(),))
        if kind == "for":
            return ("forin", "k", S("a"), (self.mark(), ("continue",)))
        if kind == "sel":
            return ("sel", "SelectOne", S("i"), ((S("A"), S(""), S("")),), ((S("A"), (self.mark(), ("break",))),), None)
        return ("while", self.cond("w"), (self.mark(), ("break",)))

    def broken(self, text, place):
        b = (("broken", tuple(text.split(" "))),)
        if place == "only":
            return b
        a, z = (), ()
        if place in ("mid", "last", "afterif"):
            a = (self.mark(),)
            self.pre.add(self.n)
            if place == "afterif":
                a += (self.small("if"),)
        if place in ("mid", "first"):
            z = (self.mark(), ("=", "x", ("i", 1)))
        if place.startswith("before"):
            z = (self.mark(), self.small(place[6:]), self.mark())
        return a + b + z

    def block(self, kind, body):
        """The block with this body as the interesting branch (a function, so that marks are numbered in order)."""
        if kind == "if":
            return ("if", ((self.cond(), body()),), None)
        if kind == "then":
            return ("if", ((self.cond(), body()),), (self.mark(),))
        if kind == "else":
            return ("if", ((self.cond(), (self.mark(),)),), body())
        if kind == "elif":
            return ("if", ((self.cond(), (self.mark(),)), (self.cond(), body())), (self.mark(),))
        if kind == "elifelse":
            return ("if", ((self.cond(), ()), (self.cond(), (self.mark(),))), body())
        if kind == "while":
            return ("while", self.cond("w"), body())
        if kind == "for":
            self.n += 1
            return ("for", "i%d" % self.n, ("i", 1), ("call", "n1", ()), None, body())
        if kind == "forin":
            self.n += 1
            return ("forin", "i%d" % self.n, ("call", "e1", ()), body())
        o = tuple((S(x), S(""), S("")) for x in "AB")
        d = S("d%d" % self.n)
        br = ("break",)
        if kind == "one":
            return ("sel", "SelectOne", d, o, ((S("A"), body() + (br,)), (S("B"), (self.mark(), br))), None)
        if kind == "one2":
            return ("sel", "SelectOne", d, o, ((S("A"), (self.mark(),)), (S("B"), body())), None)
        if kind == "onedef":
            return ("sel", "SelectOne", d, o, ((S("A"), (self.mark(), br)),), body() + (br,))
        if kind == "many":
            return ("sel", "SelectMany", d, o, ((S("A"), body()), (S("B"), (self.mark(), br))), None)
        return ("sel", "SelectMany", d, o, ((S("A"), body()),), (self.mark(), br))

    def around(self, kinds, text, place):
        if not kinds:
            return self.broken(text, place)
        return (self.mark(), self.block(kinds[0], lambda: self.around(kinds[1:], text, place)), self.mark())


def cases(tier):
    t = tier == "thorough"
    for k, p, b in product(KINDS, PLACES, range(len(BREAKS))):
        yield ("nest", (k,), p, BREAKS[b])
    for a, b in product(KINDS, KINDS):
        for p in PLACES:
            for x in BREAKS if t else FEW:
                yield ("nest", (a, b), p, x)
    for c in product(KINDS if t else CORE, repeat=3):
        for p in PLACES if t else ("mid", "only", "beforeif", "beforefor"):
            for x in FEW if t else FEW[:1]:
                yield ("nest", c, p, x)
    for c in product(CORE, repeat=4 if t else 0):
        if c:
            yield ("nest", c, "mid", FEW[0])
    for a, b in product(KINDS if t else CORE, repeat=2):
        for x in FEW:
            yield ("two", (a, b), "mid", x)
    for k, p in product(KINDS, PLACES):
        yield ("exec", (k,), p, FEW[0])
        yield ("exec", (k,), p, FEW[1])


def check(case, st):
    kind, kinds, place, text = case
    mk = Maker()
    if kind == "two":
        body = (mk.mark(), mk.block(kinds[0], lambda: mk.broken(text, place)), mk.mark(),
                mk.block(kinds[1], lambda: mk.broken(FEW[0], place)), mk.mark())
    else:
        body = mk.around(kinds, text, place)
        if kind == "exec":
            body = (mk.mark(), ("exec", body), mk.mark())
    prog = lang.compile_(body)
    world = ref.World(packages=[("P", ["a.esp"])])
    b = common.Bench(prog, world, dom={"n1": (0, 2), "e1": ("", "ab")})
    prefix = []
    while prefix is not None:
        ch = Chooser(prefix)
        m = b.model(ch, loops=1)
        if m.end is None or m.end[0] == "stop":
            raise RuntimeError("the model does not end: " + prog.text)
        x = b.execute(m)
        st.c["traces"] += 1
        for i, c in enumerate(x.contexts):
            st.state((i, type(c).__name__, len(c.state.variables)))
        if m.end[:2] == ("error", "parse"):
            st.c["transitions"] += x.steps
            st.outcomes["entered"] += 1
            want = m.s.trace
            low = next((i for i, l in enumerate(want) if l in mk.pre), len(want))
            got = m.s.log
            if x.end[:2] != ("error", "parse"):
                common.fail("a broken block is entered, but the run does not report a parse error", prog, "parse error", x.end,
                            actions=got, answers=m.s.answers)
            if got != want[: len(got)] or len(got) < low:
                common.fail("different actions before the parse error", prog, want, got, answers=m.s.answers)
            line, col = x.end[2]
            lines = prog.text.split("\n")
            if kind != "exec" and not (1 <= line <= len(lines) and 0 <= col <= len(lines[line - 1])):
                common.fail("a parse error outside the script", prog, "a position in the script", x.end)
        else:
            common.check_end(prog, m, x, st, warnings=b.machine.severity.warnings)
        prefix = ch.next()
    st.sample({"script": prog.text})
