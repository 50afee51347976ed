"""Exhaustive enumeration of control skeletons and their completion into observable programs."""

from functools import lru_cache

FULL_LEAVES = ("break", "continue", "return", "cancel", "cancelm")
FULL_COMP = ("if", "ifelse", "ifelif", "ifelifelse", "while", "for")
ARITY = {"if": 1, "ifelse": 2, "ifelif": 2, "ifelifelse": 3, "while": 1, "for": 1, "forin": 1, "one": 2, "many": 2,
         "onedef": 2, "exec": 1, "one3": 3, "many3": 3, "manydef": 2}


def splits(n, k):
    if k == 1:
        yield (n,)
        return
    for i in range(n + 1):
        for r in splits(n - i, k - 1):
            yield (i,) + r


@lru_cache(None)
def stmts(n, leaves, comps):
    """Statements with exactly n control nodes."""
    out = []
    if n == 1:
        out += [(x,) for x in leaves]
    for c in comps:
        for sp in splits(n - 1, ARITY[c]):
            for bs in product([bodies(i, leaves, comps) for i in sp]):
                out.append((c,) + bs)
    return out


def product(lists):
    if not lists:
        yield ()
        return
    for x in lists[0]:
        for r in product(lists[1:]):
            yield (x,) + r


@lru_cache(None)
def bodies(n, leaves, comps):
    """Bodies (tuples of statements) with exactly n control nodes; nothing but markers follows a jump."""
    if n == 0:
        return [()]
    out = []
    for i in range(1, n + 1):
        for s in stmts(i, leaves, comps):
            if s[0] in leaves and n - i > 0:
                continue
            for r in bodies(n - i, leaves, comps):
                out.append((s,) + r)
    return out


class Complete:
    """Turns a skeleton into a program: a marker before, between and after the statements of every body, conditions
    asked from the environment."""

    def __init__(self, markers=True, single=False):
        self.n = 0
        self.markers = markers
        self.single = single  # only one marker per gap at the end

    def fresh(self):
        self.n += 1
        return self.n

    def mark(self):
        k = self.fresh()
        return ("op=", "t", "+=", ("call", "m%d" % k, ()))

    def body(self, b, top=False):
        out = []
        if top:
            out.append(("=", "t", ("s", "")))
        if self.markers:
            out.append(self.mark())
        for s in b:
            out.append(self.stmt(s))
            if self.markers:
                out.append(self.mark())
        return tuple(out)

    def cond(self, p="c"):
        return ("call", "%s%d" % (p, self.fresh()), ())

    def stmt(self, s):
        k = s[0]
        if k in ("break", "continue", "return"):
            return (k,)
        if k == "cancel":
            return ("cancel", None)
        if k == "cancelm":
            return ("cancel", ("s", "m%d" % self.fresh()))
        if k == "if":
            return ("if", ((self.cond(), self.body(s[1])),), None)
        if k == "ifelse":
            return ("if", ((self.cond(), self.body(s[1])),), self.body(s[2]))
        if k == "ifelif":
            return ("if", ((self.cond(), self.body(s[1])), (self.cond(), self.body(s[2]))), None)
        if k == "ifelifelse":
            return ("if", ((self.cond(), self.body(s[1])), (self.cond(), self.body(s[2]))), self.body(s[3]))
        if k == "while":
            return ("while", self.cond("w"), self.body(s[1]))
        if k == "for":
            return ("for", "i%d" % self.fresh(), ("i", 1), ("i", 2), None, self.body(s[1]))
        if k == "forin":
            return ("forin", "i%d" % self.fresh(), ("s", "ab"), self.body(s[1]))
        if k == "exec":
            return ("exec", self.body(s[1]))
        if k in ("one", "onedef", "many", "one3", "many3", "manydef"):
            d = ("s", "menu%d" % self.fresh())
            o = tuple((("s", x), ("s", x + "?"), ("s", "")) for x in "AB")
            if k == "onedef":
                return ("sel", "SelectOne", d, o, ((("s", "A"), self.body(s[1])),), self.body(s[2]))
            if k == "manydef":
                return ("sel", "SelectMany", d, o, ((("s", "A"), self.body(s[1])),), self.body(s[2]))
            if k in ("one3", "many3"):
                return ("sel", "SelectOne" if k == "one3" else "SelectMany", d, o,
                        ((("s", "A"), self.body(s[1])), (("s", "B"), self.body(s[2]))), self.body(s[3]))
            return ("sel", "SelectOne" if k == "one" else "SelectMany", d, o,
                    ((("s", "A"), self.body(s[1])), (("s", "B"), self.body(s[2]))), None)
        raise ValueError(s)
