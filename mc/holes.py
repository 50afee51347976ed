"""Every position of the language in which an expression stands x expressions with side effects (and failing ones) x every construct
around the statement. Used by the checks of the properties the positions belong to."""

S = lambda x: ("s", x)  # noqa: E731
N_ = ("v", "n")
INC = ("pre", "++", "n")


def V(n):
    return ("v", n)


def rec():
    return ("op=", "t", "+=", ("bin", "+", ("call", "str", (N_,)), S(",")))


def m(k):
    return ("op=", "t", "+=", S("<%d>" % k))


OPT = ((S("A"), S("a"), S("")), (S("|B"), S("b"), S("x.png")))
CASES = ((S("A"), (m(1), rec(), ("break",))), (S("B"), (m(2), rec())))


def sel(kind, d=S("d"), o=OPT, c=CASES, default=(m(3), rec())):
    return ("sel", kind, d, o, c, default)


def option(kind, k, e):
    o = [S("A"), S("a"), S("")]
    o[k] = e
    # the other options also show when the side effects happen
    return (sel(kind, o=((S("B"), ("call", "str", (N_,)), S("")), tuple(o), (S("C"), ("call", "str", (N_,)), S("")))),)


def cond(e):
    return ("bin", ">", e, ("i", 2))


# name -> (properties, type of the expression, statements)
HOLES = {
    "statement": ("06", "any", lambda e: (("E", ("par", e)),)),
    "assign": ("06", "any", lambda e: (("=", "x", e),)),
    "assign n": ("06", "any", lambda e: (("=", "n", e),)),
    "compound": ("06", "int", lambda e: (("op=", "x", "+=", e),)),
    "compound n": ("06", "int", lambda e: (("op=", "n", "*=", e),)),
    "compound str": ("06", "str", lambda e: (("op=", "t", "+=", e),)),
    "if": ("01", "int", lambda e: (("if", ((cond(e), (m(1), rec())),), (m(2), rec())),)),
    "if alone": ("01", "int", lambda e: (("if", ((cond(e), (m(1), rec())),), None),)),
    "elif": ("01", "int", lambda e: (("if", ((cond(INC), (m(1),)), (cond(e), (m(2), rec()))), (m(3), rec())),)),
    "elif alone": ("01", "int", lambda e: (("if", ((cond(INC), (m(1),)), (cond(e), (m(2), rec()))), None),)),
    "elif elif": ("01", "int", lambda e: (("if", ((("b", False), ()), (cond(e), (rec(),)), (cond(e), (m(2), rec()))), None),)),
    "while": ("01", "int", lambda e: (("=", "k", ("i", 0)), ("while", ("bin", "and", ("bin", "<", ("pre", "++", "k"), ("i", 3)), ("bin", ">", e, ("neg", ("i", 99)))),
                                                             (m(1), rec())))),
    "while break": ("01", "int", lambda e: (("while", ("bin", ">", e, ("neg", ("i", 99))), (rec(), ("break",), m(1))),)),
    "while continue": ("01", "int", lambda e: (("=", "k", ("i", 0)), ("while", ("bin", "and", ("bin", ">", e, ("neg", ("i", 99))), ("bin", "<", ("pre", "++", "k"), ("i", 3))),
                                                                      (rec(), ("continue",), m(1))))),
    "cancel": ("01", "str", lambda e: (("if", ((("call", "c1", ()), (("cancel", e),)),), None),)),
    "from": ("02", "int", lambda e: (("for", "i", e, ("i", 4), None, (rec(), ("op=", "t", "+=", ("call", "str", (V("i"),))))),)),
    "to": ("02", "int", lambda e: (("for", "i", ("i", 1), e, None, (rec(), ("op=", "t", "+=", ("call", "str", (V("i"),))))),)),
    "by": ("02", "int", lambda e: (("for", "i", ("i", 1), ("i", 5), e, (rec(), ("op=", "t", "+=", ("call", "str", (V("i"),))))),)),
    "from to by": ("02", "int", lambda e: (("for", "i", e, ("bin", "+", N_, e), e, (rec(), ("op=", "n", "+=", ("i", 1)))),)),
    "for n": ("02", "int", lambda e: (("for", "n", e, ("i", 4), None, (rec(), m(1))),)),
    "in": ("02", "str", lambda e: (("forin", "i", e, (rec(), ("op=", "t", "+=", V("i")))),)),
    "in n": ("02", "str", lambda e: (("forin", "n", e, (rec(), m(1))), ("=", "n", ("i", 1)))),
    "in package": ("02", "int", lambda e: (("forin", "i", ("idx", ("SP",), ("bin", "%", e, ("i", 2))), (rec(), ("op=", "t", "+=", V("i")))),)),
    "exec": ("04", "str", lambda e: (("execx", lambda text: ("bin", "+", ("sl", e, None, ("i", 0), None, False), S(text)), (m(1), rec())),)),
    "exec last": ("04", "str", lambda e: (("execx", lambda text: ("bin", "+", S(text), ("sl", e, None, ("i", 0), None, False)), (m(1), rec())),)),
    "exec if": ("04", "str", lambda e: (("if", ((("call", "c1", ()), (("execx", lambda text: ("bin", "+", ("sl", e, None, ("i", 0), None, False), S(text)),
                                                                      (rec(), ("=", "n", ("bin", "+", N_, ("i", 2))))),)),), None),)),
}
for _k in ("SelectOne", "SelectMany"):
    HOLES.update({
        _k: ("03", "str", lambda e, k=_k: (sel(k, d=e),)),
        _k + " name": ("03", "str", lambda e, k=_k: option(k, 0, e)),
        _k + " about": ("03", "str", lambda e, k=_k: option(k, 1, e)),
        _k + " image": ("03", "str", lambda e, k=_k: option(k, 2, e)),
        _k + " label": ("03", "str", lambda e, k=_k: (sel(k, c=((e, (m(1), rec(), ("break",))),) + CASES),)),
        _k + " last label": ("03", "str", lambda e, k=_k: (sel(k, c=CASES + ((e, (m(4), rec())),)),)),
        _k + " all": ("03", "str", lambda e, k=_k: (sel(k, d=e, o=((e, e, e), (S("B"), e, S(""))), c=((e, (m(1), rec())), (e, (rec(), ("break",))),) + CASES),)),
    })
for _n, _p, _a in (("Note", "12", 1), ("SelectSubPackage", "11", 1), ("DeSelectSubPackage", "11", 1), ("SelectPlugin", "11", 1),
                   ("DeSelectPlugin", "11", 1), ("RenamePlugin", "12", 2), ("ResetPluginName", "12", 1), ("RequireVersions", "10", 4)):
    for _i in range(_a):
        def _kw(e, n=_n, a=_a, i=_i):
            args = [S("a.esp")] * a
            args[i] = e
            if n != "RequireVersions" and i == 0 and n != "Note":
                args[0] = ("bin", "+", ("sl", e, None, ("i", 0), None, False), S("P" if "Sub" in n else "a.esp"))
            return (("kw", "SelectAll", ()), ("kw", n, tuple(args))) if n.startswith("De") else (("kw", n, tuple(args)),)
        HOLES["%s %d" % (_n, _i + 1)] = (_p, "str", _kw)
for _n, _a in (("EditINI", 5), ("DisableINILine", 3)):
    for _i in range(_a):
        def _ini(e, n=_n, a=_a, i=_i):
            args = [S("f%d" % j) for j in range(a)]
            args[i] = e
            return (("E", ("call", n, tuple(args))),)
        HOLES["%s %d" % (_n, _i + 1)] = ("12", "any" if (_n, _i) == ("EditINI", 3) else "str", _ini)

# expressions: their value, with n and everything else the side effects change
GOOD = {
    "int": [INC, ("bin", "-", INC, ("par", ("post", "--", "n"))), ("call", "len", (("call", "str", (("bin", "+", INC, ("i", 8)),)),)),
            ("par", ("bin", "+", ("i", 1), ("bin", "*", ("pre", "--", "n"), ("i", 0)))), ("neg", INC),
            ("idx", ("call", "T2", (INC, ("i", 1))), ("i", 0))],
    "str": [("call", "str", (INC,)), ("sl", S("AABBCC"), INC, None, None, False), ("idx", S("CBACBACBACBACBACBA"), INC),
            ("bin", "+", ("sl", S("ABC"), None, ("i", 1), None, False), ("sl", ("call", "str", (INC,)), None, ("i", 0), None, False)),
            ("meth", S(" |AB "), "lower", ()), S(""), S(" "), S(" A "), S("|"), S("|A"), S("||B"), S("\ta.png "),
            ("sl", S("|AB"), ("bin", "-", INC, ("i", 2)), ("bin", "-", INC, ("i", 1)), None, False)],
}
GOOD["int"].pop()
GOOD["any"] = GOOD["int"][:2] + GOOD["str"][:2] + [("bin", "==", INC, ("i", 2)), ("bin", "and", ("b", False), ("bin", ">", INC, ("i", 1))),
                                                   ("bin", "or", ("b", True), ("bin", ">", INC, ("i", 1))), ("not", INC), ("d", "2.5"),
                                                   ("idx", ("SP",), ("bin", "-", INC, ("i", 2))), ("bin", "in", S("P"), ("SP",))]
BAD = [("bin", "+", INC, S("x")), ("idx", S("abc"), ("bin", "+", INC, ("i", 7))), ("call", "nosuch", (INC,)), ("bin", "/", INC, ("i", 0)),
       ("bin", "+", ("call", "str", (INC,)), ("neg", S("a"))), ("call", "len", (INC, INC)), ("meth", ("par", INC), "len", ()),
       ("call", "str", (("call", "int", (("bin", "+", ("call", "str", (INC,)), S("z")),)),)), ("pre", "++", "unset")]

WRAP = {
    "top": lambda b: b,
    "if": lambda b: (("if", ((("bin", ">", INC, ("i", 0)), b),), None),),
    "elif": lambda b: (("if", ((("bin", ">", INC, ("i", 50)), ()), (("bin", ">", INC, ("i", 0)), b)), ()),),
    "else": lambda b: (("if", ((("bin", ">", INC, ("i", 50)), ()),), b),),
    "for": lambda b: (("for", "q", ("i", 1), ("i", 2), None, b),),
    "forin": lambda b: (("forin", "q", S("xy"), b),),
    "while": lambda b: (("=", "q", ("i", 0)), ("while", ("bin", "<", ("pre", "++", "q"), ("i", 3)), b)),
    "exec": lambda b: (("exec", b),),
    "case": lambda b: (("sel", "SelectOne", S("outer"), ((S("X"), S(""), S("")),), ((S("X"), b),), None),),
    "default": lambda b: (("sel", "SelectMany", S("outer"), ((S("X"), S(""), S("")),), (), b),),
    "for exec": lambda b: (("for", "q", ("i", 1), ("i", 2), None, (("exec", b),)),),
    "exec for": lambda b: (("exec", (("for", "q", ("i", 1), ("i", 2), None, b),)),),
}
INIT = (("=", "t", S("")), ("=", "n", ("i", 1)), ("=", "x", ("i", 5)))


def cases(prop, wraps=None, bad=False):
    """Cases of the holes that belong to a property ('' for all), to be given to body()."""
    for h, (p, typ, _) in HOLES.items():
        if prop in ("", p):
            for w in wraps or WRAP:
                for k in range(len(BAD if bad else GOOD[typ])):
                    yield ("hole", h, w, k, bad)


def body(case):
    _, h, w, k, bad = case
    _, typ, fn = HOLES[h]
    e = (BAD if bad else GOOD[typ])[k]
    return INIT + (rec(),) + WRAP[w]((m(7),) + fn(e) + (rec(),)) + (m(8), rec())


PACKAGES = [("P", ["a.esp", "f"]), ("Q", ["b.esm"])]

RULE = ("every position of an expression in the statements of this property x expressions with side effects x 12 constructs around the statement, "
        "with the order and persistence of the side effects observed")


def check(case, st):
    from . import common, lang, ref
    from .explore import all_choices

    prog = lang.compile_(body(case))
    st.sample(prog.text)
    bench = common.Bench(prog, ref.World(packages=PACKAGES))
    st.c["executions"] += all_choices(lambda ch: bench.pair(ch, st, watch=True))
    st.c["holes"] += 1
