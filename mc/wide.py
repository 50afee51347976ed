"""Sizes: for each construct a family of programs with one dimension taken through small values and around the usual limits (8, 10, 16, 32,
64, 100, 128, 256, 300), every choice of branch, option or value of each. Used by the checks of the properties the constructs belong to."""

S = lambda x: ("s", x)  # noqa: E731
I = lambda x: ("i", x)  # noqa: E731,E741
V = lambda x: ("v", x)  # noqa: E731
SMALL = tuple(range(0, 14)) + (16, 17)
MID = SMALL + (20, 31, 32, 33)
SIZES = MID + (63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 300)
LARGE = (511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097)


def m(x):
    return ("op=", "t", "+=", S("<%s>" % x))


def rec(*names):
    return tuple(("op=", "t", "+=", ("bin", "+", ("call", "str", (V(n),)), S(","))) for n in names)


def eq(a, b):
    return ("bin", "==", a, b)


def chain(parts, op="+"):
    e = parts[0]
    for p in parts[1:]:
        e = ("bin", op, e, p)
    return e


def letters(n):
    return "".join(chr(97 + i % 26) if i % 5 else "é" for i in range(n))


def elifs(n):
    for els in (None, (m("else"),)):
        for j in range(n + 2):
            yield (("=", "x", I(j)), ("if", tuple((eq(V("x"), I(k)), (m(k),)) for k in range(n + 1)), els), m("end"))


def while_(n):
    yield (("=", "x", I(0)), ("while", ("bin", "<", V("x"), I(n)), (("E", ("pre", "++", "x")),)), m("end")) + rec("x")
    yield (("=", "x", I(0)), ("while", ("b", True), (("if", ((eq(V("x"), I(n)), (("break",),)),), None), ("E", ("pre", "++", "x")), ("continue",), m("no"))), m("end")) + rec("x")


def statements(n):
    yield tuple(m(k) for k in range(n)) + (("if", ((("b", True), tuple(m(k) for k in range(n))),), None), m("end"))
    yield tuple(("=", "v%d" % k, I(k)) for k in range(n)) + tuple(rec("v%d" % k)[0] for k in range(n))


def nest(wrap, n, inner):
    b = inner
    for k in range(n):
        b = (m("(%d" % k),) + wrap(b, k) + (m("%d)" % k),)
    return b


NEST = {
    "if": lambda b, k: (("if", ((("b", True), b),), None),),
    "else": lambda b, k: (("if", ((("b", False), ()),), b),),
    "elif": lambda b, k: (("if", ((("b", False), ()), (("b", True), b)), ()),),
    "while": lambda b, k: (("=", "w%d" % k, I(0)), ("while", ("bin", "<", ("pre", "++", "w%d" % k), I(2)), b)),
    "for": lambda b, k: (("for", "i%d" % k, I(1), I(1), None, b),),
    "forin": lambda b, k: (("forin", "i%d" % k, S("a"), b),),
    "one": lambda b, k: (("sel", "SelectOne", S("d%d" % k), ((S("A"), S(""), S("")),), ((S("A"), b),), None),),
    "many": lambda b, k: (("sel", "SelectMany", S("d%d" % k), ((S("|A"), S(""), S("")),), ((S("A"), b + (("break",),)),), (m("default"),)),),
    "default": lambda b, k: (("sel", "SelectOne", S("d%d" % k), ((S("A"), S(""), S("")),), (), b),),
}
NEST["mixed"] = lambda b, k: NEST[("if", "for", "many", "while", "else", "one", "forin", "elif")[k % 8]](b, k)


def nested(n):
    for name, w in NEST.items():
        loops = name in ("while", "for", "forin") or name == "mixed" and n > 1
        for j in ((), ("break",), ("continue",), ("return",), ("cancel", S("c"))):
            if j and j[0] in ("break", "continue") and not loops:
                continue
            yield nest(w, n, (m("in"), j, m("after")) if j else (m("in"),))


def ranges(n):
    for step in (None, 1, 2, 3, -1, -2, n, -n):
        if step == 0:
            continue
        for base in (0, -5, 10**20):
            a, b = base, base + n - 1
            if step is not None and step < 0:
                a, b = b, a
            lit = lambda x: I(x) if x >= 0 else ("neg", I(-x))  # noqa: E731
            yield (("for", "i", lit(a), lit(b), None if step is None else lit(step), rec("i")), m("end")) + (rec("i") if n else ())


def strings(n):
    yield (("forin", "i", S(letters(n)), rec("i")), m("end"))


def loops(n):
    """A two-value loop in a loop ..., n deep."""
    b = rec(*["i%d" % k for k in range(n)]) or (m(0),)
    c = b
    for k in range(n):
        b = (("for", "i%d" % k, I(1), I(2), None, b),)
        c = (("forin", "i%d" % k, S("xy"), c + (("if", ((eq(V("i%d" % k), S("x")), (("continue",),)),), None), m("%d" % k))),)
    yield b
    yield c


def options(n, kind, default=0):
    return tuple((S(("|" if k == default else "") + "O%d" % k), S("about %d" % k), S("%d.png" % k)) for k in range(n))


def selects(n):
    if n == 0:
        return
    for kind in ("SelectOne", "SelectMany"):
        for brk in (True, False):
            cs = tuple((S("O%d" % k), (m(k),) + ((("break",),) if brk else ())) for k in range(n))
            for d in sorted({0, n // 2, n - 1}) if brk else (None,):
                yield (("sel", kind, S("d"), options(n, kind, d), cs, (m("default"),)), m("end"))
        cs = tuple((S("O%d" % k), (m(k), ("break",))) for k in reversed(range(n)))
        yield (("sel", kind, S("d"), options(n, kind), cs, None), m("end"))
        yield (("sel", kind, S("d"), options(2, kind), tuple((S("O%d" % (k % 2)), (m(k), ("break",))) for k in range(n)), None), m("end"))
        yield (("sel", kind, S("d"), options(n, kind, None), (), (m("default"),)), m("end"))


def selects_in_turn(n):
    for kind in ("SelectOne", "SelectMany"):
        s = ("sel", kind, ("bin", "+", S("d"), ("call", "str", (V("x"),))), options(2, kind), ((S("O0"), (m("a"), ("break",))),), (m("b"),))
        yield (("=", "x", I(0)), ("while", ("bin", "<", ("pre", "++", "x"), I(n + 1)), (s,)), m("end"))


def nested_selects(n):
    yield nest(NEST["one"], n, (m("in"),))
    yield nest(NEST["many"], n, (m("in"),))
    yield nest(NEST["default"], n, (m("in"), ("break",), m("no")))


def same_names(n):
    if n == 0:
        return
    for kind in ("SelectOne", "SelectMany"):
        for bars in range(1 << min(n, 4)):
            for same in (True, False):
                o = tuple((S(("|" if bars >> k & 1 else "") + "A"), S("x" if same else "about %d" % k), S("")) for k in range(n))
                yield (("sel", kind, S("d"), o, ((S("A"), (m(1), ("break",))), (S("A"), (m(2), ("break",)))), (m("default"),)), m("end"))


def execs(n):
    """Exec in Exec ..., n deep."""
    for j in ((), ("break",), ("continue",), ("return",), ("cancel", S("c"))):
        b = (m("in"), j, m("after")) if j else (m("in"),)
        for k in range(n):
            b = (m("(%d" % k), ("exec", b), m("%d)" % k))
        yield (("for", "i", I(1), I(2), None, b),)
        yield (("sel", "SelectOne", S("d"), ((S("A"), S(""), S("")),), ((S("A"), b),), None), m("end")) if j != ("continue",) else b


def exec_long(n):
    yield (("exec", tuple(m(k) for k in range(n))), m("end"))
    yield (("for", "i", I(1), I(n), None, (("exec", (m("e"),) + rec("i")),)), m("end"))
    yield tuple(("exec", (m(k),)) for k in range(n)) + (m("end"),)


LAYOUTS = ["%s", "\n%s", "; c\n%s", ";\n%s", "%s; c", "%s ;", "  %s", "\t%s\t\n\n", "\r\n%s\r\n", ";%\n;\n%s\n;", "\\\n%s", "%s\\\n"]


def exec_layout(n):
    body = (m("x"),) * n + (("kw", "Note", (S("n; m"),)),)
    for a in LAYOUTS:
        yield (("execx", lambda x, a=a: S(a.replace("%s", x.rstrip("\n"))), body), m("end"))


NUMS = [I(0), I(1), I(2), I(3), I(7), I(10**17 + 1), I(2**64), I(10**30 + 7), ("d", "0.0"), ("d", "0.5"), ("d", "0.1"), ("d", "0.123456789"), ("d", "0.12345678901234567"),
        ("d", "123456789.125"), ("d", "3.0000000000000004"), ("d", "1.7976931348623157"), ("d", "100000000000000000000.0"), ("d", "0.00000000000000000001"),
        ("d", "9007199254740993.0"), ("d", "2.50"), ("d", "0.30000000000000004"),
        I(2**31 - 1), I(2**31), I(2**53), I(2**53 + 1), I(2**63 - 1), I(2**63), ("d", "9007199254740992.0")]


def numbers(n):
    if n < len(NUMS):
        a = NUMS[n]
        yield (("=", "x", a), ("=", "y", ("neg", a))) + rec("x", "y")
        for b in NUMS:
            for op in ("+", "-", "*", "/", "%", "==", "!=", "<", "<=", ">", ">="):
                if op in "/%" and b in (I(0), ("d", "0.0")):
                    continue
                if op == "/" and a[0] == "i" and a[1] > 10**300:
                    continue
                yield (("=", "x", a), ("=", "y", ("bin", op, a, b))) + (("op=", "x", op + "=", b),) * (op in "+-*/%")


def sums(n):
    if n:
        for op in ("+", "-", "*", "/", "%", "^"):
            yield (("=", "x", chain([("d", "1.5") if k == 2 else I(1 if op in "/%^" and k else k + 2) for k in range(n)], op)),)
        yield (("=", "x", chain([S("%d" % k) for k in range(n)])),)
        yield (("=", "y", I(1)), ("=", "x", chain([("par", ("pre", "++", "y")) for k in range(n)])))
        yield (("=", "x", chain([("b", k != n // 2) for k in range(n)], "and")), ("=", "y", chain([("b", k == n // 2) for k in range(n)], "or")))
        e = f = g = h = I(7)
        for k in range(n):
            e, f, g, h = ("par", e), ("neg", f), ("not", g), ("bin", "+", I(k), ("par", h))
        yield (("=", "x", e), ("=", "y", f), ("=", "z", g), ("=", "w", h))


def packages(n):
    return [("P%02d" % k, ["%d/p%d_%d.esp" % (j, k, j) if j % 2 else "t%d_%d.txt" % (k, j) for j in range(n)]) for k in range(n)]


def package_loops(n):
    yield (("forin", "p", ("SP",), rec("p") + (("forin", "f", V("p"), rec("f")),)), m("end"))


def picks(n):
    sp = packages(n)
    names = [x for x, _ in sp]
    yield tuple(("kw", "SelectSubPackage", (S(x),)) for x in reversed(names))
    yield (("kw", "SelectAll", ()),) + tuple(("kw", "DeSelectSubPackage", (S(x.lower()),)) for x in names[1:]) + (("kw", "SelectAllPlugins", ()),)
    yield (("kw", "SelectAll", ()),) + tuple(("kw", "DeSelectPlugin", (S("P%d_%d.ESP" % (k, j)),)) for k in range(n) for j in range(1, n, 2) if (k + j) % 3)
    yield tuple(("kw", "SelectPlugin", (S("p%d_%d.esp" % (k, j)),)) for k in range(n) for j in range(1, n, 2))
    for x in names:
        yield (("kw", "SelectSubPackage", (S(x),)), ("kw", "SelectSubPackage", (S(x.lower()),)))
        yield (("kw", "SelectAll", ()), ("kw", "DeSelectSubPackage", (S(x),)))


def requests(n):
    s = lambda k: S("k%d" % k)  # noqa: E731
    yield tuple(("kw", "Note", (s(k % 7),)) for k in range(n))
    yield tuple(("kw", "RenamePlugin", (s(k), S("n%d" % k))) for k in range(n)) + tuple(("kw", "ResetPluginName", (S("K%d" % k),)) for k in range(0, n, 3))
    yield tuple(("kw", "RenamePlugin", (s(k % 3), S("n%d" % k))) for k in range(n))
    yield tuple(("E", ("call", "EditINI", (S("f%d" % (k % 3)), s(k), s(k % 5), I(k)))) for k in range(n))
    yield tuple(("E", ("call", "DisableINILine", (S("f%d" % (k % 3)), s(k % 2), s(k % 5)))) for k in range(n))


def counted(n):
    """Long loops that only count."""
    k = (("E", ("pre", "++", "k")),)
    yield (("=", "k", I(0)), ("for", "i", I(1), I(n), None, k)) + rec("i", "k")
    yield (("=", "k", I(0)), ("for", "i", I(n), ("neg", I(n)), ("neg", I(2)), k)) + rec("i", "k")
    yield (("=", "k", I(0)), ("forin", "i", S(letters(n)), k)) + rec("i", "k")
    yield (("=", "k", I(0)), ("while", ("bin", "<", V("k"), I(n)), k)) + rec("k")
    yield (("=", "k", I(0)), ("for", "i", I(1), I(n), None, k + (("if", ((eq(V("k"), I(n - 1)), (("break",),)),), None), ("continue",), m("no")))) + rec("i", "k")


def big_strings(n):
    """Strings of n characters, from a literal and from concatenations."""
    a = letters(n)
    yield (("=", "x", S(a)), ("=", "l", ("call", "len", (V("x"),))), ("=", "y", ("bin", "+", V("x"), S("z"))), ("=", "b", eq(V("y"), S(a + "z"))), ("=", "c", eq(V("x"), V("y"))))
    yield (("=", "x", S("ab")), ("while", ("bin", "<", ("call", "len", (V("x"),)), I(n)), (("op=", "x", "+=", V("x")),)), ("=", "l", ("call", "len", (V("x"),))))
    yield (("=", "x", ("bin", "<", S(a), S(a + "!"))), ("=", "y", ("bin", ">", S("a" * n + "b"), S("a" * n + "a"))), ("=", "z", ("bin", "in", S("é" * n), S("x" + "é" * n))))


def escapes(n):
    """Literals with n escapes of one kind, in either quotes."""
    for c in ("\\", '"', "'", "\n", "\t", "é"):
        for q in ("s", "sq"):
            mix = "".join(c + "ab;"[k % 3] for k in range(n))
            yield (("=", "x", (q, c * n)), ("=", "y", (q, mix)), ("=", "z", ("bin", "+", (q, c), (q, "c" + c))), ("=", "l", ("call", "len", (V("x"),))))
    for t, v in (("\\x07", "\x07"), ("\\101", "A"), ("\\7", "\x07"), ("\\u00e9", "é"), ("\\U0001F600", "😀"), ("\\q", "q"), ("\\é", "é")):
        yield (("=", "x", ("raw", '"' + t * n + '"', v * n)), ("=", "y", ("raw", "'" + ("_" + t) * n + "'", ("_" + v) * n)))


def indexed(n):
    if not n:
        return
    for k in sorted({0, 1, n // 2, n - 2, n - 1, n, -1, -2, 1 - n, -n, -n - 1}):
        i = I(k) if k >= 0 else ("neg", I(-k))
        yield (("=", "s", S(letters(n))), ("=", "a", ("sl", V("s"), i, None, None, False)), ("=", "b", ("sl", V("s"), None, i, None, False)),
               ("=", "c", ("sl", V("s"), i, None, ("neg", I(1)), True)), ("=", "d", ("sl", V("s"), None, None, i if k else I(2), True)), ("=", "e", ("idx", V("s"), i)))


def searched(n):
    a = letters(n)
    call = lambda f, *x: ("call", f, x)  # noqa: E731
    yield tuple(("=", "r%d" % k, e) for k, e in enumerate((
        call("len", S(a)), call("find", S(a + "Q"), S("Q")), call("find", S("Q" + a + "Q"), S("Q"), I(1)), call("rfind", S("Q" + a), S("Q")), call("startswith", S(a + "Q"), S(a)),
        call("endswith", S("Q" + a), S(a)), call("startswith", S(a), S(a + "Q")), call("lower", S("Q" + a + "É" * n)), call("find", S("ab" * n), S("ba" * n)),
        call("rfind", S("ab" * n), S("ab"), I(0), I(2 * n)), call("str", call("len", S(a))), call("int", S("1" * min(n, 300) or "0")), call("str", call("int", S("7" * min(n, 300) or "0"))))))
    if n < 500:
        yield (("=", "r", call("startswith", S("zz" + a), *[S("y%d" % k) for k in range(n)], S("zz"))), ("=", "q", call("endswith", S("zz" + a), *[S("Y%d" % k) for k in range(n)], S(a + "!"))))


# name -> (properties, sizes in the quick check, sizes in the thorough check, programs of a size)
FAMILIES = {
    "elif": ("01", SMALL, MID, elifs),
    "while": ("01 05", SIZES, SIZES, while_),
    "statements": ("01", SIZES, SIZES, statements),
    "nested": ("01", tuple(range(1, 11)), tuple(range(1, 17)), nested),
    "range": ("02", SIZES, SIZES, ranges),
    "string": ("02", SIZES, SIZES, strings),
    "loops": ("02", tuple(range(0, 7)), tuple(range(0, 9)), loops),
    "packages": ("02", tuple(range(0, 13)), MID, package_loops),
    "select": ("03", SMALL, MID, selects),
    "select in turn": ("03", tuple(range(0, 6)), tuple(range(0, 8)), selects_in_turn),
    "select in select": ("03", tuple(range(1, 11)), tuple(range(1, 17)), nested_selects),
    "same names": ("03", (1, 2, 3, 4, 5), (1, 2, 3, 4, 5, 6, 7), same_names),
    "exec": ("04", tuple(range(0, 7)), tuple(range(0, 9)), execs),
    "long exec": ("04", MID, SIZES, exec_long),
    "exec layout": ("04", (0, 1, 2), (0, 1, 2, 3, 10), exec_layout),
    "counted": ("02 05", LARGE, LARGE + (10001, 65537), counted),
    "big strings": ("06", SIZES + LARGE, SIZES + LARGE + (65535, 65536, 65537, 1000001), big_strings),
    "escapes": ("08", SIZES, SIZES + LARGE, escapes),
    "indexed": ("08", MID + LARGE, SIZES + LARGE + (65537,), indexed),
    "searched": ("09", SIZES + LARGE, SIZES + LARGE + (65537,), searched),
    "numbers": ("06", tuple(range(len(NUMS))), tuple(range(len(NUMS))), numbers),
    "operands": ("06", MID, MID + (64,), sums),
    "selected": ("11", tuple(range(0, 9)), SMALL, picks),
    "requests": ("12", SIZES, SIZES, requests),
}
RULE = "one dimension of every construct of this property taken through 0..13 and the usual limits up to 300 (up to 4097 where that is cheap), every choice of branch, option or value of it"


def cases(prop, thorough=False):
    for name, (props, quick, all_, fn) in FAMILIES.items():
        if prop in props.split():
            for n in all_ if thorough else quick:
                yield ("wide", name, n)


def menus(many, n, defaults):
    if not many:
        return [(i,) for i in range(n)]
    if n <= 4:
        return [tuple(i for i in range(n) if k >> i & 1) for k in range(1 << n)]
    pairs = [(i, j) for i in range(n) for j in (0, i - 1, i + 1, n - 1) if 0 <= j < n and i != j]
    return [(), tuple(range(n)), tuple(reversed(range(n)))] + [(i,) for i in range(n)] + pairs


def bodies(case):
    name, n = case[1:3]
    for b in FAMILIES[name][3](n):
        yield (("=", "t", S("")),) + b


def check(case, st):
    from . import common, lang, ref
    from .explore import all_choices

    _, name, n = case
    sp = packages(n) if name in ("packages", "selected") else [("P", ["a.esp", "f"])]
    for b in bodies(case):
        prog = lang.compile_(b)
        st.sample(prog.text[:400], 1)
        bench = common.Bench(prog, ref.World(packages=sp, bound=10**6))
        st.c["executions"] += all_choices(lambda ch: bench.pair(ch, st, menus=menus))
        st.c["sizes"] += 1
