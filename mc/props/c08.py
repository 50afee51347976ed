"""C08. States: contexts reached; transitions: exec() steps. Every literal content up to the length bound over an alphabet with both quotes,
the backslash, escape letters, hexadecimal digits, layout and comment characters and non-ASCII characters, in both quote styles; every index
and every combination of slice bounds (each omitted or in a range covering both ends) on strings of every length up to the bound and on
package lists, against a character-by-character reference."""

from itertools import product

from .. import common, impl, lang, ref, wide, values
from ..explore import Violation, all_choices

BOUNDS = {
    "quick": "literals of <=4 characters over 22 characters and <=5 over 8, all \\x, octal and \\u prefixes; indexes -7..7 and slice bounds -6..6 or "
             "omitted, steps -4..4 or omitted, on strings of length <=5 (ASCII and not), packages lists of <=3; booleans as indexes and bounds; all places x the corpora of values.py",
    "thorough": "literals of <=4 characters over 22 and <=7 over 8; bounds -9..9, steps -6..6, strings of length <=8",
}
CHUNK = 1
BIG = "a\"'\\nrtbfvx0u4 ;\n\té😀|U"
SMALL = "a\"'\\né7x"
PER = 60


def valid(c, q):
    i = 0
    while i < len(c):
        if c[i] == "\\":
            if i + 1 >= len(c) or c[i + 1] in "\r\n":
                return False
            i += 2
        elif c[i] == q:
            return False
        else:
            i += 1
    return True


SIMPLE = {"a": "\a", "b": "\b", "f": "\f", "n": "\n", "r": "\r", "t": "\t", "\\": "\\"}
HEX = "0123456789abcdefABCDEF"


def denote(c):
    """Characters denoted by the content of a literal."""
    out = []
    i = 0
    while i < len(c):
        if c[i] != "\\":
            out.append(c[i])
            i += 1
            continue
        e = c[i + 1]
        i += 2
        if e in SIMPLE:
            out.append(SIMPLE[e])
            continue
        k = {"x": 2, "u": 4, "U": 8}.get(e)
        if k:
            h = c[i : i + k]
            if len(h) == k and all(x in HEX for x in h):
                out.append(chr(int(h, 16)))
                i += k
                continue
        if e in "01234567":
            h = e
            while len(h) < 3 and i < len(c) and c[i] in "01234567":
                h += c[i]
                i += 1
            out.append(chr(int(h, 8)))
            continue
        out.append(e)
    return "".join(out)


def words(alphabet, n):
    for w in product(alphabet, repeat=n):
        yield "".join(w)


def literals(tier):
    t = tier == "thorough"
    for n in range(0, 5):
        yield from words(BIG, n)
    for n in range(5, 8 if t else 6):
        yield from words(SMALL, n)
    for e in "xuU01234567":
        for n in range(0, 5):
            for w in words("4aGé\\" if n < 4 else "4a", n):
                yield "\\" + e + w
                yield "b\\" + e + w + "c"
    for h in ("0041", "00e9", "20AC", "0000", "ffff", "004", "00413", "d800"):
        yield "\\u" + h
        yield "é\\u" + h + "\\"
        yield "\\\\u" + h
    for h in ("0001F600", "00000041", "0010FFFF", "0001F60"):
        yield "\\U" + h
        yield "\\U" + h + "9"
    for a in HEX:
        for b in HEX:
            yield "\\x" + a + b
    for k in range(512):
        if k % 7 == 0 or k < 130:
            yield "\\%o" % k
            yield "\\%03o1" % k
    for cp in list(range(32, 256)) + [0x100, 0x3B1, 0x4E2D, 0x202E, 0x2028, 0xFEFF, 0x1F4A9, 0x10FFFF]:
        yield chr(cp) + "z"
        yield "\\" + chr(cp) + "z"
        yield "z" + chr(cp)


def cases(tier):
    yield from values.cases("08", tier == "thorough")
    t = tier == "thorough"
    yield from wide.cases("08", t)
    seen = set()
    batch = []
    for c in literals(tier):
        if c in seen:
            continue
        seen.add(c)
        batch.append(c)
        if len(batch) == PER:
            yield ("lit", tuple(batch))
            batch = []
    yield ("lit", tuple(batch))
    strs = ["", "a", "ab", "abc", "aé😀d", "abcde"] + (["abcdef", "abcdefg", "abcdefgh"] if t else [])
    for s in strs:
        for form in range(8):
            yield ("slice", s, form, 9 if t else 6, 6 if t else 4)
        yield ("index", s, 11 if t else 7)
    for n in range(0, 4):
        yield ("packages", n)
    for i in range(len(LITFORM)):
        yield ("form", i)
    for form in range(8):
        yield ("bools", form)


S = lambda x: ("s", x)  # noqa: E731
V = lambda x: ("v", x)  # noqa: E731
o = lambda i: ("call", "o%d" % i, ())  # noqa: E731
N = lambda k: ("i", k) if k >= 0 else ("neg", ("i", -k))  # noqa: E731
# written forms of indexes and slices
LITFORM = []
for _o in (S("abcd"), V("s"), ("par", ("bin", "+", V("s"), S("z"))), ("call", "str", (V("s"),)), ("idx", ("SP",), ("i", 0))):
    for _i in (0, 1, 3, -1, -4, 9, -9):
        LITFORM.append(("idx", _o, N(_i)))
        LITFORM.append(("idx", ("idx", _o, N(_i)), ("i", 0)))
        LITFORM.append(("sl", ("sl", _o, N(_i), None, None, False), ("i", 1), None, None, False))
        LITFORM.append(("idx", ("sl", _o, None, N(_i), None, False), ("i", 0)))
    for _a in (None, 1, -2):
        for _b in (None, 3, -1):
            LITFORM.append(("sl", _o, None if _a is None else N(_a), None if _b is None else N(_b), None, False))
            for _c in (None, 1, 2, -1):
                LITFORM.append(("sl", _o, None if _a is None else N(_a), None if _b is None else N(_b), None if _c is None else N(_c), True))
WORLD = ref.World(packages=[("Pack", ["f"]), ("Qé", [])])


def run(e, dom, st, world=WORLD):
    prog = lang.compile_((("=", "s", S("héllo")), ("=", "r", e)))
    bench = common.Bench(prog, world, dom=dom)
    n = all_choices(lambda ch: bench.pair(ch, st))
    st.c["programs"] += 1
    st.c["executions"] += n


MACHINE = []


def check(case, st):
    if case[0] == "corpus":
        return values.check(case, st)
    kind = case[0]
    if kind == "wide":
        return wide.check(case, st)
    if kind == "lit":
        if not MACHINE:
            MACHINE.append(impl.Machine(WORLD))
        for q in "\"'":
            cs = [c for c in case[1] if valid(c, q)]
            if not cs:
                continue
            text = "".join("v%d = %s%s%s\n" % (i, q, c, q) for i, c in enumerate(cs))
            st.sample(text[:300])
            x = impl.step_run(MACHINE[0], text, None)
            st.c["transitions"] += x.steps
            st.c["literals"] += len(cs)
            st.c["traces"] += 1
            got = dict(impl.canon_vars(x.state)) if x.state else {}
            for i, c in enumerate(cs):
                st.state(c)
                want = ("str", denote(c))
                if got.get("v%d" % i) != want:
                    if any(int(c[k + 2 : k + 10], 16) > 0x10FFFF for k in range(len(c) - 9) if c[k : k + 2] == "\\U" and all(y in HEX for y in c[k + 2 : k + 10])):
                        continue
                    raise Violation("a string literal denotes other characters", literal=q + c + q, expected=want, observed=got.get("v%d" % i), end=x.end, script=text)
            if x.end != ("complete",):
                raise Violation("a script of literals does not complete", end=x.end, script=text)
    elif kind == "slice":
        _, s, form, b, stp = case
        dom = {"o1": [s]}
        part = [None] * 3
        for k in range(3):
            if form >> k & 1:
                part[k] = o(k + 2)
                dom["o%d" % (k + 2)] = list(range(-b, b + 1)) if k < 2 else list(range(-stp, stp + 1))
        run(("sl", o(1), part[0], part[1], part[2], bool(form & 4)), dom, st)
        if not form & 4:
            run(("sl", o(1), part[0], part[1], None, True), dom, st)
    elif kind == "bools":
        # a boolean is an integer
        form = case[1]
        part = [o(k + 2) if form >> k & 1 else None for k in range(3)]
        dom = {"o%d" % (k + 2): [True, False, 2, -1] for k in range(3) if form >> k & 1}
        for s in ("", "a", "abc"):
            run(("sl", o(1), part[0], part[1], part[2], bool(form & 4)), {"o1": [s], **dom}, st)
        if form == 1:
            run(("idx", o(1), o(2)), {"o1": ["", "a", "abc"], "o2": [True, False]}, st)
            run(("idx", ("SP",), o(2)), {"o2": [True, False]}, st)
    elif kind == "index":
        _, s, b = case
        run(("idx", o(1), o(2)), {"o1": [s], "o2": list(range(-b, b + 1))}, st)
    elif kind == "packages":
        n = case[1]
        w = ref.World(packages=[("P%d" % i, ["f"]) for i in range(n)])
        run(("idx", ("SP",), o(1)), {"o1": list(range(-5, 6))}, st, w)
        run(("idx", ("idx", ("SP",), o(1)), o(2)), {"o1": list(range(-4, 4)), "o2": list(range(-4, 4))}, st, w)
        run(("sl", ("SP",), o(1), None, None, False), {"o1": [0, 1]}, st, w)
        run(("sl", ("idx", ("SP",), ("i", 0)), o(1), None, None, False), {"o1": [0, 1]}, st, w)
    elif kind == "form":
        run(LITFORM[case[1]], {}, st)
