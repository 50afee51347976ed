"""C18. States: contexts of the runs of malformed and odd texts; transitions: exec() steps. Every sequence of tokens up to the length bound (at
the top level, inside blocks, in the text of an Exec), every text obtained from well-formed scripts covering the whole grammar by
deleting, inserting, replacing or exchanging tokens, or cut after any character, every short string over an alphabet of characters, every
name found in the interpreter's objects called as function and as method, every statement, keyword, function and operator with operands of every
type. Each must end normally or in a printable WizardError positioned in the
text, and leave the interpreter fit for the next run: a probe script parsed before must still do exactly what it did."""

import builtins
from itertools import product

from .. import impl, lang, ref
from ..explore import Violation
from ..runner import Runner

BOUNDS = {
    "quick": "all sequences of <=3 of 46 tokens at the top level, <=2 in 7 frames; all single deletions, exchanges, truncations of 22 scripts, insertions and replacements (46 tokens); "
             "all strings of <=3 of 30 characters; all names of the interpreter's objects with 0-3 arguments; 24 nestings at 36 depths up to 600; 176 places x pairs of 12 values of every type and x pairs of 12 limits (huge, infinite, no number, unusual characters)",
    "thorough": "all sequences of <=4 of 46 tokens, <=3 in 7 frames; all pairs of deletions and of deletion and insertion; all strings of <=4 of 30 characters; 24 nestings at every depth up to 419 and 27 more up to 1500",
}
ASSUMPTIONS = ["texts that exhaust memory or time are out of scope (numbers in the texts stay small; the nesting is explored beyond the recursion limit)"]
CHUNK = 1
TOK = ['Cancel', 'Case', 'Default', 'For', 'from', 'to', 'by', 'If', 'SelectOne', 'SelectMany', 'While', 'not', 'or', 'True', 'SubPackages', ',', '.', '(', ')',
       '[', ']', ':', '+=', '==', '>', '=', 'Break', 'Continue', 'Elif', 'Else', 'EndFor', 'EndIf', 'EndSelect', 'EndWhile', 'Return', 'SelectAll', 'Note', '1',
       "'s'", '-', 'in', '++', 'x', 'foo', 'Exec', 'len']
FRAMES = ["If True\n%s\nEndIf\nx = 1", "If 0\n%s\nEndIf\nx = 1", "While x < 1\nx += 1\n%s\nEndWhile\nx = 2", "For i in SubPackages\n%s\nEndFor\nx = 1",
          "SelectOne 'd', 'A', '', ''\nCase 'A'\n%s\nBreak\nEndSelect\nx = 1", "SelectMany 'd', 'A', '', '', 'B', '', ''\nCase 'A'\n%s\nDefault\n%s\nEndSelect", "x = 'abc'\nExec(\"%s\")\nx = 1"]
CHARS = ['"', "'", '\\', '\n', '\r', '\t', ' ', ';', '(', ')', '[', ']', '-', '+', '=', '.', ',', ':', '!', '|', '&', '$', '@', '\0', 'é', '\ufeff', '0', '9', 'a', '_']
LEGIT = set(ref.basic_funcs()) | set(ref.ini_funcs()) | {"Exec"}
QUERIES = {"CompareGEVersion", "CompareGameVersion", "CompareSEVersion", "CompareWBVersion", "DataFileExists", "GetEspmStatus", "GetFilename", "GetFolder",
           "GetPluginLoadOrder", "GetPluginStatus"}
KEYWORDS = {"DeSelectAll", "DeSelectAllPlugins", "DeSelectPlugin", "DeSelectSubPackage", "Note", "RenamePlugin", "RequireVersions", "ResetAllPluginNames",
            "ResetPluginName", "SelectAll", "SelectAllPlugins", "SelectPlugin", "SelectSubPackage"}
STEPS = 60

I = lambda n: ("i", n)  # noqa: E731
S = lambda x: ("s", x)  # noqa: E731
V = lambda x: ("v", x)  # noqa: E731
O = ((S("A"), S("d"), S("")), (S("|B"), S(""), S("i")))
kw = lambda n, *a: ("kw", n, tuple(a))  # noqa: E731
fn = lambda n, *a: ("call", n, tuple(a))  # noqa: E731
m = ("op=", "t", "+=", S("m"))
SCRIPTS = [
    (("=", "x", ("bin", "+", I(1), ("bin", "*", V("y"), ("neg", I(2))))),),
    (("op=", "x", "-=", ("par", ("bin", "%", I(7), I(2)))), ("E", ("post", "++", "x")), ("E", ("pre", "--", "x"))),
    (("=", "x", ("idx", S("abc"), I(1))), ("=", "y", ("sl", S("abcd"), I(0), I(3), I(2), True))),
    (("=", "x", ("sl", V("t"), None, I(2), None, False)), ("=", "y", ("not", ("bin", "in", S("P"), ("SP",))))),
    (("=", "x", ("meth", fn("str", I(5)), "len", ())), ("=", "y", ("bin", "<=:", S("a"), S("B")))),
    (("=", "x", fn("startswith", S("ab"), S("a"), S("b"))), ("=", "y", ("bin", "^", I(2), I(3)))),
    (("if", ((("b", True), (m,)),), None),),
    (("if", ((("bin", "or", ("b", False), V("x")), (m,)), (("bin", ">", V("y"), I(0)), (m,))), (m,)),),
    (("while", ("bin", "<", ("pre", "++", "x"), I(3)), (("if", ((("bin", "==", V("x"), I(2)), (("continue",),)),), None), m)),),
    (("while", ("b", True), (m, ("break",))), ("return",)),
    (("for", "i", I(0), I(2), None, (m,)), m),
    (("for", "i", I(2), I(0), ("neg", I(1)), (("op=", "x", "+=", V("i")),)),),
    (("forin", "p", ("SP",), (kw("SelectSubPackage", fn("str", V("p"))), ("forin", "f", V("p"), (("break",),)))),),
    (("sel", "SelectOne", S("d"), O, ((S("A"), (m, ("break",))), (S("B"), (m,))), None),),
    (("sel", "SelectMany", S("d"), O, ((S("A"), (m, ("break",))),), (m, ("break",))),),
    (("cancel", S("bye")),), (("cancel", None),),
    (kw("Note", V("x")), kw("SelectAll"), kw("DeSelectPlugin", S("a.esp"))),
    (kw("RenamePlugin", S("a.esp"), S("b.esp")), kw("RequireVersions", S("1"), S("2"))),
    (("E", fn("EditINI", S("f"), S("s"), S("k"), I(1))), ("E", fn("DisableINILine", S("f"), S("s"), S("k")))),
    (("exec", (("=", "x", I(1)),)), ("=", "y", V("x"))),
    (("for", "i", I(1), I(2), None, (("if", ((V("i"), (("sel", "SelectOne", S("d"), O[:1], ((S("A"), (("continue",),)),), None),)),), (("cancel", None),)),)),),
]
PROBE = lang.compile_((
    ("=", "x", I(1)), ("for", "i", I(1), I(2), None, (("op=", "x", "+=", V("i")),)), ("if", ((("bin", "==", V("x"), I(4)), (kw("Note", S("ok")), kw("SelectAll"))),), None),
    ("=", "y", fn("len", V("q"))) if False else ("=", "y", ("bin", "+", V("q"), V("x"))), ("E", fn("EditINI", S("f"), S("s"), S("k"), V("y"))),
))

FRESH = [PROBE.text, "x = ((1 + 2) * 3)\nWhile x > 7\nx -= 1\nEndWhile\nNote 'n'", "If x\nElif 1\nFor i in 'ab'\nNote i\nEndFor\nElse\nEndIf\nx = 'abc'[0:2].upper",
         "SelectOne 'd', 'A', '', ''\nCase 'A'\nBreak\nEndSelect\nIf 1\nx = ("]


class Rig:
    def __init__(self):
        self.world = ref.World(packages=[("P", ["a.esp"]), ("Q", [])])
        self.m = impl.Machine(self.world)
        self.probe = self.m.start(PROBE.text)
        self.want = self.run_probe()
        self.runner = Runner(impl.packages(self.world))
        self.runner.on = lambda name, *a: self.events.append(name) or (self.raised.append(a[0]) if name == "error" else None) or self.answer(name, a)
        self.events = []
        self.raised = []
        self.since = []
        self.fresh_want = [self.fresh(s) for s in FRESH]

    @staticmethod
    def answer(name, a):
        if name == "selectOne":
            return a[1][0]
        if name == "selectMany":
            return list(a[1])
        if name in ("complete", "cancel", "dataFileExists"):
            return True
        if name in ("getFilename", "getFolder"):
            return "f"
        return 1 if name.startswith(("compare", "getPlugin")) else None

    def run_probe(self):
        self.m.severity.warnings.clear()
        x = impl.step_run(self.m, None, None, horizon=60, ctx=self.m.restart(self.probe, impl.WizardRunnerState()))
        return x.end, impl.canon_state(x.state), tuple(self.m.severity.warnings), x.steps

    def check_probe(self):
        got = self.run_probe()
        if got != self.want:
            raise Violation("a run changes what another script does afterwards", scripts="\n\n".join(self.since), expected=self.want, observed=got)
        self.since.clear()

    def text(self, text, st, runner=False):
        x = impl.step_run(self.m, text, lambda c: impl.answer_menu(c, range(len(c.options)) if impl.menu_of(c)[0] else [0]), horizon=STEPS)
        st.c["traces"] += 1
        st.c["transitions"] += x.steps
        st.state((x.steps, x.end[:2]))
        if len(text) > 12 and x.end[0] == "error":
            st.sample({"text": text, "end": repr(x.end)}, 1)
        self.judge(text, x.end, st)
        if x.end[0] != "error":
            try:
                impl.canon_state(x.state)
            except Exception as ex:
                raise Violation("the result of a run cannot be read", script=text, observed=repr(ex))
        self.since.append(text)
        if len(self.since) >= 12:
            self.check_probe()
        if runner and x.end[0] != "hang":
            self.events.clear()
            try:
                with impl.guard():
                    status, state = self.runner.run(text)
            except impl.Hang as h:
                raise Violation("no end in the callback runner", script=text, observed=str(h))
            except Exception as ex:
                raise Violation("an exception leaves the callback runner", script=text, observed=repr(ex))
            if not QUERIES & set(text.replace("(", " ").split()) and (status.name == "ERROR") != (x.end[0] == "error"):
                raise Violation("the callback runner ends differently", script=text, expected=x.end, observed=status)
        return x

    def deep(self, k, n, st):
        """A text nested n times: never anything but an end or an error of the family, whatever the depth; then other scripts are parsed as before."""
        text = DEEP[k](n)
        self.events.clear()
        ends = []
        x = impl.step_run(self.m, text, lambda c: impl.answer_menu(c, range(len(c.options)) if impl.menu_of(c)[0] else [0]), horizon=5000)
        ends.append(x.end)
        with impl.guard():
            try:
                status, state = self.runner.run(text)
                got = [e for e in self.raised if not isinstance(e, impl.werr.WizardError)]
                if got:
                    raise Violation("an exception outside the Wizard error family in the callback runner", script=text, observed=got)
                ends.append((status.name,))
            except impl.werr.WizardError as ex:
                ends.append(impl.error_kind(ex))
            except impl.Hang as h:
                raise Violation("no end in the callback runner", script=text, observed=str(h))
            except Violation:
                raise
            except Exception as ex:
                raise Violation("an exception outside the Wizard error family leaves the callback runner", script=text, observed=repr(ex)[:200])
        self.raised.clear()
        st.c["traces"] += 2
        st.c["transitions"] += x.steps
        st.state((k, x.steps, x.end[:2]))
        for end in ends:
            self.judge(text, end, st)
        if k in VALID and n <= 40 and x.end != ("complete",):
            raise Violation("a well-formed script is refused", script=text, expected=("complete",), observed=x.end)
        self.since.append(text)
        got = [self.fresh(s) for s in FRESH]
        if got != self.fresh_want:
            raise Violation("a text changes how another script is executed", script=text, expected=self.fresh_want, observed=got)

    def fresh(self, text):
        x = impl.step_run(self.m, text, lambda c: impl.answer_menu(c, [0]), horizon=200)
        return x.end, None if x.end[0] == "error" else impl.canon_state(x.state), x.steps

    def judge(self, text, end, st):
        st.outcomes[end[1] if end[0] == "error" else end[0]] += 1
        if end[0] in ("raw",) or end[0] == "mismatch":
            raise Violation("an exception outside the Wizard error family", script=text, observed=end)
        if end[0] == "hang":
            if not end[1].startswith("still"):
                raise Violation("no end", script=text, observed=end)
            return
        if end[0] == "error":
            if "unprintable" in end[1] or "without" in end[1]:
                raise Violation("an error that cannot be formatted with its position", script=text, observed=end)
            line, col = end[2]
            if not (isinstance(line, int) and isinstance(col, int)):
                raise Violation("an error without position", script=text, observed=end)
            if "Exec" not in text:
                lines = text.split("\n")
                if not (1 <= line <= max(1, len(lines)) and 0 <= col <= len(lines[line - 1])):
                    raise Violation("an error positioned outside the script", script=text, observed=end)


RIG = None


def rig():
    global RIG
    if RIG is None:
        RIG = Rig()
    return RIG


def names():
    """Everything that could be mistaken for a function of the language."""
    r = rig()
    out = set(dir(builtins)) | set(ref.basic_funcs()) | QUERIES
    for o in (r.m.evisitor, r.m.kvisitor, r.m.factory, r.m.interpreter, impl.WizardRunnerState(), r.m.severity, impl.Value(""), impl.Value(1), r.m.packages):
        for c in type(o).__mro__:
            out.update(vars(c))
        out.update(getattr(o, "__dict__", {}))
        out.update(getattr(o, "__slots__", ()))
    from wizard.antlr4.wizardParser import wizardParser

    out.update(vars(wizardParser))
    out.update(wizardParser.ruleNames)
    more = set()
    for n in out:
        for p in ("visit", "make", "_visit", "visitKeyword", "enter", "exit", "get", "set"):
            if n.startswith(p):
                more.add(n[len(p):])
        if n.endswith("Context"):
            more.add(n[:-7])
        more.add("visit" + n)
        more.add(n[:1].upper() + n[1:])
        more.add(n.lower())
    out |= more
    from wizard.antlr4.wizardLexer import wizardLexer

    words = {x.strip("'") for x in wizardParser.literalNames}
    words |= {"SubPackages", "SelectOne", "SelectMany", "Note", "Cancel", "Break", "Return", "Continue"} | KEYWORDS
    words |= {n for n in wizardLexer.symbolicNames if n[:1].isupper()}
    return sorted(n for n in out if n.isidentifier() and n.isascii() and n not in words)


def cases(tier):
    t = tier == "thorough"
    yield ("tok", ())
    for a in TOK:
        yield ("tok", (a,))
        if t:
            for b in TOK:
                yield ("tok4", (a, b))
    for f in range(len(FRAMES)):
        for a in TOK:
            yield ("frame", f, a, 3 if t else 2)
    for i in range(len(SCRIPTS)):
        n = len(lang.compile_(SCRIPTS[i]).toks)
        for k in range(n + 1):
            yield ("edit", i, k)
            if t:
                yield ("edit2", i, k)
        yield ("cut", i)
    yield ("chars", "")
    for a in CHARS:
        yield ("chars", a)
        if t:
            for b in CHARS:
                yield ("chars4", a + b)
    for k in range(40):
        yield ("names", k)
    for k in range(len(DEEP)):
        for part in range(3):
            yield ("deep", k, part, t)
    for k in range(len(HOLES)):
        yield ("types", k, 3 if t else 2)
        yield ("limits", k, 2)


DEEP = [lambda n: "x = " + "(" * n + "1" + ")" * n, lambda n: "x = " + "not " * n + "1", lambda n: "x = " + "-" * n + "1", lambda n: "If 1\n" * n + "x = 1\n" + "EndIf\n" * n,
        lambda n: "While x < 1\n" * n + "x = 1\n" + "EndWhile\n" * n, lambda n: "x = " + "str(" * n + "1" + ")" * n, lambda n: "x = 'a'" + "[0]" * n, lambda n: "x = 1" + " + 1" * n,
        lambda n: "x = 'a'" + ".lower()" * n, lambda n: "If 1\n" * n, lambda n: "x = " + "(" * n, lambda n: "x = " + "'a'[" * n, lambda n: ")" * n, lambda n: "EndIf\n" * n,
        lambda n: "If 0\nElse\n" * n + "x = 1\n" + "EndIf\n" * n, lambda n: "SelectOne 'd', 'A', '', ''\nCase 'A'\n" * n + "EndSelect\n" * n, lambda n: "For i in 'a'\n" * n + "EndFor\n" * n,
        lambda n: "For i from 1 to 1\n" * n, lambda n: "If 0\nElif 1\n" * n + "EndIf\n" * n, lambda n: "'" * n, lambda n: '"' * n, lambda n: "\\" * n, lambda n: "'a\\" * n, lambda n: "\n" * n + "@"]


DEPTHS = list(range(1, 20)) + [24, 30, 40, 60, 90, 110, 120, 125, 130, 140, 160, 200, 240, 250, 320, 400, 600]
DEPTHS_T = list(range(1, 420)) + list(range(420, 1500, 40))
VALID = {0: ("int", 1), 1: ("bool", None), 3: ("int", 1), 4: ("int", 1), 5: None, 6: ("str", "a"), 7: None, 8: ("str", "a"), 16: None, 18: None}


VALUES = ["1", "-2", "1.5", "'a'", "''", "'0'", "True", "SubPackages", "SubPackages[0]", "EditINI('a','b','c',1)", "u", "'a.esp'"]
LIMITS = ["(10^5000)", "(0-10^5000)", "float('inf')", "float('nan')", "(10^400)", "(10.0^300)", "'a'", "2", "('1' + str(10^4000))", "'\\U0010ffff'", "'\\ud800'", "'\\0'"]
HOLES = ["If %s\nx = 1\nEndIf", "While %s\nBreak\nEndWhile", "For i from %s to %s by %s\nx = i\nEndFor", "For i in %s\nx = i\nEndFor", "Cancel %s",
         "SelectOne %s, %s, %s, ''\nCase 'a'\nx = 1\nDefault\nx = 2\nEndSelect", "SelectMany 'd', 'A', %s, %s\nCase %s\nx = 1\nDefault\nx = 2\nEndSelect",
         "SelectOne 'd', 'a', '', ''\nCase %s\nx = 1\nCase %s\nx = 2\nEndSelect", "Exec(%s)", "Exec(%s, %s)", "x = %s\nx++", "x = %s\nx += %s", "x = %s\nx -= %s",
         "x = %s\nx *= %s", "x = %s\nx /= %s", "x = %s\nx ^= %s", "x = (%s)[%s]", "x = (%s)[%s:%s]", "x = (%s)[::%s]", "x = -%s\ny = not %s\nz = !%s", "x = %s in %s", "x = %s in %s:"]
HOLES += ["x = %s " + o + " %s" for o in ("+", "-", "*", "/", "%%", "^", "==", "!=", "<", "<=", ">", ">=", "==:", "!=:", "<:", ">=:", "and", "or", "&", "|")]
HOLES += ["x = 1\n" + k + " " + ", ".join(["%s"] * n) + "\ny = 1" for k in sorted(KEYWORDS) for n in range(1, 4)]
HOLES += ["x = 1\ny = " + f + "(" + ", ".join(["%s"] * n) + ")" for f in sorted({x for x in LEGIT if "." not in x} | QUERIES) for n in range(1, 4)]
HOLES += ["x = 1\ny = EditINI(%s, 'a', %s, %s)", "x = 1\ny = EditINI('a', %s, 'b', %s, %s)"]
HOLES += ["x = %s\ny = x." + f.split(".")[1] + "(" + ", ".join(["%s"] * n) + ")" for f in sorted(LEGIT) if f.startswith("string.") for n in range(0, 3)]


def check(case, st):
    kind = case[0]
    r = rig()
    r.since.clear()
    try:
        _check(kind, case, st, r)
        r.check_probe()
    except Violation:
        global RIG
        RIG = None
        raise


def _check(kind, case, st, r):
    if kind == "tok":
        first = case[1]
        r.text(" ".join(first), st, True)
        if first:
            for b in TOK:
                r.text(" ".join(first + (b,)), st, True)
                for c in TOK:
                    r.text(" ".join(first + (b, c)), st)
    elif kind == "tok4":
        for c in product(TOK, repeat=2):
            r.text(" ".join(case[1] + c), st)
    elif kind == "frame":
        f = FRAMES[case[1]]
        n = f.count("%s")
        for k in range(case[3]):
            for c in product(TOK, repeat=k):
                body = " ".join((case[2],) + c)
                if case[1] == 6:
                    body = body.replace('"', '\\"')
                r.text(f % ((body,) * n), st, k < 1)
    elif kind in ("edit", "edit2"):
        toks = [x for x, _, _ in lang.compile_(SCRIPTS[case[1]]).toks]
        k = case[2]
        if kind == "edit":
            variants = [toks[:k] + [x] + toks[k:] for x in TOK]
            if k < len(toks):
                variants += [toks[:k] + toks[k + 1:]] + [toks[:k] + [x] + toks[k + 1:] for x in TOK]
            variants += [toks[:k] + [toks[j]] + toks[k + 1: j] + [toks[k]] + toks[j + 1:] for j in range(k + 1, len(toks))]
        elif k < len(toks):
            less = toks[:k] + toks[k + 1:]
            variants = [less[:j] + less[j + 1:] for j in range(k, len(less))]
            variants += [less[:j] + [x] + less[j:] for j in range(len(less) + 1) for x in TOK]
        else:
            variants = []
        for v in variants:
            r.text(" ".join(v), st, kind == "edit" and len(v) < len(toks))
    elif kind == "cut":
        text = lang.compile_(SCRIPTS[case[1]]).text
        for k in range(len(text)):
            r.text(text[:k], st, True)
            r.text(text[k:], st, True)
            for c in ('"', "\\", "\0", "\n", ";"):
                r.text(text[:k] + c + text[k:], st)
    elif kind == "chars":
        if not case[1]:
            r.text("", st, True)
        for k in range(3 if case[1] else 0):
            for c in product(CHARS, repeat=k):
                r.text(case[1] + "".join(c), st, k < 2)
    elif kind == "chars4":
        for c in product(CHARS, repeat=2):
            r.text(case[1] + "".join(c), st)
    elif kind == "names":
        for n in names()[case[1]::40]:
            for args in ("", "x", "'a'", "1, 'b'", "x, x, x"):
                for text in ("x = 1\n%s(%s)" % (n, args), "x = 1\ny = %s(%s)" % (n, args)):
                    self_call(r, text, n, st, n in LEGIT)
            for o in ("'a'", "x", "True", "SubPackages", "SubPackages[0]", "1.5"):
                legit = any(t + "." + n in LEGIT for t in ("string", "integer", "bool", "float"))
                for args in ("", "'a'"):
                    self_call(r, "x = 1\n(%s).%s(%s)" % (o, n, args) if False else "x = 1\ny = %s.%s(%s)" % (o, n, args), n, st, legit)
    elif kind == "limits" and ("^" in HOLES[case[1]] or "While" in HOLES[case[1]]):
        pass
    elif kind in ("types", "limits"):
        f = HOLES[case[1]]
        VALUES = LIMITS if kind == "limits" else globals()["VALUES"]
        n = f.replace("%%", "").count("%s")
        for c in product(VALUES, repeat=min(n, case[2])):
            for k in range(n if n > len(c) else 1):
                a = list(c)
                while len(a) < n:
                    a.insert(k, "'a'")
                r.text(f % tuple(a), st, case[2] == 2)
    elif kind == "deep":
        for n in (DEPTHS_T if case[3] else DEPTHS)[case[2]::3]:
            r.deep(case[1], n, st)


def self_call(r, text, name, st, legit):
    x = r.text(text, st)
    if legit:
        return
    if x.end[:2] not in (("error", "name"), ("error", "type"), ("error", "parse")) or x.end[2][0] != 2:
        raise Violation("a name that is not a function of the language can be called", script=text, name=name, observed=x.end)
    if impl.canon_vars(x.state) != (("x", ("int", 1)),) or any(impl.canon_results(x.state)):
        raise Violation("calling a name that is not a function has an effect", script=text, observed=impl.canon_state(x.state))
