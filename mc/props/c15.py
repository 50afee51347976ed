"""C15. States: settings of two severity contexts; transitions: set_severity/set_default_severity calls and occurrences of the issues. Every sequence of
settings of the bound on two contexts (plain severity contexts, interpreters over them, callback runners), then every issue in both of them;
settings changed between the steps of one run, at every step; every occurrence form of every issue (operand, condition, bound, argument,
receiver, several in one statement, inside loops, Exec, branches and cases) under every severity of it x of the default x of another
issue: error kind and position, number of warnings, fallback and final state are compared with the reference."""

from itertools import product

from .. import common, impl, lang, ref, values
from ..explore import Chooser, all_choices
from ..runner import Runner

BOUNDS = {
    "quick": "all sequences of <=2 of 36 settings on two contexts of 3 kinds, <=3 of 24 over 3 issues; all pairs of settings at all steps of a run; ~70 occurrence forms x 16 settings; all places x the corpora of values.py",
    "thorough": "all sequences of <=3 of 36 settings, <=4 of 16; triples of settings during a run",
}
CHUNK = 4
S = lambda x: ("s", x)  # noqa: E731
V = lambda x: ("v", x)  # noqa: E731
U = V("unset")
m = lambda k: ("op=", "t", "+=", ("call", "m%d" % k, ()))  # noqa: E731
PACKAGES = [("P", ["a.esp"]), ("Q", ["b.esp"])]
ISSUES = list(impl.ISSUES)
LEVELS = ["allow", "warning", "error"]
SP = ("SP",)
TWO = ((S("|A"), S("1"), S("")), (S("B"), S("2"), S("")), (S("|C"), S("3"), S("")))
CASES = ((S("A"), (m(1), ("break",))), (S("B"), (m(2), ("break",))), (S("C"), (m(3),)))

ONE = {  # one occurrence of each issue
    "unset": ("=", "x", U),
    "defaults": ("sel", "SelectOne", S("d"), TWO, (), None),
    "note": ("kw", "Note", (("i", 7),)),
    "subpackage": ("kw", "SelectSubPackage", (S("Z"),)),
    "plugin": ("kw", "SelectPlugin", (S("z.esp"),)),
}
FORMS = {
    "unset": [
        (("=", "x", U),), (("E", U), m(1)), (("=", "x", ("bin", "+", U, U)),), (("=", "x", ("bin", "+", U, V("other"))),), (("=", "x", ("bin", "*", ("i", 2), U)),),
        (("=", "x", ("neg", U)),), (("=", "x", ("not", U)),), (("=", "x", ("par", U)),), (("=", "x", ("bin", "and", ("b", False), U)),), (("=", "x", ("bin", "or", ("b", True), U)),),
        (("=", "x", ("bin", "==", U, ("i", 0))),), (("=", "x", ("bin", "<", U, ("i", 1))),), (("=", "x", ("call", "str", (U,))),), (("=", "x", ("meth", U, "str", ())),),
        (("=", "x", ("call", "len", (U,))),), (("=", "x", ("idx", S("abc"), U)),), (("=", "x", ("sl", S("abc"), U, V("other"), None, False)),), (("=", "x", ("idx", U, ("i", 0))),),
        (("=", "x", ("bin", "in", U, SP)),), (("=", "x", ("bin", "+", S("a"), U)),), (("=", "x", ("bin", "==:", U, S("a"))),),
        (("if", ((U, (m(1),)),), (m(2),)),), (("if", ((U, (m(1),)), (V("other"), (m(2),)), (("b", True), (m(3),))), None),), (("while", U, (m(1),)), m(2)),
        (("for", "i", U, ("i", 1), None, (m(1),)),), (("for", "i", ("i", 1), U, None, (m(1),)),), (("for", "i", ("i", 0), ("i", 1), U, (m(1),)),), (("forin", "i", U, (m(1),)),),
        (("for", "i", ("i", 1), ("i", 3), None, (("=", "x", ("bin", "+", U, V("i"))), m(1))),), (("for", "i", ("i", 1), ("i", 2), None, (("=", "x", V("unset2")), ("=", "unset2", V("i")))),),
        (("=", "x", ("i", 1)), ("op=", "x", "+=", U)), (("=", "unset", U), ("=", "y", U)), (("=", "y", V("Y")), ("=", "Y", V("y"))), (("op=", "nope", "+=", U),), (("op=", "nope", "+=", ("i", 1)),),
        (("if", ((("pre", "++", "nope"), (m(1),)),), None),), (("if", ((("post", "--", "nope"), (m(1),)),), None),),
        (("E", ("call", "EditINI", (S("f"), S("s"), S("k"), U))),), (("exec", (("=", "x", U), ("=", "y", U), m(1))),), (("cancel", U),), (("cancel", ("call", "str", (U,))),),
        (("sel", "SelectMany", ("call", "str", (U,)), ((("call", "str", (V("other"),)), S(""), S("")),), (((("call", "str", (U,))), (m(1),)),), None),),
        (("kw", "Note", (U,)),), (("kw", "SelectPlugin", (("call", "str", (U,)),)),), (("kw", "RequireVersions", (("call", "str", (U,)),)), m(1)),
    ],
    "defaults": [
        (("sel", "SelectOne", S("d"), TWO, CASES, (m(4),)),),
        (("sel", "SelectOne", S("d"), TWO[:2], CASES, None),), (("sel", "SelectOne", S("d"), TWO[1:2], CASES, None), m(9)),
        (("sel", "SelectMany", S("d"), TWO, CASES, None),),
        (("sel", "SelectOne", S("d"), (TWO[1], TWO[2], TWO[0]), CASES, None),), (("sel", "SelectOne", S("d"), (TWO[0], TWO[0]), CASES, None),),
        (("for", "i", ("i", 1), ("i", 2), None, (("sel", "SelectOne", S("d"), TWO, CASES, None),)),),
        (("exec", (("sel", "SelectOne", S("d"), TWO, CASES, None), m(5))),),
        (("sel", "SelectMany", S("d"), TWO[:2], ((S("A"), (("sel", "SelectOne", S("e"), TWO, CASES, None),)),), None),),
        (("sel", "SelectOne", S("d"), ((S("|"), S(""), S("")), (S("||"), S(""), S(""))), CASES, None),),
    ],
    "note": [
        (("kw", "Note", (x,)), m(1)) for x in (("i", 0), ("neg", ("i", 5)), ("d", "1.5"), ("b", True), ("b", False), SP, ("idx", SP, ("i", 1)), S(""), S("text"), ("bin", "+", ("i", 1), ("i", 2)),
                                               ("call", "len", (S("ab"),)), ("call", "str", (("i", 1),)))
    ] + [(("for", "i", ("i", 1), ("i", 3), None, (("kw", "Note", (V("i"),)),)),), (("exec", (("kw", "Note", (("i", 1),)), ("kw", "Note", (S("s"),)))),),
         (("forin", "i", SP, (("kw", "Note", (V("i"),)),)),)],
    "subpackage": [(("kw", "SelectSubPackage", (S(x),)), m(1)) for x in ("Z", "", "P", "q", "a.esp", "P ", "Pé")] + [
        (("kw", "DeSelectSubPackage", (S("Z"),)), m(1)),
        (("kw", "SelectSubPackage", (S("P"),)), ("kw", "SelectSubPackage", (S("Z"),)), ("kw", "SelectSubPackage", (S("Z"),)), ("kw", "SelectAll", ())),
        (("forin", "i", S("PZ"), (("kw", "SelectSubPackage", (V("i"),)),)),), (("exec", (("kw", "SelectSubPackage", (S("Z"),)), m(1))),)],
    "plugin": [((kw, "SelectSubPackage", (S("P"),)), (kw, "Select" + n, (S(x),)), m(1)) for kw in ("kw",) for n, x in
               (("Plugin", "z.esp"), ("Espm", "z.esp"), ("Plugin", "B.ESP"), ("Plugin", "P"), ("Plugin", ""), ("Espm", "a.es"))] + [
        (("kw", "DeSelectPlugin", (S("z.esp"),)), m(1)), (("kw", "DeSelectEspm", (S("b.esp"),)), m(1)),
        (("forin", "i", S("ab"), (("kw", "SelectPlugin", (("bin", "+", V("i"), S(".esm")),)),)),), (("exec", (("kw", "SelectPlugin", (S("z.esp"),)), m(1))),)],
}


def ops(issues):
    for c in (0, 1):
        for l in LEVELS:
            yield (c, None, l)
            for i in issues:
                yield (c, i, l)


def cases(tier):
    yield from values.cases("15", tier == "thorough")
    t = tier == "thorough"
    for issue in ISSUES:
        for k in range(len(FORMS[issue])):
            yield ("form", issue, k)
    for kind in ("plain", "interpreter", "runner"):
        all_ = list(ops(ISSUES))
        yield ("seq", kind, ())
        for o in all_:
            yield ("seq", kind, (o,))
            for p in all_:
                yield ("seq", kind, (o, p))
                if t:
                    for r in all_:
                        yield ("seq", kind, (o, p, r))
        few = list(ops(["unset", "defaults", "plugin"]))
        for o in few:
            for p in few:
                if kind == "plain" or not t:
                    yield ("seqs", kind, o, p, 3, ("unset", "defaults", "plugin"))
                if t:
                    yield ("seqs", kind, o, p, 4, ("unset",))
    for i in ISSUES:
        for j in ISSUES:
            yield ("during", i, j, 3 if t else 2)


class Pair:
    """Two severity contexts of one kind with the five issues ready to happen in each."""

    def __init__(self, kind):
        self.kind = kind
        self.world = ref.World(packages=PACKAGES)
        self.progs = {i: lang.compile_((ONE[i],)) for i in ISSUES}
        self.warnings = ([], [])
        if kind == "plain":
            self.make = lambda k: self.recorder(k)
        elif kind == "interpreter":
            self.tops = {}
        else:
            self.tops = {}

    def fresh(self):
        out = []
        for k in (0, 1):
            w = self.warnings[k]
            w.clear()
            if self.kind == "runner":
                x = Runner(impl.packages(self.world))
                x.on = lambda name, *a, w=w: w.append(a[0]) if name == "warning" else None
                x.mc_factory = x.make_top_level_context("").factory
                machine = x
            else:
                x = impl.Recorder()
                x.warnings = w
                machine = impl.Machine(self.world, severity=x) if self.kind == "interpreter" else None
            out.append((x, machine))
        return out

    def occur(self, k, obj, issue, st):
        """(reaction, text of a warning) of the issue in context k."""
        x, machine = obj
        w = self.warnings[k]
        w.clear()
        st.c["transitions"] += 1
        if self.kind == "plain":
            exc = ERRORS[k](*([] if k else ["the error"]))
            text = TEXTS[st.c["transitions"] % len(TEXTS)]
            try:
                x.raise_or_warn(impl.ISSUES[issue], exc, text)
            except Exception as e:
                return ("error", e is exc, list(w))
            return ("warning" if w else "allow", w in ([], [text]), list(w))
        prog = self.progs[issue]
        top = self.tops.get(issue)
        if top is None:
            top = self.tops[issue] = impl.Machine(self.world).start(prog.text)
        f = machine.mc_factory if self.kind == "runner" else machine.factory
        y = impl.step_run(None, None, lambda c: c, ctx=impl.restart(f, top, impl.WizardRunnerState()))
        if y.end[0] == "error":
            kind = {"unset": "name", "defaults": "type", "note": "type", "subpackage": "package", "plugin": "plugin"}[issue]
            return ("error", y.end[1] == kind and not w and y.end[2] == (1, 4 if issue == "unset" else 0), list(w))
        ok = y.end == ("complete",) and len(w) < 2
        res = impl.canon_results(y.state), impl.canon_vars(y.state)
        want = ((), (), ("7",) if issue == "note" else (), (), (), ()), (("x", ("int", 0)),) if issue == "unset" else ()
        return ("warning" if w else "allow", ok and res == want, list(w))


PAIRS = {}
TEXTS = ["the warning", "", " ", "%d %s", "{}", "\n", "the warning", "é" * 300]
ERRORS = (ValueError, KeyError)


def sequence(kind, seq, st):
    if kind not in PAIRS:
        PAIRS[kind] = Pair(kind)
    pair = PAIRS[kind]
    objs = pair.fresh()
    model = [({}, ["warning"]), ({}, ["warning"])]
    for c, i, l in seq:
        st.c["transitions"] += 1
        if i is None:
            objs[c][0].set_default_severity(impl.SEVERITIES[l])
            model[c][1][0] = l
        else:
            objs[c][0].set_severity(impl.ISSUES[i], impl.SEVERITIES[l])
            model[c][0][i] = l
    st.state((kind, repr(model)))
    for c in (0, 1):
        for i in ISSUES:
            want = model[c][0].get(i, model[c][1][0])
            got = pair.occur(c, objs[c], i, st)
            if got[:2] != (want, True):
                common.fail("reaction of context %d to issue %s" % (c, i), "settings %r" % (seq,), want, got, kind=kind)
    if kind == "plain":
        for c in (0, 1):
            pair.warnings[c].clear()
            for issue in impl.Issue:
                if issue not in impl.ISSUES.values():
                    try:
                        objs[c][0].raise_or_warn(issue, ValueError("e"), "w")
                        got = "warning" if pair.warnings[c] else "allow"
                    except ValueError:
                        got = "error"
                    pair.warnings[c].clear()
                    if got != model[c][1][0]:
                        common.fail("reaction to issue %s, which has no setting" % issue, "settings %r" % (seq,), model[c][1][0], got)
    st.c["traces"] += 1
    st.outcomes[kind] += 1


def check(case, st):
    if case[0] == "corpus":
        return values.check(case, st)
    kind = case[0]
    if kind == "form":
        _, issue, k = case
        body = (("=", "t", S("")),) + FORMS[issue][k] + (m(8),)
        prog = lang.compile_(body)
        st.sample(prog.text)
        ends = {}
        for default in LEVELS:
            for own in (None, *LEVELS):
                for other in (None, *LEVELS):
                    if (other is not None) and (default != "warning" and own is None):
                        continue
                    sev = {} if own is None else {issue: own}
                    if other is not None:
                        sev.update({i: other for i in ISSUES if i != issue})
                    world = ref.World(packages=PACKAGES, severity=sev, default_severity=default)
                    bench = common.Bench(prog, world)
                    def run(ch):
                        # the model evaluates the menus' defaults; the script goes on with the answers
                        bench.pair(ch, st, menus=lambda many, n, d: [tuple(d), tuple(range(n))[-1:]], watch=True)
                    all_choices(run)
                    x = impl.step_run(bench.machine, None, lambda c: c, ctx=bench.machine.start(lang.compile_(FORMS[issue][k]).text)) if "m1()" not in prog.text else None
                    if x is not None and x.end[0] != "error" and other is None:
                        ends.setdefault(own or default, (x.end, impl.canon_state(x.state)))
        if "warning" in ends and "allow" in ends and ends["warning"] != ends["allow"]:
            common.fail("warning and allow continue differently", prog, ends["warning"], ends["allow"])
    elif kind == "seq":
        sequence(case[1], case[2], st)
    elif kind == "seqs":
        _, k, o, p, depth, issues = case
        tail = list(ops(issues))
        if depth == 4:
            for a, b in product(tail, tail):
                sequence(k, (o, p, a, b), st)
        else:
            for a in tail:
                sequence(k, (o, p, a), st)
    else:
        during(case[1], case[2], case[3], st)


def during(i, j, n, st):
    """Severities changed between the steps of one run of a script with three occurrences of issue i and three of j."""
    prog = lang.compile_((("=", "x", ("i", 1)), ONE[i], ONE[j], ("=", "x", ("i", 2)), ONE[i], ONE[j], ONE[i], ONE[j]))
    world = ref.World(packages=PACKAGES)
    machine = impl.Machine(world)
    top = machine.start(prog.text)
    occ = [1, 2, 4, 5, 6, 7]  # statements with an occurrence
    changes = [(s, l, d) for s in (i, j, None) for l in LEVELS for d in occ]
    for sets in product(changes, repeat=n):
        if sorted(sets, key=lambda c: c[2]) != list(sets):
            continue
        sc = machine.severity
        sc.__init__()
        own, default = {}, "warning"
        ctx = machine.restart(top, impl.WizardRunnerState())
        # statement 0 is reached after the top level and the body
        done, k = 0, 0
        log, want = [], []
        sets = list(sets)
        stmt = -1
        with impl.guard():
            while not isinstance(ctx, impl.WizardTerminationContext):
                if type(ctx).__name__ == "WizardBodyContext":
                    stmt += 1
                    for s, l, d in sets:
                        if d == stmt:
                            if s is None:
                                sc.set_default_severity(impl.SEVERITIES[l])
                                default = l
                            else:
                                sc.set_severity(impl.ISSUES[s], impl.SEVERITIES[l])
                                own[s] = l
                    if stmt in occ:
                        want.append(own.get(i if stmt in (1, 4, 6) else j, default))
                n0 = len(sc.warnings)
                try:
                    ctx = ctx.exec()
                except Exception as ex:
                    log.append("error")
                    break
                if len(sc.warnings) > n0:
                    log += ["warning"] * (len(sc.warnings) - n0)
                elif stmt in occ and type(ctx).__name__ in ("WizardBodyContext", "WizardTerminationContext") and len(log) < len(want):
                    log.append("allow")
        if "error" in want:
            want = want[:want.index("error") + 1]
        st.c["traces"] += 1
        st.c["transitions"] += stmt + 1
        st.state((i, j, tuple(want)))
        if log != want:
            common.fail("reactions while the settings change during the run", prog, want, log, settings=sets)
