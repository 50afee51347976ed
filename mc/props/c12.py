"""C12. States: runner states (notes, renames, INI edits and disabled lines), each a real state object; transitions: one Note, RenamePlugin,
ResetPluginName, ResetAllPluginNames, EditINI or DisableINILine statement, under each of its names, executed from that state by the
stepping interpreter. Breadth first search to the fixpoint over the renames, every sequence of statements up to the depth bound over all of
them, and the same statements inside loops, branches, Exec and select cases of one script; after every transition the result, the queries of the
tweaks (every file name in every letter case, missing ones, the list of files, emptiness) and the untouched old state are compared with the model."""

from .. import common, holes, impl, lang, ref, wide, values
from ..explore import Chooser

BOUNDS = {
    "quick": "fixpoint of 26 rename calls over 6 plugin names; all sequences of <=3 of 34 statements; all pairs in 6 control contexts; values of all types; all places x the corpora of values.py",
    "thorough": "all sequences of <=4 of 34 statements; all triples in 6 control contexts",
}
CHUNK = 1
S = lambda x: ("s", x)  # noqa: E731
V = lambda x: ("v", x)  # noqa: E731
PLUGS = ["A.esp", "a.ESP", "b.esm", "Straße.esp", "STRASSE.esp", "missing.esp"]
PACKAGES = [("P", ["A.esp", "x.txt"]), ("Q", ["b.esm", "Straße.esp"])]


def kw(name, *args):
    return ("kw", name, tuple(args))


def fn(name, *args):
    return ("E", ("call", name, tuple(args)))


RENAMES = ([kw("RenamePlugin" if i % 2 else "RenameEspm", S(p), S(n)) for i, p in enumerate(PLUGS) for n in ("N1.esp", "n1.esp")]
           + [kw("RenameEspm" if i % 2 else "RenamePlugin", S(p), S(p)) for i, p in enumerate(PLUGS)]
           + [kw("ResetPluginName" if i % 2 else "ResetEspmName", S(p)) for i, p in enumerate(PLUGS)]
           + [kw("ResetAllPluginNames"), kw("ResetAllEspmNames")])
ALL = [
    kw("Note", S("one")), kw("Note", S("two")), kw("Note", S("")), kw("Note", ("i", 3)), kw("Note", ("d", "1.5")), kw("Note", ("b", True)),
    kw("Note", ("SP",)), kw("Note", ("idx", ("SP",), ("i", 1))),
    kw("RenamePlugin", S("A.esp"), S("N1.esp")), kw("RenameEspm", S("a.ESP"), S("N2.esp")), kw("RenamePlugin", S("b.esm"), S("A.esp")),
    kw("RenamePlugin", S("missing.esp"), S("x")), kw("RenamePlugin", S(""), S("")), kw("RenamePlugin", S("straSSe.esp"), S("s")), kw("RenameEspm", S("Straße.esp"), S("t")),
    kw("ResetPluginName", S("a.esp")), kw("ResetEspmName", S("B.ESM")), kw("ResetPluginName", S("N1.esp")), kw("ResetPluginName", S("strasse.ESP")),
    kw("ResetAllPluginNames"), kw("ResetAllEspmNames"),
    fn("EditINI", S("Ini.ini"), S("Sec"), S("Key"), ("i", 1)), fn("EditINI", S("INI.INI"), S("sec"), S("key"), S("v"), S("; why")),
    fn("EditINI", S("Ini.ini"), S("Sec"), S("Key"), ("b", False), S("")), fn("EditINI", S("b.ini"), S(""), S(""), ("d", "2.5")),
    fn("EditINI", S("İni.ini"), S("S"), S("K"), S("")), fn("EditINI", S("dir/Ini.ini"), S("Sec"), S("Key"), S("1")),
    fn("EditINI", S("Ini.ini"), S("Key"), S("Sec"), ("i", 0), S("a\tb")),
    fn("DisableINILine", S("Ini.ini"), S("Sec"), S("Key")), fn("DisableINILine", S("iNI.iNI"), S("Sec"), S("Other")),
    fn("DisableINILine", S("c.ini"), S("x"), S("y")), fn("DisableINILine", S("Ini.ini"), S("Key"), S("Sec")),
    # something else that copies the state
    ("=", "x", ("i", 1)), kw("SelectAll"),
]
# wrong calls: a type error, nothing recorded
WRONG = [fn("EditINI", *[S(x) for x in "abc"]), fn("EditINI", *[S(x) for x in "abcdef"]), fn("DisableINILine", S("a"), S("b")),
         fn("DisableINILine", *[S(x) for x in "abcd"]), fn("EditINI"), fn("DisableINILine"),
         kw("RenamePlugin", S("a")), kw("RenamePlugin", S("a"), S("b"), S("c")), kw("RenameEspm", S("a")),
         kw("ResetPluginName", S("a"), S("b")), kw("ResetEspmName", S("a"), S("b")), kw("ResetAllPluginNames", S("a")), kw("ResetAllEspmNames", S("a")), kw("Note", S("a"), S("b"))]
VALUES = [("i", 0), ("neg", ("i", 5)), ("d", "0.5"), ("b", True), ("b", False), S(""), S("text"), S("ä\n;\t\"'\\"), ("SP",), ("idx", ("SP",), ("i", 0)), V("unset"),
          ("bin", "+", S("a"), S("b")), ("call", "str", (("i", 4),)), ("post", "++", "x"), V("x"), ("call", "lower", (S("ABC"),)), ("bin", "<", ("i", 1), ("i", 2))]


def wraps(a, b):
    mk = ("=", "z", ("i", 0))
    yield (a, mk, b, mk)
    yield (("for", "i", ("i", 1), ("i", 2), None, (a, mk, b, mk)),)
    yield (("forin", "x", S("pq"), (a, mk)), b, mk, ("forin", "x", ("SP",), (b, mk)))
    yield (("if", ((("b", True), (a, mk)),), None), ("exec", (b, mk)), ("exec", (("exec", (a, mk)),)))
    yield (a, mk, ("sel", "SelectMany", S("d"), ((S("A"), S(""), S("")), (S("B"), S(""), S(""))), ((S("A"), (b, mk)), (S("B"), (a, mk, ("break",)))), (b, mk)), a, mk)
    yield (("=", "i", ("i", 0)), ("while", ("bin", "<", V("i"), ("i", 2)), (("op=", "i", "+=", ("i", 1)), a, mk, ("if", ((("bin", "==", V("i"), ("i", 1)), (("continue",),)),), None), b, mk)))


def cases(tier):
    yield from values.cases("12", tier == "thorough")
    t = tier == "thorough"
    yield from holes.cases("12")
    yield from wide.cases("12", tier == "thorough")
    yield ("bfs",)
    for k in range(len(ALL)):
        for j in range(len(ALL)):
            yield ("seq", k, j, 4 if t else 3)
            yield ("script", k, j)
            if t:
                for i in range(0, len(ALL)):
                    yield ("script", k, j, i)
    for k in range(len(WRONG)):
        yield ("wrong", k)
    for i in range(len(VALUES)):
        yield ("values", i)


def queries(state):
    t = state.tweaks
    return t, list(t.files()), bool(t)


NAMES = ["Ini.ini", "ini.ini", "INI.INI", "b.ini", "B.INI", "c.ini", "dir/ini.INI", "İni.ini", "none.ini", ""]


def check_queries(prog, state, r, st):
    t = state.tweaks
    mod = [tuple(impl.ref_canon(x) for x in e) for e in r.modified]
    dis = [tuple(impl.ref_canon(x) for x in e) for e in r.disabled]
    for n in NAMES:
        st.c["queries"] += 1
        want = [("edit",) + e for e in mod if e[0][1].lower() == n.lower()] + [("line",) + e for e in dis if e[0][1].lower() == n.lower()]
        got = [("edit" if hasattr(s, "value") else "line",) + impl._setting(s, hasattr(s, "value")) for s in t.tweaks(n)]
        if got != want:
            common.fail("the tweaks of file %r" % n, prog, want, got)
    want = sorted({e[0][1] for e in mod + dis})
    if list(t.files()) != want:
        common.fail("the files with tweaks", prog, want, list(t.files()))
    if bool(t) != bool(mod or dis):
        common.fail("whether there are tweaks", prog, bool(mod or dis), bool(t))
    for p, n in state.renames.items():
        if r.renames.get(p.name.casefold()) != n or type(n) is not str:
            common.fail("a rename", prog, r.renames, dict(state.renames))
    for p in PLUGS:
        for q in (p, p.upper(), p.lower()):
            if state.renames.get(impl.Plugin(q)) != r.renames.get(q.casefold()):
                common.fail("the new name of plugin %r" % q, prog, r.renames, dict(state.renames))


class Rig:
    def __init__(self, stmts, severity=None):
        self.world = ref.World(packages=PACKAGES, funcs=dict(ref.basic_funcs(), **ref.ini_funcs()), severity=severity or {})
        self.machine = impl.Machine(self.world)
        self.progs = [lang.compile_((s,)) for s in stmts]
        self.tops = {}

    def step(self, k, state, rstate, st):
        prog = self.progs[k]
        if k not in self.tops:
            with impl.guard():
                self.tops[k] = self.machine.start(prog.text)
        before = impl.canon_state(state)
        self.machine.severity.warnings.clear()
        x = impl.step_run(self.machine, None, None, ctx=self.machine.restart(self.tops[k], state))
        r = ref.Ref(self.world, rstate.copy())
        end = r.run(prog)
        st.c["transitions"] += 1
        st.c["traces"] += 1
        if not common.same_end(end, x.end, prog.pos):
            common.fail("different end", prog, common.show_end(end, prog.pos), x.end, state=before)
        if impl.canon_state(state) != before:
            common.fail("the state before the statement changed", prog, before, impl.canon_state(state))
        rs = rstate if end[0] == "error" else r.s
        got = (impl.canon_vars(x.state), impl.fold_results(impl.canon_results(x.state)))
        want = (impl.ref_vars(rs), impl.ref_results_folded(rs))
        if got != want:
            common.fail("different result", prog, want, got, state=before)
        if len(r.warnings) != len(self.machine.severity.warnings):
            common.fail("different number of warnings", prog, r.warnings, self.machine.severity.warnings)
        return x.state, rs, got


def check(case, st):
    if case[0] == "corpus":
        return values.check(case, st)
    kind = case[0]
    if kind == "hole":
        return holes.check(case, st)
    if case[0] == "wide":
        return wide.check(case, st)
    if kind == "bfs":
        rig = Rig(RENAMES)
        start = impl.WizardRunnerState()
        seen = {impl.canon_state(start)}
        queue = [(start, ref.State())]
        while queue:
            s, r = queue.pop(0)
            for k in range(len(RENAMES)):
                s2, r2, key = rig.step(k, s, r, st)
                if key not in seen:
                    seen.add(key)
                    st.state(key)
                    check_queries(rig.progs[k], s2, r2, st)
                    queue.append((s2, r2))
        st.c["fixpoints"] += 1
        st.outcomes["renames"] += len(seen)
    elif kind == "seq":
        _, k, j, depth = case
        rig = RIGS.setdefault("all", None) or RIGS.__setitem__("all", Rig(ALL)) or RIGS["all"]

        def go(k, s, r, d, first=None):
            s2, r2, key = rig.step(k, s, r, st)
            st.state(key)
            check_queries(rig.progs[k], s2, r2, st)
            if d > 1:
                for i in range(len(ALL)) if first is None else (first,):
                    go(i, s2, r2, d - 1)

        go(k, impl.WizardRunnerState(), ref.State(), depth, j)
    elif kind == "script":
        mk = ("=", "z", ("i", 0))
        a, b = (ALL[i] for i in case[1:3])
        if len(case) > 3:
            bodies = [(a, mk, b, mk, ALL[case[3]], mk), (("for", "i", ("i", 1), ("i", 2), None, (a, mk, b, mk)), ALL[case[3]], mk)]
        else:
            bodies = wraps(a, b)
        for body in bodies:
            prog = lang.compile_(body)
            st.sample(prog.text)
            bench = common.Bench(prog, ref.World(packages=PACKAGES))
            menus = lambda many, n, d: [(0, 1), (1,), ()]  # noqa: E731
            common.explore(bench, st, menus, lambda m, x: check_queries(prog, x.state, m.r.s, st))
    elif kind == "wrong":
        w = WRONG[case[1]]
        for k in range(len(ALL)):
            rig = Rig([ALL[k], w])
            s, r, _ = rig.step(0, impl.WizardRunnerState(), ref.State(), st)
            s2, r2, _ = rig.step(1, s, r, st)
            check_queries(rig.progs[1], s2, r2, st)
    else:
        v = VALUES[case[1]]
        x = ("=", "x", ("i", 1))
        for stmt in (kw("Note", v), fn("EditINI", S("f"), S("s"), S("k"), v), fn("EditINI", S("f"), S("s"), S("k"), v, S("c")),
                     kw("RenamePlugin", S("a.esp"), ("call", "str", (v,))), fn("DisableINILine", S("f"), ("call", "str", (v,)), S("k"))):
            for sev in ("warning", "allow", "error"):
                prog = lang.compile_((x, stmt, x, stmt))
                bench = common.Bench(prog, ref.World(packages=PACKAGES, severity={"note": sev}))
                m, y = bench.pair(Chooser(), st)
                if m.end[0] != "error":
                    check_queries(prog, y.state, m.r.s, st)


RIGS = {}
