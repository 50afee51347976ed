"""C11. States: runner states (selected sub-packages and plugins), each a real state object; transitions: one selection keyword executed from
that state by the stepping interpreter. Breadth first search to the fixpoint over every keyword, under each of its names, with every existing,
case-variant and missing name, on several package layouts, under each severity; and every keyword sequence up to the depth bound from the
empty state; every transition is compared with the set model, together with warnings, errors, order, letter case and the old state, which must stay as it was."""

from .. import common, holes, impl, lang, ref, wide, values
from ..explore import Chooser, Violation

BOUNDS = {
    "quick": "11 layouts of <=4 packages; fixpoint of the reachable states x ~50 keyword calls x 3 severities; all sequences of <=2 calls over all names, <=3 "
             "over 22 calls, scripts of sequences in one text; all places x the corpora of values.py",
    "thorough": "all sequences of <=3 calls over all names, <=4 over 22 calls",
}
CHUNK = 1
S = lambda x: ("s", x)  # noqa: E731
LAYOUTS = [
    [("P", ["A.esp", "B.esm"]), ("Q", ["sub/a.esp", "C.esl"]), ("R", [])],
    [("P", ["A.esp"]), ("Q", ["A.esp"]), ("R", ["B.esp"])],
    [("p1", ["x.txt", "A.espx", "dir.esp/file", "b.esm"]), ("Été", ["ß.esp", "c.esp"])],
    [],
    [("Z", ["z.esp", "Y.esp"]), ("a", ["X.esp", "w.esp"])],
    [("P", ["a/b/C.esp", "a/c.esp", "A.esm", "A.esl", "A.esp"])],
    [("Core Files", ["Core.esp", "Core - Patch.esp"]), ("Core", ["core.ESM", "Core.esm"])],
    [("One", ["1.esp"]), ("Two", ["2.esp"]), ("Three", ["3.esp"]), ("Four", ["1.ESP", "4.esp"])],
    [("Plugin.esp", ["Plugin.esp"]), ("Q", ["Q.esp", "Plugin.esp"])],
    # names that are equal in upper case, in another normal form or without accents only, and names that are equal in folding only
    [("\u0131", ["\u0131.esp", "\xe9.esp", "e.esp"]), ("i", ["i.esp", "e\u0301.esp", "ma\xdfe.esp"]), ("\u017f", ["MASSE.esp"])],
    # names that begin or end with other names
    [("a", ["1.esp", "1.esp.esm", "11.esp"]), ("a.esp", ["1.esp.esm.esl", "x1.esp"]), ("aa", ["1 .esp"])],
]
NOARG = ["SelectAll", "DeSelectAll", "SelectAllPlugins", "SelectAllEspms", "DeSelectAllPlugins", "DeSelectAllEspms"]


def names(layout):
    subs = [n for n, _ in layout]
    w = ref.World(packages=layout)
    plugs = []
    for p in w.packages:
        for f in p.files:
            b = f.rsplit("/", 1)[-1]
            if f.endswith(ref.PLUGIN_EXT) and b not in plugs:
                plugs.append(b)
    return subs, plugs


def actions(layout, alias=True):
    out = [(k, None) for k in (NOARG if alias else NOARG[:3] + NOARG[4:5])]
    subs, plugs = names(layout)
    for i, n in enumerate(subs):
        for v in [n, n.swapcase()] if alias else [n if i % 2 else n.upper()]:
            out += [("SelectSubPackage", v), ("DeSelectSubPackage", v)]
    for i, n in enumerate(plugs):
        for v in [n, n.swapcase()] if alias else [n if i % 2 else n.upper()]:
            out += [("SelectPlugin", v), ("DeSelectPlugin", v)]
        if alias:
            out += [("SelectEspm", n), ("DeSelectEspm", n.upper())]
    for v in ("missing.esp", ""):
        out += [("SelectPlugin", v), ("DeSelectPlugin", v), ("SelectSubPackage", v), ("DeSelectSubPackage", v)]
        if not alias:
            break
    if plugs and alias:
        # a file that is not a plugin, a path, the name of a plugin as package and of a package as plugin
        out += [("SelectSubPackage", plugs[0]), ("DeSelectSubPackage", plugs[0]), ("SelectPlugin", subs[0]), ("SelectPlugin", "sub/a.esp"), ("SelectPlugin", "x.txt"),
                ("SelectPlugin", plugs[0] + " "), ("SelectSubPackage", subs[0] + " "), ("SelectPlugin", plugs[0][:-1]), ("DeSelectPlugin", plugs[0][:-1]), ("DeSelectSubPackage", subs[0][:-1])]
    return out


def stmt(a):
    return ("kw", a[0], () if a[1] is None else (S(a[1]),))


def cases(tier):
    yield from values.cases("11", tier == "thorough")
    t = tier == "thorough"
    yield from holes.cases("11")
    yield from wide.cases("11", tier == "thorough")
    for i in range(len(LAYOUTS)):
        for sev in ("warning", "allow", "error"):
            yield ("bfs", i, sev)
        n = len(actions(LAYOUTS[i]))
        for k in range(n):
            yield ("seq", i, k, 3 if t else 2, True)
        n = len(actions(LAYOUTS[i], False))
        for k in range(n):
            yield ("seq", i, k, 4 if t else 3, False)
        for k in range(n):
            yield ("script", i, k)
    yield ("args",)


class Rig:
    """Keyword calls of one layout, parsed once, executed from any state."""

    def __init__(self, layout, sev, acts):
        self.world = ref.World(packages=layout, default_severity=sev)
        self.machine = impl.Machine(self.world)
        self.acts = acts
        self.progs = [lang.compile_((stmt(a),)) for a in acts]
        with impl.guard():
            self.tops = [self.machine.start(p.text) for p in self.progs]
        self.layout = layout

    def step(self, k, state, rstate, st):
        """Executes the action on the real state and on the model; returns the two new states."""
        prog = self.progs[k]
        before = impl.canon_state(state)
        self.machine.severity.warnings.clear()
        x = impl.step_run(self.machine, None, None, ctx=self.machine.restart(self.tops[k], state))
        r = ref.Ref(self.world, rstate.copy())
        end = r.run(prog)
        st.c["transitions"] += 1
        st.c["traces"] += 1
        if not common.same_end(end, x.end, prog.pos):
            common.fail("different end", prog, common.show_end(end, prog.pos), x.end, state=before)
        if impl.canon_state(state) != before:
            common.fail("the state before the keyword changed", prog, before, impl.canon_state(state))
        if end[0] == "error":
            r.s = rstate
        got = impl.canon_results(x.state)
        want = impl.ref_results_folded(r.s)
        if impl.fold_results(got) != want:
            common.fail("different selection", prog, want, got, state=before, packages=self.layout)
        if len(r.warnings) != len(self.machine.severity.warnings):
            common.fail("different number of warnings", prog, r.warnings, self.machine.severity.warnings, state=before)
        orig = {n for n, _ in self.layout}
        files = {f.rsplit("/", 1)[-1] for _, fs in self.layout for f in fs}
        if not set(got[0]) <= orig or not set(got[1]) <= files:
            common.fail("a name is reported in another letter case", prog, (sorted(orig), sorted(files)), got)
        return x.state, r.s, got[:2]


def lists(rig, layout):
    """What the keyword visitor lists as available (during and after the search, the same)."""
    v = rig.machine.factory.kvisitor
    own = [[f.rsplit("/", 1)[-1] for f in fs if f.endswith(ref.PLUGIN_EXT)] for _, fs in layout]
    every = {}
    for f in (f for fs in own for f in fs):
        every.setdefault(f.casefold(), f)
    for what, want, got in (
        ("sub-packages", [n for n, _ in layout], [p.name for p in v.subpackages]),
        ("plugins", list(every.values()), [p.name for p in v.plugins]),
        ("plugins of the sub-packages", own, [[p.name for p in v.plugins_for(s)] for s in v.subpackages]),
        ("number of plugins", [len(x) for x in own], [len(v.plugins_for(s)) for s in v.subpackages]),
    ):
        if want != got:
            raise Violation("the keyword visitor lists other " + what, expected=want, observed=got, packages=layout)


def check(case, st):
    if case[0] == "corpus":
        return values.check(case, st)
    kind = case[0]
    if kind == "hole":
        return holes.check(case, st)
    if case[0] == "wide":
        return wide.check(case, st)
    if kind == "bfs":
        _, i, sev = case
        layout = LAYOUTS[i]
        acts = actions(layout)
        rig = Rig(layout, sev, acts)
        st.sample([rig.progs[0].text, acts[-1]])
        lists(rig, layout)
        start = impl.WizardRunnerState()
        seen = {impl.canon_results(start)[:2]}
        queue = [(start, ref.State())]
        while queue:
            s, r = queue.pop(0)
            for k in range(len(acts)):
                s2, r2, key = rig.step(k, s, r, st)
                if key not in seen:
                    seen.add(key)
                    st.state(key)
                    queue.append((s2, r2))
        st.c["fixpoints"] += 1
        lists(rig, layout)
        st.outcomes["layout %d %s" % (i, sev)] += len(seen)
    elif kind == "seq":
        _, i, k, depth, alias = case
        acts = actions(LAYOUTS[i], alias)
        rig = Rig(LAYOUTS[i], "warning", acts)

        def go(k, s, r, d):
            s2, r2, key = rig.step(k, s, r, st)
            st.state(key)
            if d > 1:
                for j in range(len(acts)):
                    go(j, s2, r2, d - 1)

        go(k, impl.WizardRunnerState(), ref.State(), depth)
    elif kind == "script":
        # the same sequences inside one script, with loops
        _, i, k = case
        acts = actions(LAYOUTS[i], False)
        mk = ("=", "z", ("i", 0))
        for j in range(len(acts)):
            body = (stmt(acts[k]), mk, ("for", "i", ("i", 1), ("i", 2), None, (stmt(acts[j]), mk)), stmt(acts[k]), mk, ("exec", (stmt(acts[j]), mk)))
            prog = lang.compile_(body)
            bench = common.Bench(prog, ref.World(packages=LAYOUTS[i]))
            bench.pair(Chooser(), st)
    else:
        # names computed by expressions and taken from the packages
        layout = LAYOUTS[0]
        w = ref.World(packages=layout)
        for e in (("bin", "+", S("A"), S(".esp")), ("v", "x"), ("meth", S("A.ESP"), "lower", ()), ("call", "str", (S("b.esm"),)), ("sl", S("xA.espx"), ("i", 1), ("neg", ("i", 1)), None, False)):
            for kw in ("SelectPlugin", "SelectEspm", "DeSelectPlugin", "DeSelectEspm"):
                body = (("=", "x", S("c.esl")), ("kw", "SelectSubPackage", (S("P"),)), ("kw", kw, (e,)))
                common.Bench(lang.compile_(body), w).pair(Chooser(), st)
        body = (("forin", "p", ("SP",), (("=", "n", ("call", "str", (("v", "p"),))), ("kw", "SelectSubPackage", (("v", "n"),)),
                                       ("forin", "f", ("v", "p"), (("kw", "DeSelectPlugin", (("v", "f"),)),)))),)
        common.Bench(lang.compile_(body), w).pair(Chooser(), st)
