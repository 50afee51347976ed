"""C05. States: contexts of the real interpreter, kept and executed again; transitions: exec() and select() calls. For every program of
the bound the tree of all contexts over all answers is explored WITHOUT ever restarting the script: every alternative
answer is explored by executing a kept context again (depth first, breadth first, and last-context-first orders), every leaf is compared
with a fresh run of the reference interpreter for its answers, every context is snapshotted when it is reached (state, tweaks,
menu, position, all parents), and all snapshots are compared again after every execution of the context and after the whole
exploration, and every context of the tree is finally re-executed once more and must give the same successor."""

from .. import common, holes, impl, lang, ref, skel, wide
from ..explore import Chooser, Violation

BOUNDS = {
    "quick": "all skeletons of <=2 control nodes (13 constructs; every kind of state change between them), <=3 over {Break, "
             "Continue, If, While, For, SelectMany}; all sequences of <=2 of 26 state-changing statements; the families of wide.py in sizes up to 100; 3 exploration orders",
    "thorough": "<=3 control nodes over all; all sequences of <=3 state-changing statements",
}
CHUNK = 2
S = lambda x: ("s", x)  # noqa: E731
m = lambda k: ("op=", "t", "+=", ("call", "m%d" % k, ()))  # noqa: E731
L, C = ("break", "continue", "return", "cancelm"), ("if", "ifelse", "while", "for", "forin", "one3", "many3", "exec")


def V(n):
    return ("v", n)


OPS = [
    ("=", "x", ("i", 7)), ("=", "y", V("x")), ("op=", "x", "+=", ("i", 1)), ("E", ("par", ("pre", "++", "x"))), ("=", "p", ("SP",)),
    ("kw", "Note", (S("n1"),)), ("kw", "Note", (V("t"),)), ("kw", "SelectSubPackage", (S("P"),)), ("kw", "SelectSubPackage", (S("Q"),)),
    ("kw", "DeSelectSubPackage", (S("p"),)), ("kw", "SelectPlugin", (S("b.esm"),)), ("kw", "DeSelectPlugin", (S("A.esp"),)),
    ("kw", "SelectAll", ()), ("kw", "SelectAllPlugins", ()), ("kw", "DeSelectAll", ()), ("kw", "DeSelectAllPlugins", ()),
    ("kw", "RenamePlugin", (S("a.esp"), S("z.esp"))), ("kw", "RenamePlugin", (S("A.esp"), V("t"))), ("kw", "ResetPluginName", (S("a.esp"),)),
    ("kw", "ResetAllPluginNames", ()), ("E", ("call", "EditINI", (S("f"), S("s"), S("k"), V("x")))),
    ("E", ("call", "DisableINILine", (S("f"), S("s"), V("t")))),
    ("exec", (("op=", "x", "+=", ("i", 5)), ("kw", "Note", (S("in"),)))),
    ("for", "i", ("i", 1), ("i", 2), None, (("op=", "x", "+=", V("i")),)),
    ("if", ((("bin", ">", ("pre", "++", "x"), ("i", 2)), (("kw", "Note", (S("if"),)),)),), None),
    ("sel", "SelectMany", S("d"), ((S("A"), S(""), S("")), (S("|B"), S(""), S(""))), ((S("A"), (("op=", "x", "+=", ("i", 9)),)), (S("B"), (("kw", "Note", (S("B"),)),))), None),
]
MARKS = [("kw", "Note", (V("t"),)), ("kw", "SelectSubPackage", (S("P"),)), ("kw", "DeSelectPlugin", (S("A.esp"),)),
         ("kw", "RenamePlugin", (S("a.esp"), V("t"))), ("E", ("call", "EditINI", (S("f"), S("s"), S("k"), V("t")))),
         ("kw", "SelectPlugin", (S("b.esm"),))]
PACKAGES = [("P", ["A.esp", "f.txt"]), ("Q", ["b.esm", "a.ESP", "a.esp"])]


# families of wide.py: sizes of the quick and of the thorough check
WIDE = {
    "elif": ((0, 1, 2, 3, 7), wide.SMALL), "while": ((0, 1, 5, 33, 100), wide.MID), "nested": ((1, 2, 3, 5), (1, 2, 3, 4, 5, 6, 7, 8)), "range": ((0, 1, 3), wide.SMALL),
    "string": ((0, 1, 3, 33, 100), wide.MID), "loops": ((1, 2, 3), (1, 2, 3, 4, 5)), "packages": ((0, 1, 2, 4), (0, 1, 2, 3, 4, 5, 6, 7)), "select": ((1, 2, 3, 4, 5), (1, 2, 3, 4, 5, 6, 7, 8, 9)),
    "select in turn": ((0, 1, 2, 3), (0, 1, 2, 3, 4, 5)), "select in select": ((1, 2, 3, 4), (1, 2, 3, 4, 5, 6, 7, 8)), "same names": ((1, 2, 3), (1, 2, 3, 4)),
    "exec": ((0, 1, 2, 3), (0, 1, 2, 3, 4, 5)), "long exec": ((0, 1, 10, 33), wide.MID), "selected": ((0, 1, 2, 3), (0, 1, 2, 3, 4, 5)), "requests": ((0, 1, 3, 10, 33), wide.MID),
}


class Mixed(skel.Complete):
    def body(self, b, top=False):
        out = []
        for s in super().body(b, top):
            out.append(s)
            if s[0] == "op=":
                self.k = getattr(self, "k", -1) + 1
                out.append(MARKS[self.k % len(MARKS)])
        return tuple(out)


def cases(tier):
    t = tier == "thorough"
    for n in (0, 1, 2):
        for b in skel.bodies(n, L, C):
            yield ("mixed" if n < 2 or t else "full", b)
    for b in skel.bodies(2, ("break", "continue"), ("ifelse", "while", "for", "many3", "exec")):
        yield ("mixed", b)
    for b in skel.bodies(3, L if t else ("break", "continue"), C if t else ("if", "while", "for", "many")):
        yield ("full", b)
    for h in holes.cases("", None if t else ["top", "for", "case", "exec"]):
        if t or h[3] in (0, 1, 5):
            yield h
    for name, sizes in WIDE.items():
        for n in sizes[t]:
            yield ("wide", name, n)
    for i in range(len(OPS)):
        yield ("ops", (i,))
        for j in range(len(OPS)):
            yield ("ops", (i, j))
            if t:
                for k in range(len(OPS)):
                    yield ("ops", (i, j, k))


def snapshot(ctx):
    out = []
    while True:
        s = ctx.context.start
        item = (type(ctx).__name__, (s.line, s.column) if s else None, impl.canon_state(ctx.state) if not out else impl.canon_vars(ctx.state))
        if impl.is_menu(ctx):
            item += (impl.menu_of(ctx),)
        if isinstance(ctx, impl.WizardTerminationContext):
            item += (impl.end_of(ctx),)
        out.append(item)
        if ctx.is_top_level():
            return tuple(out)
        ctx = ctx.parent


def continue_(ctx):
    """Snapshots of the next contexts of an answered menu, as long as they need no answer."""
    out = []
    for _ in range(5):
        try:
            ctx = ctx.exec()
        except Exception as ex:
            out.append(impl.error_kind(ex))
            break
        out.append(snapshot(ctx))
        if impl.is_menu(ctx) or isinstance(ctx, impl.WizardTerminationContext) or type(ctx).__name__ == "WizardBodyContext":
            break
    return out


class Node:
    __slots__ = ("ctx", "snap", "path", "loops", "log", "succ", "parent")

    def __init__(self, ctx, path, loops, log, parent=None):
        self.ctx, self.path, self.loops, self.log, self.parent = ctx, path, loops, log, parent
        self.snap = snapshot(ctx)
        self.succ = {}


def menus(many, n, defaults):
    if n == 1:
        return [(0,), ()] if many else [(0,)]
    return [(1, 0), (0,)] if many else [(0,), (1,)]


class Explorer:
    """All contexts of one program, over all answers, from one start."""

    def __init__(self, prog, world, st, limit=6000):
        self.prog, self.world, self.st = prog, world, st
        self.bench = common.Bench(prog, world)
        self.nodes = []
        self.leaves = 0
        self.limit = limit

    def step(self, node, picks):
        """Executes the context of the node once. Returns (picks made, child or ('error'...), loops, log)."""
        ch = Chooser(picks)
        s = common.Session(ch, node.loops, menus)
        s.log = s.trace  # one list for what happens in this step
        self.bench.session = s

        class Live:
            def ask(self, label):
                # The session answers by its own choices; the labels were logged by the callers.
                s.trace.pop()
                if label[0] == "menu":
                    return s.select(None, *label[1:])
                return s.cond(label)

        s.env = Live()
        before = list(ch.points)
        assert not before
        with impl.guard():
            try:
                ctx = node.ctx
                if impl.is_menu(ctx):
                    ctx = s.on_menu(ctx)
                out = ctx.exec()
            except impl.Hang as h:
                out = ("hang", str(h))
            except Violation:
                raise
            except RecursionError:
                out = ("raw", "RecursionError", "")
            except Exception as ex:
                out = impl.error_kind(ex)
        self.st.c["transitions"] += 1
        return ch, out, s.loops, tuple(s.trace)

    def verify(self, node, what):
        now = snapshot(node.ctx)
        if now != node.snap:
            common.fail("a past context changed " + what, self.prog, node.snap, now, answers=node.path)

    def expand(self, node):
        """All children of the node."""
        picks = []
        kids = []
        if impl.is_menu(node.ctx):
            self.menu(node)
        while picks is not None:
            ch, out, loops, log = self.step(node, picks)
            made = tuple(c for _, c in ch.points)
            self.verify(node, "when it was executed")
            if isinstance(out, tuple):
                node.succ[made] = out
                self.leaf(node.path + made, node.log + log, out, node)
            else:
                kid = Node(out, node.path + made, loops, node.log + log, node)
                node.succ[made] = kid.snap
                self.nodes.append(kid)
                if isinstance(out, impl.WizardTerminationContext):
                    self.leaf(kid.path, kid.log, impl.end_of(out), kid)
                else:
                    kids.append(kid)
            picks = ch.next()
        return kids

    def menu(self, node):
        """Answers the menu in every way and only then executes the answered copies, twice, in both orders."""
        ctx = node.ctx
        answers = menus(impl.menu_of(ctx)[0], len(ctx.options), None)
        run = lambda c: continue_(c)[0]  # noqa: E731
        alone = [run(ctx)] + [run(impl.answer_menu(ctx, a)) for a in answers]
        twice = [ctx] + [impl.answer_menu(ctx, a) for a in answers]
        # a chosen menu can be chosen again
        again = [impl.answer_menu(twice[1 + (k + 1) % len(answers)], a) for k, a in enumerate(answers)]
        for order in (1, -1):
            for k in list(range(len(twice)))[::order]:
                self.st.c["transitions"] += 1
                got = continue_(twice[k])
                want = continue_(impl.answer_menu(ctx, answers[k - 1])) if k else continue_(ctx)
                if got != want or run(twice[k]) != alone[k]:
                    common.fail("a menu context gives another continuation after it was answered differently", self.prog, want, got,
                                answers=node.path, menu=impl.menu_of(ctx))
                if k and continue_(again[k - 1]) != want:
                    common.fail("answering an answered menu differs from answering the menu", self.prog, want, continue_(again[k - 1]),
                                answers=node.path, menu=impl.menu_of(ctx))
        self.verify(node, "by answering it")

    def leaf(self, path, log, end, node):
        self.leaves += 1
        self.st.c["traces"] += 1
        ch = Chooser(path)
        m = common.Model(self.prog, self.world, self.model_session(ch))
        if tuple(m.s.trace) != log or not common.same_end(m.end, end, self.prog.pos):
            common.fail("a re-executed history differs from the reference", self.prog, (m.s.trace, common.show_end(m.end, self.prog.pos)),
                        (log, end), answers=path)
        if m.end[0] != "error":
            a = (impl.ref_vars(m.r.s), impl.ref_results_folded(m.r.s))
            b = (impl.canon_vars(node.ctx.state), impl.fold_results(impl.canon_results(node.ctx.state)))
            if a != b:
                common.fail("a re-executed history ends in another state", self.prog, a, b, answers=path)

    def model_session(self, ch):
        s = self.bench.session = common.Session(ch, menus=menus)
        return s

    def explore(self, order):
        top = Node(self.bench.top, (), 2, ())
        self.nodes = [top]
        work = [top]
        while work:
            if len(self.nodes) > self.limit:
                raise RuntimeError("too many contexts: " + self.prog.text)
            if order == "dfs":
                kids = self.expand(work.pop())
                work += reversed(kids)
            elif order == "bfs":
                kids = self.expand(work.pop(0))
                work += kids
            else:  # last answer first, depth first
                kids = self.expand(work.pop())
                work += kids
        for n in self.nodes:
            self.verify(n, "by later executions")
            self.st.state(n.snap)
        # every context once more, latest first
        for n in reversed(self.nodes):
            for made, want in n.succ.items():
                _, out, _, _ = self.step(n, list(made))
                got = out if isinstance(out, tuple) else snapshot(out)
                if got != want:
                    common.fail("executing a kept context again gives another successor", self.prog, want, got, answers=n.path + made)
        for n in self.nodes:
            self.verify(n, "by later executions")


def check(case, st):
    kind, b = case[:2]
    if kind == "wide":
        packages = wide.packages(case[2]) if b in ("packages", "selected") else PACKAGES
        for body in wide.bodies(case):
            explore(lang.compile_(body), packages, st)
        return
    if kind == "hole":
        body = holes.body(case)
    elif kind == "ops":
        body = (("=", "t", S("T")), ("=", "x", ("i", 1)))
        for i in b:
            body += (OPS[i], ("op=", "t", "+=", S(".")))
    else:
        body = (Mixed() if kind == "mixed" else skel.Complete()).body(b, top=True)
    explore(lang.compile_(body), PACKAGES, st)


def explore(prog, packages, st):
    st.sample(prog.text)
    world = ref.World(packages=packages)
    e = Explorer(prog, world, st)
    for order in ("dfs", "bfs", "last"):
        e.explore(order)
        st.c["contexts"] += len(e.nodes)
        st.outcomes[order] += e.leaves
    st.c["programs"] += 1
