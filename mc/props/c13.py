"""C13. States: contexts current at a callback; transitions: callbacks of the runner and what the user does in them. Every script of the bound
is run by the callback runner under every combination of answers and at most N injected actions: in every callback (menus, manager queries, warnings,
version requirements, end of script, error, cancel after an abort) the user may abort, raise an exception, or rewind to any context
that was current at an earlier callback, abandoned ones included; cancel() and complete() also answer False. The model is the reference interpreter
with the same user: aborting and raising keep the state before the step, rewinding re-runs the reference with the answers given before
that context and then asks again. Callbacks, arguments, order, errors, status, the returned state and, at every callback, the state and kind (menu, end of script and its message) of the
current context are compared."""

from .. import common, impl, lang, ref, skel, values
from ..explore import Chooser
from ..runner import Runner, STATUS, menu_label, pick

BOUNDS = {
    "quick": "20 statements with <=2 injected actions, with each of 35 exceptions and the Wizard errors raised by each callback, all pairs with <=1, all pairs of 6 with <=2, all triples of 5 with <=1, control skeletons of 1 node with <=2 "
             "and of 2 nodes with <=1, default callbacks; all places x the corpora of values.py",
    "thorough": "20 statements with <=3, all pairs with <=2 injected actions, all triples of 12 with <=1, control skeletons of <=2 nodes with <=2",
}
CHUNK = 4
S = lambda x: ("s", x)  # noqa: E731
V = lambda x: ("v", x)  # noqa: E731
PACKAGES = [("P", ["a.esp"]), ("Q", ["b.esp"])]


def q(*args):
    return ("call", "DataFileExists", tuple(S(x) for x in args))


O = ((S("A"), S("d"), S("")), (S("|B"), S(""), S("i.png")))
t = ("op=", "t", "+=", S("."))
STMTS = {
    "query": ("=", "x", q("f", "g")),
    "two": ("=", "x", ("bin", "or", q("f"), ("bin", "<", ("call", "CompareGameVersion", (S("1"),)), ("i", 0)))),
    "late": ("kw", "Note", (("bin", "+", V("t"), ("call", "GetFilename", (S("p"),))),)),
    "effect": ("if", ((("bin", "and", ("bin", ">", ("pre", "++", "n"), ("i", 0)), q("c")), (t,)), (q("d"), (("kw", "Note", (S("d"),)),))), (("=", "e", ("i", 1)),)),
    "warn": ("=", "y", V("unset")),
    "warn2": ("kw", "SelectPlugin", (("call", "GetFolder", (S("missing"),)),)),
    "require": ("kw", "RequireVersions", (S("1"), S(""), S("3"))),
    "one": ("sel", "SelectOne", S("one"), O, ((S("A"), (t,)), (S("B"), (("kw", "SelectSubPackage", (S("P"),)), ("break",)))), (("=", "d", ("i", 1)),)),
    "many": ("sel", "SelectMany", ("bin", "+", S("many"), V("t")), O, ((S("A"), (("kw", "Note", (S("A"),)), ("break",))), (S("B"), (t,))), None),
    "error": ("=", "z", ("bin", "-", V("t"), ("i", 1))),
    "error2": ("kw", "Note", (("call", "str", (("bin", "/", ("pre", "++", "n"), ("i", 0)),)),)),
    "break": ("break",),
    "cancel": ("cancel", S("why")),
    "cancel2": ("if", ((q("stop"), (("cancel", None), t)),), None),
    "return": ("return",),
    "return2": ("forin", "i", S("ab"), (("if", ((("bin", "==", V("i"), S("a")), (("return",), t)),), None), t)),
    "while": ("while", q("w"), (t,)),
    "for": ("for", "i", ("i", 1), ("i", 2), None, (("=", "x", q("l")), t)),
    "exec": ("exec", (("=", "x", q("f")), t)),
    "exec2": ("exec", (("cancel", S("in")), t)),
}
NAMES = list(STMTS)
FEW = ["query", "effect", "warn", "require", "one", "many", "error", "cancel", "return", "for", "exec", "while"]
FEW6 = ["effect", "many", "one", "error", "cancel", "warn"]


def cases(tier):
    yield from values.cases("13", tier == "thorough")
    th = tier == "thorough"
    for a in NAMES:
        yield ("s", (a,), 3 if th else 2)
        yield ("default", a)
        for k in range(1, len(RAISED)):
            yield ("raised", (a,), 2 if th else 1, k)
        for b in NAMES:
            yield ("s", (a, b), 2 if th or a in FEW6 and b in FEW6 else 1)
    few = FEW if th else FEW6[:5]
    for a in few:
        for b in few:
            for c in few:
                yield ("s", (a, b, c), 1)
    L, C = ("break", "continue", "return", "cancelm"), ("ifelse", "while", "for", "one3", "many3", "exec")
    for n in (1, 2):
        for b in skel.bodies(n, L, C):
            yield ("skel", b, 2 if th or n == 1 else 1)


class Inject(ref.Stop):
    def __init__(self, what, arg=None):
        self.what, self.arg = what, arg


class RefRun(ref.Ref):
    """Reference run whose user interacts at the callbacks."""

    def __init__(self, user, state=None):
        super().__init__(user.world, state)
        self.user, self.watch, self.steps, self.notify = user, True, 0, True

    def step(self):
        self.steps += 1
        super().step()

    def issue(self, name, err):
        super().issue(name, err)
        if self.w.severity.get(name, self.w.default_severity) == "warning":
            self.user.cb(("warning",), (None,))

    def stmt(self, n):
        if n.k not in ("return", "cancel"):
            return super().stmt(n)
        self.tick()
        self.step()
        if n.k == "cancel":
            msg = self.typed(n.a[0], str) if n.a[0] is not None else None
        self.step()
        self.user.end = ("cancel", msg) if n.k == "cancel" else ("return",)
        if not self.user.cb(("cancel" if n.k == "cancel" else "complete",), (True, False)):
            return
        raise ref.Return_() if n.k == "return" else ref.Cancel_(msg)


class User:
    """Model of a run: the events it consists of, with what the user does in each."""

    def __init__(self, prog, world, chooser, budget, wtimes=2):
        self.prog, self.world, self.ch, self.budget, self.wtimes = prog, world, chooser, budget, wtimes
        self.events = []  # (label, action, snapshot) in order of the callbacks of the real run
        self.ends = []  # the end of script that the context of each event is, if any
        self.end = None
        self.contexts = []  # the events before each context that was current at a callback

    def cb(self, label, answers):
        r = self.r
        if self.pos < len(self.prefix):
            l, a, _ = self.prefix[self.pos]
            assert l == label, (l, label)
            self.end = None
            self.pos += 1
            self.path.append((label, a, r.steps))
            return a
        here = tuple(e for e in self.path if e[2] < r.steps)
        answers = self.limit(label, answers)
        return self.ask(label, answers, here, r.snap, label[0] == "menu")

    def limit(self, label, answers):
        # a loop condition holds a bounded number of times
        if label[0] == "Q" and label[2][:1] == ("w",) or label[:1] == ("w",):
            self.wtimes -= 1
            if self.wtimes <= 0:
                return (False,)
        return answers

    def ask(self, label, answers, here, snap, menu=False, raises=True, path=True):
        acts = [("answer", a) for a in answers]
        if self.budget > 0:
            acts += [("abort",)]
            if raises:
                acts += [("raise",)]
            targets = []
            for c in self.contexts + [here]:
                if c not in targets:
                    targets.append(c)
            # the current context, the first ones and the latest ones
            for c in ([targets[-1]] + targets[:2] + targets[-3:-1] if len(targets) > 4 else targets):
                acts.append(("rewind", (self.contexts + [here]).index(c)))
        act = acts[self.ch.pick(len(acts))]
        self.contexts.append(here)
        self.events.append((label, act, snap.copy()))
        if self.end is None and not path and len(self.events) > 1 and self.events[-2][1][0] in ("abort", "raise"):
            self.ends.append(self.ends[-1])  # the context that was aborted
        else:
            self.ends.append(self.end)
        self.end = None
        if act[0] == "answer":
            if path:
                self.path.append((label, act[1], self.r.steps))
            return act[1]
        self.budget -= 1
        raise Inject(act[0], act[1] if act[0] == "rewind" else None)

    def run(self):
        """(status, state) or ('raised',)"""
        self.prefix = ()
        while True:
            self.r = r = RefRun(self)
            self.pos, self.path = 0, []
            r.step()
            try:
                try:
                    end = r.run(self.prog)
                    if end == ("complete",):
                        r.step()
                        self.end = ("complete",)
                        self.cb(("complete",), (True,))
                    if end[0] != "error":
                        return end[0], r.s
                    snap, err = r.snap, end
                except Inject as e:
                    if e.what == "rewind":
                        raise
                    snap, err = r.snap, ("abort",) if e.what == "abort" else ("raised",)
                here = tuple(e for e in self.path if e[2] < r.steps)
                if err != ("abort",):
                    try:
                        self.ask(("error", err), (None,), here, snap, path=False)
                        return "error", snap
                    except Inject as e:
                        if e.what == "rewind":
                            raise
                        if e.what == "raise":
                            return "raised", None
                # aborted
                try:
                    if self.ask(("cancel",), (True, False), here, snap, raises=False, path=False):
                        return "cancel", snap
                    self.prefix = here
                except Inject as e:
                    if e.what == "rewind":
                        raise
                    return "cancel", snap
            except Inject as e:
                assert e.what == "rewind"
                self.prefix = self.contexts[e.arg]


def context_end(ctx):
    if not isinstance(ctx, impl.WizardTerminationContext):
        return None
    if ctx.is_cancel():
        return ("cancel", ctx.message())
    return ("return",) if ctx.is_return() else ("complete",)


# what a callback may raise
RAISED = common.RAISED + tuple((c, None) for c in (impl.werr.WizardTypeError, impl.werr.WizardNameError, impl.werr.WizardIndexError, impl.werr.WizardError))


TRUE, FALSE = (True, 1, "no", [0]), (False, 0, None, "")


def is_boom(ex, boom):
    return boom is not None and common.is_raised(ex, boom)


class Bench:
    def __init__(self, prog, raised=RuntimeError):
        self.prog, self.raised = prog, raised
        f = ref.basic_funcs()
        f.update(ref.ini_funcs())
        self.user = None
        for name, meth, alts in (("DataFileExists", "dataFileExists", (False, True)), ("CompareGameVersion", "compareGameVersion", (-1, 0)),
                                 ("GetFilename", "getFilename", ("n",)), ("GetFolder", "getFolder", ("", "b.esp"))):
            f[name] = (1, None, lambda r, a, meth=meth, alts=alts: self.user.cb(("Q", meth, tuple(a)), alts))
        g = {}
        for k in range(1, common.NMARK):
            if "m%d()" % k in prog.text:
                f["m%d" % k] = (0, 0, lambda r, a, k=k: "%d;" % k)
                g["m%d" % k] = lambda a, st, k=k: "%d;" % k
            for p in "cw":
                n = "%s%d" % (p, k)
                if n + "()" in prog.text:
                    f[n] = (0, 0, lambda r, a, n=n, p=p: self.user.cb((p, n), (True, False)))
                    g[n] = lambda a, st, n=n, p=p: self.on(p, n)
        self.world = ref.World(packages=PACKAGES, funcs=f, select=self.select, require=lambda r, a: self.user.cb(("requiresVersions", tuple(a)), (None,)))
        self.runner = Runner(impl.packages(self.world))
        for name, fn in g.items():
            self.runner.factory_functions()[name] = impl.adapt(fn)
        self.runner.on = self.on
        make = self.runner.make_top_level_context
        self.top = None

        def cached(script, state=None):
            if self.top is None:
                self.top = make(script, state)
            return self.top

        self.runner.make_top_level_context = cached

    def select(self, r, many, desc, options, defaults):
        answers = [(), (1, 0), (0,)] if many else [(1,), (0,)]
        return self.user.cb(("menu", many, desc, tuple(options), tuple(defaults)), answers)

    def on(self, name, *args):
        if name in ("selectOne", "selectMany"):
            label = menu_label(name == "selectMany", *args)
        elif name == "error":
            label = ("error", args[0])
        elif name in ("cancel", "complete", "warning"):
            label = (name,)
        elif name == "requiresVersions":
            label = (name, tuple(args))
        elif name in "cw":
            label = (name, args[0])
        else:
            label = ("Q", name, tuple(args))
        i = len(self.contexts)
        ctx = self.runner.context()
        self.contexts.append(ctx)
        if i >= len(self.u.events):
            self.problem("a callback more than expected", "none", label)
        want, act, snap = self.u.events[i]
        if name == "error":
            exc = args[0]
            if want[0] != "error":
                self.problem("callback %d" % i, want, ("error", impl.error_kind(exc)))
            if want[1] == ("raised",):
                if is_boom(exc, self.boom):
                    common.check_format(exc, self.prog)
                else:
                    self.problem("error() is not given the exception that was raised", repr(self.boom), repr(exc))
            elif not common.same_end(want[1], impl.error_kind(exc), self.prog.pos):
                self.problem("error() is given another error", common.show_end(want[1], self.prog.pos), impl.error_kind(exc))
        elif want != label:
            self.problem("callback %d" % i, want, label)
        a = (impl.ref_vars(snap), impl.ref_results_folded(snap))
        b = (impl.canon_vars(ctx.state), impl.fold_results(impl.canon_results(ctx.state)))
        if a != b:
            self.problem("the state of the current context in callback %d %r" % (i, label), a, b)
        if (name in ("selectOne", "selectMany")) != impl.is_menu(ctx) and name != "error" and not (name == "cancel" and impl.is_menu(ctx)):
            self.problem("the current context in callback %d %r" % (i, label), "a menu" if name[:6] == "select" else "no menu", type(ctx).__name__)
        if (end := context_end(ctx)) != self.u.ends[i]:
            self.problem("the current context in callback %d %r is an end of script" % (i, label), self.u.ends[i], end)
        if act[0] == "abort":
            self.runner.abort()
        if act[0] == "raise":
            text = "injected %d" % i
            cls, cargs = self.raised
            self.boom = cls(ctx.context, text) if cargs is None else common.raised(cls, cargs) if cargs else cls()
            common.throw(self.boom, i)
        if act[0] == "rewind":
            self.runner.rewind(self.contexts[act[1]])
        if name in ("selectOne", "selectMany"):
            return pick(args[1], name == "selectMany", act[1], False)
        if name in ("cancel", "complete"):
            # only the truth of the answer counts
            return (TRUE if act[1] else FALSE)[(i + len(self.u.events)) % 4]
        return act[1]

    def problem(self, what, want, got):
        if self.found is None:
            self.found = (what, want, got)
        raise impl.Mismatch(what)

    def pair(self, ch, st, budget):
        self.user = self.u = u = User(self.prog, self.world, ch, budget)
        status, state = u.run()
        self.contexts, self.found, self.boom = [], None, None
        text = self.prog.text
        got = gstate = None
        with impl.guard():
            try:
                got, gstate = self.runner.run(text)
                got = STATUS[got]
            except (impl.Hang, impl.Mismatch) as h:
                got = "hang " + str(h)
            except Exception as ex:
                got = "raised" if is_boom(ex, self.boom) and self.boom else "raised %r" % ex
        acts = [(e[0][:2], e[1]) for e in u.events]
        if self.found:
            common.fail(self.found[0], self.prog, self.found[1], self.found[2], callbacks=acts)
        if got != status:
            common.fail("the run ends differently", self.prog, status, got, callbacks=acts)
        if len(self.contexts) != len(u.events):
            common.fail("missing callbacks", self.prog, acts[len(self.contexts):], got, callbacks=acts)
        if state is not None:
            a = (impl.ref_vars(state), impl.ref_results_folded(state))
            b = (impl.canon_vars(gstate), impl.fold_results(impl.canon_results(gstate)))
            if a != b:
                common.fail("the run returns another state", self.prog, a, b, status=status, callbacks=acts)
        st.c["traces"] += 1
        st.c["transitions"] += len(acts) + 1
        st.outcomes[status] += 1
        st.outcomes["injected %d" % sum(e[1][0] != "answer" for e in u.events)] += 1
        st.state(tuple(acts))


def check(case, st):
    if case[0] == "corpus":
        return values.check(case, st)
    kind = case[0]
    if kind == "default":
        return default(case[1], st)
    if kind in ("s", "raised"):
        names, budget = case[1:3]
        body = (("=", "t", S("")), ("=", "n", ("i", 0)))
        for n in names:
            body += (STMTS[n], t)
    else:
        _, b, budget = case
        body = skel.Complete().body(b, top=True)
    bench = Bench(lang.compile_(body), RAISED[case[3]] if kind == "raised" else (RuntimeError, ("injected",)))
    st.sample(bench.prog.text)
    prefix = []
    while prefix is not None:
        ch = Chooser(prefix)
        bench.pair(ch, st, budget)
        prefix = ch.next()


def default(name, st):
    """The default answers of the callbacks: stop at the end, stop when cancelled, raise the error."""
    from wizard.manager import ManagerUserInterface as M

    body = (("=", "t", S("")), ("=", "n", ("i", 0)), STMTS[name], t)
    bench = Bench(lang.compile_(body))
    R = type("Default", (Runner,), {"complete": M.complete, "cancel": M.cancel, "error": M.error})
    for abort in (False, True):
        runner = R(impl.packages(bench.world))
        prefix = []
        while prefix is not None:
            bench.user = bench.u = u = User(bench.prog, bench.world, Chooser(prefix), 0)
            status, state = u.run()
            got = []

            def on(cb, *args):
                got.append(cb)
                k = len(got) - 1
                if abort and cb != "warning":
                    runner.abort()
                act = [e for e in u.events if e[0][0] not in ("cancel", "complete", "error")][k][1]
                return pick(args[1], cb == "selectMany", act[1], False) if cb[:6] == "select" else act[1]

            runner.on = on
            try:
                with impl.guard():
                    r, s = runner.run(bench.prog.text)
                end = STATUS[r]
            except impl.Hang:
                raise
            except Exception as ex:
                end = impl.error_kind(ex)
            want = status
            if any(e[0][0] in ("cancel", "complete") and e[1] == ("answer", False) for e in u.events):
                want = None  # not an answer of the default callbacks
            elif abort and any(e != "warning" for e in got):
                want = "cancel"
            elif status == "error":
                want = next(e[0][1] for e in u.events if e[0][0] == "error")
            if want is not None:
                st.c["traces"] += 1
                if not (common.same_end(want, end, bench.prog.pos) if isinstance(want, tuple) else end == want):
                    common.fail("the default callbacks", bench.prog, want, end, abort=abort)
            prefix = u.ch.next()
