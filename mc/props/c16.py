"""C16. States: pairs (triples) of contexts of concurrent runs; transitions: one step of one of the runs, executed from kept contexts (depth first over the tree of interleavings). Every interleaving of the steps of two runs
(three in the thorough tier) of every pair of scripts, when the runs share the interpreter, share the parsed script, share the initial state
object, or use other instances; every step must give the context, state, menu, warnings and function calls it gives in a run alone on a
fresh instance. Every sequence of whole runs on one callback runner, with aborted, failing, rewound and refused ones, and runs started from
the callbacks of other runners at every callback; each must do what it does alone. A whole run or a step of another run of the same interpreter is executed
inside every call of a function of a run, and before every line of the package's own code that a step runs (one preemption, as by a thread). Initial
states, and mappings they were built from, are compared before and after."""

import sys
from itertools import permutations
from math import comb

from .. import common, impl, lang, ref
from ..runner import Runner, STATUS, menu_label, pick
from ..explore import Chooser
from .c14 import snap

BOUNDS = {
    "quick": "all pairs of 17 scripts of 3-18 steps in 4 sharing modes: all interleavings up to 1000, else all with <=2 preemptions; all sequences of <=2 runs of 18 kinds on one runner, <=3 of 7; 18 x 18 nested runs at every callback; 17 scripts (whole, and each of their steps) in each of 40 calls of a host script; each of 17 scripts before each line of each step of each of 17 scripts; 8 x 8 installers x 12 x 12 scripts on them, each continued after the other from each of its contexts; runs without initial state from 5 entry points",
    "thorough": "all interleavings up to 60000, else all with <=4 preemptions, triples of 5 scripts; all sequences of <=3 runs of 18 kinds on one runner",
}
CHUNK = 2
S = lambda x: ("s", x)  # noqa: E731
V = lambda x: ("v", x)  # noqa: E731
PACKAGES = [("Q", ["b.esp", "A.esm"]), ("P", ["a.esp"])]
fn = lambda n, *a: ("E", ("call", n, tuple(a)))  # noqa: E731
kw = lambda n, *a: ("kw", n, tuple(a))  # noqa: E731
O = ((S("A"), S("d"), S("")), (S("|B"), S(""), S("i.png")))
SCRIPTS = [
    (("=", "x", ("i", 1)), ("op=", "x", "+=", ("i", 5))),
    (("=", "x", V("y")), ("=", "y", ("i", 3))),
    (kw("SelectAll"), kw("DeSelectPlugin", S("a.esp"))),
    (kw("Note", ("i", 1)), kw("Note", V("x"))),
    (kw("RenamePlugin", S("a.esp"), S("n")), fn("EditINI", S("f"), S("s"), S("k"), V("x"))),
    (fn("DisableINILine", S("f"), S("s"), S("k")), kw("SelectSubPackage", S("Z"))),
    (("sel", "SelectOne", S("d"), O, ((S("A"), (("=", "x", S("A")),)), (S("B"), (kw("Note", S("B")),))), None),),
    (("for", "x", ("i", 1), ("i", 2), None, (fn("m1"),)),),
    (("=", "x", ("i", 2)), ("=", "x", ("bin", "/", V("x"), ("i", 0))), ("=", "y", ("i", 1))),
    (("exec", (("op=", "x", "+=", ("i", 1)), ("return",))),),
    (("while", ("bin", "<", V("x"), ("i", 1)), (("=", "x", ("i", 1)), ("continue",))),),
    (("cancel", ("call", "str", (V("x"),))),),
    (("forin", "p", ("SP",), (kw("SelectSubPackage", ("call", "str", (V("p"),))), ("if", ((("b", True), (("break",),)),), None))),),
]
LONGER = [
    (("sel", "SelectMany", S("d"), O, ((S("A"), (("=", "x", S("A")), ("break",))), (S("B"), (kw("Note", S("B")),))), None), kw("SelectAllPlugins")),
    (("=", "x", ("i", 1)), ("if", ((("bin", ">", ("pre", "++", "x"), ("i", 1)), (kw("Note", V("t")), ("=", "t", S("b")))),), None), ("op=", "x", "*=", ("i", 2))),
    (kw("SelectPlugin", S("z.esp")), ("exec", (("sel", "SelectOne", S("d"), (O[1], O[1]), ((S("B"), (fn("m2"),)),), None),))),
]

M1, M2 = ("call", "m1", ()), ("call", "m2", ())
# calls of functions at every kind of place
HOST = (
    ("=", "x", ("bin", "+", M1, ("call", "str", (V("x"),)))), ("op=", "x", "+=", M2), ("if", ((("bin", "==", M1, M2), ()), (("bin", "==", V("x"), ("bin", "+", M1, S("02"))), (kw("Note", M2),))), None),
    ("for", "i", ("call", "len", (M1,)), ("call", "int", (M2,)), ("call", "int", (M1,)), (("=", "x", ("bin", "+", V("x"), ("call", "str", (V("i"),)))),)), ("forin", "c", ("bin", "+", M1, M2), (kw("Note", V("c")), ("continue",))),
    ("while", ("bin", "<", ("pre", "++", "k"), ("call", "int", (M2,))), (kw("RenamePlugin", M1, M2),)), ("E", ("call", "EditINI", (S("f"), M1, S("k"), ("idx", M2, ("i", 0))))),
    ("sel", "SelectMany", M1, ((M1, M2, M1), (("bin", "+", S("|"), M2), S(""), S(""))), ((M1, (("=", "y", M2),)), (M2, (kw("SelectSubPackage", ("idx", ("SP",), ("neg", ("call", "int", (M1,))))), ("break",)))), None),
    ("exec", (("=", "z", M1), ("if", ((("not", ("bin", "!=", M1, S("1"))), (("E", ("par", M2)),)),), None))), kw("Note", V("unset")),
    ("cancel", ("bin", "+", M1, ("sl", V("x"), ("call", "int", (M1,)), None, None, False))),
)


class Side:
    """A run: machine, parsed script, answers, initial state."""

    def __init__(self, prog, machine, top, last, state, log):
        self.prog, self.machine, self.last, self.state = prog, machine, last, state
        self.top, self.log = top, log
        self.ctx = self.machine.restart(self.top, self.state)

    def step(self, ctx):
        """(next context or None, (snapshot or error, warnings, calls))"""
        w = self.machine.severity.warnings
        w.clear()
        self.log.clear()
        if impl.is_menu(ctx):
            many, _, opts, _ = impl.menu_of(ctx)
            ctx = impl.answer_menu(ctx, [len(opts) - 1] if self.last else list(range(len(opts))) if many else [0])
        try:
            ctx = ctx.exec()
            got = snap(ctx, True)
            if isinstance(ctx, impl.WizardTerminationContext):
                ctx = None
        except impl.Hang:
            raise
        except Exception as ex:
            got = impl.error_kind(ex)
            ctx = None
        return ctx, (got, tuple(w), tuple(self.log))


def machine():
    log = []
    world = ref.World(packages=PACKAGES)
    f = {"m1": lambda a, st: log.append("m1") or "1", "m2": lambda a, st: log.append("m2") or "2"}
    return impl.Machine(world, f), log


def initial(k):
    s = impl.WizardRunnerState()
    if k:
        s.set("x", impl.Value(0))
        s.set("t", impl.Value("old"))
    if k > 1:
        # the state a run can end with
        m, _ = machine()
        s = impl.step_run(m, 'x = 0\nSelectSubPackage "P"\nNote "old"\nRenamePlugin "b.esp", "c"\nEditINI("f","s","k",1)\nt = "old"\nDisableINILine("a","b","c")', None, state=s).state
    return s


def alone(prog, last, init):
    m, log = machine()
    side = Side(prog, m, m.start(prog.text), last, initial(init), log)
    ctx, out = side.ctx, [(snap(side.ctx, True), (), ())]
    with impl.guard():
        while ctx is not None:
            ctx, o = side.step(ctx)
            out.append(o)
    return out


MODES = ("interpreter", "instances", "state", "tree")


def cases(tier):
    t = tier == "thorough"
    n = len(SCRIPTS) + len(LONGER)
    for i in range(n):
        for j in range(i, n):
            for mode in MODES[: 4 if i == j else 3]:
                yield ("steps", mode, (i, j), 60000 if t else 1000)
    if t:
        for c in permutations((1, 3, 5, 9, 11), 3):
            yield ("steps", "interpreter", c, 60000)
            yield ("steps", "state", c, 60000)
    for i in range(n):
        for j in range(n):
            yield ("mapping", (i, j))
    for i in range(len(WORLDS)):
        for j in range(len(WORLDS)):
            yield ("worlds", i, j)
    for how in STARTS:
        yield ("fresh", how)
    for i in range(n):
        yield ("reentrant", i)
        for j in range(n):
            yield ("preempt", i, j)
    for a in KINDS:
        for b in KINDS:
            if t:
                for c in KINDS:
                    yield ("runs", (a, b, c))
            else:
                yield ("runs", (a, b))
    for a in KINDS[::3]:
        for b in KINDS[1::3]:
            for c in KINDS[2::3]:
                yield ("runs", (a, b, c, a))
    for a in KINDS:
        for b in KINDS:
            yield ("nested", a, b)


def interleavings(lens):
    n, r = 0, 1
    for k in lens:
        n += k
        r *= comb(n, k)
    return r


def check_steps(mode, which, limit, st):
    progs = [lang.compile_((SCRIPTS + LONGER)[i]) for i in which]
    st.sample([p.text for p in progs])
    for init in (0, 2) if mode == "state" else (1,):
        want = [alone(p, k % 2, init) for k, p in enumerate(progs)]
        if mode == "instances":
            ms = [machine() for _ in progs]
        else:
            ms = [machine()] * len(progs)
        states = [initial(init)] * len(progs) if mode == "state" else [initial(init) for _ in progs]
        before = [impl.canon_state(s) for s in states]
        tops = [ms[k][0].start(p.text) for k, p in enumerate(progs)]
        if mode == "tree":
            tops = [tops[0]] * len(tops)
        sides = [Side(p, ms[k][0], tops[k], k % 2, states[k], ms[k][1]) for k, p in enumerate(progs)]
        path = []
        free = interleavings([len(w) - 1 for w in want]) <= limit

        def go(ctxs, done, switches):
            for k, ctx in enumerate(ctxs):
                if ctx is None:
                    continue
                left = switches
                if not free and path and path[-1] != k and ctxs[path[-1]] is not None:
                    # a run is suspended
                    if switches == 0:
                        continue
                    left -= 1
                path.append(k)
                nxt, out = sides[k].step(ctx)
                st.c["transitions"] += 1
                if out != want[k][done[k] + 1]:
                    common.fail("run %d differs at its step %d from the same run alone" % (k, done[k] + 1), progs[k], want[k][done[k] + 1], out,
                                others=[p.text for p in progs], schedule=list(path), mode=mode)
                go(ctxs[:k] + (nxt,) + ctxs[k + 1:], done[:k] + (done[k] + 1,) + done[k + 1:], left)
                path.pop()
            if not any(ctxs):
                st.c["traces"] += 1

        go(tuple(x.ctx for x in sides), (0,) * len(sides), 4 if limit > 10000 else 2)
        if [impl.canon_state(s) for s in states] != before:
            common.fail("the initial state was changed by the runs", progs[0], before, [impl.canon_state(s) for s in states], mode=mode)
        for w in want:
            for o in w:
                st.state(o)
        st.outcomes[mode] += 1


def check_mapping(which, st):
    """Initial states built from one mapping; the run without results (keywords) is compared with the run on a mapping of its own."""
    progs = [lang.compile_(tuple(x for x in (SCRIPTS + LONGER)[i] if x[0] not in ("kw", "forin"))) for i in which]
    progs = [p for p in progs if "Note" not in p.text and "Select" not in p.text and "INI" not in p.text]

    def run(state, p):
        m, log = machine()
        x = impl.step_run(m, p.text, None, state=state)
        return x.end, impl.canon_vars(x.state), tuple(log), tuple(m.severity.warnings)

    for values in ({}, {"x": 0, "t": "old"}):
        shared = {k: impl.Value(v) for k, v in values.items()}
        before = [(k, impl.canon(v)) for k, v in shared.items()]
        states = [impl.WizardInterpreterState(shared), impl.WizardInterpreterState(shared)]
        states.append(states[0].copy())
        if not shared:
            states.append(impl.WizardInterpreterState())
        for i, s in enumerate(states):
            for p in progs:
                want = run(impl.WizardInterpreterState({k: impl.Value(v) for k, v in values.items()}), p)
                got = run(s, p)
                st.c["transitions"] += 1
                st.state(got)
                if got != want:
                    common.fail("a run from a state built from a mapping differs from the same run from a new one", p, want, got)
                if [(k, impl.canon(v)) for k, v in shared.items()] != before:
                    common.fail("the mapping an initial state was built from was changed by a run", p, before, shared)
        # setting a variable of one state, as a program does before it starts a run
        for i, s in enumerate(states):
            s.set("own%d" % i, impl.Value(i))
        for i, s in enumerate(states):
            own = sorted(k for k in s.variables if k.startswith("own"))
            if own != ["own%d" % i]:
                common.fail("states built from one mapping share their variables", str(values), ["own%d" % i], own)
        if [(k, impl.canon(v)) for k, v in shared.items()] != before:
            common.fail("setting a variable of a state changes the mapping it was built from", str(values), before, shared)
    st.outcomes["mapping"] += 1


def check_reentrant(which, st):
    """Steps of another run on the same interpreter from inside a function, while a step of a run is in progress."""
    scripts = SCRIPTS + LONGER
    log = []
    calls = {"n": 0, "hook": None}

    def function(name):
        def f(a, state):
            log.append(name)
            calls["n"] += 1
            if calls["hook"]:
                calls["hook"](calls["n"])
            return name[1:]

        return f

    m = impl.Machine(ref.World(packages=PACKAGES), {name: function(name) for name in ("m1", "m2")})
    prog = lang.compile_((("=", "k", ("i", 0)),) + HOST)
    other = lang.compile_(scripts[which])

    def side(p, top, init):
        return Side(p, m, top, 0, initial(init), log)

    top, otop = m.start(prog.text), m.start(other.text)
    want = whole_run(side(prog, top, 1), st)
    if want[-1][0][0] == "error":
        raise RuntimeError("the host fails %r" % (want[-1],))
    inner_want = whole_run(side(other, otop, 1), st)
    calls["n"] = 0
    whole_run(side(prog, top, 1), st)
    total = calls["n"]
    st.sample([prog.text, other.text])
    for k in range(1, total + 1):
        for mode in ["whole", "parse"] + list(range(len(inner_want) - 1)):
            inner = side(other, m.start(other.text) if mode == "parse" else otop, 1)
            ctx = inner.ctx
            if isinstance(mode, int):
                # suspended after that many steps
                for _ in range(mode):
                    ctx, _o = inner.step(ctx)

            def hook(n, ctx=ctx, inner=inner, mode=mode):
                if n != k:
                    return
                mine, warned, calls["hook"] = list(log), list(m.severity.warnings), None
                if isinstance(mode, int):
                    got, expected = inner.step(ctx)[1], inner_want[mode + 1]
                else:
                    got, expected = whole_run(inner, st), inner_want
                st.c["transitions"] += 1
                log[:], m.severity.warnings[:] = mine, warned
                if got != expected:
                    common.fail("a run inside a function (call %d) differs from the same run alone" % k, other, expected, got, host=prog.text, mode=mode)

            calls["n"], calls["hook"] = 0, hook
            got = whole_run(side(prog, top, 1), st)
            calls["hook"] = None
            st.c["traces"] += 1
            st.outcomes["reentrant"] += 1
            if got != want:
                i = next(i for i, (a, b) in enumerate(zip(got + [None], want + [None])) if a != b)
                common.fail("a run differs from step %d on when its function (call %d) runs another script" % (i, k), prog, want[i:i + 1], got[i:i + 1], other=other.text, mode=mode)


PACKAGE = impl.wizard.__path__[0] + "/"


class Preempt:
    """Calls a hook before the k-th line of the interpreter's own code that is run (k = 0: only counts them)."""

    def __init__(self, k, hook):
        self.k, self.hook, self.n, self.where = k, hook, 0, None

    def trace(self, frame, event, arg):
        name = frame.f_code.co_filename
        return self.local if name.startswith(PACKAGE) and "/antlr4/" not in name else None

    def local(self, frame, event, arg):
        if event == "line":
            self.n += 1
            if self.n == self.k:
                self.where = "%s:%d" % (frame.f_code.co_filename[len(PACKAGE):], frame.f_lineno)
                self.hook()
        return self.local

    def __enter__(self):
        self.old = sys.gettrace()
        sys.settrace(self.trace)
        return self

    def __exit__(self, *a):
        sys.settrace(self.old)


def check_preempt(i, j, st):
    """A run is suspended before every line it runs (as a thread can be), and another run on the same interpreter is executed in between."""
    scripts = SCRIPTS + LONGER
    m, log = machine()
    a, b = lang.compile_(scripts[i]), lang.compile_(scripts[j])
    st.sample([a.text, b.text])
    ta = m.start(a.text)
    tb = ta if i == j else m.start(b.text)
    side, other = Side(a, m, ta, 0, initial(1), log), Side(b, m, tb, 1, initial(1), log)
    want_b = whole_run(other, st)
    ctx = side.ctx
    raised = []

    def hook():
        mine, warned = list(log), list(m.severity.warnings)
        got = whole_run(other, st)
        log[:], m.severity.warnings[:] = mine, warned
        if got != want_b:
            raised.append(("a run differs when it is started while another run is in progress", b, want_b, got, a.text))

    step = 0
    while ctx is not None:
        nxt, want = side.step(ctx)
        with Preempt(0, None) as p:
            side.step(ctx)
        for k in range(1, p.n + 1):
            with Preempt(k, hook) as q:
                got = side.step(ctx)[1]
            st.c["transitions"] += 1
            st.c["traces"] += 1
            if got != want:
                common.fail("step %d of a run differs when another run is executed before %s" % (step, q.where), a, want, got, other=b.text)
            if raised:
                what, prog, w, g, host = raised[0]
                common.fail(what, prog, w, g, host=host, step=step, before=q.where)
        st.c["preemption_points"] += p.n
        ctx, step = nxt, step + 1
    st.outcomes["preempted"] += 1


def whole_run(side, st):
    ctx, out = side.ctx, [(snap(side.ctx, True), (), ())]
    while ctx is not None:
        ctx, o = side.step(ctx)
        out.append(o)
    for o in out:
        st.state(o)
    return out


# other installers -------------------------------------------------------------

WORLDS = [
    [("P", ["a.esp", "d/b.esm", "t.txt"]), ("Q", ["c.esp"])],
    [("P", ["A.ESP", "d/B.esm", "t.txt"]), ("Q", ["C.esp"])],
    [("p", ["a.esp", "d/b.esm", "T.TXT"]), ("q", ["c.esp"])],
    [("P", ["c.esp"]), ("Q", ["a.esp", "d/b.esm", "t.txt"])],
    [("Q", ["c.esp"]), ("P", ["t.txt", "d/b.esm", "a.esp"])],
    [("P", ["b.esm", "a.txt"]), ("Q", [])],
    [("P", [])],
    [("P", ["a.esp"]), ("R", ["a.ESP", "e.esp"]), ("Q", ["c.esp"])],
]
LOOK = [
    (kw("SelectAll"),), (kw("SelectAllPlugins"), kw("Note", S("n"))), (kw("SelectSubPackage", S("p")),), (kw("SelectSubPackage", S("R")),), (kw("SelectPlugin", S("b.esm")),),
    (kw("SelectPlugin", S("e.esp")), kw("SelectAll"), kw("DeSelectSubPackage", S("Q"))), (kw("SelectAll"), kw("DeSelectPlugin", S("c.ESP"))),
    (("forin", "p", ("SP",), (kw("Note", ("call", "str", (V("p"),))), ("forin", "f", V("p"), (kw("Note", V("f")),)))),),
    (("=", "x", ("SP",)), ("=", "y", ("call", "len", (("SP",),))), ("=", "z", ("idx", ("SP",), ("i", 0))), ("=", "w", ("bin", "in", S("a.esp"), V("z"))), ("=", "v", ("bin", "in", S("t.txt"), V("z"))),
     ("=", "u", ("bin", "==", V("z"), ("idx", ("SP",), ("neg", ("i", 1)))))),
    (("forin", "p", ("SP",), (("if", ((("bin", "in", S("d/b.esm"), V("p")), (kw("SelectSubPackage", ("call", "str", (V("p"),))), ("=", "q", V("p")), ("break",))),), None),)),),
    (("exec", (kw("SelectAll"), ("forin", "f", ("idx", ("SP",), ("i", 0)), (kw("Note", V("f")),)))), kw("RenamePlugin", S("A.esp"), S("r"))),
    (kw("RenamePlugin", S("c.esp"), S("r1")), kw("SelectAll"), kw("DeSelectAllPlugins"), kw("SelectSubPackage", S("q"))),
]


def check_worlds(i, j, st):
    """Runs with two installers, one between any two steps of the other, all in one process, against the reference interpreter."""

    def bench(k, body):
        return common.Bench(lang.compile_(body), ref.World(packages=WORLDS[k]))

    def names(k, x, prog):
        """Names come from the installer of the run itself."""
        known = {f.split("/")[-1] for _, fs in WORLDS[k] for f in fs}
        for p in x.state.plugins if x.state else ():
            if p.name not in known and '"%s"' % p.name not in prog.text:
                common.fail("a plugin has a name that its installer does not use", prog, sorted(known), p.name, installer=WORLDS[k])
        got = [p.name for p in x.state.subpackages] if x.state else []
        if not set(got) <= {n for n, _ in WORLDS[k]}:
            common.fail("a sub-package has a name that its installer does not use", prog, WORLDS[k], got)

    def finish(b, m, x, k):
        common.check_end(b.prog, m, x, st, True, True, b.machine.severity.warnings)
        names(k, x, b.prog)
        st.state((k, x.end, impl.canon_state(x.state)))

    for body in LOOK:
        a = bench(i, body)
        st.sample([a.prog.text, WORLDS[i], WORLDS[j]])
        m = a.model(Chooser())
        x = a.execute(m)
        finish(a, m, x, i)
        kept = list(x.contexts)
        for other in LOOK:
            b = bench(j, other)
            mb = b.model(Chooser())
            finish(b, mb, b.execute(mb), j)
            # the first run again, from every context it has left
            for ctx in kept[:-1]:
                a.machine.severity.warnings.clear()
                y = impl.Execution()
                y.steps, y.end, y.state = 0, None, None
                with impl.guard():
                    try:
                        while not isinstance(ctx, impl.WizardTerminationContext):
                            y.steps += 1
                            ctx = ctx.exec()
                        y.end = impl.end_of(ctx)
                    except impl.Hang:
                        raise
                    except Exception as ex:
                        y.end = impl.error_kind(ex)
                y.state = ctx.state
                st.c["transitions"] += y.steps
                st.c["traces"] += 1
                if (y.end, impl.canon_state(y.state)) != (x.end, impl.canon_state(x.state)):
                    common.fail("a run continued after a run with another installer ends otherwise", a.prog, (x.end, impl.canon_state(x.state)), (y.end, impl.canon_state(y.state)), other=b.prog.text,
                                installers=(WORLDS[i], WORLDS[j]))
                names(i, y, a.prog)
    st.outcomes["worlds"] += 1


STARTS = ("interpreter", "runner", "factory", "interpreter with None", "runner with None")


def check_fresh(how, st):
    """Runs for which no state is given start from an empty one, whatever happened to the contexts of earlier ones."""
    m, _ = machine()
    runner = Runner(impl.packages(ref.World(packages=PACKAGES)))
    runner.on = lambda name, *args: True if name in ("cancel", "complete") else None
    fac = None
    if how == "factory":
        from wizard.utils import make_basic_context_factory
        from wizard.utils import make_top_level_context as make

        fac = make_basic_context_factory(impl.packages(ref.World(packages=PACKAGES)), impl.Recorder())

    def start(text):
        if how == "factory":
            return make(text, fac)
        owner = runner if how[:6] == "runner" else m.interpreter
        return owner.make_top_level_context(text, None) if how.endswith("None") else owner.make_top_level_context(text)

    def values(state):
        return dict(state.variables)

    texts = ["x = 1\n", "x = 1\nx += 1\n", "", "If u\nEndIf\nz = 'a'\n"]
    for a in texts:
        for b in texts:
            for when in ("start", "middle", "end"):
                for held in (False, True):
                    first = start(a)
                    old = values(first.state)
                    if old:
                        common.fail("a run without initial state starts with variables", a, {}, old, how=how)
                    ctx = first
                    while when != "start" and not isinstance(ctx, impl.WizardTerminationContext):
                        ctx = ctx.exec()
                        if when == "middle":
                            break
                    early = start(b) if held else None
                    ctx.state.set("mine", impl.Value(7))
                    late = start(b)
                    for top in (early, late):
                        if top is None:
                            continue
                        if values(top.state):
                            common.fail("setting a variable in a context of a run changes the start of another run", b, {}, values(top.state), how=how, when=when)
                        c = top
                        while not isinstance(c, impl.WizardTerminationContext):
                            c = c.exec()
                            st.c["transitions"] += 1
                        if "mine" in c.state.variables:
                            common.fail("a variable set in a context of a run appears in another run", b, "no 'mine'", values(c.state), how=how, when=when)
                        st.state((how, impl.canon_vars(c.state)))
                        st.c["traces"] += 1
                    if how[:6] == "runner":
                        status, s = runner.run(b)
                        if "mine" in s.variables:
                            common.fail("a variable set in a context of a runner appears in a run of it", b, "no 'mine'", values(s), how=how, when=when)
    st.outcomes["fresh"] += 1


# whole runs ------------------------------------------------------------------

KINDS = ["s%d" % i for i in range(len(SCRIPTS))] + ["abort", "boom", "rewind", "refuse", "syntax"]
BUSY = lang.compile_((("=", "x", V("fresh")), kw("SelectAll"), kw("Note", S("n")), ("exec", (kw("RenamePlugin", S("a.esp"), S("r")),)),
                      ("sel", "SelectMany", S("d"), O, ((S("A"), (("cancel", S("c")),)),), None), ("=", "fresh", ("i", 1)), fn("EditINI", S("f"), S("s"), S("k"), V("x")),
                      ("cancel", S("bye")))).text


class Driver:
    """Runs of one kind on a runner, with everything the user sees."""

    def __init__(self):
        self.runner = Runner(impl.packages(ref.World(packages=PACKAGES)))
        self.hook = None
        for n in ("m1", "m2"):
            self.runner.factory_functions()[n] = impl.adapt(lambda a, st, n=n: self.call(n))

    def call(self, n):
        self.log.append(n)
        return n

    def run(self, kind, hook=None):
        text = lang.compile_(SCRIPTS[int(kind[1:])]).text if kind[0] == "s" and kind[1:].isdigit() else BUSY if kind != "syntax" else "x = 1\nIf x\n y = \nz z\nEndIf EndIf\n"
        # nested runs of this driver keep their own log
        self.log = log = []
        state = {"n": 0, "first": None}

        def on(name, *args):
            ctx = self.runner.context()
            label = menu_label(name == "selectMany", *args) if name[:6] == "select" else (name, impl.error_kind(args[0]) if name == "error" else args)
            log.append((label, snap(ctx, True)))
            if hook:
                hook(len(log))
                if self.runner.context() is not ctx:
                    log.append("another current context")
            if name == "selectMany" and kind in ("abort", "boom", "rewind"):
                state["n"] += 1
                if kind == "abort":
                    self.runner.abort()
                if kind == "boom":
                    raise RuntimeError("boom")
                if state["n"] == 1:
                    self.runner.rewind(state["first"])
            if state["first"] is None:
                state["first"] = ctx
            if name in ("cancel", "complete"):
                state["n"] += 1
                return kind != "refuse" or state["n"] > 1 or name == "complete"
            if name[:6] == "select":
                return pick(args[1], name == "selectMany", [1], False)
            return None

        self.runner.on = on
        with impl.guard():
            try:
                status, s = self.runner.run(text)
                return log, STATUS[status], impl.canon_state(s)
            except impl.Hang:
                raise
            except Exception as ex:
                return log, impl.error_kind(ex), None


SOLO = {}


def solo(kind):
    if kind not in SOLO:
        SOLO[kind] = Driver().run(kind)
    return SOLO[kind]


def check(case, st):
    if case[0] == "steps":
        check_steps(case[1], case[2], case[3], st)
    elif case[0] == "reentrant":
        with impl.guard():
            check_reentrant(case[1], st)
    elif case[0] == "preempt":
        check_preempt(case[1], case[2], st)
    elif case[0] == "worlds":
        check_worlds(case[1], case[2], st)
    elif case[0] == "fresh":
        with impl.guard():
            check_fresh(case[1], st)
    elif case[0] == "mapping":
        check_mapping(case[1], st)
    elif case[0] == "runs":
        d = Driver()
        for i, kind in enumerate(case[1]):
            got = d.run(kind)
            st.c["transitions"] += 1
            if got != solo(kind):
                common.fail("run %d on the same runner differs from the same run alone" % i, "runs %r" % (case[1],), solo(kind), got)
        st.c["traces"] += 1
        st.outcomes["runs"] += 1
        st.state(case)
    else:
        _, a, b = case
        n = len(solo(a)[0])
        for k in range(1, n + 1):
            outer, inner = Driver(), Driver()

            def hook(i, k=k):
                if i == k:
                    got = inner.run(b)
                    if got != solo(b):
                        common.fail("a run inside callback %d of another runner differs from the same run alone" % k, "%s in %s" % (b, a), solo(b), got)

            got = outer.run(a, hook)
            st.c["transitions"] += 2
            st.c["traces"] += 2
            if got != solo(a):
                common.fail("a run differs when callback %d runs another runner" % k, "%s in %s" % (b, a), solo(a), got)
        st.outcomes["nested"] += n
        st.state(case)
