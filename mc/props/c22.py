"""C22. States: contexts of an interpreter assembled from custom parts (own state type, own keyword visitor, own functions in the table and as
visitor methods); transitions: steps. Every sequence of keyword statements and calls of the bound, under each of their names, in every control
context of the bound, and every control skeleton with keywords and calls in the places of its markers: every call received (method, context,
arguments, the state it is given) is compared with the reference, exactly one per executed statement, recorded in the state only; every context has
a state of the custom type; a call that raises anything leaves the context as it was and can be run again. Three kinds of parts: all custom ones,
custom ones on top of the runner's, and the basic ones, which do nothing."""

from .. import common, impl, lang, ref, skel
from wizard import utils as wutils
from wizard.contexts import WizardInterpreterContextFactory, WizardRequireVersionsContext
from wizard.expr import WizardExpressionVisitor
from wizard.functions import make_basic_functions, wrap_function
from wizard.keywords import WizardKeywordVisitor
from wizard.runner import WizardRunnerExpressionVisitor, WizardRunnerKeywordVisitor, WizardRunnerState
from wizard.state import WizardInterpreterState
from wizard.value import Value, Void

BOUNDS = {
    "quick": "all pairs of 44 statements in 8 control contexts, a failing call at every position, 3 assemblies; all skeletons of <=2 control nodes over 13 constructs and 4 jumps",
    "thorough": "all triples in a row and in a loop; all skeletons of <=3 nodes over 6 constructs",
}
CHUNK = 4
S = lambda x: ("s", x)  # noqa: E731
V = lambda x: ("v", x)  # noqa: E731
PACKAGES = [("P", ["a.esp"]), ("Q", ["b.esp", "A.esp"])]
kw = lambda n, *a: ("kw", n, tuple(a))  # noqa: E731
fn = lambda n, *a: ("call", n, tuple(a))  # noqa: E731
METHODS = {"DeSelectAll": "visitDeSelectAll", "SelectAll": "visitSelectAll", "Note": "visitNote", "RequireVersions": "visitRequireVersions",
           "DeSelectSubPackage": "visitDeSelectSubPackage", "SelectSubPackage": "visitSelectSubPackage"}
for _a, _b in (("DeSelectAll%ss", "DeSelectAllPlugins"), ("SelectAll%ss", "SelectAllPlugins"), ("ResetAll%sNames", "ResetAllPluginNames"), ("DeSelect%s", "DeSelectPlugin"),
               ("Select%s", "SelectPlugin"), ("Reset%sName", "ResetPluginName"), ("Rename%s", "RenamePlugin")):
    for _n in ("Plugin", "Espm"):
        METHODS[_a % _n] = "visit" + _b
ARITY = {k: v for k, v in ref.Ref.KW.items()}

TAG = fn("Tag", S("in"), V("x"))
STATEMENTS = (
    [kw(n) for n in METHODS if ARITY[n] == 0]
    + [kw(n, S("a.esp" if i % 2 else "P")) for i, n in enumerate(METHODS) if ARITY[n] == 1]
    + [kw(n, S("a.esp"), fn("Table", S("new"))) for n in METHODS if ARITY[n] == 2]
    + [kw("Note", ("bin", "+", S("n"), V("s"))), kw("Note", ("i", 3)), kw("Note", TAG), kw("Note", ("SP",)), kw("SelectPlugin", fn("Tag", S("b.esp"))),
       kw("RequireVersions", S("1")), kw("RequireVersions", S("1"), S("2"), S(""), S("4")), kw("RequireVersions", S("1"), V("s"), S("3")),
       kw("RequireVersions", fn("Table", S("v")), S("2")),
       ("E", TAG), ("E", fn("Table")), ("=", "x", fn("Tag", ("i", 1), fn("Table", ("b", True), ("SP",)))),
       ("=", "x", ("bin", "+", ("call", "len", (fn("Tag", S("abc")),)), fn("Table", ("post", "++", "n")))), ("E", fn("Nothing", S("z"))),
       ("=", "x", ("meth", S("text"), "own", (V("s"), ("i", 2)))), ("E", fn("Typed", S("q"), ("i", 7))),
       ("=", "y", V("x")), ("=", "x", fn("Tag")), ("=", "y", ("bin", "+", fn("Tag", ("i", 1)), fn("Tag", ("i", 1), ("i", 2)))),
       ("=", "y", ("bin", "and", fn("Tag", ("i", 1), ("i", 2), ("i", 3)), fn("Table"))),
       ("op=", "w", "+=", fn("Put", ("i", 3))), ("=", "w", ("bin", "+", fn("Put", S("p")), V("w"))), ("if", ((("bin", "==", fn("Put", ("i", 0)), ("i", 1)), ()), (fn("Put", ("i", 8)), (("op=", "w", "*=", V("w")),))), None)]
)
# wrong calls: none is received
WRONG = [kw("SelectPlugin"), kw("SelectAll", S("x")), kw("RenamePlugin", S("x")), kw("RequireVersions"), kw("Note", S("a"), S("b")), ("E", fn("Tog", S("x"))), ("E", fn("tag", S("x"))),
         ("E", fn("visitTag", S("x"))), ("E", ("meth", S("text"), "Tag", ())), ("E", ("meth", ("i", 1), "own", ())), ("E", fn("own", S("x"))),
         ("E", fn("Typed", ("i", 1))), ("E", fn("Typed", S("x"), S("y"))), ("E", fn("Typed", S("x"), ("i", 1), ("i", 2))), ("E", fn("Typed"))]


class Boom(Exception):
    pass


class Odd(IndexError, TypeError):
    """An exception that is several others."""


# what a custom part may raise; those of common.WRAPPED may be reported as the cause of a Wizard error
RAISED = common.RAISED + ((Boom, ()), (Odd, ()), (Odd, ("a", "b", "c")), (Boom, (Void(),)))


# the reference ---------------------------------------------------------------


class RState(ref.State):
    def __init__(self):
        super().__init__()
        self.calls = []

    def copy(self):
        s = super().copy()
        s.__class__ = RState
        s.calls = list(self.calls)
        return s


class RRef(ref.Ref):
    """Records the keywords as calls; their effects only if the runner's parts are used."""

    effects = False
    boom = None
    inside = 0

    def stmt(self, n):
        # positions inside the text of an Exec count from its start
        if n.k == "exec":
            self.inside += 1
            try:
                return super().stmt(n)
            finally:
                self.inside -= 1
        return super().stmt(n)

    def keyword(self, n):
        name, argn = n.a
        args = [self.ev(x) for x in argn]
        want = self.KW[name]
        if not (1 if name == "RequireVersions" else want) <= len(args) <= want:
            raise ref.RErr("type", n.t)
        if name == "RequireVersions":
            args = [args[0]] + [x or None for x in (args[1:] + [None] * 3)[:3]]
            # its context has the versions, the callback is the next step
            self.step()
        if name == "Note" and not isinstance(args[0], str):
            self.issue("note", ref.RErr("type", n.t))
            args = [ref.text_of(args[0])]
        self.received((METHODS[name], IN_EXEC if self.inside else n.t) + tuple(impl.ref_canon(a) for a in args))
        if self.effects and name != "RequireVersions":
            kind = lang.N("kw", (name, [Given(a) for a in args]), n.t)
            super().keyword(kind)

    def ev(self, n):
        return n.value if isinstance(n, Given) else super().ev(n)

    def received(self, call):
        self.count = getattr(self, "count", 0) + 1
        if self.count == self.boom:
            raise ref.Stop("boom")
        self.s.calls.append(call)


class Given:
    def __init__(self, value):
        self.value = value


def r_tag(name):
    def f(r, a):
        r.received((name, None) + tuple(impl.ref_canon(x) for x in a))
        return answer(name, a, ref.VOID)

    return f


def answer(name, a, void):
    """What the custom functions give."""
    if name == "Nothing":
        return void
    if name == "Tag":
        # with and without arguments, and every kind of value that counts as false
        if not a:
            return ""
        if isinstance(a[0], str):
            return "" if len(a) == 2 and a[0] == "in" and a[1] != 0 else a[0] + "!"
        return (0, 0.0, False)[len(a) - 1 if len(a) < 4 else 0]
    if name == "Typed":
        return a[0]
    return len(a)


def typed(r, a):
    if not isinstance(a[0], str) or (len(a) > 1 and not isinstance(a[1], int)):
        raise ref.RErr("type")
    return r_tag("Typed")(r, a)


def r_put(r, a):
    r_tag("Put")(r, a)
    r.s.vars["w"] = a[0]
    return a[0]


R_FUNCS = {"Put": (1, 1, r_put), "Tag": (0, None, r_tag("Tag")), "Table": (0, None, r_tag("Table")), "Nothing": (0, None, r_tag("Nothing")), "Typed": (1, 2, typed)}


# the implementation ----------------------------------------------------------


class Calls:
    """What the custom parts receive, of all steps."""

    def __init__(self):
        self.log, self.boom, self.seen = [], None, []
        self.raised = Boom("boom")
        self.inside = False

    def receive(self, state, call, ctx=None):
        self.log.append(call)
        self.seen.append((type(state), ctx))
        if self.boom is not None and len(self.log) == self.boom:
            state.calls.append(("half",))
            state.set("x", Value("half"))
            common.throw(self.raised, self.boom)
        state.calls.append(call)


class Watching:
    """A custom state with something of its own: the calls, and what its set() was given."""

    def __init__(self):
        super().__init__()
        self.calls = []
        self.given = {}

    def set(self, name, value):
        super().set(name, value)
        self.given[name] = value

    def copy(self):
        s = super().copy()
        s.calls = list(self.calls)
        s.given = dict(self.given)
        return s


class Own(Watching, WizardInterpreterState):
    pass


class OwnRunner(Watching, WizardRunnerState):
    pass


def keyword_visitor(base, calls, parent):
    """A keyword visitor whose methods record, then do what the ones of the base do."""

    def method(name):
        def f(self, context, state, *args):
            if calls.inside:
                # the runner's own methods may use each other
                return getattr(base, name)(self, context, state, *args)
            start = context.context.start
            calls.receive(state, (name, (start.line, start.column)) + tuple(impl.canon(a) for a in args), context)
            calls.inside = True
            try:
                return getattr(base, name)(self, context, state, *args)
            finally:
                calls.inside = False

        def require(self, state, game_version, script_extender_version, graphics_extender_version, wrye_bash_version):
            args = (game_version, script_extender_version, graphics_extender_version, wrye_bash_version)
            calls.receive(state, (name, None) + tuple(impl.canon(a) for a in args))

        return require if name == "visitRequireVersions" else f

    return type("Keywords", (base,), {n: method(n) for n in set(METHODS.values())})


def expression_visitor(base, calls):
    def method(name):
        def f(self, state, *values):
            calls.receive(state, (name, None) + tuple(impl.canon(a) for a in values))
            return answer(name, values, None)

        return f

    def shadowed(self, state, *values):
        calls.receive(state, ("a visitor method instead of the function of the table", None))

    members = {"visit" + n: method(n) for n in ("Tag", "Nothing")}
    members.update({"visit" + n: shadowed for n in ("Table", "Typed", "len")})
    return type("Expressions", (base,), members)


def recording(name):
    def f(self, *args, **kw):
        made = getattr(super(Factory, self), name)(*args, **kw)
        self.made.append(made)
        return made

    return f


class Factory(WizardInterpreterContextFactory):
    """A factory that remembers the contexts that it made or copied."""

    def __init__(self, *args):
        super().__init__(*args)
        self.made = []


for _n in dir(WizardInterpreterContextFactory):
    if _n.startswith(("make_", "copy_")):
        setattr(Factory, _n, recording(_n))


class Assembly:
    def __init__(self, kind, severity):
        self.kind = kind
        self.calls = calls = Calls()
        world = self.world = ref.World(packages=PACKAGES, severity=severity)
        self.sc = impl.Recorder()
        impl.set_severities(self.sc, world)
        packages = impl.packages(world)
        functions = make_basic_functions()

        def table(state, values):
            a = [v.value for v in values]
            calls.receive(state, ("Table", None) + tuple(impl.canon(x) for x in a))
            return Value(answer("Table", a, None))

        def own(state, values):
            a = [v.value for v in values]
            calls.receive(state, ("own", None) + tuple(impl.canon(x) for x in a))
            return Value(len(a))

        def put(state, values):
            calls.receive(state, ("Put", None) + tuple(impl.canon(v.value) for v in values))
            state.set("w", values[0])
            return values[0]

        functions["Put"] = put
        functions["Table"] = table
        functions["string.own"] = own
        current = []

        def typed_(text, n=0):
            a = (text, n) if n else (text,)
            calls.receive(current[-1], ("Typed", None) + tuple(impl.canon(x) for x in a))
            return text

        from wizard.functions import optional

        wrapped = wrap_function("Typed", typed_, str, optional(int))

        def with_state(state, values):
            current.append(state)
            try:
                return wrapped(state, values)
            finally:
                current.pop()

        functions["Typed"] = with_state
        runner = kind == "runner"
        k = keyword_visitor(WizardRunnerKeywordVisitor if runner else WizardKeywordVisitor, calls, runner)
        e = expression_visitor(WizardRunnerExpressionVisitor if runner else WizardExpressionVisitor, calls)
        self.state = OwnRunner if runner else Own
        self.factory = Factory(e(packages, functions, self.sc), k(packages, self.sc) if runner else k(self.sc), self.sc)


def meth_own(r, a):
    r.received(("own", None) + tuple(impl.ref_canon(x) for x in a))
    return len(a)


def program(body):
    return lang.compile_((("=", "x", ("i", 0)), ("=", "n", ("i", 5)), ("=", "s", S("va"))) + body)


def model(asm, prog, odd, boom=None):
    world = asm.world
    f = ref.basic_funcs()
    f.update(R_FUNCS)
    f["string.own"] = (1, None, meth_own)
    world.funcs = f
    world.select = lambda r, many, d, o, ds: choice(many, len(o), odd)
    r = RRef(world, RState())
    r.effects = asm.kind == "runner"
    r.watch = True
    r.boom = boom
    r.step()
    try:
        end = r.run(prog)
    except ref.Stop:
        end = ("boom",)
    return r, end


def choice(many, n, odd):
    return [n - 1] if odd else list(range(n)) if many else [0]


def located(calls, pos):
    """Calls of the reference as they are recorded."""
    return [(c[0], None if c[1] is None or c[0] == "visitRequireVersions" else Anywhere() if c[1] == IN_EXEC else tuple(pos[c[1]])) + c[2:] for c in calls]


IN_EXEC = "in Exec"


class Anywhere:
    def __eq__(self, other):
        return other is not None

    def __repr__(self):
        return "(any position)"


def canon(state):
    return (impl.canon_vars(state), tuple(state.calls), impl.canon_results(state) if isinstance(state, WizardRunnerState) else None)


def execute(asm, prog, odd, st, boom=None):
    calls = asm.calls
    calls.log.clear()
    calls.seen.clear()
    calls.boom = boom
    asm.sc.warnings.clear()
    contexts, pending = [], None
    with impl.guard():
        asm.factory.made.clear()
        ctx = wutils.make_top_level_context(prog.text, asm.factory, asm.state())
        end = None
        while end is None:
            if type(ctx.state) is not asm.state:
                common.fail("a context has a state of another type", prog, asm.state.__name__, type(ctx.state).__name__)
            before = canon(ctx.state)
            given = tuple(sorted((k, impl.canon(v)) for k, v in ctx.state.given.items()))
            if given != before[0]:
                common.fail("variables that the state was not given by its set()", prog, before[0], given)
            contexts.append((ctx, before))
            st.state(before)
            if isinstance(ctx, impl.WizardTerminationContext):
                end = impl.end_of(ctx)
                break
            if isinstance(ctx, WizardRequireVersionsContext):
                pending = ("visitRequireVersions", None) + tuple(
                    impl.canon(x) for x in (ctx.game_version, ctx.script_extender_version, ctx.graphics_extender_version, ctx.wrye_bash_version))
            if impl.is_menu(ctx):
                ctx = impl.answer_menu(ctx, choice(isinstance(ctx, impl.WizardSelectManyContext), len(ctx.options), odd))
            try:
                n = len(calls.log)
                st.c["transitions"] += 1
                ctx = ctx.exec()
                if not isinstance(ctx, impl.WizardTopLevelContext) and not any(c is ctx for c in asm.factory.made):
                    common.fail("a context that the factory has neither made nor copied", prog, "a context of the factory", type(ctx).__name__)
                if ctx.factory is not asm.factory:
                    common.fail("a context with another factory", prog, asm.factory, ctx.factory)
                asm.factory.made.clear()
                if pending:
                    if calls.log[n:][:1] != [pending]:
                        common.fail("RequireVersions executes something else than its context says", prog, pending, calls.log[n:])
                    pending = None
            except Exception as ex:
                if boom and common.is_raised(ex, calls.raised):
                    end = ("boom",)
                    common.check_format(ex, prog)
                else:
                    end = impl.error_kind(ex)
    return end, contexts


def run(kind, body, st, odd=0, severity=None, booms=False, raised=None):
    prog = program(body)
    st.sample(prog.text)
    asm = ASSEMBLIES.get((kind, str(severity)))
    if asm is None:
        asm = ASSEMBLIES[kind, str(severity)] = Assembly(kind, severity or {})
    asm.calls.raised = raised or Boom("boom")
    r, end = model(asm, prog, odd)
    total = getattr(r, "count", 0)
    for boom in [None] + list(range(1, total + 1) if booms else ()):
        if boom:
            r, end = model(asm, prog, odd, boom)
        got, contexts = execute(asm, prog, odd, st, boom)
        st.c["traces"] += 1
        if not (got == ("boom",) == end or end != ("boom",) and common.same_end(end, got, prog.pos)):
            common.fail("different end", prog, common.show_end(end, prog.pos), got, boom=boom)
        st.outcomes[end[0]] += 1
        s = r.snap if end[0] in ("error", "boom") else r.s
        last = contexts[-1][0].state
        want = (impl.ref_vars(s), located(s.calls, prog.pos))
        have = (impl.canon_vars(last), list(last.calls))
        if want != have:
            common.fail("different calls or variables at the end", prog, want, have, boom=boom)
        if kind == "runner" and impl.fold_results(impl.canon_results(last)) != impl.ref_results_folded(s):
            common.fail("different results", prog, impl.ref_results_folded(s), impl.canon_results(last))
        if end[0] not in ("error", "boom") and asm.calls.log != located(s.calls, prog.pos):
            common.fail("calls were received that no state keeps, or twice", prog, located(s.calls, prog.pos), list(asm.calls.log))
        if len(r.warnings) != len(asm.sc.warnings):
            common.fail("different number of warnings", prog, r.warnings, list(asm.sc.warnings))
        for t, _ in asm.calls.seen:
            if t is not asm.state:
                common.fail("a visitor was given a state of another type", prog, asm.state.__name__, t.__name__)
        # no step changed a context before it
        for i, (c, before) in enumerate(contexts):
            if canon(c.state) != before:
                common.fail("context %d changed" % i, prog, before, canon(c.state), boom=boom)
        if boom:
            # the context whose step failed can be run again
            asm.calls.boom = None
            try:
                with impl.guard():
                    c = contexts[-1][0]
                    if impl.is_menu(c):
                        c = impl.answer_menu(c, choice(isinstance(c, impl.WizardSelectManyContext), len(c.options), odd))
                    n = c.exec()
                have = list(n.state.calls)[: len(want[1]) + 1]
            except Exception as ex:
                have = impl.error_kind(ex)
            full, fend = model(asm, prog, odd)
            more = located(full.s.calls, prog.pos)[: len(want[1]) + 1]
            if have != more and fend[0] != "error":
                common.fail("the failed step run again gives other calls", prog, more, have, boom=boom)


ASSEMBLIES = {}


def run_basic(body, st):
    """The basic parts: keywords have no effect, whatever their arguments do."""
    prog = program(body)
    world = ref.World(packages=PACKAGES, funcs=ref.basic_funcs())
    r = RRef(world, RState())
    r.watch = True
    r.step()
    end = r.run(prog)
    sc = impl.Recorder()
    f = wutils.make_basic_context_factory(impl.packages(world), sc)
    got = None
    with impl.guard():
        try:
            ctx = wutils.make_top_level_context(prog.text, f)
            while not isinstance(ctx, impl.WizardTerminationContext):
                last = ctx
                ctx = ctx.exec()
                st.c["transitions"] += 1
            got, last = impl.end_of(ctx), ctx
        except Exception as ex:
            got = impl.error_kind(ex)
    st.c["traces"] += 1
    if not common.same_end(end, got, prog.pos):
        common.fail("different end with the basic parts", prog, common.show_end(end, prog.pos), got)
    s = r.snap if end[0] == "error" else r.s
    if impl.canon_vars(last.state) != impl.ref_vars(s) or type(last.state) is not WizardInterpreterState:
        common.fail("different variables with the basic parts", prog, impl.ref_vars(s), impl.canon_vars(last.state))


def spaced(body):
    """A keyword without arguments takes an expression statement after it as its argument: assign the expression instead."""
    out = []
    for x in body:
        bare = out and (out[-1][0] == "return" or out[-1][0] == "kw" and not out[-1][2])
        out.append(("=", "e", x[1]) if bare and x[0] == "E" else x)
    return tuple(out)


def wraps(a, b):
    if any(x[0] == "kw" and not x[2] for x in (a, b)):
        a, b = (("=", "e", x[1]) if x[0] == "E" else x for x in (a, b))
    mk = ("op=", "n", "+=", ("i", 1))
    o = ((S("A"), S(""), S("")), (S("B"), S(""), S("")))
    yield (a, b)
    yield (mk, a, mk, b, mk)
    yield (("for", "i", ("i", 1), ("i", 2), None, (a, mk, b)),)
    yield (("forin", "p", ("SP",), (a,)), b)
    yield (("if", ((("b", False), (a,)), (("b", True), (b, a))), (a,)),)
    yield (("exec", (a, mk, ("exec", (b,)))), mk)
    yield (a, ("sel", "SelectMany", S("d"), o, ((S("A"), (b,)), (S("B"), (a, ("break",)))), (b,)))
    yield (("while", ("bin", "<", ("pre", "++", "n"), ("i", 8)), (a, ("if", ((("bin", "==", V("n"), ("i", 6)), (("continue",),)),), None), b)),)


class Calling(skel.Complete):
    """Keywords and calls in the places of the markers."""

    def __init__(self, odd):
        super().__init__()
        self.odd, self.loops = odd, []

    def cond(self, p="c"):
        k = self.fresh()
        if p == "w":
            self.loops.append("w%d" % k)
            return ("bin", "<=", ("pre", "++", "w%d" % k), ("i", 2))
        return ("bin", "==", fn("Table", ("i", k)), ("i", 1 if (k + self.odd) % 2 else 0))

    def mark(self):
        k = self.fresh()
        return [kw("Note", S("%d" % k)), ("=", "x", fn("Tag", S("%d" % k))), kw("SelectSubPackage", S("P")), kw("RenamePlugin", S("a%d" % k), S("b"))][k % 4]

    def body(self, b, top=False):
        out = super().body(b, top)
        return tuple(("=", w, ("i", 0)) for w in self.loops) + out if top else out


LEAVES = ("break", "continue", "return", "cancelm")
COMPS = ("if", "ifelse", "ifelif", "ifelifelse", "while", "for", "forin", "exec", "one", "many", "onedef", "manydef", "many3")


def cases(tier):
    t = tier == "thorough"
    n = len(STATEMENTS)
    for i in range(n):
        for j in range(n):
            yield ("pair", i, j)
            if t:
                yield ("triple", i, j)
        for w in range(len(WRONG)):
            yield ("wrong", i, w)
        yield ("raised", i, t)
    for k in (0, 1, 2):
        for i in range(len(skel.bodies(k, LEAVES, COMPS))):
            yield ("skel", k, i, 0)
    if t:
        for i in range(len(skel.bodies(3, LEAVES[:3], COMPS3))):
            yield ("skel", 3, i, 1)


COMPS3 = ("ifelse", "while", "for", "exec", "many3", "onedef")


def check(case, st):
    kind = case[0]
    if kind == "pair":
        a, b = STATEMENTS[case[1]], STATEMENTS[case[2]]
        for i, body in enumerate(wraps(a, b)):
            for k in ("own", "runner"):
                run(k, body, st, odd=i % 2, booms=i < 3 or i == 6)
        for sev in ("error", "allow"):
            for k in ("own", "runner"):
                run(k, spaced((a, b)), st, severity={"note": sev, "subpackage": sev, "plugin": sev})
        if "Tag" not in str((a, b)) and "Table" not in str((a, b)) and "own" not in str((a, b)) and "Typed" not in str((a, b)) and "Nothing" not in str((a, b)):
            for body in list(wraps(a, b))[:6]:
                run_basic(body, st)
    elif kind == "triple":
        a, b = STATEMENTS[case[1]], STATEMENTS[case[2]]
        for c in STATEMENTS:
            for k in ("own", "runner"):
                run(k, spaced((a, b, c)), st)
                run(k, (("for", "i", ("i", 1), ("i", 2), None, spaced((a, b, c))),), st)
    elif kind == "raised":
        a = STATEMENTS[case[1]]
        for j, (cls, args) in enumerate(RAISED):
            for w, body in enumerate(wraps(a, ("op=", "n", "+=", ("i", 1)))):
                for i, k in enumerate(("own", "runner")):
                    if case[2] or w % 3 == j % 3 and (i + j + w + case[1]) % 2:
                        run(k, body, st, booms=True, raised=common.raised(cls, args))
    elif kind == "wrong":
        for k in ("own", "runner"):
            run(k, spaced((STATEMENTS[case[1]], WRONG[case[2]], STATEMENTS[case[1]])), st)
    else:
        b = skel.bodies(case[1], LEAVES, COMPS)[case[2]] if not case[3] else skel.bodies(3, LEAVES[:3], COMPS3)[case[2]]
        for odd in (0, 1):
            for k in ("own", "runner"):
                body = Calling(odd).body(b, top=True)
                run(k, body, st, odd, booms=case[1] < 2)
