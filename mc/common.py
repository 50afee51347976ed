"""Pairs one execution of the reference model with the same execution of the implementation."""

from . import impl, lang, ref
from .explore import Chooser, Violation


def subsets(n):
    return [tuple(i for i in range(n) if m >> i & 1) for m in range(1 << n)]


class Session:
    """Environment of one execution: the model draws answers from the chooser and records them; the implementation
    gets the recorded answers back, question by question."""

    def __init__(self, chooser, loops=2, menus=None):
        self.ch = chooser
        self.loops = loops
        self.answers = []
        self.trace = []  # what the model did
        self.log = []  # what the implementation did
        self.env = None
        self.menus = menus
        self.dom = None
        self.fresh = False
        self.silent = False  # menus whose answer is their defaults are executed without an answer
        self.once = None  # values drawn once per execution

    # model side
    def T(self, r, a):
        self.trace.append(("T", impl.ref_canon(a[0])))
        return a[0]

    def C(self, r, a):
        label = ("C", a[0])
        if a[0][:1] == "w":
            ans = self.loops > 0 and not self.ch.pick(2)
            if ans:
                self.loops -= 1
        else:
            ans = not self.ch.pick(2)
        self.trace.append(label)
        self.answers.append((label, ans))
        return ans

    def select(self, r, many, desc, options, defaults):
        label = ("menu", many, desc, tuple(options), tuple(defaults))
        if self.menus:
            alts = self.menus(many, len(options), defaults)
        elif many:
            alts = subsets(len(options))
        else:
            alts = [(i,) for i in range(len(options))]
        ans = alts[self.ch.pick(len(alts))]
        self.trace.append(label)
        self.answers.append((label, ans))
        return ans

    def require(self, r, args):
        self.trace.append(("require", tuple(args)))

    def query(self, name, args, alts):
        """Answer of the manager to a query."""
        label = ("Q", name, tuple(args))
        ans = alts[self.ch.pick(len(alts))]
        self.trace.append(label)
        self.answers.append((label, ans))
        return ans

    def mark(self, k):
        v = "%d;" % k
        self.trace.append(k)
        return v

    def cond(self, label):
        """Truth of a queried condition: w... drives a loop and is true a bounded number of times."""
        if label[0] == "w":
            ans = self.loops > 0 and not self.ch.pick(2)
            if ans:
                self.loops -= 1
        else:
            ans = not self.ch.pick(2)
        self.trace.append(label)
        self.answers.append((label, ans))
        return ans

    def value(self, name):
        """Value of a queried operand, drawn from its domain."""
        if self.once is not None and name in self.once:
            v = self.once[name]
        else:
            dom = self.dom[name]
            v = dom[self.ch.pick(len(dom))]
            if self.once is not None:
                self.once[name] = v
        self.trace.append(("V", name))
        self.answers.append((("V", name), v))
        return v

    def ivalue(self, name):
        self.log.append(("V", name))
        return self.env.ask(("V", name))

    def imark(self, k):
        self.log.append(k)
        return "%d;" % k

    def icond(self, label):
        self.log.append(label)
        return self.env.ask(label)

    # implementation side
    def iT(self, a, state):
        self.log.append(("T", impl.canon(a[0])))
        return a[0]

    def iC(self, a, state):
        label = ("C", a[0])
        self.log.append(label)
        return self.env.ask(label)

    def on_menu(self, ctx):
        label = ("menu",) + impl.menu_of(ctx)
        self.log.append(label)
        ans = self.env.ask(label)
        if self.silent and is_default(label, ans):
            return ctx
        return impl.answer_menu(ctx, ans, self.fresh)

    def irequire(self, args):
        self.log.append(("require", tuple(args)))


def is_default(label, ans):
    return label[0] == "menu" and tuple(label[4]) == tuple(ans)


NMARK = 64  # mark functions m1..m63, conditions c1..c63, loop conditions w1..w63


def special(v, packages, void):
    """Values of a domain that are not plain: ('SP',) ('P', i) ('void',)."""
    if isinstance(v, tuple):
        if v[0] == "SP":
            return packages
        return packages[v[1]] if v[0] == "P" else void
    return v


class Bench:
    """One program, parsed once, with the functions of its environment; every execution starts again from the
    top-level context of the program with its own session."""

    def __init__(self, prog, world, extra=None, iextra=None, dom=None):
        """dom: function name -> values the calls of that function without arguments may return."""
        self.prog, self.world, self.dom = prog, world, dom
        self.once = False  # whether such a function returns the same value in all its calls of one execution
        self.session = None
        f = ref.basic_funcs()
        f.update(ref.ini_funcs())
        f["T"] = (1, 1, lambda r, a: self.session.T(r, a))
        f["C"] = (1, 1, lambda r, a: self.session.C(r, a))
        g = {"T": lambda a, st: self.session.iT(a, st), "C": lambda a, st: self.session.iC(a, st)}
        text = prog.text
        for k in range(1, NMARK):
            n = "m%d" % k
            if n + "()" in text:
                f[n] = (0, 0, lambda r, a, k=k: self.session.mark(k))
                g[n] = lambda a, st, k=k: self.session.imark(k)
            for p in "cw":
                n = "%s%d" % (p, k)
                if n + "()" in text:
                    f[n] = (0, 0, lambda r, a, n=n: self.session.cond(n))
                    g[n] = lambda a, st, n=n: self.session.icond(n)
        for name in dom or ():
            f[name] = (0, 0, lambda r, a, name=name: special(self.session.value(name), world.packages, ref.VOID))
            g[name] = lambda a, st, name=name: special(self.session.ivalue(name), self.machine.packages, impl.Void())
        f.update(extra or {})
        g.update(iextra or {})
        world.funcs = f
        self.iextra = g
        world.select = lambda *a: self.session.select(*a)
        world.require = lambda *a: self.session.require(*a)
        self.machine = impl.Machine(world, g, require=lambda args: self.session.irequire(args))
        with impl.guard():
            self.top = self.machine.start(text)

    def model(self, chooser, loops=2, menus=None, state=None, watch=False):
        self.session = Session(chooser, loops, menus)
        self.session.dom = self.dom
        self.session.once = {} if self.once else None
        return Model(self.prog, self.world, self.session, state, watch)

    def execute(self, m, keep=True, horizon=None):
        s = self.session = m.s
        s.log.clear()
        s.env = impl.Env(s.answers)
        self.machine.severity.warnings.clear()
        return impl.step_run(self.machine, None, s.on_menu, horizon=horizon or 40 * m.r.n + 200, keep=keep,
                             ctx=self.top)

    def pair(self, chooser, st, loops=2, menus=None, results=True, positions=True, fresh=False, watch=False):
        m = self.model(chooser, loops, menus, watch=watch)
        m.s.fresh = fresh
        if m.end is None:
            raise RuntimeError("the model does not end: " + self.prog.text)
        if m.end[0] == "stop":
            st.c["skipped_too_big"] += 1
            return m, None
        x = self.execute(m)
        for i, c in enumerate(x.contexts):
            st.state((i, type(c).__name__, len(c.state.variables), tuple(sorted(c.state.variables)),
                      str(c.state.variables.get("t"))))
        check_end(self.prog, m, x, st, results, positions, self.machine.severity.warnings)
        if any(is_default(label, ans) for label, ans in m.s.answers):
            m.s.silent = True
            y = self.execute(m)
            check_end(self.prog, m, y, st, results, positions, self.machine.severity.warnings)
        if watch and m.end[0] == "error":
            a = (impl.ref_vars(m.r.snap), impl.ref_results_folded(m.r.snap))
            b = (impl.canon_vars(x.state), impl.fold_results(impl.canon_results(x.state)))
            if a != b:
                fail("the failing step changed the state before it", self.prog, a, b, answers=m.s.answers, end=x.end)
        return m, x


def explore(bench, st, menus=None, then=None, **kw):
    """All executions of the program of the bench, over all answers."""
    prefix = []
    while prefix is not None:
        ch = Chooser(prefix)
        m, x = bench.pair(ch, st, menus=menus, **kw)
        if then:
            then(m, x)
        prefix = ch.next()


class Model:
    """Result of a model run."""

    def __init__(self, prog, world, session, state=None, watch=False):
        self.s = session
        self.r = ref.Ref(world, state)
        self.r.watch = watch
        self.r.step()
        try:
            self.end = self.r.run(prog)
        except ref.TooLong:
            self.end = None  # does not end within the bound
        except ref.Stop as s:
            self.end = ("stop",) + s.args


# exceptions of custom parts and callbacks, with their arguments; those of WRAPPED may be reported as the cause of a Wizard error
RAISED = tuple((c, ("injected",)) for c in (RuntimeError, KeyError, ZeroDivisionError, OverflowError, TypeError, ValueError, IndexError, LookupError, AttributeError, AssertionError,
                                            NotImplementedError, NameError, UnicodeError, OSError, FileNotFoundError, EOFError, TimeoutError, RecursionError, StopIteration, Exception))
RAISED += ((IndexError, ()), (IndexError, (3, "b")), (IndexError, (None,)), (TypeError, ()), (TypeError, (1, 2)), (ValueError, ()), (ValueError, (1, 2)), (ZeroDivisionError, ()), (KeyError, ()), (RecursionError, ()),
           (AttributeError, ()), (OSError, (2, "text")), (UnicodeDecodeError, ("utf-8", b"x", 0, 1, "text")), (Exception, ()), (ExceptionGroup, ("group", [ValueError("a"), IndexError()])))
WRAPPED = (TypeError, ValueError, IndexError, ArithmeticError, RecursionError)


def raised(cls, args):
    return cls(*args)


def throw(boom, k=0):
    """Raises the exception, every other time while another one is being handled."""
    if k % 2:
        try:
            raise LookupError("another one")
        except LookupError:
            raise boom
    raise boom


def is_raised(ex, boom):
    """The exception is the one that was raised, or a Wizard error with this cause."""
    while ex is not None:
        if ex is boom:
            return True
        wrapped = isinstance(boom, WRAPPED) and not isinstance(boom, impl.werr.WizardError) and isinstance(ex, impl.werr.WizardError)
        ex = ex.__cause__ if wrapped else None
    return False


def check_format(ex, prog):
    """The exception can be formatted; a Wizard error that wraps another one has a position."""
    try:
        text = str(ex)
    except Exception as problem:
        fail("an exception cannot be formatted", prog, "a text", repr(problem))
    if isinstance(ex, impl.werr.WizardError) and ex.__cause__ is not None and (ex.line < 1 or ex.column < 0):
        fail("an error has no position", prog, "a position", text)


def same_end(model_end, end, pos):
    """Whether the end of the implementation agrees with the one of the model; positions only if the model has them."""
    if model_end[0] == "error":
        if end[0] != "error" or end[1] != model_end[1]:
            return False
        about = getattr(model_end[1], "detail", None)
        if about is not None and (getattr(end[1], "detail", None) != about or type(end[1].detail) is not type(about)):
            return False
        if model_end[2] is not None and pos is not None:
            return end[2] in [pos[t] for t in model_end[2]]
        return True
    return end == model_end


def show_end(e, pos=None):
    if e and e[0] == "error" and pos is not None and len(e) == 3 and e[2]:
        about = getattr(e[1], "detail", None)
        return "('error', %r%s, at %s)" % (e[1], "" if about is None else " about %r" % (about,), " or ".join("%d:%d" % pos[t] for t in e[2]))
    return repr(e)


def fail(what, prog, want, got, **more):
    raise Violation(what, script=prog.text if hasattr(prog, "text") else prog, expected=want, observed=got, **more)


def check_end(prog, m, x, st, results=True, positions=True, warnings=None):
    """Compares a stepped execution x with the model m."""
    s = m.s
    st.c["traces"] += 1
    st.c["transitions"] += x.steps
    st.outcomes[str(m.end[:2]) if m.end else "runs on"] += 1
    if s.log != s.trace:
        k = next((i for i, (a, b) in enumerate(zip(s.trace, s.log)) if a != b), min(len(s.trace), len(s.log)))
        fail("different actions from action %d on" % k, prog, s.trace[k:k + 4], s.log[k:k + 4], end=x.end,
             model_end=show_end(m.end, prog.pos), answers=s.answers)
    if not same_end(m.end, x.end, prog.pos if positions else None):
        fail("different end", prog, show_end(m.end, prog.pos), x.end, answers=s.answers)
    if m.end[0] != "error":
        v = impl.canon_vars(x.state)
        if v != impl.ref_vars(m.r.s):
            fail("different variables", prog, impl.ref_vars(m.r.s), v, answers=s.answers)
        if results:
            a, b = impl.ref_results_folded(m.r.s), impl.fold_results(impl.canon_results(x.state))
            if a != b:
                fail("different result", prog, a, b, answers=s.answers)
    if warnings is not None and len(m.r.warnings) != len(warnings):
        fail("different number of warnings", prog, m.r.warnings, warnings, answers=s.answers)
