"""The callback runner under the control of the explorer."""

from . import common, impl
from .impl import Hang, Mismatch  # noqa: F401
from wizard.scriptrunner import WizardScriptRunner, WizardScriptRunnerStatus  # noqa: E402

STATUS = {
    WizardScriptRunnerStatus.CANCEL: "cancel",
    WizardScriptRunnerStatus.RETURN: "return",
    WizardScriptRunnerStatus.COMPLETE: "complete",
    WizardScriptRunnerStatus.ERROR: "error",
}


class Runner(WizardScriptRunner):
    """Forwards every callback to self.on(name, *args), which answers it."""

    on = None

    def factory_functions(self):
        # The dictionary of functions, which the tests of the project extend in the same way.
        return self._factory.evisitor._functions

    def selectOne(self, description, options, default):
        return self.on("selectOne", description, options, default)

    def selectMany(self, description, options, default):
        return self.on("selectMany", description, options, default)

    def complete(self):
        return self.on("complete")

    def cancel(self):
        return self.on("cancel")

    def error(self, exc):
        return self.on("error", exc)

    def warning(self, text):
        return self.on("warning", text)

    def requiresVersions(self, *args):
        return self.on("requiresVersions", *args)

    def compareGameVersion(self, *a):
        return self.on("compareGameVersion", *a)

    def compareSEVersion(self, *a):
        return self.on("compareSEVersion", *a)

    def compareGEVersion(self, *a):
        return self.on("compareGEVersion", *a)

    def compareWBVersion(self, *a):
        return self.on("compareWBVersion", *a)

    def dataFileExists(self, *a):
        return self.on("dataFileExists", *a)

    def getPluginLoadOrder(self, *a):
        return self.on("getPluginLoadOrder", *a)

    def getPluginStatus(self, *a):
        return self.on("getPluginStatus", *a)

    def getFilename(self, *a):
        return self.on("getFilename", *a)

    def getFolder(self, *a):
        return self.on("getFolder", *a)


def menu_label(many, description, options, default):
    opts = tuple((o.name, o.description, o.image) for o in options)
    idx = []
    for d in default if many else [default]:
        for i, o in enumerate(options):
            if o is d or (o == d and i not in idx):
                idx.append(i)
                break
        else:
            idx.append(("?", getattr(d, "name", d)))
    return ("menu", many, description, opts, tuple(idx))


class RunnerBench:
    """Like common.Bench, driving the callback runner; the script is parsed once (by the runner)."""

    def __init__(self, prog, world, dom=None, extra=None, iextra=None):
        self.prog, self.world = prog, world
        self.helper = common.Bench(prog, world, extra, iextra, dom)
        self.runner = Runner(impl.packages(world))
        impl.set_severities(self.runner, world)
        self.top = None
        add_functions(self.runner, self.helper.iextra)
        make = self.runner.make_top_level_context

        def cached(script, state=None):
            if script is not self.text:
                return make(script, state)
            if self.top is None:
                self.top = make(script, state)
            return self.top

        self.text = prog.text
        self.runner.make_top_level_context = cached

    def execute(self, s, on):
        """One run; on(name, *args) answers the callbacks. Returns (status, state) or an error."""
        self.runner.on = on
        self.helper.session = s
        s.log.clear()
        s.env = impl.Env(s.answers)
        with impl.guard():
            try:
                status, state = self.runner.run(self.text)
                return STATUS[status], state
            except Hang as h:
                return ("hang", str(h)), None
            except Mismatch as x:
                return ("mismatch", str(x)), None
            except Exception as ex:
                return ("raised",) + impl.error_kind(ex), None

    def pair(self, chooser, st, loops=2, menus=None, fresh=False):
        m = self.helper.model(chooser, loops, menus, watch=True)
        s = m.s
        s.fresh = fresh
        calls, warnings, errors = [], [], []

        def on(name, *args):
            if name in ("selectOne", "selectMany"):
                label = menu_label(name == "selectMany", *args)
                s.log.append(label)
                return pick(args[1], name == "selectMany", s.env.ask(label), s.fresh)
            if name == "warning":
                warnings.append(args[0])
                return None
            if name == "error":
                errors.append(impl.error_kind(args[0]))
                calls.append("error")
                return None
            if name == "requiresVersions":
                s.log.append(("require", tuple(args)))
                return None
            if name not in ("complete", "cancel"):
                label = ("Q", name, tuple(args))
                s.log.append(label)
                return s.env.ask(label)
            calls.append(name)
            return True

        status, state = self.execute(s, on)
        st.c["traces"] += 1
        st.c["transitions"] += len(s.log) + 1
        st.outcomes["runner " + str(status)] += 1
        p = self.prog
        if s.log != s.trace:
            common.fail("the runner does different actions", p, s.trace, s.log, status=status, answers=s.answers,
                        model_end=common.show_end(m.end, p.pos), errors=errors)
        if status != m.end[0]:
            common.fail("the runner reports another status", p, m.end, status, errors=errors, answers=s.answers)
        want = {"complete": ["complete"], "return": ["complete"], "cancel": ["cancel"], "error": ["error"]}[m.end[0]]
        if calls != want:
            common.fail("the runner calls the wrong end callbacks", p, want, calls, answers=s.answers)
        if m.end[0] == "error" and not common.same_end(m.end, errors[0], p.pos):
            common.fail("the runner reports another error", p, common.show_end(m.end, p.pos), errors[0], answers=s.answers)
        want = m.r.snap if m.end[0] == "error" else m.r.s
        a = (impl.ref_vars(want), impl.ref_results_folded(want))
        b = (impl.canon_vars(state), impl.fold_results(impl.canon_results(state)))
        if a != b:
            common.fail("the runner returns another state", p, a, b, answers=s.answers, status=status)
        if len(warnings) != len(m.r.warnings):
            common.fail("different number of warnings", p, m.r.warnings, warnings, answers=s.answers)
        return m


def add_functions(runner, functions):
    for name, f in functions.items():
        runner.factory_functions()[name] = impl.adapt(f)


def pick(options, many, indices, fresh):
    opts = [options[i] for i in indices]
    if fresh:
        opts = [impl.SelectOption(o.name, o.description, o.image) for o in opts]
    return opts if many else opts[0]
