"""Drivers of the real interpreter (public API only) and canonical observation of what they did."""

import signal
import sys

REPO_SRC = "/repo/src"
if REPO_SRC not in sys.path:
    sys.path.insert(0, REPO_SRC)

import wizard  # noqa: E402
from antlr4 import Token  # noqa: E402
from antlr4.error.Errors import NoViableAltException, RecognitionException  # noqa: E402

assert wizard.__file__.startswith(REPO_SRC), wizard.__file__

from .ref import Kind  # noqa: E402
from wizard import errors as werr  # noqa: E402
from wizard.contexts import (  # noqa: E402
    WizardInterpreterContextFactory,
    WizardSelectManyContext,
    WizardSelectOneContext,
    WizardTerminationContext,
    WizardTopLevelContext,
)
from wizard.functions import make_basic_functions  # noqa: E402
from wizard.interpreter import WizardInterpreter  # noqa: E402
from wizard.manager import SelectOption  # noqa: E402
from wizard.runner import (  # noqa: E402
    WizardRunnerExpressionVisitor,
    WizardRunnerKeywordVisitor,
    WizardRunnerState,
)
from wizard.severity import Issue, Severity, SeverityContext  # noqa: E402
from wizard.state import WizardInterpreterState  # noqa: E402
from wizard.value import Plugin, SubPackage, SubPackages, Value, VariableType, Void  # noqa: E402


class Hang(BaseException):
    """The watchdog fired or the step horizon was passed."""


class Mismatch(BaseException):
    """The implementation asked the environment something the model did not."""


GUARD_SECONDS = 20


def _alarm(sig, frame):
    raise Hang("no end within %d s" % GUARD_SECONDS)


class guard:
    """Bounds the time of one execution of the implementation."""

    def __enter__(self):
        signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, GUARD_SECONDS)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)


class Package(SubPackage):
    def __init__(self, name, files):
        super().__init__(name)
        self._files = list(files)

    @property
    def files(self):
        return iter(self._files)


def packages(world):
    return SubPackages([Package(p.name, p.files) for p in world.packages])


class Recorder(SeverityContext):
    def __init__(self):
        super().__init__()
        self.warnings = []

    def warning(self, text):
        self.warnings.append(text)


ISSUES = {
    "unset": Issue.USAGE_OF_NOTSET_VARIABLES,
    "defaults": Issue.MULTIPLE_DEFAULTS_IN_SELECT_ON,
    "note": Issue.USAGE_OF_ANYTHING_IN_NOTE,
    "subpackage": Issue.SELECT_MISSING_SUBPACKAGE,
    "plugin": Issue.SELECT_MISSING_PLUGIN,
}
SEVERITIES = {"allow": Severity.ALLOW, "warning": Severity.WARNING, "error": Severity.ERROR}


def set_severities(sc, world):
    if world.default_severity != "warning":
        sc.set_default_severity(SEVERITIES[world.default_severity])
    for k, v in world.severity.items():
        sc.set_severity(ISSUES[k], SEVERITIES[v])


def canon(v):
    """Type and content of a wizard value (raw Python or Value)."""
    if isinstance(v, Value):
        v = v.value
    if isinstance(v, bool) or isinstance(v, int) or isinstance(v, str):
        return (type(v).__name__, v)
    if isinstance(v, float):
        return ("float", repr(v))
    if isinstance(v, SubPackages):
        return ("SubPackages", tuple(p.name for p in v))
    if isinstance(v, SubPackage):
        return ("SubPackage", v.name)
    if isinstance(v, Void) or v is None:
        return ("void",)
    return ("?", type(v).__name__, repr(v))


def ref_canon(v):
    from . import ref

    if isinstance(v, (bool, int, str)):
        return (type(v).__name__, v)
    if isinstance(v, float):
        return ("float", repr(v))
    if isinstance(v, ref.PkgList):
        return ("SubPackages", tuple(p.name for p in v))
    if isinstance(v, ref.Pkg):
        return ("SubPackage", v.name)
    return ("void",)


def canon_vars(state):
    return tuple(sorted((k, canon(v)) for k, v in state.variables.items()))


def _setting(s, edit):
    t = (canon(s.filename), canon(s.section), canon(s.setting))
    return t + (canon(s.value), canon(s.comment)) if edit else t


def canon_results(state):
    """Everything a user reads off the result, in the order it is reported."""
    return (
        tuple(p.name for p in state.subpackages),
        tuple(p.name for p in state.plugins),
        tuple(state.notes),
        tuple(sorted((k.name.casefold(), v) for k, v in state.renames.items())),
        tuple(_setting(s, False) for s in state.tweaks.disabled),
        tuple(_setting(s, True) for s in state.tweaks.modified),
    )


def canon_state(state):
    return (canon_vars(state), canon_results(state))


def ref_vars(s):
    return tuple(sorted((k, ref_canon(v)) for k, v in s.vars.items()))


def ref_results_folded(s):
    return (
        tuple(sorted(s.subs)),
        tuple(sorted(s.plugs)),
        tuple(s.notes),
        tuple(sorted(s.renames.items())),
        tuple(tuple(ref_canon(x) for x in t) for t in s.disabled),
        tuple(tuple(ref_canon(x) for x in t) for t in s.modified),
    )


def fold_results(r):
    return (tuple(x.casefold() for x in r[0]), tuple(x.casefold() for x in r[1])) + r[2:]


ERR_KINDS = (
    ("type", werr.WizardTypeError),
    ("name", werr.WizardNameError),
    ("index", werr.WizardIndexError),
    ("parse", werr.WizardParseError),
    ("package", werr.WizardMissingPackageError),
    ("plugin", werr.WizardMissingPluginError),
)


def names_token(ex, text):
    """The text of an error at a token of the script shows this token."""
    cause = ex.args[0] if ex.args else None
    if not isinstance(cause, RecognitionException) or cause.offendingToken is None:
        return True
    token = cause.offendingToken
    if token.type == Token.EOF:
        return isinstance(cause, NoViableAltException) or "<EOF>" in text
    return token.text.replace("\n", "\\n").replace("\r", "\\r").replace("\t", "\\t") in text.partition(": ")[2]


def error_kind(ex):
    """Kind of an exception that came out of the interpreter, with its position."""
    if isinstance(ex, werr.WizardError):
        for k, c in ERR_KINDS:
            if isinstance(ex, c):
                break
        else:
            k = "value"
        try:
            text = str(ex)
            pos = (ex.line, ex.column)
            ex.message
        except Exception as e2:  # formatting must always work
            return ("error", "unprintable " + type(e2).__name__, None, None)
        if not isinstance(text, str) or str(pos[0]) not in text:
            return ("error", k + " without position in its text", pos, text)
        if not names_token(ex, text):
            return ("error", k + " without the token in its text", pos, text)
        try:
            about = ex.index if k == "index" else ex.name if k == "name" else ex.subpackage if k in ("package", "plugin") else None
        except AttributeError as e2:
            about = repr(e2)
        return ("error", k if about is None else Kind(k, about), pos, text)
    return ("raw", type(ex).__name__, str(ex)[:200])


class Env:
    """Answers of one execution; a scripted list of (label, answer) recorded from the model, or a function."""

    def __init__(self, answers):
        self.answers = answers
        self.i = 0
        self.log = []

    def ask(self, label):
        """Next answer; the question must be the one the model asked at this point."""
        self.log.append(label)
        if self.i >= len(self.answers):
            raise Mismatch("extra question %r" % (label,))
        want, ans = self.answers[self.i]
        self.i += 1
        if want != label:
            raise Mismatch("question %r instead of %r" % (label, want))
        return ans


def adapt(fn):
    """World function (raw values -> raw value) as a visitor function."""

    def f(state, values):
        r = fn([v.value for v in values], state)
        return r if isinstance(r, Value) else Value(r)

    return f


class KeywordVisitor(WizardRunnerKeywordVisitor):
    require = None

    def visitRequireVersions(self, state, game_version, script_extender_version, graphics_extender_version,
                             wrye_bash_version):
        if self.require:
            self.require([game_version, script_extender_version, graphics_extender_version, wrye_bash_version])


def restart(factory, top, state):
    try:
        return type(top)(factory, top.context, None, state)
    except (TypeError, AttributeError):  # built in another way: parse the text again
        return WizardInterpreter(factory).make_top_level_context(str(top.context.start.getInputStream()), state)


class Machine:
    """An interpreter over runner states, with extra functions, driven step by step."""

    def __init__(self, world, funcs=None, severity=None, require=None):
        self.severity = severity or Recorder()
        set_severities(self.severity, world)
        self.packages = packages(world)
        functions = make_basic_functions()
        for k, f in (funcs or {}).items():
            functions[k] = adapt(f)
        self.evisitor = WizardRunnerExpressionVisitor(self.packages, functions, self.severity)
        self.kvisitor = KeywordVisitor(self.packages, self.severity)
        self.kvisitor.require = require
        self.factory = WizardInterpreterContextFactory(self.evisitor, self.kvisitor, self.severity)
        self.interpreter = WizardInterpreter(self.factory)

    def start(self, text, state=None):
        return self.interpreter.make_top_level_context(text, WizardRunnerState() if state is None else state)

    def restart(self, top, state):
        """Top-level context of an already parsed script, with another initial state."""
        return restart(self.factory, top, state)


def menu_of(ctx):
    """(many, description, options, default indices) of a select context."""
    many = isinstance(ctx, WizardSelectManyContext)
    opts = tuple((o.name, o.description, o.image) for o in ctx.options)
    ds = list(ctx.defaults) if many else [ctx.default]
    idx = []
    for d in ds:
        for i, o in enumerate(ctx.options):
            if o is d:
                idx.append(i)
                break
        else:
            for i, o in enumerate(ctx.options):
                if o == d and i not in idx:
                    idx.append(i)
                    break
            else:
                idx.append(("?", d.name))
    return (many, ctx.description, opts, tuple(idx))


def is_menu(ctx):
    return isinstance(ctx, (WizardSelectOneContext, WizardSelectManyContext))


def answer_menu(ctx, indices, fresh=False):
    """The select context with the given options chosen (fresh: equal objects, not the same ones)."""
    opts = [ctx.options[i] for i in indices]
    if fresh:
        opts = [SelectOption(o.name, o.description, o.image) for o in opts]
    if isinstance(ctx, WizardSelectManyContext):
        out = ctx.select(opts)
        opts.reverse()  # the list is the caller's, who may go on using it
        opts.clear()
        return out
    return ctx.select(opts[0])


def end_of(ctx):
    if ctx.is_cancel():
        assert not ctx.is_return() and not ctx.is_complete()
        return ("cancel", ctx.message())
    if ctx.is_return():
        assert not ctx.is_complete()
        return ("return",) if ctx.message() is None else ("return", ctx.message())
    if ctx.is_complete():
        return ("complete",) if ctx.message() is None else ("complete", ctx.message())
    return ("none of cancel, return, complete",)


class Execution:
    """Outcome of one stepped execution."""

    __slots__ = ("end", "state", "steps", "ctx", "contexts")


def step_run(machine, text, on_menu, horizon=4000, state=None, keep=False, ctx=None):
    """Runs a script to its end by stepping; on_menu(ctx) returns the context to execute for a menu."""
    x = Execution()
    x.steps = 0
    x.contexts = []
    x.state = None
    with guard():
        try:
            if ctx is None:
                ctx = machine.start(text, state)
            while True:
                x.ctx = ctx
                if keep:
                    x.contexts.append(ctx)
                if isinstance(ctx, WizardTerminationContext):
                    x.end = end_of(ctx)
                    x.state = ctx.state
                    return x
                x.state = ctx.state
                if is_menu(ctx):
                    ctx = on_menu(ctx)
                if x.steps >= horizon:
                    x.end = ("hang", "still running after %d steps" % x.steps)
                    return x
                x.steps += 1
                ctx = ctx.exec()
        except Hang as h:
            x.end = ("hang", str(h))
        except Mismatch as m:
            x.end = ("mismatch", str(m))
        except RecursionError:
            x.end = ("raw", "RecursionError", "")
        except Exception as ex:
            x.end = error_kind(ex)
    return x
