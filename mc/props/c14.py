"""C14. States: contexts of the stepping interpreter, reached through every driver; transitions: steps. Supply: every script of the bound x every form
(text, character stream, text file objects with and without newline translation, binary file objects, paths) x every encoding (ASCII, UTF-8, UTF-16 and
UTF-32 with byte-order mark) x every kind of line end, traced context by context (kind, position, state, menus, parents) by stepping and by the callback
runner, against the trace of the LF text, which the reference interpreter checks. Drive: for every script of the bound, every context of its
trace x every set of target kinds: the context where exec_until stops must be the first one of the trace that is a target or
the end; the callback runner is compared with the reference for all answers; the factory helpers must drive alike."""

import io
import os
import sys
import tempfile
import unicodedata
from pathlib import Path

from .. import common, impl, lang, ref, skel
from ..explore import Chooser, Violation
from ..runner import Runner, RunnerBench, STATUS, menu_label, pick
from antlr4 import InputStream
from wizard import contexts as wctx
from wizard import utils as wutils

BOUNDS = {
    "quick": "supply: 90 scripts (all skeletons of <=1 control node, errors, empty ones) x 28 forms x 3 line ends x 2 answer policies; one unusual character in an otherwise "
             "ASCII script, every one of U+00A0..U+05FF and two of every 256 up to U+1FFFF; scripts of 9,000 and 70,000 characters; drive: all skeletons of <=2 control "
             "nodes x every start context x 30 target sets; callback runner: all skeletons of <=2 nodes x all answers; "
             "runs of 10..9,000 passes or statements before the first target; 13 initial states x 23 scripts x 4 ways of starting",
    "thorough": "supply: all skeletons of <=2 nodes; every character up to U+1FFFF; scripts up to 1.1 million characters, runs of 100,000 passes; drive: <=3 nodes; callback runner: <=3 nodes over 8 constructs",
}
CHUNK = 2
S = lambda x: ("s", x)  # noqa: E731
V = lambda x: ("v", x)  # noqa: E731
PACKAGES = [("P", ["a.esp"]), ("Q", ["b.esp"])]
L, C = ("break", "continue", "return", "cancelm"), ("ifelse", "ifelif", "while", "for", "forin", "one3", "many3", "onedef", "exec")
CLASSES = {c.__name__: c for c in vars(wctx).values() if isinstance(c, type) and c.__name__.endswith("Context")}
for _m in [m for n, m in sorted(sys.modules.items()) if n.startswith("wizard.contexts")]:
    for _n, _x in sorted(vars(_m).items()):
        if isinstance(_x, type) and _n.startswith("Wizard") and _n.endswith("Context"):
            CLASSES.setdefault(_n, _x)
NAMED = CLASSES
CLASSES = [CLASSES[n] for n in sorted(CLASSES)]


class Fixed(skel.Complete):
    """Conditions that depend on the script only."""

    def __init__(self, odd):
        super().__init__()
        self.odd = odd
        self.loops = []

    def cond(self, p="c"):
        k = self.fresh()
        if p == "w":
            self.loops.append("w%d" % k)
            return ("bin", "<=", ("pre", "++", "w%d" % k), ("i", 2))
        return ("b", (k + self.odd) % 3 != 0)

    def mark(self):
        return ("op=", "t", "+=", S("%d;" % self.fresh()))

    def body(self, b, top=False):
        out = super().body(b, top)
        if top:
            out = tuple(("=", w, ("i", 0)) for w in self.loops) + out
        return out


EXTRA = [
    (),
    (("=", "x", ("i", 1)), ("=", "y", ("bin", "/", V("x"), ("i", 0))), ("=", "z", ("i", 1))),
    (("=", "x", ("bin", "-", S("a"), ("i", 0))),),
    (("=", "x", ("i", 1)), ("E", ("call", "nothing", ())),),
    (("=", "x", S("é→ß漢😀")), ("kw", "Note", (V("x"),)), ("=", "n", ("call", "len", (V("x"),))), ("=", "c", ("idx", V("x"), ("neg", ("i", 1)))), ("op=", "n", "-=", S("é"))),
    (("kw", "SelectAll", ()), ("=", "x", ("i", 1)), ("kw", "DeSelectPlugin", (S("A.ESP"),)), ("E", ("call", "EditINI", (S("f"), S("s"), S("k"), ("i", 1))))),
    (("=", "x", ("i", 1)), ("broken", ("If", "(", ")", "x", "EndIf")), ("=", "y", ("i", 2))),
    (("broken", ("x", "=", "=")),),
    (("sel", "SelectOne", S("d"), ((S("|A"), S(""), S("")), (S("|B"), S(""), S("x"))), ((S("A"), (("exec", (("cancel", S("in")),)),)), (S("B"), (("kw", "Note", (V("u"),)),))), None),),
]
RAW = ["", "\n", "   \n\t\n", "; only a comment", "; a comment\n", "\n; c\n\nx = 1 ; c\n\n", "x = 1", "x = 1\ny = x + \\\n  2\nNote \"a;b\"\n\n", "If True\n  Note 'q'\nEndIf",
       "x = \"\n", "Note \"a\\tb\\n\\\\ \\u00e9\"\nCancel \"m\"", "EndIf\n", "x = 1 +\n", "@@@", "x = 1 ~ 2\n"]


def scripts(tier):
    for n in (0, 1, 2) if tier == "thorough" else (0, 1):
        for b in skel.bodies(n, L, C):
            for odd in (0, 1):
                yield ("skel", b, odd)
    for i in range(len(EXTRA)):
        yield ("extra", i)
    for i in range(len(RAW)):
        yield ("raw", i)


def program(s):
    if s[0] == "skel":
        return lang.compile_(Fixed(s[2]).body(s[1], top=True))
    if s[0] == "extra":
        return lang.compile_(EXTRA[s[1]])
    return lang.Program(None, None, None, RAW[s[1]], None)


def cases(tier):
    for s in scripts(tier):
        yield ("form", s)
    t = tier == "thorough"
    for lo in range(0xA0, 0x600 if not t else 0x20000, 0x20):
        yield ("chars", lo, lo + 0x20)
    if not t:
        for lo in range(0x600, 0x20000, 0x100):
            yield ("chars", lo + 0x20, lo + 0x22)
    for n in (9000, 70000) + ((1100000,) if t else ()):
        for where in ("comment", "string", "lines", "blanks"):
            for eol in ("\n", "\r\n"):
                if t or n < 10000 or (where, eol) in (("comment", "\n"), ("string", "\r\n")):
                    yield ("large", n, where, eol)
    for n in (0, 1, 2, 3) if t else (0, 1, 2):
        for b in skel.bodies(n, L, C if n < 3 else ("ifelse", "while", "forin", "one3", "many3", "exec")):
            yield ("drive", b, 0)
            if n < 2:
                yield ("drive", b, 1)
    for n in (0, 1, 2, 3) if t else (0, 1, 2):
        for b in skel.bodies(n, L, C if n < 3 else ("if", "while", "one", "many")):
            yield ("runner", b)
    for n in LONG + ((100000,) if t else ()):
        for k in range(4):
            yield ("long", n, k)
    for first in range(len(BEFORE)):
        for owner in range(4):
            yield ("initial", first, owner)


ENCODINGS = [("ascii", None), ("utf-8", None), ("utf-8", b"\xef\xbb\xbf"), ("utf-16-le", b"\xff\xfe"), ("utf-16-be", b"\xfe\xff"), ("utf-32-le", b"\xff\xfe\x00\x00"), ("utf-32-be", b"\x00\x00\xfe\xff")]


def forms(text, eol, d):
    """(name, maker of the script object, whether line ends are translated to LF)"""
    yield "text", lambda: text, False
    yield "stream", lambda: InputStream(text), False
    yield "StringIO", lambda: io.StringIO(text, newline=""), False
    for enc, bom in ENCODINGS:
        try:
            data = (bom or b"") + text.encode(enc)
        except UnicodeEncodeError:
            continue
        if enc == "utf-8" and bom is None and text.isascii():
            continue
        name = enc
        if enc[:3] == "utf":
            name += " with mark" if bom else " without mark"
        p = Path(d, "script-%s-%s.txt" % (name.replace(" ", "-"), eol))
        p.write_bytes(data)
        yield "path " + name, lambda p=p: p, False
        yield "BytesIO " + name, lambda data=data: io.BytesIO(data), False
        if enc in ("ascii", "utf-8"):
            tenc = "utf-8-sig" if bom else enc
            yield "binary file " + name, lambda p=p: open(p, "rb"), False
            yield "raw file " + name, lambda p=p: open(p, "rb", buffering=0), False
            yield "text file " + name, lambda p=p, tenc=tenc: open(p, encoding=tenc), True
            yield "text file, line ends kept " + name, lambda p=p, tenc=tenc: open(p, encoding=tenc, newline=""), False
            if len(data) < 50000:
                # objects that can be read once, from the start to the end
                yield "binary pipe " + name, lambda data=data: os.fdopen(piped(data), "rb"), False
                yield "text pipe " + name, lambda data=data, tenc=tenc: os.fdopen(piped(data), "r", encoding=tenc, newline=""), False


def piped(data):
    r, w = os.pipe()
    os.write(w, data)
    os.close(w)
    return r


def snap(ctx, pos):
    out = []
    first = True
    while True:
        s = ctx.context.start
        item = (type(ctx).__name__, (s.line, s.column) if s and pos else None)
        if first:
            item += (impl.canon_state(ctx.state),)
        if impl.is_menu(ctx):
            item += (impl.menu_of(ctx),)
        if isinstance(ctx, impl.WizardTerminationContext):
            item += (impl.end_of(ctx),)
        out.append(item)
        if ctx.is_top_level():
            return tuple(out)
        first = False
        ctx = ctx.parent


def answer(policy, many, options, defaults):
    if policy == 0:
        return list(range(len(options)))[1:] if many else [len(options) - 1]
    return list(defaults)


def show(end, pos):
    if end[0] == "error":
        return end if pos else end[:2]
    return end


def trace(machine, script, policy, pos):
    """All contexts of a stepped run."""
    machine.severity.warnings.clear()
    x = impl.step_run(machine, script, lambda c: impl.answer_menu(c, answer(policy, *[impl.menu_of(c)[i] for i in (0, 2, 3)])), keep=True, horizon=3000)
    return [snap(c, pos) for c in x.contexts], show(x.end, pos), list(machine.severity.warnings)


def runner_trace(runner, script, policy, pos):
    log = []

    def on(name, *args):
        if name in ("selectOne", "selectMany"):
            many = name == "selectMany"
            label = menu_label(many, *args)
            log.append((label, snap(runner.context(), pos)))
            return pick(args[1], many, answer(policy, many, args[1], label[4]), False)
        if name == "error":
            log.append((name, show(impl.error_kind(args[0]), pos)))
            return None
        log.append((name, args))
        return True

    runner.on = on
    with impl.guard():
        try:
            status, state = runner.run(script)
            return log, STATUS[status], impl.canon_state(state)
        except impl.Hang as h:
            return log, str(h), None
        except Exception as ex:
            return log, show(impl.error_kind(ex), pos), None


def machine_and_runner():
    world = ref.World(packages=PACKAGES)
    return world, impl.Machine(world), Runner(impl.packages(world))


def check_forms(s, st):
    prog = program(s)
    st.sample(prog.text)
    world, machine, runner = machine_and_runner()
    with tempfile.TemporaryDirectory() as d:
        for policy in (0, 1):
            want = {}
            for pos in (True, False):
                want[pos] = trace(machine, prog.text, policy, pos), runner_trace(runner, prog.text, policy, pos)
            if prog.tree is not None and not any(x.k == "broken" for x in prog.tree):
                bench_check(prog, world, policy, st)
            (steps, end, warn), (log, status, state) = want[True]
            agree(prog, steps, end, status, state, log)
            for eol in ("\n", "\r\n", "\r"):
                text = prog.text.replace("\n", eol)
                for name, make, translated in forms(text, {"\n": "lf", "\r\n": "crlf", "\r": "cr"}[eol], d):
                    pos = eol != "\r" or translated
                    for k, run in ((0, lambda o: trace(machine, o, policy, pos)), (1, lambda o: runner_trace(runner, o, policy, pos))):
                        obj = make()
                        got = run(obj)
                        if hasattr(obj, "close"):
                            obj.close()
                        st.c["traces"] += 1
                        st.c["transitions"] += len(got[0])
                        if got != want[pos][k]:
                            common.fail("another execution when the script is supplied as %s with line ends %r (%s)" % (name, eol, ("stepping", "runner")[k]), prog,
                                        want[pos][k], got, policy=policy)
            st.outcomes[str(end[:2])] += 1
            for c in steps:
                st.state(c)


LONG = (10, 300, 1025, 9000)


def check_long(n, k, st):
    """A run of n passes or statements before the first target: the drivers neither stop early nor go on."""
    if k == 3 and n > 2000:
        n = 2000  # parsing is slow
    text = ("For i from 1 to %d\n x = i\nEndFor\n", "x = 0\nWhile x < %d\n x++\nEndWhile\n", "For i from 1 to %d\n If True\n  x = i\n  Continue\n EndIf\nEndFor\n", None)[k]
    text = "x = 0\n" + "x += 1\n" * n if text is None else text % n
    world, machine, runner = machine_and_runner()
    for tail, names in (("", ("Termination",)), ("Note 'a'\n", ("Keyword", "Note")), ("SelectOne 'd', 'A', '', ''\nCase 'A'\ny = 1\nEndSelect\n", ("SelectOne", "Select")),
                        ("y = x / 0\nNote 'b'\n", ())):
        prog = lang.Program(None, None, None, text + tail, None)
        c = machine.start(prog.text)
        steps, menu, end = 0, None, None
        with impl.guard():
            try:
                while not isinstance(c, impl.WizardTerminationContext):
                    c = c.exec()
                    steps += 1
                    if tail and menu is None and any(isinstance(c, NAMED["Wizard%sContext" % x]) for x in names if "Wizard%sContext" % x in NAMED):
                        menu = snap(c, True)
            except Exception as ex:
                end = impl.error_kind(ex)
        last = impl.canon_state(c.state)
        st.c["transitions"] += steps
        st.c["executions"] += 1
        if dict(last[0]).get("x") != ("int", n):
            common.fail("stepping ends with another value", prog, n, last)
        if steps <= n:
            common.fail("stepping ends early", prog, n, steps)
        for t in [()] + [(NAMED["Wizard%sContext" % x],) for x in names if "Wizard%sContext" % x in NAMED]:
            with impl.guard():
                try:
                    got = machine.interpreter.exec_until(machine.start(prog.text), t)
                    got = (snap(got, True), None)
                except Exception as ex:
                    got = (None, impl.error_kind(ex))
            want = (menu if t and tail else snap(c, True) if end is None else None, end)
            if got != want:
                common.fail("exec_until stops elsewhere after a long run", prog, want, got, targets=t)
            st.c["transitions"] += steps
        errors = []
        runner.on = lambda name, *a: errors.append(impl.error_kind(a[0])) if name == "error" else pick(a[1], False, [0], False) if name == "selectOne" else True
        with impl.guard():
            status, state = runner.run(prog.text)
        want = "error" if end else "complete"
        if STATUS[status] != want or impl.canon_state(state) != last or errors != ([end] if end else []):
            common.fail("the runner ends differently from stepping after a long run", prog, (want, last, end), (status, impl.canon_state(state), errors))
        st.c["transitions"] += steps
        st.outcomes[want] += 1
        st.state((n, k, tail, steps))


def bench_check(prog, world, policy, st):
    # the trace of the text itself, against the reference
    bench = common.Bench(prog, ref.World(packages=PACKAGES))
    bench.pair(Chooser(), st, menus=lambda many, n, defaults: [tuple(answer(policy, many, range(n), defaults))])


def agree(prog, steps, end, status, state, log):
    """Stepping and the callback runner reach the same menus, end and state."""
    menus = [c for c in steps if len(c[0]) > 3 and c[0][0] != "WizardTerminationContext"]
    if [m[1] for m in log if m[0][0] == "menu"] != menus:
        common.fail("the runner shows other menus than stepping", prog, menus, log)
    want = {"error": "error"}.get(end[0], end[0])
    if isinstance(status, tuple):
        # the script cannot be parsed: run() raises before any step
        if steps or status != end:
            common.fail("the runner ends differently from stepping", prog, end, status)
        return
    if status != want:
        common.fail("the runner ends differently from stepping", prog, end, (status, log[-1:]))
    if state != steps[-1][0][2]:
        common.fail("the runner ends in another state than stepping", prog, steps[-1][0][2], state)


def check_drive(b, odd, st):
    prog = lang.compile_(Fixed(odd).body(b, top=True))
    st.sample(prog.text)
    world, machine, runner = machine_and_runner()
    x = impl.step_run(machine, prog.text, lambda c: c, keep=True, horizon=3000)
    # unanswered menus behave as answered with their defaults
    bench = common.Bench(prog, ref.World(packages=PACKAGES))
    m = bench.model(Chooser(), menus=lambda many, n, defaults: [tuple(defaults)])
    if not common.same_end(m.end, x.end, prog.pos):
        common.fail("different end with the default answers", prog, common.show_end(m.end, prog.pos), x.end)
    if m.end[0] != "error" and impl.ref_vars(m.r.s) != impl.canon_vars(x.state):
        common.fail("different variables with the default answers", prog, impl.ref_vars(m.r.s), impl.canon_vars(x.state))
    chain = x.contexts
    snaps = [snap(c, True) for c in chain]
    kinds = {type(c) for c in chain}
    targets = [()] + [(c,) for c in CLASSES if c in kinds or issubclass(c, impl.WizardTerminationContext)]
    targets += [(c,) for c in CLASSES if c not in kinds][:2]
    # abstract kinds and several kinds at once
    named = lambda *names: tuple(NAMED["Wizard%sContext" % n] for n in names if "Wizard%sContext" % n in NAMED)  # noqa: E731
    targets += [named("Interpreter"), named("Breakable"), named("Continuable"), named("Select"), named("SelectOne", "SelectMany"),
                list(named("If", "ForLoop", "WhileLoop")), list(named("Body", "TopLevel")), named("Keyword", "Assignment")]
    # many kinds, of which only the last one (or the middle one) occurs
    absent = tuple(c for c in CLASSES if not any(isinstance(x, c) for x in chain))
    for c in sorted(kinds, key=lambda c: c.__name__):
        targets += [absent + (c,), absent[::-1] + (c,) + absent]
    for t in targets:
        tt = tuple(t) + (impl.WizardTerminationContext,)
        stop = None
        for i in range(len(chain) - 1, -1, -1):
            if isinstance(chain[i], tt):
                stop = i
            st.c["transitions"] += 1
            with impl.guard():
                try:
                    got = machine.interpreter.exec_until(chain[i], t)
                    got = got if got is chain[i] and stop == i else snap(got, True)
                except Exception as ex:
                    got = impl.error_kind(ex)
            want = x.end if stop is None else (chain[i] if stop == i else snaps[stop])
            if got != want if stop != i else got is not chain[i]:
                common.fail("exec_until from context %d of %d stops elsewhere" % (i, len(chain)), prog, want, got, start=snaps[i][0], targets=t)
    if [snap(c, True) for c in chain] != snaps:
        common.fail("a context changed while driving from it", prog, snaps, [snap(c, True) for c in chain])
    st.c["traces"] += 1
    for c in snaps:
        st.state(c)
    st.outcomes[str(x.end[:2])] += 1
    # the helpers that make factories and contexts
    sc = impl.Recorder()
    for make in (lambda: wutils.make_runner_context_factory(impl.packages(world), runner, sc), lambda: machine.factory):
        f = make()
        for parse in (lambda: wutils.make_top_level_context(prog.text, f, impl.WizardRunnerState()),
                      lambda: wctx.WizardTopLevelContext(f, wutils.make_parse_wizard_context(prog.text), None, impl.WizardRunnerState())):
            y = impl.step_run(machine, None, lambda c: c, keep=True, horizon=3000, ctx=parse())
            if [snap(c, True) for c in y.contexts] != snaps or y.end != x.end:
                common.fail("a context factory made by the helpers drives differently", prog, (snaps, x.end), ([snap(c, True) for c in y.contexts], y.end))
    # the basic factory, whose states have only variables
    f = wutils.make_basic_context_factory(impl.packages(world), sc)
    vs = lambda cs: [(type(c).__name__, impl.canon_vars(c.state)) for c in cs]  # noqa: E731
    y = impl.step_run(machine, None, lambda c: c, keep=True, horizon=3000, ctx=wutils.make_top_level_context(prog.text, f))
    if vs(y.contexts) != vs(chain) or y.end != x.end:
        common.fail("the basic context factory drives differently", prog, (vs(chain), x.end), (vs(y.contexts), y.end))


def check_runner(b, st):
    prog = lang.compile_(skel.Complete().body(b, top=True))
    bench = RunnerBench(prog, ref.World(packages=PACKAGES))
    prefix = []
    while prefix is not None:
        ch = Chooser(prefix)
        bench.pair(ch, st, loops=1)
        prefix = ch.next()


def check_chars(lo, hi, st):
    """Scripts whose only unusual character is one of the range, as bytes that are not marked as UTF-8 in any way."""
    machine = impl.Machine(ref.World(packages=PACKAGES))
    for ch in map(chr, range(lo, hi)):
        if unicodedata.category(ch)[0] == "C" or ch in "\u2028\u2029\x85":
            continue
        for text, want in (("Note '%s'" % ch, (ch,)), ("x = 1 ; %s\nNote 'caf%s' + \"e\"\n" % (ch, ch), ("caf%se" % ch,))):
            st.c["traces"] += 1
            st.c["transitions"] += 2
            for what, script in (("a binary file", io.BytesIO(text.encode())), ("text", text)):
                x = impl.step_run(machine, script, None)
                got = x.state.notes if x.end == ("complete",) else x.end
                if tuple(got) != want:
                    raise Violation("a script with one unusual character, as %s" % what, script=text, expected=want, observed=got)
            st.state(("char", text))


def check_large(n, where, eol, st):
    """Scripts that are larger than any buffer, most of it a comment, a string or statements."""
    big = {"comment": "; " + "c" * n + "\n", "string": "x = '" + "s" * n + "'\n", "lines": "; \u00e9ccccccccccccccccccccccccc\n" * (n // 29), "blanks": " " * n + "\n"}[where]
    text = "Note 'first'\n" + big + "Note 'last'\n"
    machine = impl.Machine(ref.World(packages=PACKAGES))
    with tempfile.TemporaryDirectory() as d:
        for name, make, translated in forms(text.replace("\n", eol), "large", d):
            if n > 10000 and name not in ("text", "path ascii", "BytesIO ascii", "text file ascii"):
                continue
            obj = make()
            x = impl.step_run(machine, obj, None)
            if hasattr(obj, "close"):
                obj.close()
            st.c["traces"] += 1
            st.c["transitions"] += 2
            if x.end != ("complete",) or x.state.notes != ["first", "last"] or len(x.state.variables["x"].value if where == "string" else "s" * n) != n:
                raise Violation("a large script is cut or changed", size=n, what=where, form=name, observed=(x.end, x.state and x.state.notes))
    st.state(("large", n, where, eol))


kw = lambda n, *a: ("kw", n, tuple(a))  # noqa: E731
call = lambda n, *a: ("E", ("call", n, tuple(a)))  # noqa: E731
# statements that fill one part of the state, or several ones
BEFORE = [
    (), (("=", "x", ("i", 5)),), (("=", "x", S("")), ("=", "y", ("SP",))), (kw("Note", S("n")),), (kw("Note", S("n")), kw("Note", S("n"))), (kw("SelectSubPackage", S("P")),),
    (kw("SelectSubPackage", S("P")), kw("DeSelectPlugin", S("a.esp"))), (kw("SelectPlugin", S("b.esp")),), (kw("RenamePlugin", S("A.esp"), S("c")),),
    (call("EditINI", S("F"), S("s"), S("k"), ("i", 1)),), (call("DisableINILine", S("f"), S("s"), S("k")),),
    (("=", "x", ("i", 0)), kw("SelectAll"), kw("Note", S("n")), kw("RenamePlugin", S("a.esp"), S("c")), call("EditINI", S("f"), S("s"), S("k"), ("i", 1), S("c"))),
    (call("DisableINILine", S("f"), S("s"), S("k")), call("EditINI", S("f"), S("s"), S("k"), V("u")), kw("SelectAll"), kw("Note", S("z"))),
]
AFTER = BEFORE + [
    (kw("DeSelectAll"),), (kw("ResetAllPluginNames"),), (kw("SelectAllPlugins"),), (kw("ResetPluginName", S("a.ESP")), kw("DeSelectAllPlugins")), (("op=", "x", "+=", ("i", 1)),),
    (("if", (((("v", "x")), (kw("Note", S("yes")),)),), (kw("Note", S("no")),)),), (("for", "x", ("i", 1), ("i", 2), None, (kw("Note", ("call", "str", (V("x"),))),)), ("return",)),
    (("exec", (("op=", "x", "+=", V("x")), kw("SelectPlugin", S("a.esp")))),), (("cancel", None),),
    (("while", ("bin", "<", V("x"), ("i", 7)), (("op=", "x", "+=", ("i", 1)),)),),
]


def check_initial(first, owner, st):
    """A script executed from the state in which another one ended does what it does after the statements of the other one, whoever creates the context."""
    world = ref.World(packages=PACKAGES)
    machine = impl.Machine(world)
    runner = Runner(machine.packages)
    runner.on = lambda name, *args: True if name in ("cancel", "complete") else None
    make = (lambda text, s: machine.interpreter.make_top_level_context(text, s), lambda text, s: runner.make_top_level_context(text, s),
            lambda text, s: wutils.make_top_level_context(text, machine.factory, s), lambda text, s: runner.make_top_level_context(io.StringIO(text), state=s))[owner]

    def end(text, state, mk):
        x = impl.step_run(machine, None, None, ctx=mk(text, state))
        st.c["transitions"] += x.steps
        return x.end[:2], impl.canon_state(x.state), x.state

    one = lang.compile_(BEFORE[first]).text
    plain = lambda text, s: machine.interpreter.make_top_level_context(text, s)  # noqa: E731
    for i, b in enumerate(AFTER):
        text = lang.compile_(b).text
        want = end(lang.compile_(BEFORE[first] + b).text, impl.WizardRunnerState(), plain)
        start = end(one, impl.WizardRunnerState(), plain)[2]
        before = impl.canon_state(start)
        got = end(text, start, make)
        if got[:2] != want[:2]:
            common.fail("a script executed from the state of another one differs from the two scripts one after the other", one + "----\n" + text, want[:2], got[:2], made=owner)
        if impl.canon_state(start) != before:
            common.fail("the initial state is changed by the run", one + "----\n" + text, before, impl.canon_state(start), made=owner)
        st.c["traces"] += 1
        st.state((first, i, got[:2]))


def check(case, st):
    if case[0] == "initial":
        check_initial(case[1], case[2], st)
    elif case[0] == "chars":
        check_chars(case[1], case[2], st)
    elif case[0] == "long":
        check_long(case[1], case[2], st)
    elif case[0] == "large":
        check_large(*case[1:], st)
    elif case[0] == "form":
        check_forms(case[1], st)
    elif case[0] == "drive":
        check_drive(case[1], case[2], st)
    else:
        check_runner(case[1], st)
