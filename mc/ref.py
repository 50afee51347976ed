"""Reference semantics of wizard scripts: a big-step interpreter over annotated trees.

It knows nothing of contexts, steps or copies of states. Values are Python bool/int/float/str, Pkg, PkgList and VOID.
"""


class Pkg:
    def __init__(self, name, files):
        self.name, self.files = name, list(files)


class PkgList(list):
    pass


class _Void:
    def __repr__(self):
        return "VOID"


VOID = _Void()
PLUGIN_EXT = (".esp", ".esm", ".esl")


class Kind(str):
    """Kind of an error, with the name or the index it is about if that is defined."""

    detail = None

    def __new__(cls, kind, detail):
        self = str.__new__(cls, kind)
        self.detail = detail
        return self

    def __reduce__(self):
        return Kind, (str(self), self.detail)


class RErr(Exception):
    """Script error: kind and acceptable token indices for its position (None: any)."""

    def __init__(self, kind, *toks, about=None):
        self.kind, self.toks = kind if about is None else Kind(kind, about), toks


class Break_(Exception):
    def __init__(self, t):
        self.t = t


class Continue_(Exception):
    def __init__(self, t):
        self.t = t


class Return_(Exception):
    pass


class Cancel_(Exception):
    def __init__(self, msg):
        self.msg = msg


class Stop(Exception):
    """Raised by the environment (abort, horizon, ...)."""


class TooLong(Stop):
    pass


class TooBig(Stop):
    """A number beyond what the check computes."""


def isnum(v):
    return isinstance(v, (int, float)) and not isinstance(v, bool)


def kind(v):
    if isinstance(v, bool):
        return "bool"
    if isinstance(v, int):
        return "integer"
    if isinstance(v, float):
        return "float"
    if isinstance(v, str):
        return "string"
    if isinstance(v, Pkg):
        return "SubPackage"
    if isinstance(v, PkgList):
        return "SubPackage[]"
    return "void"


def truth(v):
    if v is VOID:
        return True  # an object; scripts should not rely on it
    if isinstance(v, Pkg):
        return True
    if isinstance(v, PkgList):
        return len(v) > 0
    return v != 0 and v != ""


def arith(op, a, b, node):
    t = node.t
    if op == "+" and isinstance(a, str) and isinstance(b, str):
        return a + b
    if not isinstance(a, (int, float)) or not isinstance(b, (int, float)):
        raise RErr("type", t)
    try:
        if op == "+":
            r = a + b
        elif op == "-":
            r = a - b
        elif op == "*":
            r = a * b
        elif op == "/":
            r = a / b
        elif op == "%":
            r = a % b
        elif op == "^":
            if isinstance(a, int) and isinstance(b, int) and a.bit_length() * b > 2000:
                raise TooBig()
            r = a**b
        else:
            raise AssertionError(op)
    except ArithmeticError:
        raise RErr("value", t)
    if isinstance(r, complex):
        raise RErr("value", t)
    return r


def compare(op, a, b, node):
    if op.endswith(":"):
        if not isinstance(a, str) or not isinstance(b, str):
            raise RErr("type", node.t)
        a, b, op = a.lower(), b.lower(), op[:-1]
    if op in ("==", "!="):
        if isinstance(a, Pkg) or isinstance(b, Pkg):
            na = a.name if isinstance(a, Pkg) else a
            nb = b.name if isinstance(b, Pkg) else b
            if not isinstance(na, str) or not isinstance(nb, str):
                raise RErr("type", node.t)
            r = na.casefold() == nb.casefold()
        else:
            r = a == b
        return r if op == "==" else not r
    if isinstance(a, (int, float)) and isinstance(b, (int, float)) or isinstance(a, str) and isinstance(b, str):
        return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[op]
    raise RErr("type", node.t)


class World:
    """What a script does not contain: packages, functions, severities and answers."""

    def __init__(self, packages=(), funcs=None, select=None, severity=None, default_severity="warning", bound=4000,
                 require=None):
        self.packages = PkgList(Pkg(n, f) for n, f in packages)
        self.funcs = funcs or {}  # name -> (min, max, fn(values)) ; fn may raise RErr-kind strings
        self.select = select  # fn(many, desc, options, defaults) -> list of option indices, in answer order
        self.require = require  # fn(args)
        self.severity = severity or {}
        self.default_severity = default_severity
        self.bound = bound


class State:
    def __init__(self):
        self.vars = {}
        self.subs = []  # casefolded names
        self.plugs = []
        self.notes = []
        self.renames = {}
        self.disabled = []
        self.modified = []

    def copy(self):
        s = State()
        s.vars = dict(self.vars)
        s.subs, s.plugs, s.notes = list(self.subs), list(self.plugs), list(self.notes)
        s.renames = dict(self.renames)
        s.disabled, s.modified = list(self.disabled), list(self.modified)
        return s


class Ref:
    def __init__(self, world, state=None):
        self.w = world
        self.s = state or State()
        self.warnings = []
        self.trace = []
        self.n = 0
        self.snap = None  # copy of the state at the start of the current step, when watched
        self.watch = False

    # -- infrastructure ------------------------------------------------------
    def tick(self):
        self.n += 1
        if self.n > self.w.bound:
            raise TooLong()

    def step(self):
        if self.watch:
            self.snap = self.s.copy()

    def issue(self, name, err):
        sev = self.w.severity.get(name, self.w.default_severity)
        if sev == "error":
            raise err
        if sev == "warning":
            self.warnings.append(name)

    # -- expressions ---------------------------------------------------------
    def ev(self, n):
        k, a = n.k, n.a
        if k in ("i", "d", "s", "b"):
            return a[0]
        if k == "v":
            if a[0] in self.s.vars:
                return self.s.vars[a[0]]
            self.issue("unset", RErr("name", n.t, about=a[0]))
            return 0
        if k == "par":
            return self.ev(a[0])
        if k == "SP":
            return self.w.packages
        if k == "bin":
            op = a[0]
            if op in ("in", "in:"):
                c = self.ev(a[2])
                x = self.ev(a[1])
                return self.contains(op, x, c, n)
            x = self.ev(a[1])
            y = self.ev(a[2])
            if op == "and":
                return truth(x) and truth(y)
            if op == "or":
                return truth(x) or truth(y)
            if op in ("+", "-", "*", "/", "%", "^"):
                return arith(op, x, y, n)
            return compare(op, x, y, n)
        if k == "neg":
            x = self.ev(a[0])
            if not isnum(x):
                raise RErr("type", n.t)
            return -x
        if k == "not":
            return not truth(self.ev(a[0]))
        if k == "inc":
            if a[0] not in self.s.vars:
                raise RErr("name", n.t, about=a[0])
            self.s.vars[a[0]] = arith("+", self.s.vars[a[0]], a[1], n)
            return self.s.vars[a[0]]
        if k == "idx":
            o = self.ev(a[0])
            i = self.ev(a[1])
            if not isinstance(o, (str, Pkg, PkgList)) or not isinstance(i, int):
                raise RErr("type", n.t)
            seq = o.name if isinstance(o, Pkg) else o
            if not -len(seq) <= i < len(seq):
                raise RErr("index", n.t, about=i)
            return seq[i if i >= 0 else len(seq) + i]
        if k == "sl":
            o = self.ev(a[0])
            b = [None if x is None else self.ev(x) for x in a[1:4]]
            if not isinstance(o, str):
                raise RErr("type", n.t)
            for x in b:
                if x is not None and not isinstance(x, int):
                    raise RErr("type", n.t)
            if b[2] == 0:
                raise RErr("value", n.t)
            return slice_(o, *b)
        if k == "call":
            if a[0] == "Exec" or a[0] not in self.w.funcs:
                raise RErr("name", n.t, about=None if a[0] == "Exec" else a[0])
            return self.call(self.w.funcs[a[0]], [self.ev(x) for x in a[1]], n)
        if k == "meth":
            o = self.ev(a[0])
            name = kind(o) + "." + a[1]
            if name not in self.w.funcs:
                raise RErr("name", n.t)
            return self.call(self.w.funcs[name], [o] + [self.ev(x) for x in a[2]], n)
        raise ValueError(k)

    def call(self, f, args, n):
        lo, hi, fn = f
        if len(args) < lo or (hi is not None and len(args) > hi):
            raise RErr("type", n.t)
        try:
            return fn(self, args)
        except RErr as e:
            if not e.toks:
                raise RErr(e.kind, n.t)
            raise

    def contains(self, op, x, c, n):
        if not isinstance(c, (Pkg, PkgList)) or not isinstance(x, (str, Pkg)):
            raise RErr("type", n.t)
        name = x.name if isinstance(x, Pkg) else x
        names = [p.name for p in c] if isinstance(c, PkgList) else c.files
        if op == "in:":
            return name.lower() in [m.lower() for m in names]
        return name in names

    def typed(self, n, typ):
        v = self.ev(n)
        if not isinstance(v, typ):
            raise RErr("type", n.t)
        return v

    # -- statements ----------------------------------------------------------
    def block(self, stmts):
        for s in stmts:
            self.stmt(s)

    def stmt(self, n):
        self.tick()
        self.step()
        k, a = n.k, n.a
        if k == "E":
            self.ev(a[0])
        elif k == "=":
            self.s.vars[a[0]] = self.ev(a[1])
        elif k == "op=":
            v = self.ev(a[2])
            if a[0] not in self.s.vars:
                raise RErr("name", n.t, about=a[0])
            self.s.vars[a[0]] = arith(a[1], self.s.vars[a[0]], v, n)
        elif k == "if":
            for c, b in a[0]:
                if truth(self.ev(c)):
                    return self.block(b)
            if a[1] is not None:
                self.block(a[1])
        elif k == "while":
            while True:
                self.tick()
                self.step()
                if not truth(self.ev(a[0])):
                    break
                try:
                    self.block(a[1])
                except Break_:
                    break
                except Continue_:
                    pass
        elif k == "for":
            st = self.typed(a[1], int)
            en = self.typed(a[2], int)
            by = self.typed(a[3], int) if a[3] is not None else 1
            if by == 0:
                raise RErr("type", n.t, a[5], a[3].t)
            self.iterate(a[0], count(st, en, by), a[4])
        elif k == "forin":
            v = self.ev(a[1])
            if isinstance(v, str):
                vals = [c for c in v]
            elif isinstance(v, PkgList):
                vals = [p for p in v]
            elif isinstance(v, Pkg):
                vals = [f for f in v.files]
            else:
                raise RErr("type", n.t, a[3], a[1].t)
            self.iterate(a[0], vals, a[2])
        elif k == "sel":
            self.sel(n)
        elif k == "break":
            raise Break_(n.t)
        elif k == "continue":
            raise Continue_(n.t)
        elif k == "return":
            raise Return_()
        elif k == "cancel":
            raise Cancel_(self.typed(a[0], str) if a[0] is not None else None)
        elif k == "kw":
            self.keyword(n)
        elif k == "exec":
            text = self.typed(a[0], str)
            assert a[1].text.strip() in text, (text, a[1].text)
            try:
                self.block(a[1].tree)
            except RErr as e:
                raise RErr(e.kind, None)
            except (Break_, Continue_) as b:
                b.t = None
                raise
        elif k == "execbad":
            if len(a[0]) != 1:
                raise RErr("type", n.t)
            self.typed(a[0][0], str)
            raise AssertionError("an argument of the right type")
        elif k == "broken":
            raise RErr("parse", None)
        else:
            raise ValueError(k)

    def iterate(self, name, vals, body):
        for v in vals:
            self.tick()
            self.step()
            self.s.vars[name] = v
            try:
                self.block(body)
            except Break_:
                break
            except Continue_:
                pass
        self.step()

    def sel(self, n):
        many, d, opts, cases, dflt = n.a
        desc = self.typed(d, str)
        options = []
        defaults = []
        for on, od, oi in opts:
            name, text, img = self.typed(on, str), self.typed(od, str), self.typed(oi, str)
            if name[:1] == "|":
                name = name[1:]
                defaults.append(len(options))
            options.append((name, text, None if img.strip() == "" else img))
        if not many:
            if not defaults:
                defaults = [0]
            elif len(defaults) > 1:
                self.issue("defaults", RErr("type", n.t))
                defaults = defaults[:1]
        self.step()
        answer = self.w.select(self, many, desc, options, defaults)
        chosen = [options[i][0] for i in answer]
        found = through = False
        for label, body in cases:
            self.tick()
            self.step()
            lab = self.typed(label, str)
            if through or lab in chosen:
                found = through = True
                try:
                    self.block(body)
                except Break_:
                    through = False
                    if not many:
                        return
        if dflt is not None and (through or not found):
            try:
                self.block(dflt)
            except Break_:
                pass

    KW = {
        "DeSelectAll": 0, "DeSelectAllPlugins": 0, "DeSelectAllEspms": 0, "ResetAllPluginNames": 0,
        "ResetAllEspmNames": 0, "SelectAll": 0, "SelectAllPlugins": 0, "SelectAllEspms": 0, "DeSelectPlugin": 1,
        "DeSelectEspm": 1, "DeSelectSubPackage": 1, "SelectPlugin": 1, "SelectEspm": 1, "SelectSubPackage": 1,
        "ResetPluginName": 1, "ResetEspmName": 1, "Note": 1, "RenamePlugin": 2, "RenameEspm": 2, "RequireVersions": 4,
    }

    def keyword(self, n):
        name, argn = n.a
        args = [self.ev(x) for x in argn]
        want = self.KW[name]
        lo = 1 if name == "RequireVersions" else want
        if not lo <= len(args) <= want:
            raise RErr("type", n.t)
        s = self.s
        name = name.replace("Espm", "Plugin")
        if name == "Note":
            if not isinstance(args[0], str):
                self.issue("note", RErr("type", n.t))
                s.notes.append(text_of(args[0]))
            else:
                s.notes.append(args[0])
        elif name == "RequireVersions":
            args = (args + [None] * 4)[:4]
            args = [args[0]] + [x or None for x in args[1:]]
            if self.w.require:
                self.w.require(self, args)
        elif name == "RenamePlugin":
            s.renames[args[0].casefold()] = args[1]
        elif name == "ResetPluginName":
            s.renames.pop(args[0].casefold(), None)
        elif name == "ResetAllPluginNames":
            s.renames.clear()
        elif name == "DeSelectAll":
            s.subs, s.plugs = [], []
        elif name == "DeSelectAllPlugins":
            s.plugs = []
        elif name == "SelectAll":
            s.subs = []
            for p in self.w.packages:
                add(s.subs, p.name.casefold())
            self.all_plugins()
        elif name == "SelectAllPlugins":
            self.all_plugins()
        elif name == "SelectSubPackage":
            for p in self.w.packages:
                if p.name.casefold() == args[0].casefold():
                    add(s.subs, p.name.casefold())
                    for q in plugins_of(p):
                        add(s.plugs, q)
                    break
            else:
                self.issue("subpackage", RErr("package", n.t, about=args[0]))
        elif name == "DeSelectSubPackage":
            if args[0].casefold() in s.subs:
                s.subs.remove(args[0].casefold())
        elif name == "SelectPlugin":
            if any(args[0].casefold() in plugins_of(p) for p in self.w.packages):
                add(s.plugs, args[0].casefold())
            else:
                self.issue("plugin", RErr("plugin", n.t, about=args[0]))
        elif name == "DeSelectPlugin":
            if args[0].casefold() in s.plugs:
                s.plugs.remove(args[0].casefold())
        else:
            raise ValueError(name)

    def all_plugins(self):
        self.s.plugs = []
        for p in self.w.packages:
            if p.name.casefold() in self.s.subs:
                for q in plugins_of(p):
                    add(self.s.plugs, q)

    # -- whole script --------------------------------------------------------
    def run(self, program):
        """End of the script: ('complete',) ('return',) ('cancel', msg) ('error', kind, token indices)."""
        try:
            self.block(program.tree)
            return ("complete",)
        except Return_:
            return ("return",)
        except Cancel_ as c:
            return ("cancel", c.msg)
        except (Break_, Continue_) as b:
            return ("error", "parse", None if b.t is None else (b.t,))
        except RErr as e:
            return ("error", e.kind, None if None in e.toks else e.toks)


def count(x, en, by):
    while (x <= en) if by > 0 else (x >= en):
        yield x
        x += by


def add(lst, x):
    if x not in lst:
        lst.append(x)


def base(path):
    return path.replace("\\", "/").rsplit("/", 1)[-1] if "/" in path else path


def plugins_of(p):
    out = []
    for f in p.files:
        if f.endswith(PLUGIN_EXT):
            add(out, f.rsplit("/", 1)[-1].casefold())
    return out


def text_of(v):
    if isinstance(v, Pkg):
        return v.name
    if isinstance(v, PkgList):
        return str([p.name for p in v])
    return str(v)


def slice_(s, start, end, step):
    """Characters of s at start, start+step, ... before end, by counting positions."""
    step = 1 if step is None else step
    n = len(s)

    def norm(x):
        return x + n if x < 0 else x

    out = []
    if step > 0:
        a = 0 if start is None else max(0, norm(start))
        b = n if end is None else min(n, norm(end))
        while a < b:
            out.append(s[a])
            a += step
    else:
        a = n - 1 if start is None else min(n - 1, norm(start))
        b = -1 if end is None else max(-1, norm(end))
        while a > b:
            out.append(s[a])
            a += step
    return "".join(out)


# -- the built-in functions ----------------------------------------------------


def f_str(r, a):
    return text_of(a[0])


def f_int(r, a):
    v = a[0]
    if isinstance(v, (Pkg, PkgList)) or v is VOID:
        return 0
    try:
        return int(v)
    except (ValueError, ArithmeticError):
        raise RErr("value")


def f_float(r, a):
    v = a[0]
    if isinstance(v, (Pkg, PkgList)) or v is VOID:
        return 0.0
    try:
        return float(v)
    except (ValueError, ArithmeticError):
        raise RErr("value")


def f_len(r, a):
    return len(a[0]) if isinstance(a[0], str) else 0


def f_lower(r, a):
    return a[0].lower() if isinstance(a[0], str) else a[0]


def f_starts(r, a):
    if not isinstance(a[0], str):
        return False
    return any(isinstance(p, str) and a[0][: len(p)] == p for p in a[1:])


def f_ends(r, a):
    if not isinstance(a[0], str):
        return False
    return any(isinstance(p, str) and a[0][max(0, len(a[0]) - len(p)):] == p for p in a[1:])


def _positions(a):
    s, sub = a[0], a[1]
    start = a[2] if len(a) > 2 else 0
    end = a[3] if len(a) > 3 else None
    if end == -1:
        end = None
    if not isinstance(s, str) or not isinstance(sub, str) or not isinstance(start, int) or not (
        end is None or isinstance(end, int)
    ):
        return []
    n = len(s)
    if start < 0:
        start = max(0, start + n)
    end = n if end is None else (max(0, end + n) if end < 0 else min(n, end))
    return [i for i in range(start, end - len(sub) + 1) if s[i : i + len(sub)] == sub]


def f_find(r, a):
    p = _positions(a)
    return p[0] if p else -1


def f_rfind(r, a):
    p = _positions(a)
    return p[-1] if p else -1


def basic_funcs():
    base = {
        "str": (1, 1, f_str), "int": (1, 1, f_int), "float": (1, 1, f_float), "len": (1, 1, f_len),
        "lower": (1, 1, f_lower), "startswith": (1, None, f_starts), "endswith": (1, None, f_ends),
        "find": (2, 4, f_find), "rfind": (2, 4, f_rfind),
    }
    out = dict(base)
    for k, v in base.items():
        out["string." + k] = v
    for t in ("integer", "float", "bool"):
        out[t + ".str"] = base["str"]
    return out


def ini_funcs():
    def edit(r, a):
        a = list(a) + [""] * (5 - len(a))
        r.s.modified.append(tuple(a[:5]))
        return VOID

    def disable(r, a):
        r.s.disabled.append(tuple(a))
        return VOID

    return {"EditINI": (4, 5, edit), "DisableINILine": (3, 3, disable)}
