"""C19. States: contents of a stack of stacked mappings, including everything the implementation keeps (its attributes, canonically); transitions:
one operation on one of the layers, executed on a copy of the kept real objects. Breadth first from the empty stack to the fixpoint: every reachable state
and every operation in it, hence every operation sequence of any length over the given keys and values. After every
operation each layer is read completely and compared with plain dictionaries: a layer is its parent's content with its own settings and deletions on top."""

import copy
import enum
import pickle

from .. import impl
from ..explore import Violation

from wizard.utils.mappings import StackMutableMapping

BOUNDS = {
    "quick": "fixpoints of (layers, keys, values): (3,2,1) (2,2,2) (2,3,1) (1,3,2) (3,1,3) (4,1,1); a set of 14 operations on every layer; (2,2,1) and (3,1,2) for 5 other sets of keys; up to 40 layers and up to 1025 keys with one history of filling and every operation after it",
    "thorough": "also (3,2,2) (3,3,1) (4,2,1) (2,3,2)",
}
CHUNK = 1
HANG_SECONDS = 3000
KEYSETS = (("", "b", 7), (None, ("b", 0)), (0, ""), (True, -1), ("É", "é"), (1.5, frozenset()))
VALUES = (0, None, "v")
MISSING = "missing"


def cases(tier):
    yield from [(3, 2, 1), (2, 2, 2), (2, 3, 1), (1, 3, 2), (3, 1, 3), (4, 1, 1)]
    for k in range(1, len(KEYSETS)):
        yield from [(2, 2, 1, k), (3, 1, 2, k)]
    for n in range(1, 41):
        yield ("layers", n)
    for n in (4, 5, 6, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025):
        yield ("keys", n)
    if tier == "thorough":
        yield from [(3, 2, 2), (3, 3, 1), (4, 2, 1), (2, 3, 2)]
        for k in range(1, len(KEYSETS)):
            yield from [(3, 2, 1, k), (2, 2, 2, k), (4, 1, 1, k)]


class Model:
    """own[i]: key -> (value,) or None (deleted) of layer i."""

    def __init__(self, own):
        self.own = own

    def view(self, i):
        d = {} if i == 0 else self.view(i - 1)
        for k, v in self.own[i].items():
            if v is None:
                d.pop(k, None)
            else:
                d[k] = v[0]
        return d

    def set(self, i, k, v):
        self.own[i][k] = (v,)

    def delete(self, i, k):
        # what a deleted key of the lowest layer was does not matter, but it may be kept
        self.own[i][k] = None

    def key(self):
        return tuple(tuple(sorted(((repr(k), v) for k, v in o.items()), key=repr)) for o in self.own)


def ops(keys, values):
    out = []
    for k in keys:
        out += [("set", k, v) for v in values]
        out += [("del", k), ("pop", k), ("popdef", k, values[-1]), ("popnone", k)]
        out += [("setdefault", k, v) for v in values] + [("setdefault1", k)]
        out += [("update", {k: values[0]})]
    out += [("update", {k: values[-1] for k in keys}), ("updatepairs", [(k, values[0]) for k in keys]), ("clear",), ("popitem",), ("updatekw", {"b": values[-1]}), ("update", {})]
    return [o for o in out if o != ("updatekw", {"b": values[-1]}) or "b" in keys]


def call(f, *a, **k):
    try:
        return ("ok", f(*a, **k))
    except KeyError as ex:
        return ("KeyError", ex.args)
    except Exception as ex:
        return ("raw", type(ex).__name__, str(ex))


def apply(o, x, d, md, i):
    """The operation on the implementation and on the model; the two outcomes."""
    n = o[0]
    if n == "set":
        md.set(i, o[1], o[2])
        return call(x.__setitem__, o[1], o[2]), ("ok", None)
    if n == "del":
        if o[1] in d:
            md.delete(i, o[1])
            return call(x.__delitem__, o[1]), ("ok", None)
        return call(x.__delitem__, o[1]), ("KeyError", (o[1],))
    if n in ("pop", "popdef", "popnone"):
        extra = () if n == "pop" else (o[2],) if n == "popdef" else (None,)
        if o[1] in d:
            md.delete(i, o[1])
            want = ("ok", d[o[1]])
        else:
            want = ("ok", extra[0]) if extra else ("KeyError", (o[1],))
        return call(x.pop, o[1], *extra), want
    if n in ("setdefault", "setdefault1"):
        v = o[2] if n == "setdefault" else None
        if o[1] not in d:
            md.set(i, o[1], v)
        return call(x.setdefault, *o[1:]), ("ok", d.get(o[1], v))
    if n in ("update", "updatepairs", "updatekw"):
        for k, v in dict(o[1]).items():
            md.set(i, k, v)
        return (call(x.update, **o[1]) if n == "updatekw" else call(x.update, o[1])), ("ok", None)
    if n == "clear":
        for k in d:
            md.delete(i, k)
        return call(x.clear), ("ok", None)
    if n == "popitem":
        got = call(x.popitem)
        if not d:
            return got[:1], ("KeyError",)
        if got[0] == "ok" and isinstance(got[1], tuple) and len(got[1]) == 2 and got[1][0] in d:
            k = got[1][0]
            md.delete(i, k)
            return got, ("ok", (k, d[k]))
        return got, ("ok", "an item of %r" % d)
    raise ValueError(n)


def read(x, d, keys, other):
    """Complete reading of a layer against the dictionary it must equal."""
    it = list(x)
    checks = [
        ("len", len(x), len(d)), ("no duplicates", len(set(it)), len(it)), ("iteration", set(it), set(d)), ("keys", set(x.keys()), set(d)),
        ("items", sorted(x.items(), key=repr), sorted(d.items(), key=repr)), ("values", sorted(x.values(), key=repr), sorted(d.values(), key=repr)),
        ("equality", (x == d, d == x, x != d), (True, True, False)), ("inequality", x == dict(d, zz=1), False), ("dict()", dict(x), d),
        ("bool", bool(x), bool(d)), ("{**}", {**x}, d),
    ]
    for k in keys + ("zz",):
        checks.append(("in %r" % (k,), k in x, k in d))
        checks.append(("[%r]" % (k,), call(x.__getitem__, k), ("ok", d[k]) if k in d else ("KeyError", (k,))))
        checks.append(("get(%r)" % (k,), (x.get(k), x.get(k, MISSING)), (d.get(k), d.get(k, MISSING))))
        checks.append(("in keys", k in x.keys(), k in d.keys()))
    text = repr(x)
    checks.append(("repr", all(repr(k) in text for k in d), True))
    for what, got, want in checks:
        if got != want:
            return what, want, got
        if what.startswith("values") and [type(a) for a in got] != [type(a) for a in want]:
            return what, want, got
    return None


def canon(o, seen):
    if id(o) in seen:
        return "@%d" % seen[id(o)]
    if isinstance(o, dict):
        return "{%s}" % ",".join(sorted("%r:%s" % (k, canon(v, seen)) for k, v in o.items()))
    if isinstance(o, (set, frozenset)):
        return "<%s>" % ",".join(sorted(map(repr, o)))
    if isinstance(o, (list, tuple)):
        return "[%s]" % ",".join(canon(v, seen) for v in o)
    if layered(o):
        seen[id(o)] = len(seen)
        return "%s%s" % (type(o).__name__, canon(attributes(o), seen))
    if not isinstance(o, (str, int, float, type(None), type)):
        # An object whose identity may matter, such as a mark of deleted keys: layers are copied one by one from now on.
        PLAIN.clear()
        return "%s@%d" % (type(o).__name__, seen.setdefault(id(o), len(seen)))
    return repr(o)


PLAIN = {True}  # whether what the layers keep is made of containers, strings and numbers only


def layered(o):
    """A layer, or an object that holds a part of one (but not a mark, whose identity is all it has)."""
    if isinstance(o, StackMutableMapping):
        return True
    return not isinstance(o, (enum.Enum, type)) and not callable(o) and bool(attributes(o))


def attributes(o):
    d = dict(getattr(o, "__dict__", {}))
    for c in type(o).__mro__:
        names = vars(c).get("__slots__", ())
        for n in (names,) if isinstance(names, str) else names:
            n = "_%s%s" % (c.__name__.lstrip("_"), n) if n.startswith("__") and not n.endswith("__") else n
            if n not in ("__dict__", "__weakref__") and hasattr(o, n):
                d[n] = getattr(o, n)
    return d


def copy_of(o, memo):
    """A copy of a stack that shares everything but the layers and their containers."""
    if id(o) in memo:
        return memo[id(o)]
    if layered(o) and not isinstance(o, (dict, list, set)):
        x = memo[id(o)] = type(o).__new__(type(o))
        for n, v in attributes(o).items():
            object.__setattr__(x, n, copy_of(v, memo))
        return x
    if type(o) in (dict, list, set):
        x = memo[id(o)] = type(o)()
        if type(o) is dict:
            for k, v in o.items():
                x[k] = copy_of(v, memo)
        elif type(o) is set:
            x.update(o)
        else:
            x.extend(copy_of(v, memo) for v in o)
        return x
    if type(o) is tuple:
        return tuple(copy_of(v, memo) for v in o)
    if isinstance(o, (dict, list, set)):
        return copy.copy(o)
    return o


def sizes(kind, n, st):
    """Many keys in two or three layers, or many layers with a few keys: every operation of a set on every layer, all layers read after each."""

    def start():
        nl = n if kind == "layers" else 3
        stack = [StackMutableMapping()]
        while len(stack) < nl:
            stack.append(StackMutableMapping(stack[-1]))
        md = Model([{} for _ in range(nl)])

        def do(i, o):
            hist.append("layer %d: %r" % (i, o))
            got, want = apply(o, stack[i], md.view(i), md, i)
            st.c["transitions"] += 1
            if got != want:
                raise Violation("an operation has the wrong outcome", history=hist[-6:], size=(kind, n), expected=want, observed=got)

        hist = []
        if kind == "layers":
            for i in range(n):
                do(i, ("set", "k%d" % (i % 5), i))
                do(i, ("set", "own%d" % i, i))
                if i % 3 == 2:
                    do(i, ("del", "own%d" % (i - 1)))
                if i % 7 == 6:
                    do(i, ("set", "own%d" % (i - 5), "again"))
        else:
            for k in range(n):
                do(0, ("set", k, -k))
                if k % 3 == 0:
                    do(1, ("set" if k % 2 else "del", k, k))
                if k % 5 == 0 and k in md.view(2):
                    do(2, ("del", k))
                if k % 11 == 0:
                    do(2, ("set", "z%d" % k, k))
        return stack, md, do, hist

    def look(stack, md, keys, hist):
        for j in sorted({0, 1, len(stack) // 2, len(stack) - 2, len(stack) - 1}):
            if 0 <= j < len(stack):
                r = read(stack[j], md.view(j), keys, None)
                st.c["traces"] += 1
                if r:
                    raise Violation("layer %d reads wrongly: %s" % (j, r[0]), history=hist[-6:], size=(kind, n), expected=r[1], observed=r[2])

    def sized(stack, keys, md):
        last = len(stack) - 1
        for i in sorted({0, 1, last // 2, last}):
            if i > last:
                continue
            for k in keys:
                for o in (("set", k, "new"), ("del", k), ("pop", k), ("setdefault", k, "d"), ("popnone", k)):
                    yield i, o
            for o in (("clear",), ("popitem",), ("update", {k: "u" for k in keys})):
                yield i, o

    stack, md, do, hist = start()
    keys = ("k0", "k3", "own0", "own%d" % (n // 2), "own%d" % (n - 1)) if kind == "layers" else (0, 1, 3, n // 2, n - 1, n, "z0")
    look(stack, md, keys, hist)
    todo = list(sized(stack, keys, md))
    if n > 70 and kind == "keys":
        todo = todo[:: 4]
    for i, o in todo:
        stack, md, do, hist = start() if o[0] in ("clear", "update") else (stack, md, do, hist)
        do(i, o)
        look(stack, md, keys, hist)
    for i in (0, len(stack) - 1):
        for _ in range(len(md.view(i))):
            do(i, ("popitem",))
        look(stack, md, keys, hist)
    st.state((kind, n))


def check(case, st):
    if case[0] in ("layers", "keys"):
        return sizes(case[0], case[1], st)
    nl, nk, nv = case[:3]
    keys, values = KEYSETS[case[3] if len(case) > 3 else 0][:nk], VALUES[:nv]
    todo_ops = ops(keys, values)
    stack = [StackMutableMapping()]
    while len(stack) < nl:
        stack.append(StackMutableMapping(stack[-1]))
    md = Model([{} for _ in range(nl)])
    seen = {(md.key(), canon(stack, {}))}
    models = {md.key()}
    frontier = [(stack, md, ())]
    verify(stack, md, keys, (), None)
    depth = 0
    while frontier:
        nxt = []
        for stack, md, hist in frontier:
            clone = cloner(stack)
            for i in range(nl):
                for o in todo_ops:
                    s2 = clone()
                    m2 = Model([dict(x) for x in md.own])
                    h = (hist, (i, o))
                    got, want = apply(o, s2[i], md.view(i), m2, i)
                    st.c["transitions"] += 1
                    if got != want or (got[0] == "ok" and type(got[1]) is not type(want[1])):
                        raise Violation("an operation has the wrong outcome", history=flat(h), expected=want, observed=got)
                    k = (m2.key(), canon(s2, {}))
                    if k in seen or (len(seen) > 6 * len(models) + 500 and k[0] in models):
                        # This state, with all the implementation keeps, was read before (with what it keeps left out once it keeps
                        # something unbounded, such as a count of the changes).
                        continue
                    models.add(k[0])
                    verify(s2, m2, keys, h, i)
                    seen.add(k)
                    nxt.append((s2, m2, h))
        frontier = nxt
        depth += 1
    st.c["traces"] += nl * len(seen)  # complete readings of a layer
    st.sample({"layers, keys, values": case, "a longest shortest history": flat(h) if todo_ops else []})
    st.c["fixpoints"] += 1
    st.outcomes["depth %d" % depth] += 1
    for k in seen:
        st.state(k)
    constructors(st)


def cloner(stack):
    if not PLAIN:
        return lambda: copy_of(stack, {})
    try:
        kept = pickle.dumps(stack, 5)
        pickle.loads(kept)
        return lambda: pickle.loads(kept)
    except Exception:
        return lambda: copy_of(stack, {})


def verify(stack, md, keys, hist, layer):
    for j, x in enumerate(stack):
        try:
            r = read(x, md.view(j), keys, layer)
        except Exception as ex:
            r = ("an exception", "none", repr(ex))
        if r:
            raise Violation("layer %d reads wrongly: %s" % (j, r[0]), history=flat(hist), expected=r[1], observed=r[2])


def flat(h):
    out = []
    while h:
        out.append(h[1])
        h = h[0]
    return ["layer %d: %r" % x for x in reversed(out)]


def constructors(st):
    a = StackMutableMapping(None)
    a["x"] = 1
    b, c = StackMutableMapping(a), StackMutableMapping(a)
    b["x"] = 2
    del c["x"]
    if (dict(a), dict(b), dict(c)) != ({"x": 1}, {"x": 2}, {}):
        raise Violation("layers over the same parent are not independent", observed=(dict(a), dict(b), dict(c)))
