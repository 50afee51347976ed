"""Program terms, their rendering to wizard text and the annotated trees the reference model runs.

Expressions (plain tuples):
  ('i', n) ('d', '2.5') ('s', text) ('raw', literal_source, value) ('b', bool) ('SP',) ('v', name)
  ('bin', op, a, b) ('neg', a) ('not', a) ('bang', a) ('pre', '++'|'--', name) ('post', op, name)
  ('call', f, (args)) ('meth', obj, f, (args)) ('idx', a, i) ('sl', a, start, end, step, two_colons) ('par', a)
Statements:
  ('E', e) ('=', name, e) ('op=', name, '+=', e) ('if', ((cond, body), ...), else_body|None) ('while', e, body)
  ('for', var, a, b, by|None, body) ('forin', var, e, body)
  ('sel', 'SelectOne'|'SelectMany', desc, ((n, d, i), ...), ((label, body), ...), default|None)
  ('break',) ('continue',) ('return',) ('cancel', e|None) ('kw', name, (args))
  ('exec', body)                Exec of the rendered text of body
  ('execx', fn, body)           Exec of the expression fn(text) denoting the rendered text of body
  ('execbad', args)             Exec with arguments that are not one string
  ('broken', (tokens...))       a syntactically broken statement
A body is a tuple of statements.
"""


class N:
    """Node of the annotated tree: kind, fields, index of its first token."""

    __slots__ = ("k", "a", "t")

    def __init__(self, k, a, t):
        self.k, self.a, self.t = k, a, t


PREC = {
    "^": 10, "*": 9, "/": 9, "%": 9, "+": 8, "-": 8,
    ">": 7, ">=": 7, ">:": 7, ">=:": 7, "<": 6, "<=": 6, "<:": 6, "<=:": 6,
    "==": 5, "!=": 5, "==:": 5, "!=:": 5, "or": 4, "|": 4, "and": 3, "&": 3, "in": 2, "in:": 2,
}
P_DOT, P_NEG, P_NOT, P_IDX, P_SL, PRIMARY = 20, 14, 13, 12, 11, 99


def quote(text, q='"'):
    out = []
    for ch in text:
        if ch == "\\":
            out.append("\\\\")
        elif ch == q:
            out.append("\\" + q)
        elif ch == "\n":
            out.append("\\n")
        elif ch == "\t":
            out.append("\\t")
        elif ch == "\r":
            out.append("\\r")
        else:
            out.append(ch)
    return q + "".join(out) + q


class Builder:
    def __init__(self, exec_layout=None):
        self.toks = []  # (text, new_line_before, indent)
        self.nl = True
        self.ind = 0
        self.exec_layout = exec_layout

    def tok(self, text):
        self.toks.append((text, self.nl, self.ind))
        self.nl = False
        return len(self.toks) - 1

    # expressions ------------------------------------------------------------
    @staticmethod
    def prec(e):
        k = e[0]
        if k == "bin":
            return PREC[e[1]]
        if k == "idx":
            return P_IDX
        if k == "sl":
            return P_SL
        if k == "meth":
            return P_DOT
        return PRIMARY

    @staticmethod
    def right_open(e):
        """Tightness of what stands at the right end of the printed form: anything binding tighter than this that
        follows would be captured by it."""
        k = e[0]
        if k == "neg":
            return min(P_NEG, PRIMARY)
        if k in ("not", "bang"):
            return P_NOT
        return PRIMARY

    def left(self, e, q):
        """Left operand of an operator of precedence q."""
        k = e[0]
        if k == "neg":
            return self.sub(e, q >= P_NEG)
        if k in ("not", "bang"):
            return self.sub(e, q >= P_NOT)
        if k == "bin" and e[1] in ("in", "in:"):
            return self.sub(e, True)
        if k == "bin" and self.trail_prefix(e, q):
            return self.sub(e, True)
        return self.sub(e, self.prec(e) < q)

    @staticmethod
    def trail_prefix(e, q):
        # a ^ -b followed by an operator binding tighter than the prefix operator: captured by it.
        while e[0] == "bin":
            e = e[3]
        return (e[0] == "neg" and q >= P_NEG) or (e[0] in ("not", "bang") and q >= P_NOT)

    def right(self, e, p):
        """Operand parsed with minimum precedence p."""
        if e[0] in ("neg", "not", "bang"):
            return self.sub(e, False)
        return self.sub(e, self.prec(e) < p)

    def sub(self, e, paren):
        if paren:
            t = self.tok("(")
            n = self.expr(e)
            self.tok(")")
            return N("par", (n,), t)
        return self.expr(e)

    def expr(self, e):
        k = e[0]
        if k == "i":
            return N(k, (e[1],), self.tok(str(e[1])))
        if k == "d":
            a, b = e[1].split(".")
            t = self.tok(a)
            self.tok(".")
            self.tok(b)
            return N(k, (float(e[1]),), t)
        if k == "s":
            return N("s", (e[1],), self.tok(quote(e[1])))
        if k == "sq":
            return N("s", (e[1],), self.tok(quote(e[1], "'")))
        if k == "raw":
            return N("s", (e[2],), self.tok(e[1]))
        if k == "b":
            return N(k, (e[1],), self.tok("True" if e[1] else "False"))
        if k == "SP":
            return N(k, (), self.tok("SubPackages"))
        if k == "v":
            return N(k, (e[1],), self.tok(e[1]))
        if k == "par":
            t = self.tok("(")
            n = self.expr(e[1])
            self.tok(")")
            return N(k, (n,), t)
        if k == "bin":
            op = e[1]
            q = PREC[op]
            a = self.left(e[2], q)
            colon = op.endswith(":")
            self.tok(op.rstrip(":"))
            if op in ("in", "in:"):
                b = self.right(e[3], 0)
                if colon:
                    self.tok(":")
            else:
                if colon:
                    self.tok(":")
                b = self.right(e[3], q + 1)
            return N(k, ({"|": "or", "&": "and"}.get(op, op), a, b), a.t)
        if k == "neg":
            t = self.tok("-")
            return N(k, (self.right(e[1], P_NEG),), t)
        if k in ("not", "bang"):
            t = self.tok("not" if k == "not" else "!")
            return N("not", (self.right(e[1], P_NOT),), t)
        if k == "pre":
            t = self.tok(e[1])
            self.tok(e[2])
            return N("inc", (e[2], 1 if e[1] == "++" else -1), t)
        if k == "post":
            t = self.tok(e[2])
            self.tok(e[1])
            return N("inc", (e[2], 1 if e[1] == "++" else -1), t)
        if k == "call":
            t = self.tok(e[1])
            return N(k, (e[1], self.args(e[2])), t)
        if k == "meth":
            o = self.left(e[1], P_DOT)
            self.tok(".")
            self.tok(e[2])
            return N(k, (o, e[2], self.args(e[3])), o.t)
        if k == "idx":
            o = self.left(e[1], P_IDX)
            self.tok("[")
            i = self.expr(e[2])
            self.tok("]")
            return N(k, (o, i), o.t)
        if k == "sl":
            o = self.left(e[1], P_SL)
            self.tok("[")
            s = self.expr(e[2]) if e[2] is not None else None
            self.tok(":")
            f = self.expr(e[3]) if e[3] is not None else None
            st = None
            if e[5]:
                self.tok(":")
                st = self.expr(e[4]) if e[4] is not None else None
            self.tok("]")
            return N(k, (o, s, f, st), o.t)
        raise ValueError(e)

    def args(self, args):
        self.tok("(")
        out = self.alist(args)
        self.tok(")")
        return out

    def alist(self, args):
        out = []
        for i, x in enumerate(args):
            if i:
                self.tok(",")
            out.append(self.expr(x))
        return out

    # statements -------------------------------------------------------------
    def body(self, body):
        self.ind += 1
        out = [self.stmt(s) for s in body]
        self.ind -= 1
        return out

    def line(self, text):
        self.nl = True
        return self.tok(text)

    def stmt(self, s):
        self.nl = True
        k = s[0]
        if k == "E":
            t = len(self.toks)
            return N(k, (self.expr(s[1]),), t)
        if k == "=":
            t = self.tok(s[1])
            self.tok("=")
            return N(k, (s[1], self.expr(s[2])), t)
        if k == "op=":
            t = self.tok(s[1])
            self.tok(s[2])
            return N(k, (s[1], s[2][:-1], self.expr(s[3])), t)
        if k == "if":
            t = None
            branches = []
            for c, b in s[1]:
                bt = self.line("If" if t is None else "Elif")
                t = bt if t is None else t
                branches.append((self.expr(c), self.body(b)))
            els = None
            if s[2] is not None:
                self.line("Else")
                els = self.body(s[2])
            self.line("EndIf")
            return N(k, (branches, els), t)
        if k == "while":
            t = self.tok("While")
            c = self.expr(s[1])
            b = self.body(s[2])
            self.line("EndWhile")
            return N(k, (c, b), t)
        if k == "for":
            t = self.tok("For")
            self.tok(s[1])
            h = self.tok("from")
            a = self.expr(s[2])
            self.tok("to")
            e = self.expr(s[3])
            c = None
            if s[4] is not None:
                self.tok("by")
                c = self.expr(s[4])
            b = self.body(s[5])
            self.line("EndFor")
            return N(k, (s[1], a, e, c, b, h), t)
        if k == "forin":
            t = self.tok("For")
            self.tok(s[1])
            h = self.tok("in")
            a = self.expr(s[2])
            b = self.body(s[3])
            self.line("EndFor")
            return N(k, (s[1], a, b, h), t)
        if k == "sel":
            t = self.tok(s[1])
            d = self.expr(s[2])
            opts = []
            for o in s[3]:
                self.tok(",")
                self.nl = True
                opts.append(tuple(self._tuple(o)))
            cases = []
            for lab, b in s[4]:
                self.line("Case")
                le = self.expr(lab)
                cases.append((le, self.body(b)))
            dflt = None
            if s[5] is not None:
                self.line("Default")
                dflt = self.body(s[5])
            self.line("EndSelect")
            return N(k, (s[1] == "SelectMany", d, opts, cases, dflt), t)
        if k == "break":
            return N(k, (), self.tok("Break"))
        if k == "continue":
            return N(k, (), self.tok("Continue"))
        if k == "return":
            return N(k, (), self.tok("Return"))
        if k == "cancel":
            t = self.tok("Cancel")
            return N(k, (self.expr(s[1]) if s[1] is not None else None,), t)
        if k == "kw":
            t = self.tok(s[1])
            return N(k, (s[1], self.alist(s[2])), t)
        if k == "exec":
            p = compile_(s[1], layout=self.exec_layout)
            t = self.tok("Exec")
            self.tok("(")
            a = self.expr(("s", p.text))
            self.tok(")")
            return N(k, (a, p), t)
        if k == "execx":
            p = compile_(s[2], layout=self.exec_layout)
            t = self.tok("Exec")
            self.tok("(")
            a = self.expr(s[1](p.text))
            self.tok(")")
            return N("exec", (a, p), t)
        if k == "execbad":
            t = self.tok("Exec")
            return N(k, (self.args(s[1]),), t)
        if k == "broken":
            t = None
            for x in s[1]:
                t2 = self.tok(x)
                t = t2 if t is None else t
            return N(k, (), t)
        raise ValueError(s)

    def _tuple(self, o):
        for i, x in enumerate(o):
            if i:
                self.tok(",")
            yield self.expr(x)


def default_layout(toks):
    """Text and (line, column) of each token: one statement per line, indentation, single spaces."""
    parts = []
    pos = []
    line, col = 1, 0
    first = True
    prev = None
    for text, nl, ind in toks:
        if nl and not first:
            parts.append("\n")
            line += 1
            col = 0
        if nl:
            sp = "  " * max(0, ind)
        elif glue(prev, text):
            sp = ""
        else:
            sp = " "
        parts.append(sp)
        col += len(sp)
        pos.append((line, col))
        parts.append(text)
        n = text.count("\n")
        if n:
            line += n
            col = len(text) - text.rfind("\n") - 1
        else:
            col += len(text)
        first = False
        prev = text
    parts.append("\n")
    return "".join(parts), pos


def glue(a, b):
    if a in ("(", "[", ".", "!") or b in (")", "]", ",", ".", ":"):
        return True
    if b in ("(", "["):
        return a is not None and (a[-1].isalnum() or a in (")", "]") or a[-1] in "\"'_") and a not in (
            "and", "or", "not", "in", "If", "Elif", "While", "Case", "to", "from", "by", "SelectOne", "SelectMany", "Cancel")
    return False


class Program:
    __slots__ = ("body", "tree", "toks", "text", "pos")

    def __init__(self, body, tree, toks, text, pos):
        self.body, self.tree, self.toks, self.text, self.pos = body, tree, toks, text, pos


def compile_(body, layout=None):
    b = Builder(layout)
    b.ind = -1
    tree = b.body(body)
    text, pos = (layout or default_layout)(b.toks)
    return Program(body, tree, b.toks, text, pos)
