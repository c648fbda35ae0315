"""
Abstract syntax of Wizard programs (as the harness generates them), and a
printer which turns them into a script and records where every node starts.

Nothing here uses the code under test.
"""


class N:
    """A node: kind + named fields."""

    def __init__(self, k, **f):
        self.k = k
        self.__dict__.update(f)

    def __repr__(self):
        return (
            "N("
            + self.k
            + "".join(
                f", {a}={b!r}" for a, b in self.__dict__.items() if a not in ("k",)
            )
            + ")"
        )


# ---------------------------------------------------------------- constructors


def Int(v):
    assert v >= 0
    return N("int", v=v)


def Dec(a, b):
    """a and b are strings of digits."""
    return N("dec", a=a, b=b)


def Str(v, lit=None):
    """lit: the literal to write, quotes included (chosen by the printer if None)."""
    return N("str", v=v, lit=lit)


def Bool(v):
    return N("bool", v=v)


def Subs():
    return N("subs")


def Var(n):
    return N("var", n=n)


def Par(e):
    return N("par", e=e)


def Bin(op, l, r, ci=False):
    return N("bin", op=op, l=l, r=r, ci=ci)


def In(l, r, ci=False):
    return N("in", l=l, r=r, ci=ci)


def Neg(e):
    return N("neg", e=e)


def Not(e):
    return N("not", e=e)


def Idx(e, i):
    return N("idx", e=e, i=i)


def Sl(e, a, b, c=None, two=False):
    return N("sl", e=e, a=a, b=b, c=c, two=two or c is not None)


def IncDec(op, n, pre=False):
    return N("incdec", op=op, n=n, pre=pre)


def Call(n, *args):
    return N("call", n=n, args=list(args))


def Meth(e, n, *args):
    return N("meth", e=e, n=n, args=list(args))


def Hole(e):
    """Inside an Exec text: the value of e (an int), computed before parsing."""
    return N("hole", e=e)


# statements:
def Assign(n, e):
    return N("assign", n=n, e=e)


def Compound(op, n, e):
    return N("compound", op=op, n=n, e=e)


def ExprS(e):
    return N("expr", e=e)


def If(c, body, elifs=(), els=None):
    return N("if", c=c, body=list(body), elifs=list(elifs), els=els)


def While(c, body):
    return N("while", c=c, body=list(body))


def ForRange(n, a, b, by, body):
    return N("forrange", n=n, a=a, b=b, by=by, body=list(body))


def ForIn(n, e, body):
    return N("forin", n=n, e=e, body=list(body))


def Select(many, desc, opts, cases, default=None):
    """opts: list of (expr, expr, expr); cases: list of N('case', e, body)"""
    return N("select", many=many, desc=desc, opts=opts, cases=cases, default=default)


def Case(e, body):
    return N("case", e=e, body=list(body))


def Break():
    return N("break")


def Continue():
    return N("continue")


def Return():
    return N("return")


def Cancel(e=None):
    return N("cancel", e=e)


def Kw(n, *args):
    return N("kw", n=n, args=list(args))


def Exec(body, mode="lit", pieces=None):
    """Exec of the text of `body`; mode says how the argument is written."""
    return N("exec", body=list(body), mode=mode, pieces=pieces)


def Dyn(prefix, i, e):
    """Exec of an assignment of e to the variable named after the value of i."""
    return N("dyn", prefix=prefix, i=i, e=e)


# -------------------------------------------------------------------- printing

PREC = {
    "^": 10,
    "*": 9,
    "/": 9,
    "%": 9,
    "+": 8,
    "-": 8,
    ">": 7,
    ">=": 7,
    "<": 6,
    "<=": 6,
    "==": 5,
    "!=": 5,
    "or": 4,
    "and": 3,
}

SIMPLE_ESCAPES = {"\a": "\\a", "\b": "\\b", "\f": "\\f", "\n": "\\n", "\r": "\\r", "\t": "\\t"}


def quote(text, rnd=None, q=None):
    """A literal for the text."""
    if q is None:
        q = rnd.choice("'\"") if rnd else "'"
    out = []
    for i, c in enumerate(text):
        if c == "\\":
            out.append("\\\\")
        elif c == q:
            out.append("\\" + q)
        elif c in SIMPLE_ESCAPES and not (c in "\n\t\r\f" and rnd and rnd.random() < 0.3):
            out.append(SIMPLE_ESCAPES[c])
        else:
            out.append(c)
    return q + "".join(out) + q


class Printer:
    """
    Produces tokens; `marks` gives for each node (by id) the index of its first
    token, from which positions are known once tokens are laid out.
    """

    def __init__(self, rnd=None, parens=0.0, alt=0.0):
        self.rnd = rnd
        self.parens = parens
        self.alt = alt  # probability of alternative spellings
        self.toks = []
        self.marks = []  # (node, token index)

    def t(self, s, nl=False):
        self.toks.append((s, nl))

    def mark(self, node):
        self.marks.append((node, len(self.toks)))

    def maybe(self):
        return self.rnd is not None and self.rnd.random() < self.parens

    def altp(self):
        return self.rnd is not None and self.rnd.random() < self.alt

    # -- expressions
    def prec(self, e):
        k = e.k
        if k == "bin":
            return PREC[e.op]
        return {"in": 2, "neg": 14, "not": 13, "idx": 12, "sl": 11, "meth": 20}.get(
            k, 99
        )

    def expr(self, e, minp=0, right=False):
        self.mark(("out", e))
        p = self.prec(e)
        prefix = e.k in ("neg", "not")
        need = p < minp and not (prefix and right)
        if e.k == "hole":
            need = False
        if need or self.maybe():
            self.t("(")
            self.expr(e, 0)
            self.t(")")
            return
        self.mark(e)
        getattr(self, "e_" + e.k)(e)

    def e_int(self, e):
        self.t(str(e.v))

    def e_dec(self, e):
        self.t(e.a)
        self.t(".")
        self.t(e.b)

    def e_str(self, e):
        self.t(e.lit if e.lit is not None else quote(e.v, self.rnd))

    def e_bool(self, e):
        self.t("True" if e.v else "False")

    def e_subs(self, e):
        self.t("SubPackages")

    def e_var(self, e):
        self.t(e.n)

    def e_par(self, e):
        self.t("(")
        self.expr(e.e, 0)
        self.t(")")

    def e_hole(self, e):
        self.t(e)  # replaced by the caller

    def e_bin(self, e):
        p = PREC[e.op]
        self.expr(e.l, p)
        op = e.op
        if op in ("or", "and") and self.altp():
            op = {"or": "|", "and": "&"}[op]
        self.t(op)
        if e.ci:
            self.t(":")
        self.expr(e.r, p + 1, right=True)

    def e_in(self, e):
        self.expr(e.l, 3)
        self.t("in")
        self.expr(e.r, 3, right=True)
        if e.ci:
            self.t(":")

    def e_neg(self, e):
        self.t("-")
        self.expr(e.e, 14, right=True)

    def e_not(self, e):
        self.t("!" if self.altp() else "not")
        self.expr(e.e, 13, right=True)

    def e_idx(self, e):
        self.expr(e.e, 12)
        self.t("[")
        self.expr(e.i, 3)
        self.t("]")

    def e_sl(self, e):
        self.expr(e.e, 11)
        self.t("[")
        if e.a is not None:
            self.expr(e.a, 3)
        self.t(":")
        if e.b is not None:
            self.expr(e.b, 3)
        if e.two:
            self.t(":")
            if e.c is not None:
                self.expr(e.c, 3)
        self.t("]")

    def e_incdec(self, e):
        if e.pre:
            self.t(e.op)
            self.t(e.n)
        else:
            self.t(e.n)
            self.t(e.op)

    def args(self, args):
        for i, a in enumerate(args):
            if i:
                self.t(",")
            self.expr(a, 3)

    def e_call(self, e):
        self.t(e.n)
        self.t("(")
        self.args(e.args)
        self.t(")")

    def e_meth(self, e):
        self.expr(e.e, 20)
        self.t(".")
        self.t(e.n)
        self.t("(")
        self.args(e.args)
        self.t(")")

    # -- statements
    def body(self, stmts):
        for s in stmts:
            self.stmt(s)

    def kwt(self, s):
        """First token of a statement: preceded by a newline in normal layouts."""
        self.t(s, nl=True)

    def stmt(self, s):
        i = len(self.toks)
        self.mark(s)
        getattr(self, "s_" + s.k)(s)
        # Newline before the statement:
        if i < len(self.toks):
            self.toks[i] = (self.toks[i][0], True)
        s._ntok = (i, len(self.toks))

    def s_raw(self, s):
        """Raw tokens, for statements the model knows by their effect only."""
        for t in s.toks:
            self.t(t)

    def s_assign(self, s):
        self.t(s.n)
        self.t("=")
        self.expr(s.e)

    def s_compound(self, s):
        self.t(s.n)
        self.t(s.op)
        self.expr(s.e)

    def s_expr(self, s):
        # no parentheses here: "(..." continues the previous line as a call
        self.mark(("out", s.e))
        self.mark(s.e)
        getattr(self, "e_" + s.e.k)(s.e)

    def s_if(self, s):
        self.t("If")
        self.expr(s.c)
        self.body(s.body)
        for c, b in s.elifs:
            self.kwt("Elif")
            self.expr(c)
            self.body(b)
        if s.els is not None:
            self.kwt("Else")
            self.body(s.els)
        self.kwt("EndIf")

    def s_while(self, s):
        self.t("While")
        self.expr(s.c)
        self.body(s.body)
        self.kwt("EndWhile")

    def s_forrange(self, s):
        self.t("For")
        self.t(s.n)
        self.t("from")
        self.expr(s.a)
        self.t("to")
        self.expr(s.b)
        if s.by is not None:
            self.t("by")
            self.expr(s.by)
        self.body(s.body)
        self.kwt("EndFor")

    def s_forin(self, s):
        self.t("For")
        self.t(s.n)
        self.mark(("hdr", s))
        self.t("in")
        self.expr(s.e, 3)
        self.body(s.body)
        self.kwt("EndFor")

    def s_select(self, s):
        self.t("SelectMany" if s.many else "SelectOne")
        self.expr(s.desc, 3)
        for o in s.opts:
            for e in o:
                self.t(",")
                self.expr(e, 3)
        for c in s.cases:
            self.kwt("Case")
            self.expr(c.e)
            self.body(c.body)
        if s.default is not None:
            self.kwt("Default")
            self.body(s.default)
        self.kwt("EndSelect")

    def s_break(self, s):
        self.t("Break")

    def s_continue(self, s):
        self.t("Continue")

    def s_return(self, s):
        self.t("Return")

    def s_cancel(self, s):
        self.t("Cancel")
        if s.e is not None:
            self.expr(s.e)

    def s_kw(self, s):
        self.t(s.n)
        self.args(s.args)

    def s_exec(self, s):
        sub = Printer(self.rnd, self.parens, self.alt)
        sub.body(s.body)
        style = "plain"
        if self.rnd is not None and all(isinstance(t, str) for t, _ in sub.toks):
            style = self.rnd.choice(["plain", "plain", "wild", "compact"])
        parts = layout(sub, self.rnd, style=style)  # list of str / hole nodes
        s._sub = sub
        arg = self.exec_arg(s, parts)
        self.t("Exec")
        self.t("(")
        s._arg = arg
        self.expr(arg)
        self.t(")")

    def s_dyn(self, s):
        self.t("Exec")
        self.t("(")
        self.t(quote(s.prefix, self.rnd))
        self.t("+")
        self.t("str")
        self.t("(")
        self.expr(s.i)
        self.t(")")
        self.t("+")
        self.t(quote(" = ", self.rnd))
        self.t("+")
        self.t("str")
        self.t("(")
        self.expr(s.e)
        self.t(")")
        self.t(")")

    def exec_arg(self, s, parts):
        """The expression which computes the text."""
        exprs = []
        for p in parts:
            if isinstance(p, str):
                if s.mode == "split" and self.rnd and len(p) > 1:
                    n = self.rnd.randint(1, 3)
                    cuts = sorted(self.rnd.randint(0, len(p)) for _ in range(n))
                    for a, b in zip([0] + cuts, cuts + [len(p)]):
                        exprs.append(Str(p[a:b]))
                else:
                    exprs.append(Str(p))
            else:
                c = Call("str", p.e)
                c._holeof = p
                exprs.append(c)
        if not exprs:
            exprs = [Str("")]
        e = exprs[0]
        for x in exprs[1:]:
            e = Bin("+", e, x)
        return e


NOSPACE_BEFORE = {",", ")", "]", "(", "."}
WORD = set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_")


def glue_ok(a, b):
    """Can token b directly follow token a without changing the tokens?"""
    if not a or not b:
        return True
    if a[-1] in WORD and b[0] in WORD:
        return False
    ops = set("+-*/%^<>=!&|:")
    if a[-1] in ops and b[0] in ops:
        return False
    if a == "." or b == ".":
        return True
    return True


def layout(pr, rnd=None, style="plain", eol="\n"):
    """
    Join the tokens. Returns a list of str and hole nodes (usually a single str)
    and sets pr.pos: node -> (line, column).
    """
    out = []
    cur = []
    line, col = 1, 0
    starts = []

    def emit(s):
        nonlocal line, col
        cur.append(s)
        n = s.count("\n")
        if n:
            line += n
            col = len(s) - s.rindex("\n") - 1
        else:
            col += len(s)

    def blank(p):
        if rnd is not None and rnd.random() < p:
            for _ in range(rnd.choice([1, 1, 2, 3])):
                emit(rnd.choice([" ", eol, "\t", "  ", "; c" + eol, ";" + eol, eol + eol]))

    blank(0.15 if style == "plain" else 0.5)
    prev = None
    for i, (tok, nl) in enumerate(pr.toks):
        text = tok if isinstance(tok, str) else "0"
        if prev is not None:
            # separator
            decimal = (prev == "." and text[0].isdigit()) or (
                text == "." and prev[-1:].isdigit()
            )
            if style == "plain":
                if nl:
                    emit(eol)
                elif decimal or text in (",", ")", "]", ".") or prev in ("(", "[", "."):
                    if not glue_ok(prev, text):
                        emit(" ")
                elif text in ("(", "[") and prev[-1] in WORD and i and pr.toks[i - 1][0] not in ("and", "or", "in", "not", "If", "Elif", "While", "Case", "from", "to", "by", "SelectOne", "SelectMany", "Cancel"):
                    pass
                else:
                    emit(" ")
            elif style == "compact":
                if not glue_ok(prev, text):
                    emit(rnd.choice([" ", " ", eol, "\t"]))
                elif nl and rnd.random() < 0.5:
                    emit(eol)
            else:  # wild
                seps = []
                if not glue_ok(prev, text) or rnd.random() < 0.7:
                    for _ in range(rnd.choice([1, 1, 1, 2, 3])):
                        r = rnd.random()
                        if r < 0.45:
                            seps.append(" " * rnd.choice([1, 1, 2, 5]))
                        elif r < 0.55:
                            seps.append("\t")
                        elif r < 0.75:
                            seps.append(eol)
                        elif r < 0.87:
                            seps.append("\\" + eol)
                        else:
                            seps.append(
                                "; "
                                + rnd.choice(
                                    ["c", "EndIf", "'", '"quoted', "x = 1", "\\ x", "é", ""]
                                )
                                + eol
                            )
                if not seps and nl:
                    seps = [eol]
                s = "".join(seps)
                if s:
                    emit(s)
        starts.append((line, col))
        if isinstance(tok, str):
            emit(tok)
        else:
            out.append("".join(cur))
            cur = []
            out.append(tok)
            col += 1
        prev = text
    starts.append((line, col))
    blank(0.05 if style == "plain" else 0.5)
    if style != "plain" and rnd.random() < 0.2:
        emit(eol + "; the end")
    out.append("".join(cur))
    pr.pos = {}
    pr.nodes = [n for n, _ in pr.marks]
    for node, i in pr.marks:
        key = (node[0], id(node[1])) if isinstance(node, tuple) else id(node)
        if key not in pr.pos:
            pr.pos[key] = starts[i]
    pr.starts = starts
    return [p for p in out if p != ""] if len(out) > 1 else out


def render(body, rnd=None, parens=0.0, alt=0.0, style="plain", eol="\n"):
    """Returns (script, printer)."""
    pr = Printer(rnd, parens, alt)
    pr.body(body)
    parts = layout(pr, rnd, style, eol)
    assert len(parts) <= 1 and all(isinstance(p, str) for p in parts), parts
    return (parts[0] if parts else ""), pr


def walk(body):
    """All the nodes of a program."""
    stack = list(body)
    while stack:
        n = stack.pop()
        if isinstance(n, N):
            yield n
            for a, b in n.__dict__.items():
                if a.startswith("_"):
                    continue
                if isinstance(b, (N, list, tuple)):
                    stack.append(b)
        elif isinstance(n, (list, tuple)):
            stack.extend(n)
