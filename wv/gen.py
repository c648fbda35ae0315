"""Random programs (lang.py trees), mostly well typed, always terminating."""

from .lang import *  # noqa: F403
from .lang import N
from .ref import Sub

WORDS = ["a", "b", "foo", "Bar", "x y", "", "AbC", "zz", "q'", 'd"q', "é", "ß", "\\", "n\n", "%d", "{}", "|p", "日本", "tab\t", "\U0001f600", "a\U0001d538b"]
NAMES = ["Alpha", "beta", "Gamma Ray", "00 Core", "10 Extra", "Straße", "ÉTÉ", "x", "İx", "strat"]
FILES = ["a.esp", "B.esm", "c.esl", "d.txt", "sub/E.esp", "F.ESP", "textures/t.dds", "G.esp", "h.esm", "i i.esp", "docs/readme.txt", "K.esp.bak", "sub/dir/l.esl", "straße.esp", "İz.esm", "ÉTÉ.esl", "Strat.esp"]

KWS = [
    "SelectSubPackage", "DeSelectSubPackage", "SelectPlugin", "DeSelectPlugin", "SelectAll", "DeSelectAll", "SelectAllPlugins", "DeSelectAllPlugins",
    "Note", "RenamePlugin", "RenamePlugin", "ResetPluginName", "ResetAllPluginNames", "RequireVersions",
]

DEFAULT = dict(
    # weights of statements
    assign=6, compound=2, incdec=1.5, expr=1, if_=2.5, while_=1, forrange=1.5, forin=1,
    select=0.8, exec_=0, kw=0, break_=1, continue_=0.7, return_=0.08, cancel=0.08,
    ini=0,
    # expressions
    depth=3, effects=0.0, manager=0.0, floats=0.15, subw=0.3, errors=0.0, unset=0.0,
    # sizes
    body=4, nest=4, total=60, loopmax=5,
    # probability of some of the features which are off
    mix=0.0,
    # probability of tracing the literals of the program
    trace=0.0,
)
MIX = dict(
    kw=1.5, ini=0.5, exec_=0.4, effects=0.6, manager=0.4, select=0.7, floats=0.15, unset=0.03, while_=0.8, forrange=0.8, forin=0.8,
    break_=1, continue_=0.7, if_=1.5, compound=1.5, subw=0.3,
)


def recase(r, n):
    """Another spelling of a name."""
    return r.choice([
        n, n, n.lower(), n.upper(), n.swapcase(), n.casefold(), n.title(), n.replace("ß", "ss"), n.replace("ß", "ẞ"),
    ])


def make_subs(rnd, n=None, collide=0.15):
    """Subpackages with distinct names (whatever the case)."""
    n = rnd.choice([0, 1, 2, 3, 3, 4, 6]) if n is None else n
    names = rnd.sample(NAMES, min(n, len(NAMES)))
    while len(names) < n:
        names.append("Pkg %d" % len(names))
    out = []
    for nm in names:
        fs = rnd.sample(FILES, rnd.randint(0, min(6, len(FILES))))
        if rnd.random() < collide:
            fs.append("A.ESP" if rnd.random() < 0.3 else "x/a.esp")
        if rnd.random() < 0.1:
            fs += ["p%d.esp" % i for i in range(rnd.randint(5, 30))]
        out.append(Sub(nm, fs))
    return out


class Gen:
    def __init__(self, rnd, subs=(), **profile):
        self.r = rnd
        self.p = dict(DEFAULT)
        self.p.update(profile)
        if rnd.random() < self.p["mix"]:
            for k, v in MIX.items():
                if rnd.random() < 0.4:
                    self.p[k] = max(self.p[k], v * rnd.choice([0.3, 1, 2]) if k not in ("floats", "unset", "subw") else v)
        if "kws" not in self.p and rnd.random() < 0.25:
            # few keywords, so that they interact
            self.p["kws"] = [(1, k) for k in rnd.sample(KWS, rnd.choice([1, 2, 2, 3, 4]))]
        self.subs = list(subs)
        self.left = self.p["total"]
        self.nvar = {"i": 0, "s": 0, "b": 0, "f": 0, "w": 0, "p": 0, "c": 0}
        self.known = {"i": [], "s": [], "b": [], "f": [], "p": [], "c": []}
        self.frozen = set()  # loop counters: not to be modified
        self.nexec = 0

    def w(self, choices):
        """Weighted choice among (weight, thing)."""
        choices = [(a, b) for a, b in choices if a > 0]
        x = self.r.random() * sum(a for a, _ in choices)
        for a, b in choices:
            x -= a
            if x <= 0:
                return b
        return choices[-1][1]

    # ----------------------------------------------------------- expressions
    def var(self, t):
        k = self.known[t]
        if self.p["unset"] and self.r.random() < self.p["unset"]:
            return Var(t + str(self.r.randint(90, 95)))
        if k:
            return Var(self.r.choice(k))
        return None

    def expr(self, t, d=None):
        if d is None:
            d = self.p["depth"]
        if self.p["errors"] and self.r.random() < self.p["errors"]:
            t = self.r.choice("isbfp")
        return getattr(self, "x_" + t)(d)

    def num(self, d):
        return self.expr("f" if self.r.random() < self.p["floats"] else "i", d)

    def x_i(self, d):
        r = self.r
        p = self.p
        leaf = [
            (3, lambda: Int(r.choice([0, 1, 2, 3, 4, 5, 7, 10, 12]))),
            (0.2, lambda: Int(r.choice([99, 255, 1000, 65536, 10**9, 2**31, 2**63]))),
            (4, lambda: self.var("i") or Int(1)),
        ]
        if d <= 0:
            return self.w(leaf)()
        e = self.expr
        return self.w(
            leaf
            + [
                (3, lambda: Bin(r.choice("+-*"), e("i", d - 1), e("i", d - 1))),
                (0.7, lambda: Bin("%", e("i", d - 1), Int(r.choice([2, 3, 5, 7])))),
                (0.3, lambda: Bin("^", e("i", d - 1), Int(r.choice([0, 1, 2, 3])))),
                (0.7, lambda: Neg(e("i", d - 1))),
                (0.2, lambda: Par(e("i", d - 1))),
                (0.4, lambda: Call("len", e("s", d - 1))),
                (0.2, lambda: Meth(e("s", d - 1), "len")),
                (0.25, lambda: self.find(d)),
                (0.15, lambda: Call("int", e(r.choice("ibf"), d - 1))),
                (0.15, lambda: Bin("+", e("b", d - 1), e("i", d - 1))),
                (p["effects"], lambda: self.incdec_x()),
                (p["manager"], lambda: self.manager_i(d)),
            ]
        )()

    def find(self, d):
        args = [self.expr("s", d - 1), self.expr("s", 0)]
        n = self.r.randint(0, 2)
        for _ in range(n):
            args.append(self.expr("i", 0))
        nm = self.r.choice(["find", "rfind"])
        if self.r.random() < 0.5:
            return Meth(args[0], nm, *args[1:])
        return Call(nm, *args)

    def incdec_x(self):
        ks = list(self.known["c"])
        if self.r.random() < 0.3:
            ks += [k for k in self.known["i"] if k not in self.frozen]
        if not ks:
            return Int(1)
        return IncDec(self.r.choice(["++", "--"]), self.r.choice(ks), self.r.random() < 0.5)

    def tag(self):
        """A distinct argument, to tell calls apart in the trace."""
        self.ntag = getattr(self, "ntag", 0) + 1
        return Str("t%d" % self.ntag)

    def manager_i(self, d):
        f = self.r.choice(
            ["CompareGameVersion", "CompareSEVersion", "CompareGEVersion", "CompareWBVersion", "GetPluginStatus", "GetEspmStatus", "GetPluginLoadOrder"]
        )
        a = self.tag() if self.r.random() < 0.7 else self.expr("s", d - 1)
        if f == "GetPluginLoadOrder" and self.r.random() < 0.5:
            return Call(f, a, self.expr("i", d - 1))
        return Call(f, a)

    def manager_s(self, d):
        f = self.r.choice(["GetFilename", "GetFolder"])
        return Call(f, self.tag() if self.r.random() < 0.7 else self.expr("s", d - 1))

    def manager_b(self, d):
        return Call(
            "DataFileExists",
            *[self.tag() if self.r.random() < 0.7 else self.expr("s", d - 1) for _ in range(self.r.choice([1, 1, 2, 3]))],
        )

    def x_f(self, d):
        r = self.r
        leaf = [
            (2, lambda: Dec(str(r.choice([0, 1, 2, 10])), r.choice(["0", "5", "25", "125", "1"]))),
            (2, lambda: self.var("f") or Dec("1", "5")),
        ]
        if d <= 0:
            return self.w(leaf)()
        e = self.expr
        return self.w(
            leaf
            + [
                (2, lambda: Bin(r.choice("+-*"), e("f", d - 1), self.num(d - 1))),
                (2, lambda: Bin(r.choice("+-*"), self.num(d - 1), e("f", d - 1))),
                (1.5, lambda: Bin("/", self.num(d - 1), Int(r.choice([1, 2, 3, 4, 10])))),
                (0.3, lambda: Bin("%", e("f", d - 1), Int(3))),
                (0.2, lambda: Bin("^", e("f", d - 1), Int(2))),
                (0.3, lambda: Neg(e("f", d - 1))),
                (0.3, lambda: Call("float", e("i", d - 1))),
                (0.06, lambda: Call("float", Str(r.choice(["nan", "inf", "-inf"])))),
            ]
        )()

    def word(self):
        r = self.r
        if r.random() < 0.1:
            return "".join(r.choice("abcABC \\'\"é") for _ in range(r.choice([3, 8, 20, 70])))
        return r.choice(WORDS)

    def x_s(self, d):
        r = self.r
        leaf = [(3, lambda: Str(self.word())), (3, lambda: self.var("s") or Str("v"))]
        if self.p["subw"] and self.subs:
            leaf.append((0.3, lambda: Str(r.choice(self.subs).name)))
        if d <= 0:
            return self.w(leaf)()
        e = self.expr
        return self.w(
            leaf
            + [
                (2.5, lambda: Bin("+", e("s", d - 1), e("s", d - 1))),
                (0.8, lambda: Call("str", e(r.choice("iibs"), d - 1))),
                (0.3, lambda: Meth(e(r.choice("ib"), d - 1), "str")),
                (0.5, lambda: Call("lower", e("s", d - 1))),
                (0.3, lambda: Meth(e("s", d - 1), "lower")),
                (0.7, lambda: self.slice(d)),
                (0.3, lambda: Idx(Bin("+", e("s", d - 1), Str("k")), r.choice([Int(0), Neg(Int(1))]))),
                (self.p["manager"], lambda: self.manager_s(d)),
            ]
        )()

    def slice(self, d):
        def part():
            x = self.r.random()
            if x < 0.3:
                return None
            if x < 0.6:
                return Int(self.r.randint(0, 4))
            if x < 0.8:
                return Neg(Int(self.r.randint(1, 4)))
            return self.expr("i", d - 1)

        step = self.r.choice([None, None, Int(1), Int(2), Neg(Int(1)), Neg(Int(2))])
        return Sl(self.expr("s", d - 1), part(), part(), step, self.r.random() < 0.2)

    def x_b(self, d):
        r = self.r
        leaf = [(1, lambda: Bool(r.random() < 0.5)), (2, lambda: self.var("b") or Bool(True))]
        if d <= 0:
            return self.w(leaf)()
        e = self.expr
        cmpop = ["<", "<=", ">", ">=", "==", "!="]
        ch = leaf + [
            (3, lambda: Bin(r.choice(cmpop), self.num(d - 1), self.num(d - 1))),
            (1.5, lambda: Bin(r.choice(cmpop), e("s", d - 1), e("s", d - 1), r.random() < 0.3)),
            (2, lambda: Bin(r.choice(["and", "or"]), e("b", d - 1), e("b", d - 1))),
            (1, lambda: Not(e("b", d - 1))),
            (0.4, lambda: Call(r.choice(["startswith", "endswith"]), *[e("s", d - 1) for _ in range(r.choice([2, 2, 3, 4]))])),
            (0.2, lambda: Meth(e("s", d - 1), r.choice(["startswith", "endswith"]), e("s", 0))),
            (0.2, lambda: Bin(r.choice(["and", "or"]), e(r.choice("isf"), d - 1), e("b", d - 1))),
            (self.p["manager"], lambda: self.manager_b(d)),
        ]
        if self.p["subw"]:
            ch.append((self.p["subw"], lambda: In(self.expr("s", 1), Subs(), r.random() < 0.4)))
            if self.known["p"]:
                ch.append((self.p["subw"], lambda: In(self.expr("s", 1), Var(r.choice(self.known["p"])), r.random() < 0.4)))
            if self.subs and self.p["manager"]:
                ch.append((self.p["subw"], self.in_calls))
        return self.w(ch)()

    def in_calls(self):
        """A membership test whose two sides call the manager."""
        r = self.r
        i = Bin("+", Int(r.randrange(len(self.subs))), Bin("*", self.manager_i(1), Int(0)))
        s = r.choice(self.subs)
        n = Bin("+", Str(r.choice([s.name, ""] + s.files)), Sl(self.manager_s(1), None, Int(0)))
        return In(n, Idx(Subs(), i), r.random() < 0.4)

    def fx(self, text, p=0.35):
        """An expression for the given text, which may have side effects."""
        if not (self.p["effects"] or self.p["manager"]) or self.r.random() > p:
            return Str(text)
        d = self.expr("i", 1)
        x = self.r.random()
        if x < 0.6:
            return Sl(Str(text + "..."), None, Bin("+", Bin("*", d, Int(0)), Int(len(text))))
        if x < 0.8 and self.p["manager"]:
            # one of the two is the empty string
            return Bin("+", Str(text), Sl(self.manager_s(1), Int(0), Int(0)))
        return Bin("+", Sl(Str("..." + text), Bin("+", Int(3), Bin("*", Int(0), d)), None), Str(""))

    def nofx(self, t):
        """An expression without side effects (nor calls to the manager)."""
        old = self.p
        self.p = dict(old, effects=0, manager=0)
        e = self.expr(t, 1)
        self.p = old
        return e

    def x_p(self, d):
        if self.known["p"] and self.r.random() < 0.7:
            return Var(self.r.choice(self.known["p"]))
        if self.subs:
            i = Int(self.r.randrange(len(self.subs)))
            if self.p["effects"] and self.r.random() < 0.3:
                i = Bin("+", i, Bin("*", self.expr("i", 0), Int(0)))
                i.r.l = self.incdec_x()
            return Idx(Subs(), i)
        return Subs()

    # ------------------------------------------------------------ statements
    def new(self, t):
        if self.known[t] and self.r.random() < 0.6:
            c = [n for n in self.known[t] if n not in self.frozen]
            if c:
                return self.r.choice(c)
        self.nvar[t] += 1
        return t + str(self.nvar[t])

    def declare(self, n):
        t = n[0]
        if n not in self.known[t]:
            self.known[t].append(n)

    def prologue(self):
        out = []
        for t in "isbc" + ("f" if self.p["floats"] else ""):
            for _ in range(self.r.randint(1, 2)):
                self.nvar[t] += 1
                n = t + str(self.nvar[t])
                e = self.expr("i" if t == "c" else t, 0 if t != "c" else 0)
                if t == "c":
                    e = Int(self.r.randint(0, 5))
                out.append(Assign(n, e))
                self.declare(n)
        return out

    def program(self, n=None):
        if self.p["mix"] and self.r.random() < 0.1:
            return self.small()
        out = self.prologue()
        out += self.body(0, (), n or self.r.randint(2, self.p["body"] + 2))
        out = fix(out)
        if self.r.random() < max(self.p["trace"], self.p["mix"] * 0.6):
            out = trace(out, self.r, self.r.choice([0.1, 0.4]))
        return out

    def small(self):
        """One to three statements, with nothing before: variables are not set yet."""
        r, p = self.r, self.p
        nvar = [0]
        allowed = {n for _, n in p["kws"]} if p.get("kws") else None
        keywords = [("Note", lambda: Kw("Note", Str(r.choice(["", "n"])))), ("Note", lambda: Kw("Note", Var("x")))]
        keywords += [(n, lambda n=n: Kw(n)) for n in ("SelectAll", "DeSelectAll", "SelectAllPlugins", "ResetAllPluginNames")]
        keywords += [(n, lambda n=n: Kw(n, Str(r.choice(["a.esp", "", "A.ESP"])))) for n in ("SelectPlugin", "DeSelectPlugin", "ResetPluginName")]
        keywords += [(n, lambda n=n: Kw(n, Str(r.choice(["Alpha", "", "BETA"])))) for n in ("SelectSubPackage", "DeSelectSubPackage")]
        keywords += [("RenamePlugin", lambda: Kw("RenamePlugin", Str("a.esp"), Str(r.choice(["", "z"])))), ("RequireVersions", lambda: Kw("RequireVersions", Str(r.choice(["", "1"]))))]
        if allowed is not None:
            keywords = [k for k in keywords if k[0] in allowed]

        def simple():
            ch = [
                lambda: Assign("x", Int(1)), lambda: Assign("x", Bin("+", Var("x"), Int(1))), lambda: Assign(r.choice("xy"), Var(r.choice("xy"))),
                lambda: Compound("+=", "x", Int(1)), lambda: ExprS(IncDec("++", "x")), lambda: ExprS(Int(3)), Return, Return, Cancel, lambda: Cancel(Str("")),
                lambda: Cancel(Str("m")), Break, Continue, lambda: ExprS(Str("a")), lambda: Assign("x", Str("")),
            ]
            if p["kw"]:
                ch += [f for _, f in keywords]
            if p["manager"]:
                ch.append(lambda: Assign("x", Call("GetFolder", Str(r.choice(["", "a"])))))
            return r.choice(ch)()

        def stmt(d):
            if d == 0 or r.random() < 0.3:
                return simple()
            k = r.choice(["if", "if", "while", "for", "for", "in", "in"] + ["select"] * (3 if p["select"] else 0) + ["exec"] * (2 if p["exec_"] else 0))
            nvar[0] += 1
            v = "k%d" % nvar[0]
            if k == "if":
                return If(Bool(r.random() < 0.5), body(d), [(Bool(r.random() < 0.5), body(d)) for _ in range(r.choice([0, 0, 1]))], body(d) if r.random() < 0.4 else None)
            if k == "while":
                return While(Bin("<", Var(v), Int(r.randint(0, 2))), [Assign(v, Bin("+", Var(v), Int(1)))] + body(d))
            if k == "for":
                return ForRange(r.choice(["x", v]), Int(r.randint(0, 2)), Int(r.randint(0, 2)), None, body(d))
            if k == "in":
                return ForIn(r.choice(["x", v]), r.choice([lambda: Subs(), lambda: Str(""), lambda: Str("ab")])(), body(d))
            if k == "exec":
                return Exec(body(d), r.choice(["lit", "split"]))
            opts = [(Str(r.choice(["", "|"]) + n), Str(""), Str("")) for n in r.sample(["a", "b", "c"], r.choice([1, 1, 2, 3]))]
            cases = [Case(Str(r.choice("abc")), body(d) + [Break()] * r.choice([0, 1])) for _ in range(r.choice([1, 1, 2]))]
            return Select(r.random() < 0.5, Str("d"), opts, cases, body(d) if r.random() < 0.4 else None)

        def body(d):
            return fix([stmt(d - 1) for _ in range(r.choice([0, 1, 1, 2]))])

        return fix([stmt(r.choice([0, 1, 1, 2, 3])) for _ in range(r.choice([0, 1, 1, 1, 2, 2, 3]))])

    def body(self, nest, inside, n=None):
        if n is None:
            n = self.r.choice([0, 1, 1, 2, 2, 3, self.p["body"]]) if nest else self.p["body"]
        out = []
        for _ in range(n):
            if self.left <= 0:
                break
            self.left -= 1
            s = self.stmt(nest, inside)
            out.extend(s if isinstance(s, list) else [s])
        return fix(out)

    def stmt(self, nest, inside):
        p = self.p
        deep = nest >= p["nest"]
        ch = [
            (p["assign"], self.s_assign),
            (p["compound"], self.s_compound),
            (p["incdec"], self.s_incdec),
            (p["expr"], self.s_expr),
            (p["kw"], self.s_kw),
            (p["ini"], self.s_ini),
            (p["return_"], lambda: Return()),
            (p["cancel"], lambda: Cancel(self.expr("s", 1) if self.r.random() < 0.7 else None)),
        ]
        if "loop" in inside or "case" in inside:
            ch.append((p["break_"], lambda: self.guard(Break(), nest, inside)))
        if "loop" in inside:
            ch.append((p["continue_"], lambda: self.guard(Continue(), nest, inside)))
        if not deep:
            ch += [
                (p["if_"], lambda: self.s_if(nest, inside)),
                (p["while_"], lambda: self.s_while(nest, inside)),
                (p["forrange"], lambda: self.s_forrange(nest, inside)),
                (p["forin"], lambda: self.s_forin(nest, inside)),
                (p["select"], lambda: self.s_select(nest, inside)),
                (p["exec_"] if self.nexec < 3 else 0, lambda: self.s_exec(nest, inside)),
            ]
        return self.w(ch)()

    def guard(self, s, nest, inside):
        if self.r.random() < 0.6:
            return If(self.expr("b", 1), [s])
        return s

    def s_assign(self):
        t = self.w([(4, "i"), (2.5, "s"), (2, "b"), (self.p["floats"] * 4, "f")])
        e = self.expr(t)
        n = self.new(t)
        self.declare(n)
        return Assign(n, e)

    def s_compound(self):
        r = self.r
        if r.random() < 0.3 and self.known["s"]:
            return Compound("+=", r.choice(self.known["s"]), self.expr("s", 1))
        if self.known["f"] and r.random() < 0.4:
            op = r.choice(["+=", "-=", "*=", "/=", "%=", "^="])
            return Compound(op, r.choice(self.known["f"]), Int(r.choice([1, 2, 3])) if op in ("/=", "%=", "^=") else self.expr("i", 1))
        c = [n for n in self.known["i"] if n not in self.frozen]
        if not c:
            return self.s_assign()
        op = r.choice(["+=", "-=", "*=", "%=", "^="])
        n = r.choice(c)
        if r.random() < 0.2 and self.p["effects"]:
            # the variable changes while the right side is evaluated
            i = IncDec(r.choice(["++", "--"]), n, r.random() < 0.5)
            return Compound(r.choice(["+=", "-=", "*="]), n, r.choice([i, Bin("+", self.expr("i", 1), i), Bin("*", i, Int(2))]))
        e = Int(r.choice([1, 2, 3])) if op in ("%=", "^=") else self.expr("i", 1)
        return Compound(op, n, e)

    def s_incdec(self):
        c = [n for n in self.known["i"] + self.known["c"] if n not in self.frozen]
        if not c:
            return self.s_assign()
        return ExprS(IncDec(self.r.choice(["++", "--"]), self.r.choice(c)))

    def s_expr(self):
        if self.p["manager"]:
            e = self.w([(1, self.manager_i), (1, self.manager_s), (1, self.manager_b)])(2)
            return ExprS(e)
        return ExprS(Call(self.r.choice(["len", "lower", "str"]), self.expr("s", 1)))

    def s_if(self, nest, inside):
        r = self.r
        elifs = [(self.cond(), self.body(nest + 1, inside)) for _ in range(r.choice([0, 0, 1, 2, 3]))]
        els = self.body(nest + 1, inside) if r.random() < 0.5 else None
        return If(self.cond(), self.body(nest + 1, inside), elifs, els)

    def cond(self):
        return self.expr("b" if self.r.random() < 0.85 else self.r.choice("is" + ("f" if self.p["floats"] else "")), 2)

    def s_while(self, nest, inside):
        self.nvar["w"] += 1
        n = "i9%d" % self.nvar["w"]
        self.frozen.add(n)
        self.known["i"].append(n)
        m = self.r.randint(0, self.p["loopmax"])
        if self.r.random() < 0.12:
            # a condition which is not a bool
            c = self.r.choice([Var(n), Par(Var(n)), Bin("*", Var(n), Int(2))] + ([Call("float", Var(n))] if self.p["floats"] else []))
            b = [ExprS(IncDec("--", n))] + self.body(nest + 1, inside + ("loop",))
            return [Assign(n, Int(m)), While(c, fix(b))]
        if self.r.random() < 0.7:
            c = Bin("<", Var(n), Int(m))
            b = [ExprS(IncDec("++", n))] + self.body(nest + 1, inside + ("loop",))
        else:
            c = Bin("<=", IncDec("++", n, self.r.random() < 0.5), Int(m))
            b = self.body(nest + 1, inside + ("loop",))
        if self.r.random() < 0.3:
            c = Bin("and", c, self.expr("b", 1)) if self.r.random() < 0.5 else Bin("and", self.expr("b", 1), c)
        return [Assign(n, Int(0)), While(c, fix(b))]

    def s_forrange(self, nest, inside):
        r = self.r
        n = self.new("i")
        a = r.randint(-2, 6)
        m = self.p["loopmax"]
        x = r.random()
        lit = lambda v: Int(v) if v >= 0 else Neg(Int(-v))  # noqa: E731
        by = None
        if x < 0.4:
            b = a + r.randint(-2, m)
        elif x < 0.6:
            k = r.choice([1, 2, 3])
            b = a + r.randint(-1, m * k)
            by = lit(k)
        else:
            k = r.choice([1, 1, 2, 3])
            b = a - r.randint(-1, m * k)
            by = lit(-k)
        ea, eb = lit(a), lit(b)
        if r.random() < 0.2 and self.known["c"]:
            ea = Var(r.choice(self.known["c"]))
            eb = Bin("+", Var(ea.n), lit(r.randint(-2, m)))
        if self.p["effects"] and r.random() < 0.3 and self.known["c"]:
            ea = IncDec("++", r.choice(self.known["c"]))
            eb = Bin("+", Var(ea.n), lit(r.randint(-1, m)))
        self.declare(n)
        return ForRange(n, ea, eb, by, self.body(nest + 1, inside + ("loop",)))

    def s_forin(self, nest, inside):
        r = self.r
        x = r.random()
        if x < 0.45 and self.p["subw"]:
            self.nvar["p"] += 1
            n = "p%d" % self.nvar["p"]
            self.known["p"].append(n)
            b = self.body(nest + 1, inside + ("loop",))
            self.known["p"].remove(n)
            return ForIn(n, Subs(), b)
        n = self.new("s")
        if x < 0.65 and self.p["subw"] and (self.known["p"] or self.subs):
            e = self.x_p(0)
        else:
            e = self.expr("s", 1)
        self.declare(n)
        return ForIn(n, e, self.body(nest + 1, inside + ("loop",)))

    def s_select(self, nest, inside):
        r = self.r
        many = r.random() < 0.5
        names = r.sample(["o1", "o2", "Opt 3", "", "é", "|x", "O1", "long option"], r.choice([1, 2, 3, 3, 4, 6]))
        if r.random() < 0.25:
            # names which differ by little
            n = r.choice(names)
            o = r.choice([n, n, n + " ", " " + n, n.upper(), n.lower(), n.swapcase(), n + n[:1], n[:-1], n + "\u0301", n.replace("é", "e\u0301")])
            if o not in names or r.random() < 0.5:
                names.insert(r.randint(0, len(names)), o)
        opts = []
        ndef = 0
        for n in names:
            d = r.random() < (0.4 if many else 0.25)
            if not many and ndef and r.random() < 0.8:
                d = False
            spell = ("|" if d else "") + n
            ndef += spell.startswith("|")
            opts.append(
                (self.fx(spell), self.expr("s", 1 if self.p["effects"] else 0), self.fx(r.choice(["", " ", "img.png", "\t\n"])))
            )
        labels = [n.lstrip("|") if not n.startswith("|") else n[1:] for n in names]
        labels = [n[1:] if n.startswith("|") else n for n in names]
        labels = list(dict.fromkeys(labels))
        r.shuffle(labels)
        if r.random() < 0.3:
            labels = labels[: r.randint(0, len(labels))]
        if r.random() < 0.15:
            labels.append(r.choice(["none", "O2", "o1"]))
        if r.random() < 0.15 and labels:
            n = r.choice(labels)
            o = r.choice([n, n + " ", " " + n, n.swapcase(), n[:-1]])
            labels.insert(r.randint(0, len(labels)), o)
        cases = []
        for lb in labels:
            b = self.body(nest + 1, inside + ("case",))
            x = r.random()
            if x < 0.7:
                b = b + [Break()]
            if x > 0.9:
                b = b + [If(self.expr("b", 1), [Break()])]
            e = Str(lb)
            if r.random() < 0.15:
                k = r.randint(0, len(lb))
                e = Bin("+", Str(lb[:k]), Str(lb[k:]))
            else:
                e = self.fx(lb)
            cases.append(Case(e, fix(b)))
        default = None
        if r.random() < 0.5:
            default = self.body(nest + 1, inside + ("case",))
            if r.random() < 0.6:
                default = fix(default + [Break()])
        return Select(many, self.expr("s", 1), opts, cases, default)

    def s_exec(self, nest, inside):
        self.nexec += 1
        b = self.body(nest + 1, inside, self.r.choice([0, 1, 2, 3, 4]))
        self.nexec -= 1
        mode = self.r.choice(["lit", "lit", "split"])
        if self.r.random() < 0.25 and self.nexec == 0:
            n = self.new("i")
            self.declare(n)
            b = fix([Assign(n, Hole(self.expr("i", 1)))] + b)
        return Exec(b, mode)

    def name_sub(self):
        r = self.r
        if self.known["p"] and r.random() < 0.3:
            return Var(r.choice(self.known["p"]))
        if self.subs and r.random() < 0.92:
            n = r.choice(self.subs).name
            return self.fx(recase(r, n))
        return self.fx(r.choice(["missing", "", "alph"]))

    def name_plugin(self):
        r = self.r
        fs = [f.rsplit("/", 1)[-1] for s in self.subs for f in s.files]
        if fs and r.random() < 0.9:
            n = r.choice(fs)
            return self.fx(recase(r, n))
        return self.fx(r.choice(["missing.esp", "", "a"]))

    def s_kw(self):
        r = self.r
        k = self.w(self.p.get("kws") or [
            (2, "SelectSubPackage"), (1, "DeSelectSubPackage"), (1.5, "SelectPlugin"),
            (1, "DeSelectPlugin"), (0.3, "SelectAll"), (0.2, "DeSelectAll"),
            (0.3, "SelectAllPlugins"), (0.2, "DeSelectAllPlugins"), (1, "Note"),
            (1, "RenamePlugin"), (0.5, "ResetPluginName"), (0.2, "ResetAllPluginNames"),
            (0.3, "RequireVersions"),
        ])
        if "SubPackage" in k:
            return Kw(k, self.name_sub())
        if k == "RequireVersions":
            return Kw(k, *[self.fx(r.choice(["1.0", "", "2.3.4"])) for _ in range(r.randint(1, 4))])
        if k in ("SelectPlugin", "DeSelectPlugin", "ResetPluginName"):
            if "Plugin" in k and r.random() < 0.4:
                k = {"SelectPlugin": "SelectEspm", "DeSelectPlugin": "DeSelectEspm", "ResetPluginName": "ResetEspmName"}[k]
            return Kw(k, self.name_plugin())
        if k == "RenamePlugin":
            if r.random() < 0.4:
                k = "RenameEspm"
            return Kw(k, self.name_plugin(), self.name_plugin() if r.random() < 0.3 else self.expr("s", 1))
        if k == "Note":
            t = "s" if r.random() < 0.85 else r.choice("ib")
            return Kw(k, self.expr(t, 1))
        if r.random() < 0.3:
            k = {"SelectAllPlugins": "SelectAllEspms", "DeSelectAllPlugins": "DeSelectAllEspms", "ResetAllPluginNames": "ResetAllEspmNames"}.get(k, k)
        return Kw(k)

    def s_ini(self):
        r = self.r
        f = Str(r.choice(["Skyrim.ini", "skyrim.INI", "SKYRIM.INI", "My Ini.ini", "x\\y.ini", "a/b.ini"]))
        sec = Str(r.choice(["General", "Display", ""]))
        st = Str(r.choice(["bA", "iB", "fC"]))
        if r.random() < 0.3:
            f, sec, st = self.fx(f.v), self.fx(sec.v), self.fx(st.v)
        if r.random() < 0.4:
            return ExprS(Call("DisableINILine", f, sec, st))
        v = self.expr(r.choice("isbf"), 1)
        args = [f, sec, st, v]
        if r.random() < 0.5:
            args.append(Str(r.choice(["", "comment", "; c"])))
        return ExprS(Call("EditINI", *args))


def fix(body):
    """Separate the statements which would be taken for arguments."""
    out = []
    for s in body:
        if out and s.k in ("expr", "exec", "dyn"):
            p = out[-1]
            if (p.k == "kw" and not p.args) or (p.k == "cancel" and p.e is None):
                out.append(Assign("i0", Int(0)))
        out.append(s)
    return out


def chain(r, ask=False):
    """
    A few constructs in each other, with a jump in the innermost one (directly, or
    in an If on a counter), and marks before and after everything.
    """
    ids = [0]

    def mark():
        ids[0] += 1
        return Compound("+=", "s0", Str(chr(64 + ids[0]) if ids[0] < 26 else "~%d~" % ids[0]))

    kinds = [r.choice(["for", "for", "forin", "while", "one", "many", "many", "exec", "if", "else"]) for _ in range(r.randint(1, 4))]
    loops = [k for k in kinds if k in ("for", "forin", "while")]
    ends = ["return", "cancel"]
    if loops:
        ends += ["continue"] * 5
    if loops or "one" in kinds or "many" in kinds:
        ends += ["break"] * 5
    nvar = [0]
    asked = ask and r.random() < 0.3
    if asked:
        # a Break, or not, in a Case
        kinds = kinds[: r.randint(0, 2)] + [r.choice(["one", "many"])]
        ends = ["break"]

    def jump():
        k = r.choice(ends)
        s = {"return": lambda: Return(), "cancel": lambda: Cancel(Str("c")), "continue": lambda: Continue(), "break": lambda: Break()}[k]()
        if asked or r.random() < 0.6:
            n = r.randint(0, 4)
            c = Bin(r.choice(["==", ">=", "<="]), Var("n0"), Int(n))
            if asked or ask and r.random() < 0.7:
                c = Bin(">=", Call("CompareGameVersion", Str(r.choice("123"))), Int(r.choice([0, 1])))
            g = If(c, [s])
            if r.random() < 0.3:
                g.els = [mark()]
            return [Compound("+=", "n0", Int(1)), g]
        return [s]

    def seq(inner):
        b = ([mark()] if r.random() < 0.8 else []) + inner + ([mark()] if r.random() < 0.8 else [])
        return b

    def wrap(k, body):
        nvar[0] += 1
        v = "k%d" % nvar[0]
        if k == "for":
            return [ForRange(v, Int(0), Int(r.choice([0, 1, 2, 3])), None, seq(body) + ([Compound("+=", "s0", Call("str", Var(v)))] if r.random() < 0.5 else []))]
        if k == "forin":
            return [ForIn(v, Subs(), seq(body))]
        if k == "while":
            b = [Compound("+=", v, Int(1))] + seq(body)
            return [Assign(v, Int(0)), While(Bin("<", Var(v), Int(r.choice([1, 2, 3]))), b)]
        if k == "if":
            return [If(Bool(True), seq(body), [], [mark()] if r.random() < 0.3 else None)]
        if k == "else":
            return [If(Bool(False), [mark()], [], seq(body))]
        if k == "exec":
            return [Exec(fix(seq(body)), r.choice(["lit", "split"]))]
        many = k == "many"
        n = r.choice([1, 2, 2, 3, 3])
        names = ["a%d" % i for i in range(n)]
        labels = names + [r.choice(names) for _ in range(r.choice([0, 1, 1, 2]))]
        if r.random() < 0.5:
            r.shuffle(labels)
        at = r.randrange(len(labels) + 1)
        cases = []
        for i, lb in enumerate(labels):
            b = seq(body) if i == at else [mark()]
            if r.random() < 0.6:
                b.append(Break())
            cases.append(Case(Str(lb), fix(b)))
        d = None
        if at == len(labels):
            d = seq(body)
        elif r.random() < 0.4:
            d = [mark()]
        if d is not None and r.random() < 0.3:
            d.append(Break())
        return [Select(many, Str("d"), [(Str(("|" if r.random() < (0.5 if many else 0.2) else "") + o), Str(""), Str("")) for o in names], cases, fix(d) if d else None)]

    body = seq(jump())
    for k in reversed(kinds):
        body = wrap(k, body)
        if r.random() < 0.2:
            body = body + jump0(r, mark)
    return fix([Assign("s0", Str("")), Assign("n0", Int(0))] + seq(body))


def jump0(r, mark):
    return [If(Bin("==", Var("n0"), Int(r.randint(1, 5))), [Return()]), mark()]


def trace(prog, r, prob):
    """
    The same program with some of its literals written as expressions which have the
    same value and a visible effect: when and how many times they are evaluated shows.
    """
    n = 0

    def effect():
        if r.random() < 0.5:
            return IncDec(r.choice(["++", "++", "--"]), "e0", r.random() < 0.5)
        nonlocal n
        n += 1
        return Call(r.choice(["CompareGameVersion", "CompareSEVersion", "GetPluginStatus"]), Str("t%d" % n))

    def new(x):
        if x.k == "int":
            k = effect()
            # (sometimes, the value shows the order)
            if r.random() < 0.15 and k.k == "incdec":
                return Bin("+", Bin("%", k, Int(2)), x)
            return Bin("+", Bin("*", k, Int(0)), x)
        if x.k == "bool":
            return Bin("==", Bin("*", effect(), Int(0)), Int(0 if x.v else 1))
        f = Call("GetFolder", Str("t%d" % r.randint(0, 99))) if r.random() < 0.4 else Call("str", effect())
        f = Sl(f, None, Int(0))
        return Bin("+", f, x) if r.random() < 0.3 else Bin("+", x, f)

    def go(x, lit):
        if isinstance(x, N):
            if x.k in ("int", "str", "bool"):
                return new(x) if not lit and r.random() < prob else x
            for a, b in list(x.__dict__.items()):
                if a in ("k",) or a.startswith("_"):
                    continue
                if isinstance(b, (N, list, tuple)):
                    setattr(x, a, go(b, lit or (x.k == "exec" and a == "pieces")))
            return x
        if isinstance(x, tuple):
            return tuple(go(y, lit) for y in x)
        if isinstance(x, list):
            return [go(y, lit) for y in x]
        return x

    return [Assign("e0", Int(0))] + go(prog, False)


class AnyGen(Gen):
    """Expressions whose operands may have any type, including the wrong one."""

    FNS = ["str", "int", "float", "len", "startswith", "endswith", "lower", "find", "rfind"]

    def atom(self, void=True):
        r = self.r
        return self.w(
            [
                (3, lambda: Int(r.choice([0, 1, 2, 3, 5, 10]))),
                (1, lambda: Neg(Int(r.choice([1, 2, 3])))),
                (0.3, lambda: Int(r.choice([255, 65536, 2**31, 2**63, 10**20]))),
                (1.5, lambda: self.x_f(0)),
                (1.5, lambda: Bool(r.random() < 0.5)),
                (3, lambda: Str(r.choice(["", "a", "A", "abc", "ABC", "12", "-3", "1.5", "é", "É", "ß", "x y", "ab", "\U0001f600", "a\U0001d538b", "e\u0301", "inf", "nan", "1e3", " 12 ", "1_0", "0x10", "٣"]))),
                (1, lambda: Subs()),
                (1.5 if self.subs else 0, lambda: Idx(Subs(), Int(r.randrange(len(self.subs))))),
                (1 if self.subs else 0, lambda: self.subname()),
                (0.4 if void else 0, lambda: Call("DisableINILine", Str("f"), Str("s"), Str("t"))),
                (2, lambda: self.anyvar()),
                (0.2, lambda: Var("nope%d" % r.randint(0, 2))),
            ]
        )()

    def subname(self):
        s = self.r.choice(self.subs)
        n = self.r.choice([s.name] + s.files)
        return Str(self.r.choice([n, n, n.upper(), n.lower()]))

    def anyvar(self):
        k = [n for t in "isbfpc" for n in self.known[t]]
        return Var(self.r.choice(k)) if k else Int(4)

    def anyx(self, d):
        r = self.r
        if d <= 0 or r.random() < 0.2:
            return self.atom()
        if r.random() < 0.25:
            return self.expr(r.choice("isbf"), d)
        a = self.anyx
        return self.w(
            [
                (6, lambda: Bin(r.choice("+-*/%^"), a(d - 1), a(d - 1))),
                (4, lambda: Bin(r.choice(["<", "<=", ">", ">=", "==", "!="]), a(d - 1), a(d - 1), r.random() < 0.25)),
                (2, lambda: Bin(r.choice(["and", "or"]), a(d - 1), a(d - 1))),
                (1.5, lambda: In(a(d - 1), r.choice([Subs(), self.x_p(0), a(0)]), r.random() < 0.4)),
                (1, lambda: Neg(a(d - 1))),
                (1, lambda: Not(a(d - 1))),
                (1.5, lambda: Idx(a(d - 1), r.choice([Int(r.randint(0, 3)), Neg(Int(r.randint(1, 3))), a(0)]))),
                (1.5, lambda: self.anyslice(d)),
                (0.5, lambda: Par(a(d - 1))),
                (1, lambda: self.anyincdec()),
                (1, lambda: self.anycall(d)),
            ]
        )()

    def anyincdec(self):
        k = [n for t in "isbfc" for n in self.known[t]] + ["nope3"]
        return IncDec(self.r.choice(["++", "--"]), self.r.choice(k), self.r.random() < 0.5)

    def anyslice(self, d):
        r = self.r

        def part():
            x = r.random()
            if x < 0.35:
                return None
            if x < 0.6:
                return Int(r.randint(0, 5))
            if x < 0.85:
                return Neg(Int(r.randint(1, 5)))
            return self.anyx(d - 1)

        e = self.expr("s", d - 1) if r.random() < 0.7 else self.anyx(d - 1)
        return Sl(e, part(), part(), part() if r.random() < 0.5 else None, r.random() < 0.3)

    def anycall(self, d, fns=None):
        r = self.r
        n = r.choice(fns or self.FNS)
        want = {"find": [2, 2, 3, 4], "rfind": [2, 2, 3, 4], "startswith": [1, 2, 2, 3, 5], "endswith": [1, 2, 2, 3, 5]}.get(n, [1])
        k = r.choice(want)
        if r.random() < 0.08:
            k = r.choice([0, 1, 2, 3, 4, 5])
        args = []
        for i in range(k):
            x = r.random()
            if x < 0.25:
                args.append(self.anyx(d - 1))
            elif x < 0.35 and i and n in ("startswith", "endswith"):
                args.append(self.atom())
            elif n in ("find", "rfind") and i >= 2:
                args.append(r.choice([Int(r.randint(0, 6)), Neg(Int(r.randint(1, 4)))]))
            elif n in ("int", "float"):
                args.append(r.choice([Str(r.choice(["12", "-4", " 7 ", "1_0", "nan", "inf", "-inf", "1e3", "2.5", "", "x", "٣"])), self.expr("f", 0), self.expr("i", 0), self.atom()]))
            elif i == 0:
                args.append(Str("".join(r.choice("abAB") for _ in range(r.randint(0, 9)))) if r.random() < 0.6 else self.expr("s", d - 1))
            else:
                args.append(Str("".join(r.choice("abAB") for _ in range(r.choice([0, 1, 1, 2])))))
        if args and r.random() < 0.4:
            return Meth(args[0], n, *args[1:])
        return Call(n, *args)
