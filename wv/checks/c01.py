from ..gen import AnyGen
from ..lang import Assign, Bin, Bool, Compound, Dec, In, Int, Neg, Str
from ..model import ModelCheck


INTS = [0, 1, 2, 3, 7, 10, 2**31, 2**53, 2**53 + 1, 10**20]
FLOATS = ["0.0", "0.5", "1.0", "1.5", "2.5", "3.0", "9007199254740993.0", "0.1", "1000000000000000.5"]
TEXTS = ["", "a", "A", "b", "B", "ab", "AB", "aB", "abc", "ABD", "é", "É", "ß", "ss", "SS", "10", "9", " ", "a ", "Z", "_", "İ", "i"]


def operand(r, t):
    if t == "i":
        e = Int(r.choice(INTS))
        return Neg(e) if r.random() < 0.4 else e
    if t == "f":
        e = Dec(*r.choice(FLOATS).split("."))
        return Neg(e) if r.random() < 0.4 else e
    if t == "s":
        return Str(r.choice(TEXTS))
    return Bool(r.random() < 0.5)


def close(r):
    """Two operands which differ by little, or not at all."""

    def num(v, fl):
        e = Dec(str(abs(v)), r.choice(["0", "00"])) if fl else Int(abs(v))
        return Neg(e) if v < 0 else e

    k = r.random()
    if k < 0.6:
        v = r.choice([r.randint(-3, 3), r.randint(-300, 300), 2 ** r.randint(8, 70), -(2 ** r.randint(50, 66)), 10 ** r.randint(3, 25)])
        w = v + r.choice([0, 0, 1, -1, 2, r.randint(-10, 10)])
        if r.random() < 0.15:
            w = -w
        f = r.random() < 0.2
        return "i", num(v, f), num(w, f if r.random() < 0.7 else not f)
    t = "".join(r.choice("abzABZ_[^0 éÉßΣς") for _ in range(r.choice([1, 1, 2, 3, 5, 12])))
    i = r.randrange(len(t))
    u = r.choice([
        t, t.upper(), t.lower(), t.swapcase(), t + r.choice("aA_ "), t[:-1], t[::-1], t[:i] + r.choice("abAB_[") + t[i + 1 :],
        t[:i] + t[i].swapcase() + t[i + 1 :],
    ])
    return "s", Str(t), Str(u)


def pairs(r):
    """One operator at a time on two operands, mostly of types it accepts."""
    prog = []
    for i in range(r.choice([1, 4, 8])):
        a = r.choice("isfib")
        b = a if r.random() < 0.7 else r.choice("isfb")
        ops = ["==", "!=", "and", "or"]
        if {a, b} <= set("if"):
            ops += list("+-*/%^") * 2 + ["<", "<=", ">", ">="]
        elif {a, b} == {"s"}:
            ops += ["<", "<=", ">", ">=", "in", "+"] * 2
        if r.random() < 0.06:
            ops = list("+-*/%^") + ["<", "<=", ">", ">=", "in"]
        op = r.choice(ops)
        x, y = operand(r, a), operand(r, b)
        if r.random() < 0.4:
            a, x, y = close(r)
            b = a
            op = r.choice(["==", "!=", "<", "<=", ">", ">="] * 2 + (list("+-*/%") if a == "i" else ["+"]))
        if op == "^":
            y = r.choice([Int(0), Int(1), Int(2), Int(3), Neg(Int(1)), Neg(Int(2)), Dec("0", "5"), Dec("2", "0"), Neg(Dec("1", "0"))])
        elif op == "*" and {a, b} == {"i", "s"}:
            y = Int(r.choice([0, 1, 3]))
        ci = r.random() < 0.5
        if op == "in":
            e = In(x, y, ci)
        elif op in ("and", "or"):
            e = Bin(op, x, y)
        elif op in "+-*/%^":
            if r.random() < 0.2 and op != "^" and op != "%":
                prog.append(Assign("r%d" % i, x))
                prog.append(Compound(op + "=", "r%d" % i, y))
                continue
            e = Bin(op, x, y)
        else:
            e = Bin(op, x, y, ci)
        prog.append(Assign("r%d" % i, e))
    return prog


class C(ModelCheck):
    id = "C01"
    rule = (
        "random expression trees (well-typed ones of depth up to 7, and ones whose"
        " operands may have any type), printed with the fewest parentheses, their"
        " values assigned to variables; non-trivial: at least one operator evaluated"
    )
    parens = 0.15
    keys = ("vars",)
    require = tuple(
        "op " + o for o in ("+", "-", "*", "/", "%", "^", "<", "<=", ">", ">=", "==", "!=", "and", "or", "in")
    ) + ("status ERROR", "status COMPLETE")

    def program(self, ctx, subs):
        r = ctx.rnd
        g = AnyGen(
            r, subs, mix=0.2, floats=r.choice([0, 0.2, 0.6]), depth=r.choice([1, 2, 3, 4, 5, 7]), unset=r.choice([0, 0, 0.05]),
            subw=0.5, effects=r.choice([0, 0, 0.3]),
        )
        prog = g.prologue()
        n = r.randint(1, 8)
        if r.random() < 0.3:
            return pairs(r)
        if r.random() < 0.35:
            # one operator on two operands of any types
            for i in range(r.randint(1, 3)):
                prog.append(Assign("r%d" % i, g.anyx(1)))
            return prog
        if r.random() < 0.15:
            # a chain of operators without parentheses: precedence, associativity
            for i in range(n):
                k = r.choice([3, 5, 9, 20])
                e = g.num(1)
                for _ in range(k):
                    op = r.choice(["+", "-", "*", "%", "^"] + (["/"] if r.random() < 0.5 else []))
                    x = g.num(1) if op in "+-*" else None
                    if x is None:
                        x = Int(r.choice([1, 2, 3]))
                    e = Bin(op, e, x) if r.random() < 0.6 or op in "^%/" else Bin(op, x, e)
                if r.random() < 0.3:
                    e = Bin(r.choice(["<", ">", "==", "<=", ">=", "!="]), e, g.num(2))
                prog.append(Assign("r%d" % i, e))
            return prog
        for i in range(n):
            x = r.random()
            if x < 0.75:
                prog.append(Assign("r%d" % i, g.expr(r.choice("isbf"))))
            elif x < 0.87:
                prog.append(Assign("r%d" % i, g.anyx(r.choice([1, 2, 3]))))
            else:
                prog.append(g.s_compound())
        return prog

    def observe(self, ctx, script, ref, res, out):
        super().observe(ctx, script, ref, res, out)
        for k in ref.cov:
            if isinstance(k, tuple) and k[0] == "op":
                ctx.count("op " + k[1])
                ctx.count("operands " + " ".join(k[1:]))
            elif isinstance(k, tuple) and k[0] == "in":
                ctx.count("op in")

    def is_nontrivial(self, ref, res, out):
        return any(isinstance(k, tuple) and k[0] in ("op", "in") for k in ref.cov)


CHECK = C()
