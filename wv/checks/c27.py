import itertools
import math
import operator

from ..harness import Check, Violation
from ..rec import RealSub, val
from ..ref import slice_

from wizard.value import SubPackage, SubPackages, Value, VariableType, Void

ERR = object()
HOST = object()
SKIP = object()


def isnum(v):
    return isinstance(v, (int, float))


def spec(op, a, b):
    """What the operator gives, on the values themselves."""
    if op in ("+", "-", "*", "/", "%", "^"):
        if op == "+" and isinstance(a, str) and isinstance(b, str):
            return a + b
        if not isnum(a) or not isnum(b):
            return ERR
        if op == "^" and isinstance(a, int) and isinstance(b, int) and abs(b) * abs(a).bit_length() > 20000:
            return SKIP
        try:
            v = {"+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv, "%": operator.mod, "^": operator.pow}[op](a, b)
        except ArithmeticError:
            return HOST
        return HOST if isinstance(v, complex) else v
    if op in ("<", "<=", ">", ">="):
        if isnum(a) and isnum(b) or isinstance(a, str) and isinstance(b, str):
            return {"<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge}[op](a, b)
        return ERR
    if op in ("equals", "differs"):
        if isinstance(a, SubPackage) or isinstance(b, SubPackage):
            if isinstance(a, SubPackage) and isinstance(b, SubPackage):
                e = a.name.casefold() == b.name.casefold()
            elif isinstance(a, str) or isinstance(b, str):
                e = str(a).casefold() == str(b).casefold()
            elif isinstance(a, (Void, SubPackages)) or isinstance(b, (Void, SubPackages)):
                return SKIP
            else:
                return ERR
        elif isinstance(a, (Void, SubPackages)) or isinstance(b, (Void, SubPackages)):
            return SKIP
        else:
            e = a == b
        return e if op == "equals" else not e
    if op == "and":
        return bool(a) and bool(b)
    if op == "or":
        return bool(a) or bool(b)
    if op == "index":
        if not isinstance(a, (str, SubPackage, SubPackages)) or not isinstance(b, int):
            return ERR
        seq = a.name if isinstance(a, SubPackage) else a
        n = len(seq)
        return seq[b] if -n <= b < n else IndexError
    if op in ("contains", "contains:"):
        if not isinstance(a, (SubPackage, SubPackages)) or not isinstance(b, (str, SubPackage)):
            return ERR
        items = [s.name for s in a] if isinstance(a, SubPackages) else list(a.files)
        b = b.name if isinstance(b, SubPackage) else b
        if op == "contains:":
            return b.lower() in [i.lower() for i in items]
        return b in items
    raise AssertionError(op)


REAL = {
    "+": operator.add, "-": operator.sub, "*": operator.mul, "/": lambda a, b: a.__div__(b), "%": operator.mod, "^": operator.pow,
    "<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge, "equals": lambda a, b: a.equals(b), "differs": lambda a, b: a.not_equals(b),
    "and": operator.and_, "or": operator.or_, "index": lambda a, b: a[b], "contains": lambda a, b: a.contains(b), "contains:": lambda a, b: a.contains(b, True),
}

SUBS = SubPackages([RealSub("Alpha", ["a.esp", "B.txt"]), RealSub("beta", []), RealSub("", ["x"])])
BIG = SubPackages([RealSub("P" * 260 + str(i), ["f%d" % j for j in range(i)]) for i in range(160)])
FIXED = [
    Void(), True, False, 0, 1, 2, 3, -1, -2, 7, 10**6, 2**63, 10**20, -(10**20), 0.0, -0.0, 1.0, 0.5, -1.5, 2.5, 1e300, 1e-9, float("inf"), float("-inf"), float("nan"), "", "a", "A", "b", "abc", "ABC", "alpha", "Alpha",
    2**53, 2**53 + 1, 2.0**53, 2.0**63, 2**63 + 1, 1.0 + 2**-52, 0.1 + 0.2, 0.3, "x" * 300, "x" * 300 + "a", "x" * 300 + "A", BIG[150], BIG,
    "beta", "a.esp", "A.ESP", "0", "é", "É", "ß", "ẞ", SUBS[0], SUBS[1], SUBS[2], SUBS, SubPackages(),
]


def same(got, exp):
    return isinstance(got, Value) and val(got) == val(exp) and str(got.type) == tname(exp) and type(got.value) is type(exp)


def tname(v):
    if isinstance(v, Void):
        return "void"
    if isinstance(v, SubPackages):
        return "SubPackage[]"
    if isinstance(v, SubPackage):
        return "SubPackage"
    return {bool: "bool", int: "integer", float: "float", str: "string"}[type(v)]


class C(Check):
    id = "C27"
    rule = (
        "all the pairs of a list of values of every type, and random ones, under every binary operator; the unary ones, slices,"
        " iteration, equality and types; non-trivial: a pair of values (with the operator) not seen before"
    )
    require = tuple("op " + o for o in REAL) + tuple("error " + o for o in REAL if o not in ("and", "or")) + ("slices", "unary", "iterated", "eq", "exhaustive pairs", "close values")

    def one(self, ctx, op, a, b):
        exp = spec(op, a, b)
        if exp is SKIP:
            return
        va, vb = Value(a), Value(b)
        if a is b:
            # one object, on both sides
            vb = va
        try:
            got = REAL[op](va, vb)
        except TypeError as ex:
            if exp is not ERR and not (exp is HOST and op == "^"):
                raise Violation(f"C27: {a!r} {op} {b!r}: TypeError {ex}")
            ctx.count("error " + op)
        except IndexError as ex:
            if exp is not IndexError or ex.args != (b,):
                raise Violation(f"C27: {a!r} {op} {b!r}: IndexError {ex.args}")
        except (ArithmeticError, ValueError) as ex:
            if exp is not HOST:
                raise Violation(f"C27: {a!r} {op} {b!r}: {ex!r}")
        else:
            if exp is ERR or exp is HOST or exp is IndexError:
                raise Violation(f"C27: {a!r} {op} {b!r}: no error, got {got!r}")
            if not same(got, exp):
                raise Violation(f"C27: {a!r} {op} {b!r}: got {show(got)}, expected {exp!r}")
        # the operands are what they were
        if va.value is not a or vb.value is not b or str(va.type) != tname(a) or str(vb.type) != tname(b):
            raise Violation(f"C27: {a!r} {op} {b!r} changed an operand")
        ctx.count("op " + op)
        ctx.nontrivial((op, repr(a), repr(b)))

    def unary(self, ctx, a):
        v = Value(a)
        ctx.count("unary")
        for name, fn, exp in (
            ("-", operator.neg, -a if isnum(a) and not isinstance(a, bool) else ERR),
            ("+", operator.pos, a if isnum(a) else ERR),
            ("not", lambda x: x.logical_not(), not a),
        ):
            try:
                got = fn(v)
            except TypeError:
                if exp is not ERR:
                    raise Violation(f"C27: {name} {a!r}: TypeError")
                continue
            if exp is ERR or not same(got, exp):
                raise Violation(f"C27: {name} {a!r} gives {show(got)}")
        if bool(v) is not bool(a) or v.is_void() is not isinstance(a, Void) or str(v.type) != tname(a) or v.value is not a:
            raise Violation(f"C27: the value of {a!r}: {v!r}, {v.type}, {bool(v)}, {v.is_void()}")
        try:
            items = list(iter(v))
        except TypeError:
            if isinstance(a, (SubPackage, SubPackages)):
                raise Violation(f"C27: {a!r} cannot be iterated")
        else:
            exp = [s.name for s in a] if isinstance(a, SubPackages) else list(a.files) if isinstance(a, SubPackage) else None
            if exp is None or len(exp) != len(items) or not all(same(x, y) for x, y in zip(items, exp)):
                raise Violation(f"C27: iteration of {a!r}: {items!r}")
            ctx.count("iterated")

    def eq(self, ctx, a, b):
        """Equality as Python values: of the same type and equal."""
        if isinstance(a, Void) and isinstance(b, Void):
            e = True
        elif tname(a) != tname(b):
            e = False
        elif isinstance(a, SubPackage):
            e = a.name.casefold() == b.name.casefold()
        else:
            e = a == b
        x, y = Value(a), Value(b)
        if (x == y) is not e or (x != y) is not (not e) or (x == b) is not e or (x != b) is not (not e):
            raise Violation(f"C27: Value({a!r}) == Value({b!r}): {x == y}, {x != y}, with the object {x == b}, {x != b}")
        ctx.count("eq")

    def slice(self, ctx, a, p):
        v = Value(a)
        args = [None if x is None else Value(x) for x in p]
        ctx.count("slices")
        try:
            got = v.slice(*args)
        except TypeError:
            if isinstance(a, str) and all(x is None or isinstance(x, int) for x in p):
                raise Violation(f"C27: slice {p} of {a!r}: TypeError")
            return
        except ValueError:
            if isinstance(a, str) and all(x is None or isinstance(x, int) for x in p) and p[2] is not None and p[2] == 0:
                return
            raise Violation(f"C27: slice {p} of {a!r}: ValueError")
        if not isinstance(a, str) or not all(x is None or isinstance(x, int) for x in p) or not same(got, slice_(a, *p)):
            raise Violation(f"C27: slice {p} of {a!r} gives {show(got)}")

    def fixed_pairs(self, ctx):
        for a in FIXED:
            self.unary(ctx, a)
        for a, b in itertools.product(FIXED, FIXED):
            ctx.count("exhaustive pairs")
            ctx.evals += 1
            for op in REAL:
                self.one(ctx, op, a, b)
            self.eq(ctx, a, b)
        for a in ("", "a", "abcde", 1, SUBS, SUBS[0], 1.5, Void()):
            for p in itertools.product((None, 0, 1, 2, -1, -3, 9, -9), (None, 0, 1, 3, -1, 9, -9), (None, 1, 2, -1, -2, 0)):
                self.slice(ctx, a, p)
        self.slice(ctx, "abc", ("a", None, None))
        self.slice(ctx, "abc", (None, 1.0, None))
        self.slice(ctx, "abc", (None, None, "1"))
        self.slice(ctx, "abc", (True, None, None))

    def fixed_types(self, ctx):
        if not Value(None).is_void() or str(Value(None).type) != "void" or Value(None) != Value(Void()):
            raise Violation("C27: Value(None) is not void")
        for t in (list, dict, bytes, type(None), complex, object, set):
            try:
                VariableType.from_pytype(t)
            except ValueError:
                continue
            raise Violation(f"C27: {t} has a type")
        for v in FIXED:
            if str(VariableType.from_pytype(type(v))) != tname(v):
                raise Violation(f"C27: type of {v!r}")

    def value(self, r):
        k = r.randrange(9)
        if k == 0:
            return r.choice(FIXED)
        if k <= 2:
            return r.choice([r.randint(-5, 5), r.randint(-(10**6), 10**6), r.getrandbits(70) - (1 << 69), r.randint(1 << 52, 1 << 55)])
        if k <= 4:
            return r.choice([r.uniform(-3, 3), r.uniform(-1e12, 1e12), r.randint(-9, 9) / 4])
        if k <= 6:
            return "".join(r.choice("abAB01é É") for _ in range(r.randint(0, 6)))
        if k == 7:
            return RealSub("".join(r.choice("abAB") for _ in range(r.randint(0, 3))), ["f%d" % r.randint(0, 3) for _ in range(r.randint(0, 3))])
        return r.random() < 0.5

    def close(self, r, a):
        """A value which is nearly a."""
        if isinstance(a, str):
            return r.choice([a.upper(), a.lower(), a.swapcase(), a + "a", a[:-1], a + " ", a.title(), " " + a, a.casefold()])
        if isinstance(a, bool):
            return r.choice([int(a), float(a), not a, str(a)])
        if isinstance(a, int):
            return r.choice([a + 1, a - 1, -a, float(a) if abs(a) < 1 << 900 else a, str(a), bool(a), a + (1 << 64)])
        if isinstance(a, float):
            return r.choice([math.nextafter(a, 1e308), math.nextafter(a, -1e308), -a, int(a) if math.isfinite(a) else a, a + 1e-9, str(a)])
        if isinstance(a, SubPackage):
            return r.choice([a.name, a.name.upper(), RealSub(a.name.swapcase(), list(a.files)), RealSub(a.name, [])])
        return a

    def case(self, ctx):
        r = ctx.rnd
        for _ in range(20):
            a, b = self.value(r), self.value(r)
            if r.random() < 0.3:
                b = self.close(r, a)
                if r.random() < 0.5:
                    a, b = b, a
                ctx.count("close values")
            if r.random() < 0.2:
                b = a
            if r.random() < 0.05:
                a = SubPackages([x for x in (self.value(r) for _ in range(8)) if isinstance(x, SubPackage)])
            for op in REAL:
                self.one(ctx, op, a, b)
            self.eq(ctx, a, b)
            self.unary(ctx, a)
            self.slice(ctx, "".join(r.choice("abc") for _ in range(r.randint(0, 12))), tuple(r.choice([None, r.randint(-15, 15)]) for _ in range(3)))


def show(v):
    return f"{v.value!r} ({v.type})" if isinstance(v, Value) else f"{v!r} (not a Value)"


CHECK = C()
