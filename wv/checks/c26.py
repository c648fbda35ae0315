from wizard.contexts import (
    WizardAssignmentContext,
    WizardBodyContext,
    WizardBreakContext,
    WizardCancelContext,
    WizardCaseContext,
    WizardCompoundAssignmentContext,
    WizardContinueContext,
    WizardForLoopContext,
    WizardIfContext,
    WizardInterpreterContextFactory,
    WizardKeywordContext,
    WizardReturnContext,
    WizardSelectCasesContext,
    WizardSelectContext,
    WizardTerminationContext,
    WizardWhileLoopContext,
)
from wizard.errors import WizardError, WizardIndexError, WizardNameError, WizardTypeError
from wizard.expr import WizardExpressionVisitor
from wizard.functions import make_basic_functions, optional, wrap_function
from wizard.interpreter import WizardInterpreter
from wizard.keywords import WizardKeywordVisitor
from wizard.severity import SeverityContext
from wizard.state import WizardInterpreterState
from wizard.utils import make_basic_context_factory
from wizard.value import SubPackage, SubPackages, Value, Void

from ..drive import drive
from ..gen import Gen, fix, make_subs
from ..harness import Check, Violation
from ..lang import Call, ExprS, Kw, Meth, render
from ..model import compare, safe
from ..rec import Oracle, Outcome, RealSub, real_subs, ref_state, val
from ..ref import METHODS, MANAGER, VOID, Ref, Sub, typename


class Quiet(SeverityContext):
    def warning(self, text):
        pass


# ------------------------------------------------------------ wrapped functions

TYPES = {
    str: lambda r: r.choice(["", "a", "é"]),
    int: lambda r: r.choice([0, 1, -5, 10**20, True, False]),
    float: lambda r: r.choice([0.0, 2.5]),
    bool: lambda r: r.random() < 0.5,
    object: lambda r: TYPES[r.choice([str, int, float, bool])](r),
    SubPackage: lambda r: RealSub("Pk", ["a.esp"]),
    SubPackages: lambda r: SubPackages([RealSub("Pk", [])]),
}


class Boom(Exception):
    pass


# ------------------------------------------------------------- own components


class OwnState(WizardInterpreterState):
    def __init__(self):
        super().__init__()
        self.items = []

    def copy(self):
        c = super().copy()
        c.items = list(self.items)
        return c


class OwnVisitor(WizardExpressionVisitor):
    """Functions which are methods get the values themselves."""

    def visitStash(self, state, *values):
        for v in values:
            if isinstance(v, Value):
                raise AssertionError("values expected")
            state.items.append(v)
        return len(state.items)

    # the functions of the table come first
    def visitcount(self, state, *values):
        return -1

    def visitlower(self, state, *values):
        return "visitor"

    def visitForget(self, state, n=1):
        del state.items[len(state.items) - n:]


def own_functions():
    fns = make_basic_functions()

    def push(st, vs):
        st.items.extend(v.value for v in vs)
        return Value(len(st.items))

    def peek(st, vs):
        if not st.items:
            raise IndexError("nothing to peek")
        return Value(st.items[-1])

    def count(st, vs):
        return Value(len(vs))

    def strict(st, vs):
        if not all(isinstance(v.value, str) for v in vs):
            raise TypeError("strict() wants strings")
        return Value("".join(v.value for v in vs))

    fns["push"] = push
    fns["peek"] = peek
    fns["count"] = count
    fns["strict"] = strict
    # names of rules of the grammar, for which the visitor has methods
    for n in ("Value", "Expr", "Constant", "DotFunctionCall", "Times"):
        fns[n] = count
    fns["lower"] = lambda st, vs: Value("<" + (vs[0].value if isinstance(vs[0].value, str) else str(vs[0].type)) + ">")  # instead of the basic one
    fns["string.twice"] = lambda st, vs: Value(vs[0].value * 2)
    fns["integer.plus"] = lambda st, vs: Value(vs[0].value + sum(v.value for v in vs[1:]))
    fns["bool.flip"] = lambda st, vs: Value(not vs[0].value)
    fns["float.half"] = lambda st, vs: Value(vs[0].value / 2)
    fns["SubPackage.tag"] = lambda st, vs: Value("#" + vs[0].value.name)
    fns["SubPackage[].size"] = lambda st, vs: Value(len(list(vs[0].value)))
    fns["void.isvoid"] = lambda st, vs: Value(True)
    fns["string.push"] = push
    return fns


OWN_METHODS = {
    ("string", "twice"), ("integer", "plus"), ("bool", "flip"), ("float", "half"), ("SubPackage", "tag"), ("SubPackage[]", "size"),
    ("void", "isvoid"), ("string", "push"),
}


class OwnRef(Ref):
    """st.notes stands for the items."""

    def x_meth(self, e):
        v = self.ev(e.e)
        t = typename(v)
        if (t, e.n) in OWN_METHODS:
            args = [v] + [self.ev(a) for a in e.args]
            self.cov.add(("fn", t + "." + e.n, 0))
            if e.n == "twice":
                return v * 2
            if e.n == "plus":
                s = v
                for a in args[1:]:
                    if not isinstance(a, (int, float)):
                        self.fail("WizardTypeError", e)
                    s = s + a
                return s
            if e.n == "flip":
                return not v
            if e.n == "half":
                return v / 2
            if e.n == "tag":
                return "#" + v.name
            if e.n == "size":
                return len(self.subs)
            if e.n == "isvoid":
                return True
            self.st.notes.extend(args)
            return len(self.st.notes)
        if not (t == "string" and e.n in METHODS) and not (t in ("integer", "float", "bool") and e.n == "str"):
            self.fail("WizardNameError", e, t + "." + e.n)
        args = [v] + [self.ev(a) for a in e.args]
        return self.basic(e, e.n, args)

    def x_call(self, e):
        n = e.n
        if n in MANAGER or n in ("GetPluginLoadOrder", "DataFileExists", "DisableINILine", "EditINI"):
            self.fail("WizardNameError", e, n)
        return Ref.x_call(self, e)

    def push(self, e, args):
        self.st.notes.extend(args)
        return len(self.st.notes)

    def peek(self, e, args):
        if not self.st.notes:
            self.fail("WizardIndexError", e)
        return self.st.notes[-1]

    def forget(self, e, args):
        n = args[0] if args else 1
        if len(args) > 1 or not isinstance(n, int):
            self.fail("WizardTypeError", e)
        k = max(len(self.st.notes) - n, 0) if len(self.st.notes) - n >= 0 else len(self.st.notes) - n
        if k < 0:
            k = max(0, len(self.st.notes) + k)
        del self.st.notes[k:]
        return VOID

    def strict(self, e, args):
        if not all(isinstance(a, str) for a in args):
            self.fail("WizardTypeError", e)
        return "".join(args)

    custom = {
        "push": push,
        "Stash": push,
        "peek": peek,
        "Forget": forget,
        "count": lambda self, e, args: len(args),
        **{n: lambda self, e, args: len(args) for n in ("Value", "Expr", "Constant", "DotFunctionCall", "Times")},
        "strict": strict,
        "lower": lambda self, e, args: "<" + (args[0] if isinstance(args[0], str) else typename(args[0])) + ">",
    }

    # keywords do nothing by default
    def k_nothing(self, *args):
        pass

    k_SelectAll = k_DeSelectAll = k_SelectSubPackage = k_DeSelectSubPackage = k_SelectPlugin = k_RenamePlugin = k_nothing


class OwnGen(Gen):
    def x_i(self, d):
        r = self.r
        if d > 0 and r.random() < 0.2:
            return self.w([
                (2, lambda: Call(r.choice(["push", "Stash"]), *[self.expr(r.choice("isb"), d - 1) for _ in range(r.randint(0, 3))])),
                (1, lambda: Call(r.choice(["count", "count", "Value", "Expr", "Constant", "DotFunctionCall", "Times"]), *[self.expr(r.choice("isb"), d - 1) for _ in range(r.randint(0, 3))])),
                (1, lambda: Meth(self.expr("i", d - 1), "plus", *[self.expr("i", d - 1) for _ in range(r.randint(0, 2))])),
                (1, lambda: Meth(self.expr("s", d - 1), "push", *[self.expr("i", d - 1) for _ in range(r.randint(0, 2))])),
                (0.3, lambda: Meth(self.x_p(0), "size")),
            ])()
        return super().x_i(d)

    def x_s(self, d):
        r = self.r
        if d > 0 and r.random() < 0.2:
            return self.w([
                (1, lambda: Meth(self.expr("s", d - 1), "twice")),
                (1, lambda: Call("lower", self.expr(r.choice("isb"), d - 1))),
                (1, lambda: Call("strict", *[self.expr(r.choice("sssssi"), d - 1) for _ in range(r.randint(0, 3))])),
                (0.5, lambda: Meth(self.x_p(0), "tag")),
                (0.5, lambda: Call("str", Call("push", self.expr("s", d - 1)))),
            ])()
        return super().x_s(d)

    def x_b(self, d):
        if d > 0 and self.r.random() < 0.1:
            return Meth(self.expr("b", d - 1), "flip") if self.r.random() < 0.6 else Meth(Call("Forget"), "isvoid")
        return super().x_b(d)

    def x_f(self, d):
        if d > 0 and self.r.random() < 0.2:
            return Meth(self.expr("f", d - 1), "half")
        return super().x_f(d)

    def s_expr(self):
        r = self.r
        return ExprS(self.w([
            (3, lambda: Call(r.choice(["push", "Stash"]), *[self.expr(r.choice("isbf"), 2) for _ in range(r.randint(1, 3))])),
            (1, lambda: Call("Forget", *[self.expr("i", 0) for _ in range(r.randint(0, 1))])),
            (0.5, lambda: Call("push", Call("peek"))),
            (0.1, lambda: Call(r.choice(["GetFolder", "EditINI", "Peek", "stash"]), self.expr("s", 0))),
            (0.1, lambda: Call("str", Meth(self.expr(r.choice("isb"), 0), r.choice(["half", "twice", "flip", "tag", "count"])))),
        ])())

    def s_kw(self):
        r = self.r
        k = r.choice(["SelectAll", "DeSelectAll", "SelectSubPackage", "DeSelectSubPackage", "SelectPlugin", "RenamePlugin"])
        n = {"SelectAll": 0, "DeSelectAll": 0, "RenamePlugin": 2}.get(k, 1)
        return Kw(k, *[self.expr("s", 1) for _ in range(n)])


KINDS = {
    "cancel": WizardCancelContext, "return": WizardReturnContext, "body": WizardBodyContext, "assignment": WizardAssignmentContext,
    "compound_assignment": WizardCompoundAssignmentContext, "keyword": WizardKeywordContext, "break": WizardBreakContext,
    "continue": WizardContinueContext, "termination": WizardTerminationContext, "for_loop": WizardForLoopContext,
    "while_loop": WizardWhileLoopContext, "if": WizardIfContext, "select": WizardSelectContext, "select_cases": WizardSelectCasesContext,
    "case": WizardCaseContext, "exec": None,
}


class Mark:
    """Mixed in the contexts made by the factory."""


_marked = {}


def marked(cls):
    if cls not in _marked:
        _marked[cls] = type("Own" + cls.__name__, (cls, Mark), {})
    return _marked[cls]


def own_factory(kinds, made, copies=None):
    class OwnFactory(WizardInterpreterContextFactory):
        pass

    if copies is not None:
        # its own way of copying: every context is made or copied by the factory
        def copy_context(self, context, state=None):
            c = super(OwnFactory, self).copy_context(context, state)
            c.made_as = id(c)
            copies.append(1)
            return c

        OwnFactory.copy_context = copy_context

    def wrap(kind):
        def make(self, *args):
            c = getattr(super(OwnFactory, self), "make_%s_context" % kind)(*args)
            c.__class__ = marked(type(c))
            c.own = (kind, len(made))
            c.made_as = id(c)
            made.append(kind)
            return c

        return make

    for k in kinds:
        setattr(OwnFactory, "make_%s_context" % k, wrap(k))
    return OwnFactory


class Trace(list):
    """The contexts visited, and what their states were then."""

    def __init__(self):
        self.snaps = []

    def append(self, c):
        list.append(self, c)
        self.snaps.append(self.look(c))

    @staticmethod
    def look(c):
        return [val(x) for x in c.state.items], {n: val(v) for n, v in c.state.variables.items()}

    def changed(self):
        return next((c for c, s in zip(self, self.snaps) if self.look(c) != s), None)


class C(Check):
    id = "C26"
    rule = (
        "random signatures and arguments of wrapped functions; and random programs with functions, methods, a state and contexts of the"
        " embedder's own, compared with a model which has them; non-trivial: a program with at least 3 own calls"
    )
    require = (
        ("wrapped calls", "wrapped too many", "wrapped missing", "wrapped wrong type", "wrapped extra", "wrapped absent", "wrapped raw", "wrapped void")
        + tuple("own " + k for k in KINDS) + ("programs", "contexts of own class", "copies keep their attributes", "states checked", "function push",
         "function Stash", "function Forget", "function lower", "function strict", "function string.twice", "function SubPackage.tag",
         "function SubPackage[].size", "function void.isvoid", "error WizardNameError", "error WizardTypeError", "error WizardIndexError", "raised", "other states", "made or copied by the factory", "large calls")
    )

    def fixed_basic_factory(self, ctx):
        subs = SubPackages([RealSub("Alpha", ["a.esp"]), RealSub("Beta", [])])
        f = make_basic_context_factory(subs, Quiet())
        i = WizardInterpreter(f)

        def run(s):
            return i.exec_until(i.make_top_level_context(s), []).state.variables

        v = run("n = 0\nFor p in SubPackages\nn += 1\nx = str(p)\nEndFor\nSelectAll\nb = 'Alpha' in SubPackages\n")
        if {k: val(x) for k, x in v.items() if k != "p"} != {"n": ("integer", 2), "x": ("string", "Beta"), "b": ("bool", True)}:
            raise Violation(f"C26: basic factory: {v}")
        for fn in MANAGER:
            try:
                run(f"{fn}('x')")
            except WizardNameError:
                continue
            raise Violation(f"C26: basic factory: {fn} is available")
        if f.severity is None or f.evisitor is None or f.kvisitor is None:
            raise Violation("C26: basic factory: a component is missing")

    def fixed_large(self, ctx):
        """Many functions, many arguments, many calls."""
        log = []

        def fn(k):
            def f(state, values):
                log.append((k, len(values), sorted(state.variables)[-1:]))
                return Value(sum(v.value for v in values) + k)

            return f

        class Ev(WizardExpressionVisitor):
            def visitCount(self, state, *args):
                return len(args)

            def visitLast(self, state, *args):
                return args[-1] if args else None

        for k in range(100):
            # methods by the hundred
            setattr(Ev, f"visitM{k}", lambda self, state, *a, k=k: f"m{k}:" + ",".join(map(str, a)))
        got = []
        table = {f"f{k}": fn(k) for k in range(300)}
        table["joined"] = wrap_function("joined", lambda *a: "".join(a), str, varargs=True)
        table["string.joined"] = table["joined"]
        table["raws"] = wrap_function("raws", lambda *a: Value(len(a)), object, varargs=True, rawargs=True)
        table["wide"] = wrap_function("wide", lambda *a: got.append(a), *([int] * 20 + [optional(str)] * 20))
        i = WizardInterpreter(WizardInterpreterContextFactory(Ev(SubPackages(), table, Quiet()), WizardKeywordVisitor(Quiet()), Quiet()))

        def run(script, **exp):
            v = i.exec_until(i.make_top_level_context(script), []).state.variables
            for n, x in exp.items():
                if n not in v or val(v[n]) != val(x):
                    raise Violation(f"C26: large calls: {n} is {repr(v.get(n))[:300]}, expected {repr(x)[:300]}", script=script[:2000])

        n = 200
        ints = ", ".join(map(str, range(n)))
        strs = ", ".join(f"'{k}'" for k in range(n))
        all_ = "".join(map(str, range(n)))
        run(f"a = f7({ints})\nb = Count({ints})\nc = Last({strs})\nd = joined({strs})\ne = '>'.joined({strs})\nf = raws({ints}, {strs})", a=sum(range(n)) + 7, b=n, c=str(n - 1), d=all_, e=">" + all_, f=2 * n)
        run("\n".join(f"a{k} = f{k}({k})\nb{k} = M{k % 100}({k}, 'x')" for k in range(300)), **{f"a{k}": 2 * k for k in range(300)}, **{f"b{k}": f"m{k % 100}:{k},x" for k in range(300)})
        log.clear()
        run("n = 0\nWhile n < 1500\nn += f1()\nEndWhile", n=1500)
        if log != [(1, 0, ["n"])] * 1500:
            raise Violation(f"C26: a function was called {len(log)} times, expected 1500")
        for k in (19, 20, 21, 33, 40, 41):
            args = [str(j) for j in range(min(k, 20))] + [f"'{j}'" for j in range(20, k)]
            got.clear()
            try:
                run(f"wide({', '.join(args)})")
            except WizardTypeError:
                if 20 <= k <= 40:
                    raise Violation(f"C26: a function which takes 20 to 40 arguments fails with {k}")
                continue
            if not 20 <= k <= 40 or got != [tuple(range(20)) + tuple(str(j) for j in range(20, k))]:
                raise Violation(f"C26: a function which takes 20 to 40 arguments was called with {repr(got)[:300]} for {k}")
        for bad in (0, 7, n - 1):
            args = ["'x'"] * n
            args[bad] = "1"
            try:
                run(f"a = joined({', '.join(args)})")
            except WizardTypeError:
                continue
            raise Violation(f"C26: argument {bad} has the wrong type, without an error")
        ctx.count("large calls")

    def case(self, ctx):
        x = ctx.rnd.random()
        if x < 0.5:
            for _ in range(10):
                self.wrapped(ctx)
        elif x < 0.55:
            self.raising(ctx)
        elif x < 0.62:
            self.states(ctx)
        else:
            self.program(ctx)

    # ------------------------------------------------------------------ wrapped
    def wrapped(self, ctx):
        r = ctx.rnd
        nreq, nopt = r.randint(0, 3), r.choice([0, 0, 1, 2])
        types = [r.choice(list(TYPES)) for _ in range(nreq + nopt)]
        sig = [t if i < nreq else optional(t) for i, t in enumerate(types)]
        varargs = bool(types) and r.random() < 0.35
        raw = r.random() < 0.4
        calls = []
        result = r.choice([None, 1, "s", 2.5, True, Void(), "", 0, False, 0.0])
        fault = r.choice([None] * 8 + [Boom("x"), TypeError("t"), ValueError("v")])

        def method(*args):
            calls.append(args)
            if fault is not None:
                raise fault
            if result is None:
                return None
            return Value(result) if raw else result

        name = r.choice(["Foo", "some.fn"])
        fn = wrap_function(name, method, *sig, varargs=varargs, rawargs=raw)
        n = r.choice([nreq, nreq + nopt, r.randint(0, len(types)), r.randint(0, len(types) + 2)])
        values = []
        for i in range(n):
            t = types[min(i, len(types) - 1)] if types else object
            if r.random() < 0.08:
                t = r.choice(list(TYPES))
            values.append(Value(TYPES[t](r)))
        if n > len(types) and not varargs:
            expected = "too many"
        elif any(not isinstance(v.value, types[min(i, len(types) - 1)]) for i, v in enumerate(values)):
            expected = "wrong type"
            if n < nreq:
                expected = "wrong type or missing"
        elif n < nreq:
            expected = "missing"
        else:
            expected = None

        def fail(what):
            raise Violation(
                "C26: wrap_function: " + what, types=[t.__name__ for t in types], required=nreq, varargs=varargs, rawargs=raw,
                values=[val(v) for v in values], calls=repr(calls), result=repr(result),
            )

        ex = got = None
        copy = list(values)
        try:
            got = fn(WizardInterpreterState(), values)
        except Exception as e:
            ex = e
        if values != copy and any(a is not b for a, b in zip(values, copy)):
            fail("the arguments were modified")
        if expected:
            for k in expected.split(" or "):
                ctx.count("wrapped " + k)
            if not isinstance(ex, TypeError):
                fail(f"{expected}: no TypeError but {ex!r}, {got!r}")
            if calls:
                fail(f"{expected}: the function was called")
            if name not in str(ex):
                fail(f"{expected}: the message does not tell which function: {ex}")
            return
        if n > len(types):
            ctx.count("wrapped extra")
        if n < len(types):
            ctx.count("wrapped absent")
        if len(calls) != 1:
            fail(f"called {len(calls)} times, error {ex!r}")
        a = calls[0]
        if len(a) != n or any((x is not v) if raw else (x is not v.value) for x, v in zip(a, values)):
            fail("called with other arguments")
        if fault is not None:
            if ex is not fault:
                fail(f"{fault!r} raised, got {ex!r}")
            ctx.count("wrapped raised")
            return
        if ex is not None:
            fail(f"unexpected {ex!r}")
        if raw:
            ctx.count("wrapped raw")
        if result is None:
            ctx.count("wrapped void")
        if not isinstance(got, Value) or val(got) != val(Value(Void() if result is None else result)):
            fail(f"returned {got!r}")
        ctx.count("wrapped calls")

    # ------------------------------------------------------------------ errors
    def raising(self, ctx):
        """What a function raises reaches the caller, located if it is a type or index error."""
        r = ctx.rnd
        cause = r.choice([Boom("b"), ValueError("v"), KeyError("k"), TypeError("t", 2), IndexError("i"), WizardTypeError(None, "w"), WizardNameError(None, "n")])

        def boom(st, vs):
            raise cause

        class V(WizardExpressionVisitor):
            def visitBoom(self, state, *a):
                raise cause

        fns = make_basic_functions()
        fns["boom"] = boom
        fns["string.boom"] = boom
        sev = Quiet()
        f = WizardInterpreterContextFactory(V(SubPackages([]), fns, sev), WizardKeywordVisitor(sev), sev)
        i = WizardInterpreter(f)
        e = r.choice(["boom()", "Boom()", "'a'.boom()", "1 + boom(2)", "str(Boom(1))", "'x'[boom()]", "not boom()", "(boom('a', 'b'))"])
        s = r.choice(["a = {}", "{}", "If {}\nEndIf", "While {}\nEndWhile", "a = 1\na += {}", "Note {}", "For a from {} to 2\nEndFor", "Cancel {}",
                      "SelectOne {}, 'a', '', ''\nCase 'a'\nBreak\nEndSelect", "Exec({})"]).format(e)
        script = "z = 1\n" + s
        try:
            i.exec_until(i.make_top_level_context(script), [])
        except Exception as ex:
            got = ex
        else:
            raise Violation("C26: the error raised by a function is lost", script=script, cause=repr(cause))
        if isinstance(cause, (TypeError, IndexError)):
            if not isinstance(got, WizardError) or type(got).__name__ != "Wizard" + type(cause).__name__:
                raise Violation(f"C26: {cause!r} raised by a function, got {got!r}", script=script)
            c = got
            while c is not None and c is not cause:
                c = c.__cause__
            if c is None:
                raise Violation(f"C26: {cause!r} raised by a function is not the cause of {got!r}", script=script)
        elif got is not cause:
            raise Violation(f"C26: {cause!r} raised by a function, got {got!r}", script=script)
        ctx.count("raised")

    # ------------------------------------------------------------------ states
    def states(self, ctx):
        """A state which is only a class with more methods, or more."""
        r = ctx.rnd

        class Methods(WizardInterpreterState):
            def defined(self, name):
                return name in self.variables

        class Same(Methods):
            tag = "a class attribute"

        class Logged(WizardInterpreterState):
            def __init__(self, variables={}, log=()):
                super().__init__(variables)
                self.log = log

            def set(self, name, value):
                self.log += (name,)
                super().set(name, value)

            def copy(self):
                return Logged(self.variables, self.log)

        class Slots(WizardInterpreterState):
            def __init__(self, *args):
                super().__init__(*args)
                self.more = {}

            def copy(self):
                c = super().copy()
                c.more.update(self.more)
                return c

        cls = r.choice([Methods, Methods, Same, Logged, Slots])
        subs = make_subs(r)
        prog = Gen(
            r, subs, mix=0.2, depth=1, effects=0.3, manager=0, kw=0, ini=0, assign=3, compound=2, incdec=1, expr=1, exec_=0.4, select=1, while_=0.8, total=r.choice([3, 8, 16]),
        ).program()
        script, pr = render(prog)
        seed = r.getrandbits(30)
        ref = Ref(subs, Oracle(seed))
        ref.run(prog, pr)
        f = make_basic_context_factory(real_subs(subs), Quiet())
        interp = WizardInterpreter(f)
        given = {k: Value(r.choice([1, "a", True])) for k in r.sample(["zz", "yy"], r.randint(0, 2))}
        st = cls(given)
        if cls is Slots:
            st.more["a"] = 1
        trace = []
        o = Oracle(seed)
        end = drive(interp.make_top_level_context(script, st), o, 300 + 30 * int(ref.steps), trace)
        base = drive(interp.make_top_level_context(script, WizardInterpreterState(given)), Oracle(seed), 300 + 30 * int(ref.steps))

        def fail(what):
            raise Violation("C26: a state of another class: " + what, script=script, cls=cls.__name__, seed=seed)

        if (end.kind, {n: val(v) for n, v in end.ctx.state.variables.items()}) != (base.kind, {n: val(v) for n, v in base.ctx.state.variables.items()}):
            fail(f"another outcome: {end.kind} {base.kind}")
        for c in trace:
            if type(c.state) is not cls:
                fail(f"the state of a {type(c).__name__} is a {type(c.state).__name__}")
            if cls is Logged and set(c.state.log) | set(given) != set(c.state.variables):
                fail(f"set() was not called for all of the variables: {c.state.log}")
            if cls is Slots and c.state.more != {"a": 1}:
                fail("what it has is lost")
        if type(st.copy()) is not cls or st.variables != given:
            fail("a copy")
        ctx.count("other states")
        ctx.nontrivial((script, cls.__name__))

    # ------------------------------------------------------------------ programs
    def program(self, ctx):
        r = ctx.rnd
        subs = make_subs(r)
        g = OwnGen(
            r, subs, depth=r.choice([1, 2, 3]), effects=r.choice([0, 0.4]), manager=0, kw=0.7, expr=4, select=1, while_=0.8, exec_=0.4, return_=0.15, cancel=0.15,
            errors=r.choice([0, 0, 0.05]), body=r.choice([2, 3, 5]), nest=3, total=r.choice([8, 20, 40]),
        )
        prog = g.program()
        script, pr = render(prog, r, r.choice([0, 0.3]), 0.2)
        seed = r.getrandbits(30)
        ro = Oracle(seed)
        ref = OwnRef(subs, ro)
        res = ref.run(prog, pr)
        kinds = [k for k in KINDS if r.random() < 0.6]
        made = []
        sev = Quiet()
        copies = [] if r.random() < 0.5 else None
        f = own_factory(kinds, made, copies)(OwnVisitor(real_subs(subs), own_functions(), sev), WizardKeywordVisitor(sev), sev)
        interp = WizardInterpreter(f)
        trace = Trace()
        oo = Oracle(seed)

        def fail(what, **k):
            raise Violation("C26: " + what, script=script, subpackages=[(s.name, s.files) for s in subs], own=kinds, **k)

        end = drive(interp.make_top_level_context(script, OwnState()), oo, 300 + 30 * int(ref.steps), trace)
        status = end.kind[0]
        out = Outcome(status, {"vars": {n: val(v) for n, v in end.ctx.state.variables.items()}, "notes": [val(v) for v in end.ctx.state.items]}, end.error, [])
        d = compare(res, ref, ro, out, keys=("vars", "notes"), events=False)
        if d:
            fail(d)
        ctx.count("programs")
        if end.error is not None:
            ctx.count("error " + type(end.error).__name__)
        for k in ref.cov:
            if isinstance(k, tuple) and k[0] == "fn":
                ctx.count("function " + k[1])
        for c in trace:
            if type(c.state) is not OwnState:
                fail(f"the state of a {type(c).__name__} is a {type(c.state).__name__}")
            ctx.count("states checked")
            for k in kinds:
                if KINDS[k] is not None and isinstance(c, KINDS[k]):
                    if not isinstance(c, Mark):
                        fail(f"a {type(c).__name__} was not made by the factory")
                    if c.own[0] != k:
                        fail(f"a {type(c).__name__} is a copy of something else")
                    ctx.count("contexts of own class")
            if isinstance(c, Mark):
                if not hasattr(c, "own"):
                    fail(f"a copy of a {type(c).__name__} lost an attribute")
                ctx.count("copies keep their attributes")
                if copies is not None:
                    if c.made_as != id(c):
                        fail(f"a {type(c).__name__} was neither made nor copied by the factory")
                    ctx.count("made or copied by the factory")
            if c.factory is not f:
                fail(f"a {type(c).__name__} has another factory")
        for k in made:
            ctx.count("own " + k)
        # the items seen by an earlier context are those of then: execute it again
        c = r.choice(trace)
        again = drive(c, Oracle(seed), 300 + 30 * int(ref.steps))
        if again.kind != end.kind or [val(x) for x in again.ctx.state.items] != [val(x) for x in end.ctx.state.items]:
            fail(f"another outcome when executed again from a {type(c).__name__}")
        c = trace.changed()
        if c is not None:
            fail(f"the state of a {type(c).__name__} which was executed changed")
        n = sum(1 for k in ref.cov if isinstance(k, tuple) and k[0] == "fn")
        if n >= 3:
            ctx.nontrivial(script)
            ctx.sample({"script": script[:1000], "items": repr(out.state["notes"])[:300], "own": kinds})


CHECK = C()
