import re

from ..gen import AnyGen
from ..lang import *  # noqa: F403
from ..model import ModelCheck

from wizard.errors import WizardError

ERRS = ["WizardTypeError", "WizardNameError", "WizardIndexError", "WizardParseError", "WizardMissingPackageError", "WizardMissingPluginError"]


class ErrGen(AnyGen):
    """Sometimes a wrong expression, at any place where there may be one."""

    def expr(self, t, d=None):
        if self.left_errors > 0 and self.r.random() < 0.03:
            self.left_errors -= 1
            r = self.r
            return self.w(
                [
                    (3, lambda: self.anyx(1)),
                    (1, lambda: Var("unset%d" % r.randint(0, 3))),
                    (1, lambda: Call(r.choice(["nofn", "Len", "exec", "visitExpr", "Exec", "EndExec"]), Int(1))),
                    (1, lambda: Meth(Str("a"), r.choice(["upper", "str_", "Len"]))),
                    (1, lambda: Idx(Str("abc"), Int(r.randint(3, 9)))),
                    (1, lambda: Idx(Str("abc"), Neg(Int(r.randint(4, 9))))),
                    (1, lambda: Idx(Subs(), Int(r.randint(10, 20)))),
                    (1, lambda: Idx(Subs(), Neg(Int(r.randint(10, 20))))),
                    (1, lambda: Idx(Idx(Subs(), Int(0)), r.choice([Int, lambda n: Neg(Int(n))])(r.randint(60, 99)))),
                    (0.5, lambda: IncDec("++", "unset9", r.random() < 0.5)),
                    (1, lambda: Bin("-", Str("a"), Int(1))),
                    (1, lambda: Bin("==", Str("a"), Int(1), True)),
                    (0.5, lambda: In(Int(1), Subs())),
                    (0.5, lambda: Call("len")),
                    (0.5, lambda: Call("CompareGameVersion", Int(1))),
                    (0.5, lambda: Call("GetFilename", Str("a"), Str("b"))),
                ]
            )()
        return super().expr(t, d)

    def stmt(self, nest, inside):
        if self.left_errors > 0 and self.r.random() < 0.03:
            self.left_errors -= 1
            r = self.r
            return self.w(
                [
                    (1, lambda: Compound(r.choice(["+=", "-=", "*=", "/=", "%=", "^="]), "unset7", Int(1))),
                    (1, lambda: Compound("-=", "s1", Int(1))),
                    (1, lambda: Kw("SelectSubPackage", Str("missing"))),
                    (1, lambda: Kw("SelectPlugin", Str("missing.esp"))),
                    (0.5, lambda: Kw(r.choice(["SelectAll", "RenamePlugin", "Note"]), Str("a"), Str("b"), Str("c"))),
                    (0.5, lambda: ForIn("z", Int(3), [])),
                    (0.5, lambda: ForRange("z", Str("a"), Int(3), None, [])),
                    (0.5, lambda: ForRange("z", Int(1), r.choice([Str("a"), Dec("1", "5"), Subs()]), None, [])),
                    (0.5, lambda: ForRange("z", Int(1), Int(3), Dec("1", "5"), [])),
                    (0.5, lambda: Select(False, Int(1), [(Str("a"), Str(""), Str(""))], [])),
                    (0.5, lambda: Select(r.random() < 0.5, Str("d"), [(Str("a"), Str(""), Str("")), (Str("a"), Int(4), Str(""))], [])),
                    (0.5, lambda: Select(r.random() < 0.5, Str("d"), [(Str("a"), Str(""), Str("")), (Str("b"), Str(""), Str(""))], [Case(Int(1), [])])),
                    (0.5, lambda: Select(r.random() < 0.7, Str("d"), [], [Case(Str("a"), [])])),
                    (0.5, lambda: Cancel(Int(4))),
                    (0.5, lambda: Break() if not inside else Assign("i0", Int(1))),
                    (0.5, lambda: Continue() if "loop" not in inside else Assign("i0", Int(1))),
                ]
            )()
        return super().stmt(nest, inside)


class C(ModelCheck):
    id = "C17"
    rule = (
        "random programs in random layouts (spaces, line breaks, comments, continuations) with a wrong expression or"
        " statement at a random place, under random severities; non-trivial: the execution failed; the class of the"
        " error, its line and column, the name or index it carries, its text, and the state it leaves are compared"
    )
    positions = True
    styles = ("plain", "wild", "compact")
    parens = 0.3
    require = tuple(ERRS) + ("located", "on a later line", "in an Exec", "name", "index", "subpackage", "types")

    def case(self, ctx):
        r = ctx.rnd
        subs = self.subs(ctx)
        g = ErrGen(
            r, subs, mix=0.2, depth=r.choice([1, 2, 3]), manager=0.3, effects=r.choice([0, 0.3]), kw=2, ini=0.5, select=1, exec_=r.choice([0, 1]),
            floats=0.1, expr=2, unset=0, body=r.choice([2, 4]), nest=r.choice([1, 2, 3]), total=r.choice([5, 10, 20]),
        )
        g.left_errors = 0
        pro = g.prologue()
        g.left_errors = r.choice([1, 1, 2, 5])
        prog = pro + g.body(0, (), r.randint(2, 6))
        from ..gen import fix

        sev = {None: r.choice(["warn", "error", "error"])}
        self.check_program(ctx, subs, fix(prog), severities=sev)

    def extra(self, res, ref, out):
        err = res[2]
        if err is None:
            return None
        e = out.error
        if not isinstance(e, WizardError):
            return None
        try:
            s = str(e)
            repr(e)
        except Exception as ex:
            return f"{type(ex).__name__} when the error is rendered: {ex}"
        if not s.startswith(f"Line {e.line}, Column {e.column}: ") or not s.split(": ", 1)[1].strip():
            return f"the text of the error is {s!r}"
        if err.cls == "WizardNameError" and err.name is not None and err.name not in ("Exec", "EndExec"):
            if e.name != err.name or err.name not in s:
                return f"name: expected {err.name!r}, got {e.name!r} in {s!r}"
        if "types" in err.extra:
            # which type was expected, and which one was found: not the other way round
            exp, got = err.extra["types"]
            m = s.split(": ", 1)[1]
            if got not in m or exp not in m or " got " in m and got not in m.rsplit(" got ", 1)[1]:
                return f"types: expected {exp}, got {got}, in {s!r}"
        if err.cls == "WizardIndexError" and "index" in err.extra:
            if e.index != err.extra["index"]:
                return f"index: expected {err.extra['index']!r}, got {e.index!r}"
        if err.cls in ("WizardMissingPackageError", "WizardMissingPluginError"):
            if e.subpackage != err.name or err.name not in s:
                return f"missing: expected {err.name!r}, got {e.subpackage!r} in {s!r}"
        return None

    def observe(self, ctx, script, ref, res, out):
        super().observe(ctx, script, ref, res, out)
        err = res[2]
        if err is None:
            return
        ctx.count(err.cls)
        if err.cls == "HostError":
            return
        if err.pr is not None:
            ctx.count("located")
            if getattr(out.error, "line", 0) > 1:
                ctx.count("on a later line")
            ctx.maximum("line", getattr(out.error, "line", 0))
            if ref.pr is not None and "exec" in ref.cov:
                ctx.count("in an Exec")
        if err.name:
            ctx.count("subpackage" if "Missing" in err.cls else "name")
        if "index" in err.extra:
            ctx.count("index")
        if "types" in err.extra:
            ctx.count("types")

    def is_nontrivial(self, ref, res, out):
        return res[2] is not None


CHECK = C()
