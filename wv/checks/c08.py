from ..gen import AnyGen
from ..lang import *  # noqa: F403
from ..model import ModelCheck
from ..harness import Violation
from ..rec import Oracle, errclass, run_real
from ..ref import Sub


class C(ModelCheck):
    id = "C08"
    rule = (
        "random calls of the builtin functions, as functions and as methods, with"
        " arguments of any type and number, nested in each other; non-trivial: a builtin"
        " function was called"
    )
    keys = ("vars",)
    require = tuple("function " + f for f in AnyGen.FNS) + ("status ERROR", "status COMPLETE", "methods", "unknown names")

    def fixed_unknown(self, ctx):
        """Names which are not those of functions, among which those of the rules of the grammar."""
        names = (
            "ParseWizard Body Stmt Assignment CompoundAssignment ControlFlowStmt CancelStmt CaseStmt ForStmt IfStmt OptionTuple ArgList KeywordStmt Expr"
            " PreIncrement DotFunctionCall Or In PostDecrement TimesDivideModulo Index Exponentiation PlusMinus Not Lesser Negative Equal And Slice Value"
            " Greater FunctionCall PostIncrement ParenExpr PreDecrement Constant Integer Decimal String Children Terminal ErrorNode"
            " Str STR Len str_ len_ int_ float_ upper strip replace format eval exec print open __class__ __init__ find_ LOWER Find editINI disableINILine"
            " EndExec visitEditINI string integer float_str"
        ).split()
        for n in names:
            for args in ("", "1", "'a'", "'a', 1", "1, 2, 3"):
                for s in (f"a = {n}({args})", f"{n}({args})", f"x = 1\nIf {n}({args}) == 1\nx = 2\nEndIf"):
                    out = run_real(s, [], Oracle(0), fresh=0)
                    if out.status != "ERROR" or errclass(out.error) != "WizardNameError" or [e for e in out.events if e[0] not in ("error",)]:
                        raise Violation(f"C08: {n} is not a function, but {s!r} gives {out.status} {out.error!r}", script=s, events=repr(out.events))
            for o in ("'abc'", "1", "True", "1.5", "SubPackages", "SubPackages[0]"):
                if n in ("str",):
                    continue
                s = f"a = {o}.{n}(1)"
                out = run_real(s, [Sub("P", [])], Oracle(0), fresh=0)
                if out.status != "ERROR" or errclass(out.error) != "WizardNameError":
                    raise Violation(f"C08: {n} is not a method, but {s!r} gives {out.status} {out.error!r}", script=s)
            ctx.count("unknown names")

    def program(self, ctx, subs):
        r = ctx.rnd
        g = AnyGen(r, subs, mix=0.15, floats=0.3, depth=r.choice([1, 2]), subw=0.4, errors=0.05, unset=0.02)
        prog = g.prologue()
        for i in range(r.randint(1, 4)):
            prog.append(Assign("r%d" % i, g.anycall(r.choice([1, 1, 2, 3]))))
        if r.random() < 0.15:
            # floats with many digits, very large or small
            for i in range(3):
                e = Bin(r.choice("//*+"), g.expr("i", 0), r.choice([Int(3), Int(7), Int(10**r.randint(0, 30)), Dec("0", "1")]))
                prog.append(Assign("f%d" % (90 + i), e))
                prog.append(Assign("q%d" % (90 + i), Call(r.choice(["str", "str", "int", "float"]), Var("f%d" % (90 + i)))))
        if r.random() < 0.2:
            # long texts, positions around the bounds
            s = "".join(r.choice("ab") for _ in range(r.choice([0, 1, 2, 5, 30])))
            for i in range(6):
                a = [Str(s), Str("".join(r.choice("ab") for _ in range(r.randint(0, 3))))]
                for _ in range(r.randint(0, 2)):
                    k = r.randint(-len(s) - 2, len(s) + 2)
                    a.append(Int(k) if k >= 0 else Neg(Int(-k)))
                n = r.choice(["find", "rfind"])
                prog.append(Assign("q%d" % i, Call(n, *a) if r.random() < 0.5 else Meth(a[0], n, *a[1:])))
        return prog

    def observe(self, ctx, script, ref, res, out):
        super().observe(ctx, script, ref, res, out)
        if "." in script:
            ctx.count("methods")

    def is_nontrivial(self, ref, res, out):
        return any(isinstance(k, tuple) and k[0] == "fn" for k in ref.cov)


CHECK = C()
