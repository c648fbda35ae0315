from ..lang import *  # noqa: F403
from ..gen import Gen, chain, fix
from ..harness import Violation
from ..model import ModelCheck


class JumpGen(Gen):
    """Often jumps from several levels deep."""

    def guard(self, s, nest, inside):
        x = self.r.random()
        if x < 0.3:
            return s
        if x < 0.45:
            # with effects of every kind just before
            b = [self.r.choice([self.s_kw, self.s_kw, self.s_ini, self.s_compound])() for _ in range(self.r.randint(1, 2))]
            return If(self.expr("b", 1) if self.r.random() < 0.6 else Bool(True), fix(b + [s]))
        if x < 0.7:
            return If(self.expr("b", 1), [s])
        if x < 0.85:
            return If(self.expr("b", 1), [If(self.expr("b", 1), [s], [], [Assign("i0", Int(7))]), Compound("+=", "i0", Int(1))])
        return Exec([If(self.expr("b", 1), [s])]) if self.p["exec_"] and self.nexec == 0 else s


    def stmt(self, nest, inside):
        r = self.r
        if r.random() < 0.03 and self.nexec < 2:
            # a jump which is all there is in the text of an Exec
            j = [Return(), Cancel(self.expr("s", 1) if r.random() < 0.6 else None)]
            if "loop" in inside or "case" in inside:
                j += [Break(), Break()]
            if "loop" in inside:
                j += [Continue(), Continue()]
            b = [r.choice(j)]
            if r.random() < 0.3:
                b = [Exec(b, r.choice(["lit", "split"]))]
            e = Exec(b, r.choice(["lit", "split"]))
            return If(self.expr("b", 1), [e]) if r.random() < 0.7 else e
        return super().stmt(nest, inside)


class C(ModelCheck):
    id = "C05"
    rule = (
        "random nests of While, For, If, Select cases and Exec, with Break, Continue,"
        " Return and Cancel at random depths; non-trivial: a jump was executed"
    )
    require = (
        "ran break", "ran continue", "ran return", "ran cancel", "ran while-break", "ran for-break",
        "ran while-continue", "ran for-continue", "ran case-break", "ran default-break",
        "status RETURN", "status CANCEL", "status ERROR", "messages", "chains",
    )

    def program(self, ctx, subs):
        r = ctx.rnd
        if r.random() < 0.3:
            ctx.count("chains")
            return chain(r)
        p = dict(
            depth=1, manager=0.1, floats=0.0, subw=0.3, if_=2, while_=2, forrange=2, forin=1.5, select=r.choice([0, 2, 4]),
            break_=r.choice([1, 3]), continue_=r.choice([1, 3]), expr=2.5, assign=2, exec_=r.choice([0, 0, 0.7]),
            return_=r.choice([0.02, 0.3]), cancel=r.choice([0.02, 0.3]), body=r.choice([2, 3, 4]),
            nest=r.choice([2, 3, 4, 5]), total=r.choice([10, 20, 40]),
        )
        g = JumpGen(r, subs, **dict(dict(mix=0.2), **p))
        prog = g.program()
        if r.random() < 0.12:
            # misplaced jumps
            s = r.choice([Break(), Continue()])
            prog.insert(r.randint(0, len(prog)), s)
        if r.random() < 0.1:
            prog.append(Select(False, Str("d"), [(Str("a"), Str(""), Str(""))], [Case(Str("a"), [Continue()])]))
        return fix(prog)

    def extra(self, res, ref, out):
        # the message of a Cancel, and the kind of termination
        if out.status in ("CANCEL", "RETURN", "COMPLETE"):
            c = out.runner.context()
            got = (c.is_cancel(), c.is_return(), c.is_complete(), c.message())
            want = (
                out.status == "CANCEL",
                out.status == "RETURN",
                out.status == "COMPLETE",
                getattr(ref, "message", None),
            )
            if got != want:
                return f"termination: expected {want}, got {got}"
        return None

    def observe(self, ctx, script, ref, res, out):
        super().observe(ctx, script, ref, res, out)
        if getattr(ref, "message", None) is not None:
            ctx.count("messages")

    def is_nontrivial(self, ref, res, out):
        return bool(ref.cov & {"break", "continue", "return", "cancel"})


CHECK = C()
