import copy

from ..gen import Gen, fix
from ..harness import Violation
from ..lang import *  # noqa: F403
from ..lang import render, walk
from ..model import ModelCheck, safe
from ..rec import Oracle, diff_state, errclass, run_real


class ExecGen(Gen):
    def stmt(self, nest, inside):
        if self.r.random() < 0.08:
            return Dyn(self.r.choice(["v", "w_"]), Bin("%", Call("int", self.expr("i", 1)), Int(5)), Call("int", self.expr("i", 1)))
        return super().stmt(nest, inside)


def inline(body):
    out = []
    for s in body:
        if s.k == "exec":
            out.extend(inline(s.body))
            continue
        for a in ("body", "els", "default"):
            b = s.__dict__.get(a)
            if isinstance(b, list):
                setattr(s, a, inline(b))
        if s.k == "if":
            s.elifs = [(c, inline(b)) for c, b in s.elifs]
        if s.k == "select":
            for c in s.cases:
                c.body = inline(c.body)
        if s.k == "assign" and s.e.k == "hole":
            s.e = s.e.e
        out.append(s)
    return fix(out)


BAD = [
    # text (a valid string literal), expected class
    ("Exec(1)", "WizardTypeError"),
    ("Exec(1.5)", "WizardTypeError"),
    ("Exec(True)", "WizardTypeError"),
    ("Exec(SubPackages)", "WizardTypeError"),
    ("Exec('a', 'b')", "WizardTypeError"),
    ("x = Exec('a = 1')", "WizardNameError"),
    ("x = 1 + Exec('a = 1')", "WizardNameError"),
    ("x = len(Exec('a = 1'))", "WizardNameError"),
    ("EndExec(1)", "WizardNameError"),
    ("Exec('If')", "WizardParseError"),
    ("Exec('a = ')", "WizardParseError"),
    ("Exec('EndIf a = 1')", "WizardParseError"),
    ("Exec('Break')", "WizardParseError"),
    ("Exec('Continue')", "WizardParseError"),
    ("Exec('x = nofn(1)')", "WizardNameError"),
    ("Exec('x = 1 + \\'a\\'')", "WizardTypeError"),
]


class C(ModelCheck):
    id = "C07"
    rule = (
        "random programs with Exec of generated texts (nested up to 3 levels, computed"
        " from variables, inside loops, branches and cases), against the model and"
        " against the same program with the texts written in place; non-trivial: an"
        " Exec ran"
    )
    require = ("ran exec", "ran dyn", "inlined", "failing exec", "exec in loop", "deep", "effects of texts")

    def program(self, ctx, subs):
        r = ctx.rnd
        p = dict(
            depth=2, manager=0.3, floats=0.1, subw=0.3, effects=r.choice([0, 0.3]), exec_=r.choice([2, 5]), if_=1.5, while_=1, forrange=1,
            forin=0.7, select=0.7, kw=1, ini=0.3, return_=0.05, cancel=0.05, errors=r.choice([0, 0, 0.02]),
            break_=1, continue_=1, body=r.choice([2, 3]), nest=r.choice([2, 3, 4]), total=r.choice([5, 10, 20]),
        )
        self.history = r.random() < 0.3
        if r.random() < 0.04:
            # texts in texts in texts
            body = [Assign("x", Bin("+", Var("y"), Int(1))), Compound("+=", "y", Var("x"))]
            if r.random() < 0.3:
                body.append(r.choice([Return(), Cancel(Str("c")), Assign("z", Var("unset"))]))
            for _ in range(r.randint(4, 11)):
                body = fix(([Compound("*=", "y", Int(2))] if r.random() < 0.5 else []) + [Exec(body, r.choice(["lit", "split"]))])
                if r.random() < 0.2:
                    body.append(Compound("-=", "y", Int(3)))
            ctx.count("deep")
            return [Assign("y", Int(1))] + fix(body)
        return ExecGen(r, subs, **dict(dict(mix=0.2), **p)).program()

    def case(self, ctx):
        r = ctx.rnd
        if r.random() < 0.12:
            return self.bad(ctx)
        subs = self.subs(ctx)
        prog = self.program(ctx, subs)
        o = self.draw_options(ctx)
        ref, res, out, script = self.check_program(ctx, subs, prog, o=o)
        if r.random() < 0.4:
            flat = inline(copy.deepcopy(prog))
            s2, _ = render(flat)
            out2 = run_real(s2, subs, Oracle(o["seed"], self.history), limit=40 * out.steps + 500, fresh=o["fresh"])
            d = None
            if out.status != out2.status:
                d = f"status {out2.status} in place, {out.status} with Exec: {safe(out.error or out2.error)}"
            elif errclass(out.error) != errclass(out2.error):
                d = f"error {errclass(out2.error)} in place, {errclass(out.error)} with Exec"
            elif [e for e in out.events if e[0] != "warning"] != [e for e in out2.events if e[0] != "warning"]:
                d = "the calls differ"
            elif out.status != "ERROR":
                # i0: added between statements which would be read as one
                for x in (out, out2):
                    x.state["vars"].pop("i0", None)
                d = diff_state(out2.state, out.state)
            if d:
                raise Violation("C07: Exec is not equivalent to its text: " + d, script=script, inlined=s2)
            ctx.count("inlined")
        for n in walk(prog):
            if n.k in ("while", "forrange", "forin") and any(x.k == "exec" for x in walk(n.body)):
                ctx.count("exec in loop")
                break

    def fixed_effects(self, ctx):
        """The text is computed once, with its effects, whatever it is."""
        for text in ("", " ", "\n", "; nothing", "\r\n;\n", "x = n", "y = 1", "If False\nEndIf", "For c in ''\nEndFor", "1", "n"):
            for arg in ("t[n++ - 1:]", "t[n++ - 1:] + ''", "GetFolder('f')[n++:0] + t"):
                for wrap in ("%s", "If True\n%s\nEndIf", "For i from 1 to 1\n%s\nEndFor", "Exec('%s')", "SelectOne 'd', 'a', '', ''\nCase 'a'\n%s\nEndSelect"):
                    call = f"Exec({arg})"
                    if wrap.startswith("Exec"):
                        call = call.replace("'", "\\'")
                    script = "n = 0\nt = " + quote(text) + "\n" + wrap % call + "\nend = n"
                    out = run_real(script, [], Oracle(0), limit=300)
                    folders = sum(1 for e in out.events if e[0] == "getFolder")
                    if out.status != "COMPLETE" or out.state["vars"].get("end") != ("integer", 1) or folders != ("GetFolder" in arg):
                        raise Violation(f"C07: the effects of the text of Exec: {out.status} {safe(out.error)}", script=script, state=out.state, events=repr(out.events))
                    ctx.count("effects of texts")

    def bad(self, ctx):
        r = ctx.rnd
        text, cls = r.choice(BAD)
        n = r.randint(0, 3)
        pre = "".join("v%d = %d\n" % (i, r.randint(0, 9)) for i in range(n))
        wrap = r.choice(["%s", "If True\n%s\nEndIf", "For i from 1 to 2\n%s\nEndFor"])
        if cls == "WizardParseError" and ("Break" in text or "Continue" in text):
            wrap = "%s"
        if r.random() < 0.3:
            q = quote(text, r)
            text = "Exec(" + q + ")"
        script = pre + wrap % text + "\nend = 1"
        out = run_real(script, [], Oracle(0), limit=500)
        if out.status != "ERROR" or errclass(out.error) != cls:
            raise Violation(f"C07: expected {cls}, got {out.status} {safe(out.error)}", script=script)
        want = {"v%d" % i for i in range(n)}
        if not want <= set(out.state["vars"]) <= want | {"i"}:
            raise Violation("C07: wrong state after a failing Exec", script=script, state=out.state)
        ctx.count("failing exec")

    def is_nontrivial(self, ref, res, out):
        return bool(ref.cov & {"exec", "dyn"})


CHECK = C()
