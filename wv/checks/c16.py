import zlib

from ..gen import Gen
from ..harness import Violation
from ..lang import *  # noqa: F403
from ..model import ModelCheck, compare
from ..rec import SEV, Oracle, RecRunner, StepLimit, Outcome, cpu_watchdog, monitor, real_state, real_subs, run_real, set_severities
from ..lang import render
from ..ref import Ref

from wizard.severity import Issue, Severity, SeverityContext

ISSUES = [
    "MULTIPLE_DEFAULTS_IN_SELECT_ON", "USAGE_OF_NOTSET_VARIABLES", "USAGE_OF_ANYTHING_IN_NOTE", "SELECT_MISSING_SUBPACKAGE",
    "SELECT_MISSING_PLUGIN",
]


class ChangingOracle(Oracle):
    """The manager changes the severities from time to time, when it is called."""

    def __init__(self, seed, change):
        super().__init__(seed)
        self.change = change

    def ask(self, kind, *args):
        r = super().ask(kind, *args)
        n = sum(1 for e in self.events if e[0] != "warning")
        h = zlib.crc32(repr((self.seed, n)).encode())
        if h % 3 == 0:
            self.change(([None] + ISSUES)[h // 3 % 6], ["allow", "warn", "error"][h // 18 % 3])
        return r


class SevGen(Gen):
    """Note of other things than strings."""

    def s_kw(self):
        if self.r.random() < 0.3:
            return Kw("Note", self.expr(self.r.choice("isbfp" if self.subs else "isbf"), 1))
        if self.r.random() < 0.15:
            k = self.r.choice(["SelectPlugin", "SelectEspm", "SelectSubPackage"])
            return Kw(k, Str(self.r.choice(["missing.esp", "nope", "", "a.es"])))
        return super().s_kw()

    def s_select(self, nest, inside):
        s = super().s_select(nest, inside)
        if not s.many and self.r.random() < 0.4:
            s.opts = [(self.fx("|" + n.v) if n.k == "str" and not n.v.startswith("|") and self.r.random() < 0.6 else n, d, i) for n, d, i in s.opts]
            if self.r.random() < 0.25:
                # the names of several are the same
                k = self.r.choice(s.opts)[0]
                s.opts = [(k if self.r.random() < 0.8 else n, d, i) for n, d, i in s.opts]
        return s


class C(ModelCheck):
    id = "C16"
    rule = (
        "random programs full of issues (unset variables, missing subpackages and plugins, several defaults, notes which"
        " are not strings) with random severities, by default, per issue, changed while the program runs, and other"
        " runners with other severities next to it; non-trivial: at least one issue"
    )
    positions = True
    require = tuple(f"issue {i} {s}" for i in ISSUES for s in SEV) + ("changed", "others", "laws")

    def fixed_laws(self, ctx):
        """raise_or_warn, for all the issues and severities"""

        class S(SeverityContext):
            def __init__(self):
                super().__init__()
                self.w = []

            def warning(self, text):
                self.w.append(text)

        ex = ValueError("x")

        def got(s, issue):
            s.w = []
            try:
                s.raise_or_warn(issue, ex, "text")
            except ValueError as e:
                return "error" if e is ex and not s.w else "?"
            return "warn" if s.w == ["text"] else "allow" if not s.w else "?"

        others = S()
        for d in [None] + list(SEV):
            for issue in Issue:
                for own in [None] + list(SEV):
                    s = S()
                    for first in (0, 1):
                        # in any order
                        for k in (0, 1):
                            if k == first and d:
                                s.set_default_severity(SEV[d])
                            elif k != first and own:
                                s.set_severity(issue, SEV[own])
                    for i in Issue:
                        want = own if own and i is issue else d or "warn"
                        g = got(s, i)
                        ctx.count("laws")
                        if g != want:
                            raise Violation(f"C16: {i} with {issue}={own} and {d} by default: expected {want}, got {g}")
                        if got(others, i) != "warn":
                            raise Violation("C16: the severities of a context changed those of another one")

    def case(self, ctx):
        r = ctx.rnd
        subs = self.subs(ctx)
        g = SevGen(
            r, subs, mix=0.2, depth=2, manager=0.3, effects=0.2, unset=r.choice([0.02, 0.15]), kw=5, select=1.5, exec_=0.3, floats=0.1, expr=1.5,
            body=r.choice([2, 3]), nest=2, total=r.choice([5, 10, 20]), errors=r.choice([0, 0, 0.01]),
        )
        prog = g.program()
        sev = {None: r.choice(list(SEV))}
        for i in ISSUES:
            if r.random() < 0.4:
                sev[i] = r.choice(["allow", "warn", "warn", "error"])
        if r.random() < 0.6:
            sev[None] = r.choice(["allow", "warn"])
        if r.random() < 0.1:
            sev = {None: "warn"}
        x = r.random()
        if x < 0.5:
            self.check_program(ctx, subs, prog, severities=sev)
            return
        script, pr = render(prog)
        seed = r.getrandbits(30)
        msev = dict(sev)
        changes = []
        if x < 0.8:
            ro = ChangingOracle(seed, lambda k, v: msev.__setitem__(k, v))
            oo = ChangingOracle(seed, lambda k, v: (changes.append((k, v)), set_severities(runner, {k: v})))
        else:
            ro, oo = Oracle(seed), Oracle(seed)
        ref = Ref(subs, ro, msev)
        res = ref.run(prog, pr)
        runner = RecRunner(real_subs(subs), oo)
        others = [RecRunner(real_subs(subs), Oracle(1)) for _ in range(2)]
        if sev != {None: "warn"} or r.random() < 0.5:
            set_severities(runner, sev)
        for o in others:
            set_severities(o, {k: r.choice(list(SEV)) for k in [None] + ISSUES})
        ctx.count("others")
        out = run_real(script, subs, oo, limit=500 + 30 * int(ref.steps), runner=runner)
        d = compare(res, ref, ro, out, True)
        self.observe(ctx, script, ref, res, out)
        ctx.count("changed", len(changes))
        if d:
            raise Violation("C16: " + d, script=script, severities=sev, changes=changes, subpackages=[(s.name, s.files) for s in subs])

    def is_nontrivial(self, ref, res, out):
        return any(isinstance(k, tuple) and k[0] == "issue" for k in ref.cov)


CHECK = C()
