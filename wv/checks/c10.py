from ..gen import Gen, make_subs
from ..harness import Violation
from ..model import ModelCheck
from ..rec import real_subs

from wizard.runner import WizardRunnerKeywordVisitor
from wizard.severity import SeverityContext


class C(ModelCheck):
    id = "C10"
    rule = (
        "random sequences of selections and deselections of subpackages and plugins"
        " (names in any case, missing names, plugins shared by several subpackages),"
        " in straight lines, loops and branches; non-trivial: at least two of them ran"
    )
    require = tuple(
        "keyword " + k
        for k in (
            "SelectSubPackage", "DeSelectSubPackage", "SelectPlugin", "DeSelectPlugin", "SelectEspm", "DeSelectEspm",
            "SelectAll", "DeSelectAll", "SelectAllPlugins", "DeSelectAllPlugins", "SelectAllEspms", "DeSelectAllEspms",
        )
    ) + ("issue SELECT_MISSING_PLUGIN warn", "issue SELECT_MISSING_SUBPACKAGE warn", "shared plugins", "twins", "available")

    def subs(self, ctx):
        r = ctx.rnd
        subs = make_subs(r, r.choice([1, 2, 3, 4, 6, 9]), collide=0.4)
        # (which of two subpackages of one name is selected is not specified: only with the
        # keywords on plugins)
        self.twins = len(subs) > 1 and r.random() < 0.08
        if self.twins:
            subs[0].name = r.choice([subs[-1].name, subs[-1].name.swapcase()])
            ctx.count("twins")
        return subs

    def available(self, subs):
        """What is available, as listed by the visitor."""
        rs = real_subs(subs)
        kv = WizardRunnerKeywordVisitor(rs, SeverityContext())
        of = [[f.rsplit("/")[-1] for f in s.files if f[-4:] in (".esp", ".esm", ".esl")] for s in subs]
        every = {}
        for names in of:
            for n in names:
                every.setdefault(n.casefold(), n)
        for what, got, want in [
            ("subpackages", kv.subpackages, [s.name for s in subs]), ("plugins", kv.plugins, list(every.values())),
        ] + [(f"plugins of {s.name!r}", kv.plugins_for(s), w) for s, w in zip(rs, of)]:
            got = [x.name for x in got]
            if got != want:
                raise Violation(f"C10: the {what} available are {want}, got {got}", subpackages=[(s.name, s.files) for s in subs])

    def program(self, ctx, subs):
        r = ctx.rnd
        if r.random() < 0.3:
            self.available(subs)
            ctx.count("available")
        kws = [
            (r.choice([1, 3]), "SelectSubPackage"), (r.choice([0.5, 2]), "DeSelectSubPackage"), (r.choice([1, 3]), "SelectPlugin"),
            (r.choice([0.5, 2]), "DeSelectPlugin"), (r.choice([0.2, 1]), "SelectAll"), (0.2, "DeSelectAll"),
            (r.choice([0.3, 1]), "SelectAllPlugins"), (0.3, "DeSelectAllPlugins"),
        ]
        if self.twins:
            kws = [k for k in kws if "SubPackage" not in k[1] and k[1] != "SelectAll"]
        g = Gen(
            r, subs, mix=0.2, kws=kws, kw=r.choice([6, 20]), depth=1, manager=0.0, floats=0, subw=0.5, assign=1, compound=0.3,
            incdec=0.3, expr=0.3, if_=1, while_=0.4, forrange=0.4, forin=1.5, break_=0.3, continue_=0.3, exec_=0.2,
            body=r.choice([3, 6, 12]), nest=r.choice([0, 1, 2]), total=r.choice([5, 10, 20, 40]),
        )
        return g.program()

    def extra(self, res, ref, out):
        st = out.raw_state
        if st is None:
            return None
        for seq in (st.subpackages, st.plugins):
            names = [x.name.casefold() for x in seq]
            if names != sorted(names):
                return f"not sorted: {names}"
            if len(set(names)) != len(names):
                return f"duplicates: {names}"
        return None

    def observe(self, ctx, script, ref, res, out):
        super().observe(ctx, script, ref, res, out)
        ctx.maximum("plugins", len(ref.st.plugins))
        names = [f.rsplit("/")[-1].casefold() for s in ref.subs for f in s.files]
        if len(set(names)) < len(names):
            ctx.count("shared plugins")

    def is_nontrivial(self, ref, res, out):
        return sum(1 for k in ref.cov if isinstance(k, tuple) and k[0] == "kw") >= 2


CHECK = C()
