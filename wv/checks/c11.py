from wizard.value import Plugin

from ..gen import Gen
from ..model import ModelCheck
from ..rec import val


class C(ModelCheck):
    id = "C11"
    rule = (
        "random sequences of renames, resets of names and notes (names in any case,"
        " notes of any type), in straight lines, loops and branches; non-trivial: at"
        " least two of them ran"
    )
    require = tuple(
        "keyword " + k
        for k in (
            "RenamePlugin", "RenameEspm", "ResetPluginName", "ResetEspmName", "ResetAllPluginNames", "ResetAllEspmNames", "Note",
        )
    ) + ("issue USAGE_OF_ANYTHING_IN_NOTE warn", "looked up")

    def program(self, ctx, subs):
        r = ctx.rnd
        kws = [
            (r.choice([2, 4]), "RenamePlugin"), (r.choice([0.5, 2]), "ResetPluginName"), (r.choice([0.1, 0.4]), "ResetAllPluginNames"),
            (r.choice([1, 3]), "Note"), (0.3, "SelectSubPackage"), (0.3, "SelectPlugin"),
        ]
        g = Gen(
            r, subs, mix=0.2, kws=kws, kw=r.choice([6, 20]), depth=1, manager=0.0, floats=0.2, subw=0.5, assign=1, compound=0.3,
            incdec=0.3, expr=0.3, if_=1, while_=0.4, forrange=0.6, forin=1.5, break_=0.3, continue_=0.3, exec_=0.2,
            body=r.choice([3, 6, 12]), nest=r.choice([0, 1, 2]), total=r.choice([5, 10, 20, 40]),
        )
        return g.program()

    def extra(self, res, ref, out):
        st = out.raw_state
        if st is None:
            return None
        self.looked = 0
        want = ref_renames(res[1])
        for key, new in want.items():
            for n in {key, key.upper(), key.capitalize()}:
                if n.casefold() != key:
                    continue
                self.looked += 1
                if val(st.renames.get(Plugin(n))) != val(new):
                    return f"the new name of {n} should be {new!r}, got {st.renames.get(Plugin(n))!r}"
        if Plugin("not there") in st.renames:
            return "unexpected rename"
        return None

    def observe(self, ctx, script, ref, res, out):
        super().observe(ctx, script, ref, res, out)
        ctx.count("looked up", getattr(self, "looked", 0))

    def is_nontrivial(self, ref, res, out):
        return sum(1 for k in ref.cov if isinstance(k, tuple) and k[0] == "kw") >= 2


def ref_renames(st):
    return {k: v[1] for k, v in st.renames.items()}


CHECK = C()
