from ..model import ModelCheck


class C(ModelCheck):
    id = "C02"
    rule = (
        "random programs whose expressions contain increments and calls to the manager"
        " (whose answers depend on how many calls came before) in every position:"
        " operands, conditions, loop headers, options, case labels, arguments of"
        " keywords, functions, Exec and Cancel; non-trivial: at least 2 calls observed"
    )
    require = ("events", "ran while", "ran select", "ran exec", "ran kw", "ran forrange", "ran cancel")

    def draw_profile(self, ctx):
        r = ctx.rnd
        self.history = True
        return dict(
            depth=r.choice([2, 3, 4]), effects=r.choice([0.7, 2, 4]), manager=r.choice([0.5, 1.5, 3]), floats=0.0,
            subw=0.4, kw=r.choice([0.5, 3]), ini=0.6, exec_=r.choice([0, 1]), select=r.choice([0.5, 3]),
            while_=1.5, cancel=0.2, trace=0.5, expr=2, body=r.choice([3, 5]), nest=3, total=r.choice([10, 16, 25]),
        )

    def is_nontrivial(self, ref, res, out):
        return len(out.events) > 2


CHECK = C()
