from ..lang import *  # noqa: F403
from ..gen import Gen, chain, fix
from ..model import ModelCheck


class SelGen(Gen):
    def s_select(self, nest, inside):
        r = self.r
        if r.random() < 0.6:
            return super().s_select(nest, inside)
        # sizes and shapes the other generator does not reach
        many = r.random() < 0.5
        n = r.choice([1, 2, 5, 12, 40])
        base = ["n%d" % i for i in range(n)]
        for i in range(n):
            if r.random() < 0.1:
                base[i] = r.choice(["|", "||", "|n1", " n1", "N1", "n1", "é", "É", ""])
        opts = [
            (Str(("|" if r.random() < (0.3 if many else 1.0 / n) else "") + b), Str(r.choice(["", "d", self.word()])), Str(r.choice(["", "  ", " i ", "a.png"])))
            for b in base
        ]
        labels = base + [r.choice(["", "n1", "|n1", "zz"]) for _ in range(r.choice([0, 0, 2]))]
        r.shuffle(labels)
        labels = labels[: r.choice([len(labels), len(labels), r.randint(0, len(labels))])]
        cases = []
        for lb in labels:
            b = [Compound("+=", "s0", Str("<" + lb + ">"))]
            if r.random() < 0.75:
                b.append(Break())
            if r.random() < 0.1:
                b.append(Compound("+=", "s0", Str("!")))
            if r.random() < 0.08:
                b = []
            cases.append(Case(Str(lb), fix(b)))
        d = None
        if r.random() < 0.6:
            d = [Compound("+=", "s0", Str("<D>"))] + ([Break()] if r.random() < 0.5 else [])
        return [Assign("s0", Str("")), Select(many, Str(self.word()), opts, cases, d)]


class C(ModelCheck):
    id = "C06"
    rule = (
        "random SelectOne/SelectMany statements (1 to 40 options, defaults, duplicate and"
        " unmatched labels, with and without Break and Default, nested in loops and in"
        " each other), with random answers; non-trivial: a select was asked"
    )
    require = ("asked selectOne", "asked selectMany", "ran fallthrough", "ran case-break", "default fall", "default none", "many answered", "none answered", "issue MULTIPLE_DEFAULTS_IN_SELECT_ON warn")

    def program(self, ctx, subs):
        r = ctx.rnd
        if r.random() < 0.12:
            return chain(r)
        p = dict(
            depth=1, manager=0.1, floats=0.0, subw=0.2, if_=1.5, while_=0.5, forrange=1, forin=0.5,
            select=r.choice([4, 10]), break_=1, continue_=0.5, expr=1.5, assign=2, return_=0.02, cancel=0.02,
            errors=r.choice([0, 0, 0.02]), body=r.choice([2, 3]), nest=r.choice([1, 2, 3, 4]), total=r.choice([4, 8, 16, 30]),
        )
        self.history = r.random() < 0.5
        return SelGen(r, subs, **dict(dict(mix=0.2), **p)).program()

    def observe(self, ctx, script, ref, res, out):
        super().observe(ctx, script, ref, res, out)
        for e in out.events:
            if e[0].startswith("select"):
                ctx.count("asked " + e[0])
                ctx.maximum("options", len(e[2]))
        for k in ref.cov:
            if isinstance(k, tuple) and k[0] == "default":
                ctx.count("default " + ("fall" if k[1] else "none"))
            if isinstance(k, tuple) and k[0] == "answer":
                ctx.count(("one", "none", "many")[0 if k[1] == 1 else 1 if k[1] == 0 else 2] + " answered")

    def is_nontrivial(self, ref, res, out):
        return any(e[0].startswith("select") for e in out.events)


CHECK = C()
