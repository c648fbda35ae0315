from ..gen import make_subs
from ..harness import Violation
from ..model import ModelCheck, safe
from ..rec import Oracle, run_real
from ..ref import Sub


class C(ModelCheck):
    id = "C04"
    rule = (
        "random programs of nested If/Elif/Else, While, For-range (any direction and"
        " step), For-in (subpackages, files, characters), with calls to the manager as"
        " probes; non-trivial: at least one loop or branch ran"
    )
    require = ("ran if", "ran while", "ran forrange", "ran forin", "ran elif", "ran else", "long loops", "namesakes")

    def subs(self, ctx):
        r = ctx.rnd
        subs = make_subs(r)
        if subs and r.random() < 0.1:
            # two subpackages of which the names are equal
            s = r.choice(subs)
            subs.insert(r.randint(0, len(subs)), Sub(r.choice([s.name, s.name.upper(), s.name.lower()]), r.choice([[], ["z.esp"], s.files])))
            ctx.count("namesakes")
        return subs

    def case(self, ctx):
        if ctx.rnd.random() < 0.01:
            return self.long(ctx)
        super().case(ctx)

    def long(self, ctx):
        """Loops of thousands of iterations, with the values they should end with."""
        r = ctx.rnd
        n = r.choice([1000, 1024, 1500, 2000, 2600, 4100])
        k = r.choice([2, 3, 7, 500])
        stop = r.choice([n + 1, n + 1, n - r.randint(0, 400)])
        form = r.choice(["while", "range", "down", "chars", "files", "subs"])
        subs = make_subs(r)
        step = 1
        if form == "while":
            head, tail = "i = 0\nWhile i < %d\ni += 1\n" % n, "EndWhile"
            values = list(range(1, n + 1))
        elif form in ("range", "down"):
            step = r.choice([1, 1, 2, 13])
            if form == "down":
                step = -step
            a = r.randint(-5, 5)
            b = a + step * (n - 1) + r.randint(0, abs(step) - 1) * (1 if step > 0 else -1)
            head, tail = "j = 0\nFor i from 0%+d to 0%+d by 0%+d\nj += 1\n" % (a, b, step), "EndFor"
            values = [a + step * m for m in range(n)]
        elif form == "chars":
            values = [chr(0x4E00 + r.randrange(2000)) for _ in range(n)]
            head, tail = "j = 0\nFor i in \"%s\"\nj += 1\n" % "".join(values), "EndFor"
        elif form == "files":
            values = ["f%d.%s" % (r.randrange(n), r.choice(["esp", "txt"])) for _ in range(n)]
            subs = subs + [Sub("Many", values)]
            head, tail = "j = 0\nFor i in SubPackages[%d]\nj += 1\n" % (len(subs) - 1), "EndFor"
        else:
            subs = [Sub("P%d" % m, ["%d.esp" % m]) for m in range(n)]
            values = [s.name for s in subs]
            head, tail = "j = 0\nFor i in SubPackages\nj += 1\n", "EndFor"
        j = "i" if form == "while" else "j"
        script = "a = 0\nc = 0\n%sIf %s == %d\nBreak\nElif %s %% %d == 0\nc += 1\nContinue\nEndIf\na += 1\n%s\ndone = True" % (head, j, stop, j, k, tail)
        ran = values if stop > n else values[:stop]
        whole = ran if stop > n else ran[:-1]
        want = {"a": ("i", sum(m % k != 0 for m in range(1, len(whole) + 1))), "done": True}
        want["c"] = ("i", len(whole) - want["a"][1])
        out = run_real(script, subs, Oracle(0), limit=20 * n)

        def fail(d):
            raise Violation("C04: " + d, script=script[:1500], form=form, iterations=n, stop=stop, every=k, step=step)

        if out.status != "COMPLETE":
            fail(f"a loop of {n} iterations ends with {out.status} {safe(out.error)}")
        got = {x: v.value for x, v in out.raw_state.variables.items()}
        last = got["i"].name if form == "subs" else got["i"]
        if (got["a"], got["c"], last, got.get("done")) != (want["a"][1], want["c"][1], ran[-1], True):
            fail(f"a loop of {n} iterations gives {(got['a'], got['c'], last)}, expected {(want['a'][1], want['c'][1], ran[-1])}")
        if form != "while" and got["j"] != len(ran):
            fail(f"{got['j']} iterations, expected {len(ran)}")
        ctx.count("long loops")
        ctx.nontrivial((script, n))

    def draw_profile(self, ctx):
        r = ctx.rnd
        p = dict(
            depth=1, effects=r.choice([0, 0, 0.5]), trace=r.choice([0, 0, 0.3]), manager=0.15, floats=0.0, subw=0.5, if_=3, while_=2, forrange=3,
            forin=2.5, select=0, break_=0.3, continue_=0.3, expr=3, assign=3,
            return_=0.02, cancel=0.02, body=r.choice([2, 3, 4]), nest=r.choice([1, 2, 3, 4, 5]),
            total=r.choice([8, 15, 30, 50]), loopmax=r.choice([1, 3, 5, 8]),
        )
        if r.random() < 0.08:
            p.update(loopmax=r.choice([40, 150, 300]), nest=1, total=6)
        if r.random() < 0.05:
            p.update(nest=12, total=30, body=2, loopmax=2, if_=8)
        return p

    def is_nontrivial(self, ref, res, out):
        return bool(ref.cov & {"if", "while", "forrange", "forin"})


CHECK = C()
