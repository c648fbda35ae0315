from ..gen import AnyGen
from ..lang import *  # noqa: F403
from ..model import ModelCheck

ONE = [
    "CompareGameVersion", "CompareSEVersion", "CompareGEVersion", "CompareWBVersion", "GetPluginStatus",
    "GetEspmStatus", "GetFilename", "GetFolder",
]
ALL = ONE + ["GetPluginLoadOrder", "DataFileExists"]


class ManGen(AnyGen):
    def mancall(self, d):
        r = self.r
        n = r.choice(ALL)
        wrong = r.random() < 0.12
        k = {"GetPluginLoadOrder": r.choice([1, 2])}.get(n, 1)
        if n == "DataFileExists":
            k = r.choice([1, 1, 2, 3, 5, 12])
        if wrong and r.random() < 0.5:
            k = r.choice([0, 1, 2, 3])
        args = []
        for i in range(k):
            if wrong and r.random() < 0.4:
                args.append(self.anyx(1))
            elif n == "GetPluginLoadOrder" and i == 1:
                args.append(r.choice([self.expr("i", 1), Neg(Int(r.randint(1, 9))), Bool(True)] if r.random() < 0.3 else [Int(r.randint(0, 300))]))
            elif d > 0 and r.random() < 0.3:
                args.append(Call("str", self.mancall(d - 1)))
            elif r.random() < 0.4:
                args.append(self.expr("s", 1))
            else:
                args.append(Str(r.choice(["1.2.0.416", "", "Skyrim.esm", "../SkyrimSE.exe", "Data\\x.esp", "é.esp", "textures/a b.dds"])))
        return Call(n, *args)


class C(ModelCheck):
    id = "C09"
    rule = (
        "random programs with calls to the functions answered by the mod manager, with"
        " right and wrong numbers and types of arguments, repeated in loops and nested;"
        " non-trivial: the manager was called"
    )
    require = tuple("function " + f for f in ALL) + ("status ERROR", "status COMPLETE", "ran forrange")

    def program(self, ctx, subs):
        r = ctx.rnd
        self.history = r.random() < 0.6
        g = ManGen(r, subs, mix=0.15, floats=0.1, depth=2, subw=0.4, unset=0.02, manager=0.3)
        prog = g.prologue()
        for i in range(r.randint(1, 6)):
            x = r.random()
            e = g.mancall(r.choice([0, 0, 1, 2]))
            if x < 0.45:
                prog.append(Assign("r%d" % i, e))
            elif x < 0.65:
                prog.append(ExprS(e))
            elif x < 0.75:
                prog.append(If(Bin(r.choice(["==", ">=", "<"]), Call("GetPluginStatus", Str("p")), Int(r.randint(0, 3))), [ExprS(e)]))
            elif x < 0.85:
                prog.append(ForRange("k", Int(1), Int(r.randint(0, 4)), None, [Assign("r%d" % i, e), ExprS(g.mancall(0))]))
            elif x < 0.92 and subs:
                prog.append(ForIn("p", Subs(), [ForIn("f", Var("p"), [Assign("e", Call("DataFileExists", Var("f"), Str("a")))])]))
            else:
                prog.append(Assign("r%d" % i, Bin(r.choice(["and", "or"]), e, Call("DataFileExists", Str("t%d" % i)))))
        return prog

    def is_nontrivial(self, ref, res, out):
        return len(out.events) > 1


CHECK = C()
