from ..gen import Gen
from ..lang import *  # noqa: F403
from ..model import ModelCheck
from ..rec import val

FILES = ["Skyrim.ini", "skyrim.INI", "SKYRIM.INI", "My Ini.ini", "x\\y.ini", "É.ini", "é.ini", "", "plain", "a/b.ini", "Data/A.ini", "data/a.ini", "/a.ini", "a.ini/", " a.ini ", "a.ini", "b.ini", "..", "a\\b.ini"]


class IniGen(Gen):
    def s_ini(self):
        r = self.r
        if r.random() < 0.4:
            return super().s_ini()
        f, sec, st = Str(r.choice(FILES)), Str(r.choice(["General", "general", "", "[x]"])), Str(r.choice(["bA", "ba", "", "f=1"]))
        if r.random() < 0.35:
            args = [f, sec, st]
            n = "DisableINILine"
        else:
            args = [f, sec, st, self.expr(r.choice("isbf"), 1)]
            if r.random() < 0.5:
                args.append(Str(r.choice(["", "c", "; c"])))
            n = "EditINI"
        if r.random() < 0.03:
            args = args[: r.randint(0, 3)] if r.random() < 0.5 else args + [Str("z")] * r.randint(1, 2)
        c = Call(n, *args)
        return ExprS(c) if r.random() < 0.9 else Assign("v", c)


class C(ModelCheck):
    id = "C12"
    rule = (
        "random sequences of EditINI and DisableINILine (file names differing in case,"
        " values of any type, with and without comment), in straight lines, loops and"
        " branches, and the queries on their result; non-trivial: at least one tweak"
    )
    require = ("function EditINI", "function DisableINILine", "several files", "no tweak", "status ERROR", "both kinds")

    def program(self, ctx, subs):
        r = ctx.rnd
        g = IniGen(
            r, subs, mix=0.2, ini=r.choice([0.5, 6, 20]), depth=1, manager=0.1, floats=0.3, subw=0.3, assign=1, compound=0.3, incdec=0.3,
            expr=0.3, if_=1, while_=0.4, forrange=0.6, forin=1, select=0.3, break_=0.3, continue_=0.3, exec_=0.2,
            body=r.choice([1, 3, 6, 12]), nest=r.choice([0, 1, 2]), total=r.choice([1, 5, 10, 20, 40]),
        )
        return g.program()

    def extra(self, res, ref, out):
        st = out.raw_state
        if st is None:
            return None
        s = res[1]
        tw = st.tweaks
        files = sorted({t[0] for t in s.modified} | {t[0] for t in s.disabled})
        if list(tw.files()) != files:
            return f"files: expected {files}, got {tw.files()}"
        if bool(tw) != bool(files):
            return f"bool: expected {bool(files)}"
        for f in set(files) | {x.upper() for x in files} | {"nothing.ini"}:
            want = [t[:4] for t in s.modified if t[0].lower() == f.lower()] + [t for t in s.disabled if t[0].lower() == f.lower()]
            got = [
                (t.filename, t.section, t.setting) + ((t.value,) if hasattr(t, "value") else ()) for t in tw.tweaks(f)
            ]
            if [tuple(map(val, x)) for x in want] != [tuple(map(val, x)) for x in got]:
                return f"tweaks({f!r}): expected {want}, got {got}"
        return None

    def observe(self, ctx, script, ref, res, out):
        super().observe(ctx, script, ref, res, out)
        s = res[1]
        files = {t[0] for t in s.modified} | {t[0] for t in s.disabled}
        ctx.count("several files", len(files) > 1)
        ctx.count("no tweak", not files)
        ctx.count("both kinds", bool(s.modified and s.disabled))
        ctx.maximum("tweaks", len(s.modified) + len(s.disabled))

    def is_nontrivial(self, ref, res, out):
        return bool(res[1].modified or res[1].disabled)


CHECK = C()
