from wizard.contexts import WizardInterpreterContextFactory, WizardKeywordContext
from wizard.errors import WizardError, WizardTypeError
from wizard.expr import WizardExpressionVisitor
from wizard.functions import make_basic_functions
from wizard.interpreter import WizardInterpreter
from wizard.keywords import WizardKeyword, WizardKeywordVisitor
from wizard.severity import Issue, SeverityContext
from wizard.state import WizardInterpreterState
from wizard.value import Value

from ..harness import Check, Violation
from ..lang import quote
from ..rec import SEV, RealSub, StepLimit, cpu_watchdog, monitor, val
from ..model import safe

from wizard.value import SubPackages

# spelling -> (name, arguments required, arguments accepted)
KW = {
    "DeSelectAll": ("DeSelectAll", 0, 0),
    "DeSelectAllPlugins": ("DeSelectAllPlugins", 0, 0), "DeSelectAllEspms": ("DeSelectAllPlugins", 0, 0),
    "DeSelectPlugin": ("DeSelectPlugin", 1, 1), "DeSelectEspm": ("DeSelectPlugin", 1, 1),
    "DeSelectSubPackage": ("DeSelectSubPackage", 1, 1),
    "Note": ("Note", 1, 1),
    "RenamePlugin": ("RenamePlugin", 2, 2), "RenameEspm": ("RenamePlugin", 2, 2),
    "RequireVersions": ("RequireVersions", 1, 4),
    "ResetAllPluginNames": ("ResetAllPluginNames", 0, 0), "ResetAllEspmNames": ("ResetAllPluginNames", 0, 0),
    "ResetPluginName": ("ResetPluginName", 1, 1), "ResetEspmName": ("ResetPluginName", 1, 1),
    "SelectAll": ("SelectAll", 0, 0),
    "SelectAllPlugins": ("SelectAllPlugins", 0, 0), "SelectAllEspms": ("SelectAllPlugins", 0, 0),
    "SelectPlugin": ("SelectPlugin", 1, 1), "SelectEspm": ("SelectPlugin", 1, 1),
    "SelectSubPackage": ("SelectSubPackage", 1, 1),
}
SUBS = SubPackages([RealSub("Alpha", ["a.esp"]), RealSub("beta", [])])


class Boom(Exception):
    pass


class Severities(SeverityContext):
    def __init__(self):
        super().__init__()
        self.texts = []

    def warning(self, text):
        self.texts.append(text)


def recorder(base=WizardKeywordVisitor):
    """A visitor which records every call and changes the state it is given."""

    class Rec(base):
        def __init__(self, sev, fault=None):
            super().__init__(sev)
            self.calls = []
            self.fault = fault
            self.problems = []

        def note(self, name, context, state, args):
            n = len(self.calls)
            self.calls.append((name, args, context, dict(state.variables)))
            state.set("count", Value(n + 1))
            state.set("last", Value(name))
            if self.fault is not None and self.fault[0] == n:
                raise self.fault[1]

        def visitRequireVersions(self, state, game_version, script_extender_version, graphics_extender_version, wrye_bash_version):
            self.note(
                "RequireVersions", None, state, (game_version, script_extender_version, graphics_extender_version, wrye_bash_version)
            )

    def make(name):
        def visit(self, context, state, *args):
            self.note(name, context, state, args)

        return visit

    for name in set(n for n, _, _ in KW.values()) - {"RequireVersions"}:
        setattr(Rec, "visit" + name, make(name))
    return Rec


class C(Check):
    id = "C25"
    rule = (
        "random sequences of keywords (every spelling, right and wrong numbers of arguments, arguments of any type with effects on"
        " variables), run with a visitor which records the calls, changes the state and may raise; non-trivial: at least 2 keywords ran"
    )
    require = tuple("kw " + k for k in KW) + (
        "too few", "too many", "raised", "raised TypeError", "raised IndexError", "raised WizardTypeError", "notes", "effects", "in loops", "versions", "empty versions", "note error",
        "note warning", "note allow", "contexts",
    ) + tuple("large " + k for k in sorted({n for n, _, _ in KW.values()}))

    def fixed_names(self, ctx):
        got = {k.value for k in WizardKeyword}
        exp = {n for n, _, _ in KW.values()}
        if got != exp:
            raise Violation(f"C25: the keywords are {sorted(got)}")
        for k in WizardKeyword:
            if not callable(getattr(WizardKeywordVisitor, "visit" + k.value, None)):
                raise Violation(f"C25: nothing visits {k.value}")
        # by default, a keyword does nothing
        sev = Severities()
        f = WizardInterpreterContextFactory(WizardExpressionVisitor(SUBS, make_basic_functions(), sev), WizardKeywordVisitor(sev), sev)
        for k, (n, lo, hi) in KW.items():
            s = "a = 1\n" + k + ", ".join([" 'x'"] * lo) + "\nb = 2\n"
            c = WizardInterpreter(f).exec_until(WizardInterpreter(f).make_top_level_context(s), [])
            if {x: val(v) for x, v in c.state.variables.items()} != {"a": ("integer", 1), "b": ("integer", 2)}:
                raise Violation(f"C25: {k} does something by default")

    def fixed_large(self, ctx):
        """Long arguments, many keywords, arguments which are given by functions, without any variable."""

        class List(WizardKeywordVisitor):
            calls = []

            def visitRequireVersions(self, state, game_version, script_extender_version, graphics_extender_version, wrye_bash_version):
                self.calls.append(("RequireVersions", game_version, script_extender_version, graphics_extender_version, wrye_bash_version))

        def make(name):
            def visit(self, context, state, *args):
                self.calls.append((name,) + args)

            return visit

        for name in set(n for n, _, _ in KW.values()) - {"RequireVersions"}:
            setattr(List, "visit" + name, make(name))
        sev = Severities()
        count = [0]

        def tick(state, values):
            count[0] += 1
            return Value(f"t{count[0]}")

        def below(state, values):
            return Value(count[0] < values[0].value)

        kv = List(sev)
        fns = dict(make_basic_functions(), tick=tick, below=below)
        interp = WizardInterpreter(WizardInterpreterContextFactory(WizardExpressionVisitor(SUBS, fns, sev), kv, sev))

        def check(what, script, expected):
            kv.calls.clear()
            count[0] = 0
            c = interp.exec_until(interp.make_top_level_context(script), [])
            if kv.calls != expected:
                i = next((i for i, (a, b) in enumerate(zip(kv.calls, expected)) if a != b), min(len(expected), len(kv.calls)))
                raise Violation(
                    f"C25: {what}: call {i} is {repr(kv.calls[i:i + 1])[:300]}, expected {repr(expected[i:i + 1])[:300]} ({len(kv.calls)} calls, expected {len(expected)})",
                    script=script[:1000],
                )
            return c

        for k, (name, lo, hi) in KW.items():
            for n in range(lo, hi + 1):
                fill = (None,) * (4 - n) if name == "RequireVersions" else ()
                long = tuple(f"{i}é\n" * 3000 + "end" for i in range(n))
                check("long arguments", k + " " + ", ".join("'" + x.replace("\n", "\\n") + "'" for x in long), [(name, *long, *fill)])
                check("many keywords", (k + " " + ", ".join(f"'{i}'" for i in range(n)) + "\n") * 60, [(name, *(str(i) for i in range(n)), *fill)] * 60)
                if n:
                    exp = [(name, *(f"t{j * n + i + 1}" for i in range(n)), *fill) for j in range(50)]
                    check("arguments given by functions", f"While below({50 * n})\n{k} " + ", ".join(["tick()"] * n) + "\nEndWhile", exp)
                    exp = [(name, *(f"t{j * n + i + 1}" for i in range(n)), *fill) for j in range(1000)]
                    check("many iterations", f"While below({1000 * n})\n{k} " + ", ".join(["tick()"] * n) + "\nEndWhile", exp)
            ctx.count("large " + name)

    def arg(self, r, strings):
        """(text, value, effect on n)"""
        x = r.random()
        if x < 0.12:
            return "n++", None, 1
        if x < 0.2:
            return "str(n++)", "str", 1
        if strings or x < 0.7:
            v = r.choice(["", "a", "b c", "Alpha.esp", "é", "1.2", "|x", "a'b", " ", " a", "a ", " b  c ", "\tx", "y\n", "1.2 ", " 0", "None", "0"])
            return quote(v, r), v, 0
        return r.choice([("1", 1, 0), ("2.5", 2.5, 0), ("True", True, 0), ("SubPackages[0]", SUBS[0], 0), ("False", False, 0), ("0", 0, 0)])

    def case(self, ctx):
        r = ctx.rnd
        lines, exp = ["n = 0", "count = 0", "last = ''"], []
        n = 0
        error = None
        kws = []
        sevs = {k: r.choice(list(SEV)) for k in ("USAGE_OF_ANYTHING_IN_NOTE",) if r.random() < 0.6}
        default = r.choice(["warn", "warn", "allow", "error"])
        notesev = sevs.get("USAGE_OF_ANYTHING_IN_NOTE", default)
        warned = 0
        m = r.choice([1, 2, 3, 5, 10])
        fault = None
        if r.random() < 0.2:
            k = r.randrange(m)
            fault = (k, r.choice([Boom("b"), ValueError("v"), TypeError("t"), IndexError(3), WizardTypeError(None, "w")]))
        for _ in range(m):
            k = r.choice(list(KW))
            name, lo, hi = KW[k]
            x = r.random()
            na = r.randint(lo, hi) if x < 0.95 else r.choice([max(lo - 1, 0), hi + 1, hi + 2])
            reps = 1
            loop = r.random() < 0.15
            if loop:
                reps = r.randint(0, 3)
                lines.append(f"For z from 1 to {reps}")
                ctx.count("in loops")
            parts = [self.arg(r, r.random() < 0.6) for _ in range(na)]
            lines.append(k + (" " if parts else "") + ", ".join(p[0] for p in parts))
            lines.append("If True")
            lines.append("EndIf")
            if loop:
                lines.append("EndFor")
            for _ in range(reps):
                if error:
                    break
                vals = []
                for t, v, e in parts:
                    n += e
                    if e:
                        ctx.count("effects")
                        v = n if v is None else str(n)
                    vals.append(v)
                if not lo <= na <= hi:
                    error = ("arity", k)
                    ctx.count("too few" if na < lo else "too many")
                    break
                if name == "RequireVersions":
                    if any(v == "" for v in vals[1:]):
                        ctx.count("empty versions")
                    vals = [vals[0]] + [v or None for v in vals[1:]] + [None] * (4 - len(vals))
                    ctx.count("versions")
                if name == "Note":
                    ctx.count("notes")
                    if not isinstance(vals[0], str):
                        if notesev == "error":
                            error = ("note", k)
                            ctx.count("note error")
                            break
                        ctx.count("note " + {"warn": "warning"}.get(notesev, notesev))
                        warned += notesev == "warn"
                        vals = [str(vals[0])]
                exp.append((name, tuple(vals), k, n))
                ctx.count("kw " + k)
                if fault is not None and fault[0] == len(exp) - 1:
                    error = ("raised", k)
        script = "\n".join(lines + ["done = count"])
        sev = Severities()
        sev.set_default_severity(SEV[default])
        for i, s in sevs.items():
            sev.set_severity(Issue[i], SEV[s])
        kv = recorder()(sev, fault)
        f = WizardInterpreterContextFactory(WizardExpressionVisitor(SUBS, make_basic_functions(), sev), kv, sev)
        interp = WizardInterpreter(f)
        c = interp.make_top_level_context(script)
        ex = None
        m = monitor()
        m.reset(3000)
        seen = []

        def before(x):
            if isinstance(x, WizardKeywordContext):
                seen.append((x, dict(x.state.variables), len(kv.calls)))

        m.before = before
        try:
            with cpu_watchdog(60):
                c = interp.exec_until(c, [])
        except StepLimit:
            raise Violation("C25: does not end", script=script)
        except Exception as e:
            ex = e
        finally:
            m.before = None
            m.limit = None

        def fail(what):
            raise Violation("C25: " + what, script=script, severities=(default, sevs), fault=repr(fault))

        got = [(a, b) for a, b, _, _ in kv.calls]
        want = [(a, b) for a, b, _, _ in exp]
        if [(a, tuple(map(val, b))) for a, b in got] != [(a, tuple(map(val, b))) for a, b in want]:
            fail(f"calls {got}, expected {want}")
        for i, ((name, _, context, variables), (_, _, k, nn)) in enumerate(zip(kv.calls, exp)):
            if context is not None:
                if not isinstance(context, WizardKeywordContext) or context.context.Keyword().getText() != k:
                    fail(f"call {i}: the context is not the one of the keyword")
                ctx.count("contexts")
            # the state has the effects of the arguments, and what the calls before did
            if val(variables["n"]) != ("integer", nn) or val(variables["count"]) != ("integer", i) or (i and val(variables["last"]) != ("string", exp[i - 1][0])):
                fail(f"call {i}: with the state {variables}")
        for x, v, nc in seen:
            if dict(x.state.variables) != v:
                fail("the state of the context of a keyword was changed")
        if len(sev.texts) != warned:
            fail(f"{len(sev.texts)} warnings, expected {warned}")
        if error is None:
            if ex is not None:
                fail(f"unexpected {ex!r} {safe(ex)}")
            if val(c.state.variables["done"]) != ("integer", len(exp)) or val(c.state.variables["n"]) != ("integer", n):
                fail(f"final state {c.state.variables}")
            if exp and val(c.state.variables["last"]) != ("string", exp[-1][0]):
                fail(f"final state {c.state.variables}")
        else:
            if ex is None:
                fail(f"no error ({error})")
            if error[0] == "arity":
                if not isinstance(ex, WizardTypeError) or error[1] not in str(ex):
                    fail(f"{error}: got {ex!r} {safe(ex)}")
            elif error[0] == "note":
                if not isinstance(ex, WizardTypeError):
                    fail(f"{error}: got {ex!r} {safe(ex)}")
            else:
                cause = fault[1]
                ctx.count("raised")
                ctx.count("raised " + type(cause).__name__)
                if isinstance(cause, (TypeError, IndexError)) and not isinstance(cause, WizardError):
                    if type(ex).__name__ != "Wizard" + type(cause).__name__ or ex.__cause__ is not cause:
                        fail(f"{cause!r} in the visitor becomes {ex!r}")
                elif ex is not cause:
                    fail(f"{cause!r} in the visitor becomes {ex!r}")
        if len(exp) >= 2:
            ctx.nontrivial(script)
            ctx.sample({"script": script[:600], "calls": [repr(x) for x in got[:6]], "error": repr(error)})


CHECK = C()
