import re

from ..gen import Gen, make_subs
from ..harness import Violation
from ..lang import *  # noqa: F403
from ..lang import N, quote, render, walk
from ..model import ModelCheck, compare, safe
from ..rec import HOST_OK, Hang, Oracle, RecRunner, StepLimit, cpu_watchdog, errclass, monitor, real_state, real_subs, run_real
from ..ref import Ref, TooBig

from wizard.errors import WizardError, WizardParseError

# Lines which cannot be repaired: an error if they are executed.
FATAL = ["a .= False", "foo(", "x = a[", "x = a[1", "x = == =", "x = a.b + 1", "x = 'a' . 'b'", "x .= 1", "a[1] .= 2"]
# Lines with a token missing or in excess.
WRONG = FATAL + [
    "x = = 2", 'b = "For" 4 65', "x = (1", "x = * 3", "x = .5", "x = 1 * * 2", "x = 1 + * 2", "x = (1 + 2", "x = 1 == == 2", "x = foo(1 2)",
    "x = < 3", "x = [1", "x = and 2", "x = 1 and or 2",
]
# (what follows an unclosed bracket may be taken with it)
CLOSED = [w for w in WRONG if w.count("(") == w.count(")") and w.count("[") == w.count("]")]
INACTIVE = [
    "If False\n%s\nEndIf", "If True\nElse\n%s\nEndIf", "If True\nElif True\n%s\nEndIf", "If False\nElif False\n%s\nElse\nEndIf",
    "If False\n%s\nElse\nEndIf", "While False\n%s\nEndWhile", "For kk from 1 to 0\n%s\nEndFor", "For kk in ''\n%s\nEndFor",
    "If False\nIf True\n%s\nEndIf\nEndIf", "If False\nFor kk from 1 to 3\n%s\nEndFor\nElse\nEndIf", "If False\nWhile True\n%s\nEndWhile\nEndIf",
]
ACTIVE = [
    "%s", "If True\n%s\nEndIf", "If False\nElse\n%s\nEndIf", "If False\nElif True\n%s\nEndIf", "If True\n%s\nElse\nEndIf", "While True\n%s\nEndWhile",
    "For kk in 'a'\n%s\nEndFor", "If True\nIf True\n%s\nEndIf\nEndIf", "If True\nFor kk in 'a'\n%s\nEndFor\nElse\nEndIf",
]

# Blocks whose header is broken (what they contain is lost as well).
BLOCKS = [
    "If\nzz = 1\nEndIf", "If (1 ==\nzz = 1\nzz = 2\nEndIf", "While\nzz = 1\nEndWhile",
    "For kk frm 1 to 3\nzz = 1\nEndFor", "For kk in\nzz = 1\nEndFor", "For kk from 1 to\nzz = 1\nEndFor", "For 3 in 'abc'\nzz = 1\nEndFor",
    "For kk from to 3\nzz = 1\nEndFor", "SelectOne 'a', 'b'\nCase 'a'\nzz = 1\nEndSelect",
    "SelectMany 'a', 'b', 'c'\nCase 'b'\nzz = 1\nEndSelect", "If 1 = 2\nzz = 1\nNote zz\nEndIf",
]
SIMPLE = ("assign", "compound", "expr", "kw", "return", "cancel", "continue")

TOKEN = re.compile(r"'(?:\\.|[^'\\\n])*'|\"(?:\\.|[^\"\\\n])*\"|\w+|\+\+|--|[-+*/%^<>=!]=|\s+|.", re.DOTALL)
EXTRA = [
    "If", "Elif", "Else", "EndIf", "While", "EndWhile", "For", "EndFor", "SelectOne", "SelectMany", "Case", "Default", "EndSelect", "Break",
    "Continue", "Return", "Cancel", "Note", "SelectAll", "SelectSubPackage", "RequireVersions", "in", "from", "to", "by", "and", "or", "not",
    "SubPackages", "True", "False", "(", ")", "[", "]", ",", ":", ".", "=", "==", "+", "-", "/", "%", "++", "+=", "<", ">", "!", "|", "&", "'", '"',
    ";", "\\", "\n", "Exec", "len", "x", "i1", "s1", "'a'", "0", "1", "$", "#", "@", "é", "\0", "\u2028", "DataFileExists", "str", "'\\x4'", "'\\'",
]


QUOTED = re.compile(r"(no viable alternative at input |mismatched input )'(.*?)'($| expecting(.*)$)", re.DOTALL)


def unescape_ws(s):
    return s.replace("\\n", "\n").replace("\\r", "\r").replace("\\t", "\t")


class Grown(BaseException):
    """A value has become too big (a legitimate effect of some mutations)."""


def mutate(script, r):
    toks = TOKEN.findall(script)
    if not toks:
        toks = ["x"]
    for _ in range(r.choice([1, 1, 1, 2, 3, 6, 15])):
        x = r.random()
        i = r.randrange(len(toks)) if toks else 0
        if not toks:
            toks = [r.choice(EXTRA)]
        elif x < 0.25:
            del toks[i : i + r.choice([1, 1, 2, 4])]
        elif x < 0.5:
            toks.insert(i, r.choice(EXTRA))
            if r.random() < 0.5:
                toks.insert(i, " ")
        elif x < 0.6:
            toks[i] = r.choice(EXTRA)
        elif x < 0.7:
            j = r.randrange(len(toks))
            toks[i], toks[j] = toks[j], toks[i]
        elif x < 0.78:
            toks[i:i] = toks[i : i + r.choice([1, 3, 8])]
        elif x < 0.86:
            del toks[i:]
        elif x < 0.92:
            # a character
            t = toks[i]
            k = r.randrange(len(t) + 1)
            toks[i] = t[:k] + r.choice(["", "'", "(", "\\", "_", "9", "\n"]) + t[k + 1 :]
        else:
            # a line
            lines = "".join(toks).split("\n")
            k = r.randrange(len(lines))
            if r.random() < 0.5:
                del lines[k]
            else:
                lines.insert(r.randrange(len(lines) + 1), lines[k])
            toks = TOKEN.findall("\n".join(lines))
    # no big numbers, nor operations which make some
    s = "".join(toks).replace("^", "-").replace("*", "+")
    return re.sub(r"\d{3,}", "7", s)


def statements(prog):
    out = [prog]
    for n in walk(prog):
        for a in ("body", "els", "default"):
            b = n.__dict__.get(a)
            if isinstance(b, list) and n.k != "exec":
                out.append(b)
        if n.k == "if":
            out.extend(b for _, b in n.elifs)
    return out


class C(ModelCheck):
    id = "C18"
    rule = (
        "scripts with tokens or lines deleted, added, replaced, exchanged, or truncated; and random programs with broken"
        " lines in blocks which are not executed (no influence) or are executed (an error, with the state before);"
        " non-trivial: the script differs from a correct one"
    )
    require = ("mutated", "quoted", "parse errors", "inactive", "active", "anywhere executed", "anywhere not executed", "in a case executed", "in a case not executed", "broken blocks", "located", "rendered") + tuple(
        "status " + s for s in ("COMPLETE", "ERROR", "CANCEL", "RETURN")
    )

    def case(self, ctx):
        x = ctx.rnd.random()
        if x < 0.6:
            self.fuzz(ctx)
        elif x < 0.7:
            self.inactive(ctx)
        elif x < 0.8:
            self.active(ctx)
        else:
            self.anywhere(ctx)

    def anywhere(self, ctx):
        """A broken line in any block, even a case, which is executed or not."""
        r = ctx.rnd
        subs = self.subs(ctx)
        prog = self.gen(ctx, subs).program()
        lists = [(prog, False)]
        for n in walk(prog):
            if n.k == "if":
                lists.append((n.body, False))
                lists.extend((b, False) for _, b in n.elifs)
                if n.els is not None:
                    lists.append((n.els, False))
            elif n.k in ("while", "forrange", "forin"):
                lists.append((n.body, False))
            elif n.k == "select":
                lists.extend((c.body, True) for c in n.cases)
                if n.default is not None:
                    lists.append((n.default, True))
        block = r.random() < 0.4
        b, case = r.choice(lists)
        if r.random() < 0.5:
            cs = [x for x in lists if x[1]]
            if cs:
                b, case = r.choice(cs)
        i = 0 if r.random() < 0.7 else r.randint(0, len(b))
        rest = b[i:]
        if not block and b is not prog:
            # What follows in the block is lost
            if case and (not rest or rest[-1].k != "break"):
                rest = rest + [Break()]
            if case:
                rest = [s for s in rest[:-1] if s.k in SIMPLE] + rest[-1:]
            else:
                rest = [s for s in rest if s.k in SIMPLE]
        text = r.choice(BLOCKS) if block else r.choice([w for w in FATAL if w in CLOSED and "b" not in w])
        if i > 0 and b[i - 1].k in ("cancel", "kw"):
            text = "yy = 1\n" + text
        started = []

        def effect(ref):
            ref.pr = None
            started.append(1)
            ref.fail("WizardParseError", None)

        b[i:] = [N("raw", toks=[text], effect=effect)] + rest
        seed = r.getrandbits(30)
        script, pr = render(prog)
        ro, oo = Oracle(seed), Oracle(seed)
        sev = {None: "warn", "USAGE_OF_NOTSET_VARIABLES": "allow"}
        ref = Ref(subs, ro, sev)
        res = ref.run(prog, pr)
        out = run_real(script, subs, oo, sev, limit=500 + 30 * int(ref.steps))
        if out.state:
            out.state["vars"].pop("yy", None)
        if started and i > 0:
            # (the error may come when the block begins)
            if res[0] != out.status or errclass(out.error) != "WizardParseError":
                raise Violation(f"C18: a broken line is executed: {out.status} {safe(out.error)}", script=script, broken=text)
        else:
            d = compare(res, ref, ro, out)
            if d:
                raise Violation("C18: " + d, script=script, broken=text)
        ctx.count("anywhere")
        ctx.count("anywhere executed" if started else "anywhere not executed")
        if case:
            ctx.count("in a case " + ("executed" if started else "not executed"))
        if block:
            ctx.count("broken blocks")
        self.observe(ctx, script, ref, res, out)

    def gen(self, ctx, subs):
        r = ctx.rnd
        return Gen(
            r, subs, depth=r.choice([1, 2]), manager=0.2, kw=2, ini=0.5, select=1.5, exec_=0.7, floats=0.1, expr=1, unset=0.02,
            body=r.choice([2, 3]), nest=r.choice([1, 2, 3]), total=r.choice([3, 8, 16]),
        )

    def fuzz(self, ctx):
        r = ctx.rnd
        subs = make_subs(r, r.choice([0, 1, 3]))
        script, _ = render(self.gen(ctx, subs).program())
        script = mutate(script, r)
        if r.random() < 0.1:
            # as the text of an Exec
            script = "z = 1\nExec(" + quote(script) + ")"
        o = Oracle(r.getrandbits(30))
        runner = RecRunner(real_subs(subs), o, 0)
        m = monitor()
        m.reset(3000)

        def after(c, res):
            for v in res.state.variables.values():
                v = v.value
                if (isinstance(v, int) and abs(v) > 3000) or (isinstance(v, str) and len(v) > 3000):
                    raise Grown()

        m.after = after
        status = ex = None
        try:
            with cpu_watchdog(60):
                st, state = runner.run(script)
            status = st.name
        except StepLimit:
            status = "STEPLIMIT"
        except Grown:
            status = "GROWN"
        except Hang:
            raise Violation("C18: a step does not end", script=script)
        except Exception as e:
            status, ex = "RAISED", e
            ctx.count("raised by run")
        finally:
            m.reset()
        ctx.count("mutated")
        ctx.count("status " + status)
        if status == "ERROR":
            ex = runner.errors[-1]
        if ex is not None:
            if isinstance(ex, (MemoryError, RecursionError)):
                raise TooBig()
            if not isinstance(ex, (WizardError,) + HOST_OK):
                raise Violation(f"C18: a broken script fails with {type(ex).__name__}: {ex}", script=script)
            if status == "RAISED" and not isinstance(ex, WizardParseError):
                raise Violation(f"C18: run() raised {type(ex).__name__}: {ex}", script=script)
            ctx.count(errclass(ex))
            if isinstance(ex, WizardParseError):
                ctx.count("parse errors")
            if isinstance(ex, WizardError):
                try:
                    s = str(ex)
                    repr(ex)
                    ex.message
                except Exception as e:
                    raise Violation(f"C18: {type(e).__name__} when the error is rendered: {e}", script=script)
                ctx.count("rendered")
                if not s.startswith(f"Line {ex.line}, Column {ex.column}: ") or not ex.message:
                    raise Violation(f"C18: the text of the error is {s!r}", script=script)
                if any(c in s for c in "\n\r\t") and isinstance(ex, WizardParseError):
                    raise Violation(f"C18: the text of the error is not on one line: {s!r}", script=script)
                q = QUOTED.match(ex.message)
                if q and "Exec" not in script:
                    # what it quotes is in the script (characters which are not of the language are skipped)
                    ctx.count("quoted")
                    found = "".join(unescape_ws(q[2]).split())
                    it = iter(script)
                    if not q[2]:
                        raise Violation("C18: the error quotes nothing", script=script, error=s)
                    if found != "<EOF>" and not all(c in it for c in found):
                        raise Violation(f"C18: the error quotes {q[2]!r}, which is not in the script", script=script, error=s)
                    if q[1].startswith("mismatched") and not q[3].strip():
                        raise Violation(f"C18: nothing is said to be expected: {s!r}", script=script)
                if ex.line != -1 and "Exec" not in script:
                    ctx.count("located")
                    lines = script.split("\n")
                    if not 1 <= ex.line <= len(lines) or not 0 <= ex.column <= len(lines[ex.line - 1]):
                        raise Violation(f"C18: the error is said to be at {(ex.line, ex.column)}, out of the script", script=script)
        ctx.nontrivial(script)
        ctx.sample({"script": script[:800], "status": status, "error": safe(ex) if ex else None})

    def line(self, ctx, lines):
        r = ctx.rnd
        s = r.choice(lines)
        if r.random() < 0.3:
            s = "yy = 1\n" + s
        if r.random() < 0.3:
            s = s + "\nyy = 1"
        return s

    def inactive(self, ctx):
        r = ctx.rnd
        subs = self.subs(ctx)
        prog = self.gen(ctx, subs).program()
        for _ in range(r.choice([1, 1, 2, 4])):
            text = r.choice(INACTIVE) % self.line(ctx, CLOSED)
            b = r.choice(statements(prog))
            i = r.randint(0, len(b))
            b.insert(i, N("raw", toks=[text], effect=lambda ref: None))
        self.check_program(ctx, subs, prog, o=dict(self.draw_options(ctx), style="plain"))
        ctx.count("inactive")

    def active(self, ctx):
        r = ctx.rnd
        subs = self.subs(ctx)
        prog = self.gen(ctx, subs).program()
        text = r.choice(ACTIVE) % self.line(ctx, [w for w in FATAL if w in CLOSED and "b" not in w])

        def effect(ref):
            ref.pr = None
            ref.fail("WizardParseError", None)

        # what is inside of the blocks may be executed or not
        i = r.randint(0, len(prog))
        if i > 0 and prog[i - 1].k in ("cancel", "kw"):
            # (not an argument of it)
            text = "yy = 1\n" + text
        prog.insert(i, N("raw", toks=[text], effect=effect))
        seed = r.getrandbits(30)
        script, pr = render(prog)
        ro, oo = Oracle(seed), Oracle(seed)
        # (foo( may be read as the variable foo followed by something wrong)
        sev = {None: "warn", "USAGE_OF_NOTSET_VARIABLES": "allow"}
        ref = Ref(subs, ro, sev)
        res = ref.run(prog, pr)
        out = run_real(script, subs, oo, sev, limit=500 + 30 * int(ref.steps))
        for st in (out.state,):
            if st:
                st["vars"].pop("yy", None)
                st["vars"].pop("kk", None)
        d = compare(res, ref, ro, out)
        if d:
            raise Violation("C18: " + d, script=script, broken=text)
        if res[0] == "ERROR" and res[2].node is None:
            e = out.error
            if not 1 <= e.line <= script.count("\n") + 1:
                raise Violation(f"C18: the error is said to be at line {e.line}", script=script)
        ctx.count("active")
        self.observe(ctx, script, ref, res, out)


CHECK = C()
