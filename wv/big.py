"""
Large cases, of which the result is known without the model: limits which only appear with many
iterations, options, arguments, names.. are out of reach of the random programs, which are small.

BIG[property] gives cases (what, script, expected), where expected may have: status, vars (those given
only), subs, plugins, notes, renames, ntweaks, events (those which are not warnings or the end),
warnings (how many), error (class), line, column; `subs` and `answer` are inputs.
"""

from .harness import Violation
from .rec import Oracle, errclass, run_real, val
from .ref import Sub


class Answers(Oracle):
    def __init__(self, fn):
        super().__init__(0)
        self.fn = fn

    def answer(self, kind, *args):
        if self.fn is None:
            return super().answer(kind, *args)
        return self.fn(kind, *args)


def lines(*a):
    return "\n".join(a)


def c01():
    n = 150
    yield "sum of many terms", "a = " + " + ".join(str(i) for i in range(n)), dict(vars={"a": sum(range(n))})
    yield "difference of many terms", "a = " + " - ".join(str(i) for i in range(30)), dict(vars={"a": -sum(range(30))})
    yield "many powers", "a = 3 ^ 500 % 1000003", dict(vars={"a": 3**500 % 1000003})
    yield "large integers", "a = 2 ^ 2000 + 1\nb = a == 2 ^ 2000 + 1\nc = a > 2 ^ 2000", dict(vars={"a": 2**2000 + 1, "b": True, "c": True})
    yield "long text", "s = ''\nFor i from 1 to 3000\ns += 'ab'\nEndFor\nb = s == s\nc = s[5999]\nd = s[10:5000:7]", dict(
        vars={"s": "ab" * 3000, "b": True, "c": "b", "d": ("ab" * 3000)[10:5000:7]})
    yield "long comparisons", f"a = '{'x' * 3000}a' < '{'x' * 3000}b'\nb = '{'X' * 3000}a' ==: '{'x' * 3000}A'", dict(vars={"a": True, "b": True})
    yield "many conditions", "a = " + " or ".join(["False"] * n + ["True"]) + "\nb = " + " and ".join(["True"] * n + ["False"]), dict(vars={"a": True, "b": False})
    yield "many increments", "i = 0\n" + "i++\n" * 1500 + "j = i", dict(vars={"i": 1500, "j": 1500})
    yield "nested parentheses", "a = " + "(" * 60 + "1" + " + 1)" * 60, dict(vars={"a": 61})
    subs = [Sub("P%d" % i, ["f%d.txt" % i]) for i in range(400)]
    yield "many subpackages", "a = 'P399' in SubPackages\nb = 'p399' in SubPackages\nc = 'p399' in SubPackages:\nd = 'P400' in SubPackages\ns = SubPackages[399]\nt = 'f399.txt' in s", dict(
        subs=subs, vars={"a": True, "b": False, "c": True, "d": False, "t": True})
    yield "many variables", lines(*("v%d = %d" % (i, i) for i in range(700))), dict(vars={"v%d" % i: i for i in range(700)})
    yield "long names", "a" * 3000 + " = 1\nb = " + "a" * 3000 + " + 1", dict(vars={"a" * 3000: 1, "b": 2})


def c02():
    n = 120
    args = ", ".join(f"GetFolder('{i}')" for i in range(n))
    yield "many arguments", f"DataFileExists({args})", dict(
        answer=lambda k, *a: True if k == "dataFileExists" else "r" + a[0],
        events=[("getFolder", str(i)) for i in range(n)] + [("dataFileExists", *("r%d" % i for i in range(n)))])
    yield "many operands", "a = " + " + ".join(f"GetFolder('{i}')" for i in range(40)), dict(
        answer=lambda k, *a: a[0], vars={"a": "".join(str(i) for i in range(40))}, events=[("getFolder", str(i)) for i in range(40)])
    yield "many conditions", "If False\n" + "".join(f"Elif GetFolder('{i}') == 'x'\n" for i in range(n)) + "EndIf", dict(
        answer=lambda k, *a: "y", events=[("getFolder", str(i)) for i in range(n)])
    opts = ", ".join(f"GetFolder('{i}'), 'd', ''" for i in range(n))
    cases = "".join(f"Case GetFilename('{i}')\nx = {i}\n" for i in range(n))
    yield "many options", f"SelectMany 'd', {opts}\n{cases}EndSelect", dict(
        answer=lambda k, *a: ["r"] if k == "selectMany" else "z" if k == "getFilename" else "r%s" % a[0],
        events=[("getFolder", str(i)) for i in range(n)] + [("selectMany", "d", [("r%d" % i, "d", None) for i in range(n)], [])]
        + [("getFilename", str(i)) for i in range(n)])
    yield "many iterations", "i = 0\nWhile i < 1500\nGetFolder(str(i++))\nEndWhile", dict(
        answer=lambda k, *a: "", vars={"i": 1500}, events=[("getFolder", str(i + 1)) for i in range(1500)])


def c03():
    s = "é\U0001f600a'\\x" * 3000
    lit = s.replace("\\", "\\\\").replace('"', '\\"')
    yield "long literal", f'a = "{lit}"', dict(vars={"a": s})
    yield "many escapes", 'a = "' + "\\n\\t\\x41\\u00e9\\101\\q" * 1500 + '"', dict(vars={"a": "\n\tA\u00e9Aq" * 1500})
    yield "long integer", "a = " + "1234567890" * 120, dict(vars={"a": int("1234567890" * 120)})
    yield "long decimal", "a = 0." + "0" * 300 + "1\nb = " + "9" * 300 + ".5", dict(vars={"a": float("0." + "0" * 300 + "1"), "b": float("9" * 300 + ".5")})
    yield "many literals", lines(*("v%d = '%d' + '\\\\%d'" % (i, i, i) for i in range(400))), dict(vars={"v%d" % i: "%d\\%d" % (i, i) for i in range(400)})


def c04():
    for a, b, by in ((1, 5000, 1), (5000, 1, -1), (-2000, 2000, 3), (0, 10**6, 997), (10**12, 10**12 + 3000, 1), (7, -(10**6), -1013)):
        r = range(a, b + (1 if by > 0 else -1), by)
        yield f"For {a} to {b} by {by}", f"n = 0\nx = 0\nFor i from {a} to {b} by {by}\nn++\nx += i\nEndFor", dict(vars={"n": len(r), "x": sum(r), "i": r[-1]})
    yield "While", "n = 0\nWhile n < 5000\nn++\nEndWhile\nm = n", dict(vars={"n": 5000, "m": 5000})
    yield "text", f"n = 0\nFor c in '{'abc' * 1000}'\nn++\nEndFor", dict(vars={"n": 3000, "c": "c"})
    subs = [Sub("P%d" % i, ["f%d" % j for j in range(i % 50)]) for i in range(400)]
    yield "subpackages", "n = 0\nm = 0\nFor s in SubPackages\nn++\nFor f in s\nm++\nEndFor\nEndFor", dict(
        subs=subs, vars={"n": 400, "m": sum(i % 50 for i in range(400))})
    yield "files", "n = 0\nt = ''\nFor f in SubPackages[0]\nn++\nt += f\nEndFor", dict(
        subs=[Sub("P", ["f%d" % j for j in range(1500)])], vars={"n": 1500, "t": "".join("f%d" % j for j in range(1500))})
    for k in (0, 60, 149):
        yield f"Elif {k}", "If False\n" + "".join(f"Elif {'True' if i >= k else 'False'}\nx = {i}\n" for i in range(150)) + "Else\nx = -1\nEndIf", dict(vars={"x": k})
    yield "Else", "If False\n" + "".join(f"Elif False\nx = {i}\n" for i in range(150)) + "Else\nx = 0 - 1\nEndIf", dict(vars={"x": -1})
    yield "nested loops", "n = 0\nFor a from 1 to 10\nFor b from 1 to 10\nFor c from 1 to 10\nWhile n % 3\nn++\nEndWhile\nn++\nEndFor\nEndFor\nEndFor", dict(vars={"a": 10, "b": 10, "c": 10, "n": 2998})
    yield "long block", "If True\n" + "x = 1\n" * 1500 + "y = 2\nEndIf", dict(vars={"x": 1, "y": 2})


def c05():
    yield "late Break", "n = 0\nFor i from 1 to 4000\nIf i == 3500\nBreak\nEndIf\nn++\nEndFor", dict(vars={"i": 3500, "n": 3499})
    yield "many Continue", "n = 0\nFor i from 1 to 3000\nIf i % 2\nContinue\nEndIf\nn++\nEndFor", dict(vars={"i": 3000, "n": 1500})
    yield "many Continue in a While", "n = 0\ni = 0\nWhile i < 2000\ni++\nIf i % 3\nContinue\nEndIf\nn++\nEndWhile", dict(vars={"i": 2000, "n": 666})
    yield "many Break", "n = 0\nFor i from 1 to 1000\nWhile True\nn++\nBreak\nEndWhile\nEndFor", dict(vars={"i": 1000, "n": 1000})
    d = 40
    yield "deep Break", "x = 0\nWhile True\n" + "If True\n" * d + "x = 1\nBreak\n" + "EndIf\n" * d + "x = 2\nEndWhile\ny = x", dict(vars={"x": 1, "y": 1})
    yield "deep Continue", "x = 0\nFor i from 1 to 3\n" + "If True\n" * d + "x++\nContinue\n" + "EndIf\n" * d + "x = 99\nEndFor\ny = x", dict(vars={"x": 3, "y": 3})
    yield "deep Return", "For i from 1 to 3\n" + "While True\nIf True\n" * 20 + "x = 1\nReturn\n" + "EndIf\nEndWhile\n" * 20 + "EndFor\ny = 1", dict(vars={"x": 1, "i": 1}, status="RETURN")
    yield "deep Cancel", "For i from 1 to 3\n" + "While True\nIf True\n" * 20 + "x = 1\nCancel 'm'\n" + "EndIf\nEndWhile\n" * 20 + "EndFor\ny = 1", dict(vars={"x": 1, "i": 1}, status="CANCEL")
    yield "late Return", "For i from 1 to 4000\nIf i == 3900\nReturn\nEndIf\nEndFor", dict(vars={"i": 3900}, status="RETURN")


def c06():
    n = 130
    opts = ", ".join(f"'{'|' if i in (100, 101) else ''}o{i}', 'd{i}', ''" for i in range(n))
    cases = "".join(f"Case 'o{i}'\nx += {i}\ny = y + '{i},'\n" + ("" if 60 <= i < 120 else "Break\n") for i in range(n))
    shown = [("o%d" % i, "d%d" % i, None) for i in range(n)]
    for pick in (0, 59, 60, 119, 129):
        ran = list(range(pick, 121)) if 60 <= pick < 120 else [pick]
        yield f"SelectOne, option {pick} of {n}", f"x = 0\ny = ''\nSelectOne 'd', {opts}\n{cases}EndSelect", dict(
            answer=lambda k, *a, pick=pick: "o%d" % pick, vars={"x": sum(ran), "y": "".join("%d," % i for i in ran)},
            events=[("selectOne", "d", shown, shown[100])])
    for picks in ([], [3, 129], list(range(0, 60, 2)), [40, 100], list(range(n))):
        ran = []
        fall = False
        for i in range(n):
            if fall or i in picks:
                ran.append(i)
                fall = 60 <= i < 120
        yield f"SelectMany, options {picks} of {n}", f"x = 0\ny = ''\nSelectMany 'd', {opts}\n{cases}Default\nx = 0 - 1\nBreak\nEndSelect", dict(
            answer=lambda k, *a, picks=picks: ["o%d" % p for p in picks], vars={"x": sum(ran) if ran else -1, "y": "".join("%d," % i for i in ran)},
            events=[("selectMany", "d", shown, shown[100:102])])
    yield "many choices", "n = 0\nFor i from 1 to 500\nSelectOne 'd', 'a', '', '', 'b', '', ''\nCase 'a'\nn++\nBreak\nCase 'b'\nn += 1000\nBreak\nEndSelect\nEndFor", dict(
        answer=lambda k, *a: "b", vars={"n": 500000}, events=[("selectOne", "d", [("a", "", None), ("b", "", None)], ("a", "", None))] * 500)
    yield "long texts", f"SelectOne '{'d' * 5000}', '{'n' * 5000}', '{'t' * 5000}', '{'i' * 5000}'\nCase '{'n' * 5000}'\nx = 1\nBreak\nEndSelect", dict(
        answer=lambda k, *a: "n" * 5000, vars={"x": 1}, events=[("selectOne", "d" * 5000, [("n" * 5000, "t" * 5000, "i" * 5000)], ("n" * 5000, "t" * 5000, "i" * 5000))])


def c07():
    yield "long text", "n = 0\nExec('" + "n++\n" * 1500 + "')\nm = n", dict(vars={"n": 1500, "m": 1500})
    yield "many Exec", "n = 0\n" + "Exec('n++')\n" * 200 + "m = n", dict(vars={"n": 200, "m": 200})
    yield "Exec in a loop", "n = 0\nFor i from 1 to 300\nExec('v' + str(i % 50) + ' = ' + str(i) + '\\nn++')\nEndFor", dict(
        vars={"n": 300, "v0": 300, "v1": 251, "v49": 299})
    s = "x = 7"
    for _ in range(6):
        s = 'Exec("' + s.replace("\\", "\\\\").replace('"', '\\"') + '")'
    yield "nested texts", s + "\ny = x", dict(vars={"x": 7, "y": 7})
    # an Exec which builds the next one
    yield "recursion", "n = 0\nc = 'n++\\nIf n < 40\\nExec(c)\\nEndIf'\nExec(c)\nm = n", dict(vars={"n": 40, "m": 40})
    yield "Break within", "For i from 1 to 900\nIf i == 700\nExec('x = i\\nBreak')\nEndIf\nEndFor", dict(vars={"i": 700, "x": 700})


def c08():
    t = "ab" * 4000
    p = ", ".join(f"'q{i}'" for i in range(150))
    yield "many prefixes", f"a = startswith('ab', {p}, 'a')\nb = endswith('ab', {p}, 'b')\nc = startswith('ab', {p})\nd = endswith('ab', {p})\ne = 'ab'.startswith({p}, 'ab')", dict(
        vars={"a": True, "b": True, "c": False, "d": False, "e": True})
    yield "long text", f"t = '{t}c{t}'\nn = len(t)\nf = find(t, 'c')\nr = rfind(t, 'c')\ng = t.find('c', 8001)\nh = rfind(t, 'a')\nl = len(lower('{'É' * 5000}'))", dict(
        vars={"n": 16001, "f": 8000, "r": 8000, "g": -1, "h": 15999, "l": 5000})
    yield "long numbers", f"i = int('{'7' * 900}')\ns = str(2 ^ 1000)\nl = len(s)\nf = float('{'1' * 200}')", dict(
        vars={"i": int("7" * 900), "s": str(2**1000), "l": len(str(2**1000)), "f": float("1" * 200)})
    yield "many calls", "n = 0\nFor i from 1 to 1500\nn += len(str(i))\nEndFor", dict(vars={"n": sum(len(str(i)) for i in range(1, 1501))})


def c09():
    n = 200
    yield "many files", "a = DataFileExists(" + ", ".join(f"'f{i}'" for i in range(n)) + ")", dict(
        answer=lambda k, *a: True, vars={"a": True}, events=[("dataFileExists", *("f%d" % i for i in range(n)))])
    yield "many calls", "For i from 1 to 800\na = GetPluginStatus('p' + str(i % 3))\nb = CompareSEVersion(str(i))\nEndFor", dict(
        answer=lambda k, *a: 2 if k == "getPluginStatus" else 1, vars={"a": 2, "b": 1},
        events=[e for i in range(1, 801) for e in (("getPluginStatus", "p%d" % (i % 3)), ("compareSEVersion", str(i)))])
    yield "long texts", f"a = GetFolder('{'x' * 5000}')", dict(answer=lambda k, *a: "y" * 7000, vars={"a": "y" * 7000}, events=[("getFolder", "x" * 5000)])
    yield "large numbers", "a = GetPluginLoadOrder('x', 2 ^ 80)", dict(answer=lambda k, *a: 2**90, vars={"a": 2**90}, events=[("getPluginLoadOrder", "x", 2**80)])


def c10():
    subs = [Sub("P%03d" % i, ["p%03d_%d.esp" % (i, j) for j in range(6)] + ["shared.esm", "x%d.txt" % i]) for i in range(150)]
    every = sorted(["p%03d_%d.esp" % (i, j) for i in range(150) for j in range(6)] + ["shared.esm"])
    yield "everything", "SelectAll", dict(subs=subs, names=[s.name for s in subs], plugins=every)
    yield "all but some", "SelectAll\n" + "".join(f"DeSelectSubPackage 'p{i:03}'\n" for i in range(0, 150, 2)) + "".join(f"DeSelectPlugin 'P{i:03}_1.ESP'\n" for i in range(0, 150, 3)), dict(
        subs=subs, names=[s.name for s in subs[1::2]], plugins=[p for p in every if p == "shared.esm" or p[-5] != "1" or int(p[1:4]) % 3])
    yield "one by one", "For s in SubPackages\nSelectSubPackage s\nDeSelectPlugin 'shared.esm'\nEndFor", dict(
        subs=subs, names=[s.name for s in subs], plugins=[p for p in every if p != "shared.esm"])
    yield "the plugins of a few", "SelectSubPackage 'P149'\nSelectSubPackage 'P100'\nDeSelectAllPlugins\nSelectAllPlugins\nSelectPlugin 'p000_5.esp'", dict(
        subs=subs, names=["P100", "P149"], plugins=sorted(["p%03d_%d.esp" % (i, j) for i in (100, 149) for j in range(6)] + ["shared.esm", "p000_5.esp"]))
    yield "back and forth", "For i from 1 to 300\nSelectPlugin 'p001_1.esp'\nDeSelectAll\nSelectSubPackage 'P000'\nEndFor", dict(
        subs=subs, names=["P000"], plugins=sorted(["p000_%d.esp" % j for j in range(6)] + ["shared.esm"]))


def c11():
    yield "many notes", "For i from 1 to 1200\nNote str(i % 7)\nEndFor", dict(notes=[str(i % 7) for i in range(1, 1201)])
    yield "long notes", f"Note '{'n' * 9000}'\nNote '{'n' * 9000}'", dict(notes=["n" * 9000] * 2)
    yield "many renames", "For i from 1 to 500\nRenamePlugin 'p' + str(i % 260), 'q' + str(i)\nEndFor\n" + "".join(f"ResetPluginName 'P{i}'\n" for i in range(0, 260, 5)), dict(
        renames={"p%d" % (i % 260): "q%d" % i for i in range(1, 501) if i % 260 % 5})
    yield "many resets", "For i from 1 to 500\nRenamePlugin 'a', 'b'\nRenamePlugin 'c', 'd'\nResetAllPluginNames\nEndFor\nRenamePlugin 'A', 'z'", dict(renames={"a": "z"})


def c12():
    yield "many tweaks", "For i from 1 to 700\nEditINI('f' + str(i % 3), 's', 'k' + str(i % 5), i)\nDisableINILine('f', 's', str(i))\nEndFor", dict(
        modified=[("f%d" % (i % 3), "s", "k%d" % (i % 5), i, "") for i in range(1, 701)], disabled=[("f", "s", str(i)) for i in range(1, 701)])
    yield "long texts", f"EditINI('{'f' * 4000}', '{'s' * 4000}', '{'k' * 4000}', '{'v' * 4000}', '{'c' * 4000}')", dict(
        modified=[("f" * 4000, "s" * 4000, "k" * 4000, "v" * 4000, "c" * 4000)])


def c16():
    yield "many warnings", "For i from 1 to 600\na = zz\nSelectPlugin 'none'\nEndFor", dict(warnings=1200, vars={"a": 0, "i": 600})
    yield "many names", lines(*("a = v%d" % i for i in range(500))), dict(warnings=500)
    yield "many defaults", "SelectOne 'd', " + ", ".join(f"'|o{i}', '', ''" for i in range(100)) + "\nCase 'o0'\nx = 1\nBreak\nEndSelect", dict(
        warnings=1, answer=lambda k, d, o, default: default[0], vars={"x": 1})


def c17():
    yield "far line", "\n" * 3000 + "a = 1\n" * 300 + "   b = 'x' - 1", dict(error="WizardTypeError", line=3301, column=7, vars={"a": 1})
    yield "far column", "x = 1" + " " * 4000 + "y = undefined_function()", dict(error="WizardNameError", line=1, column=4009, vars={"x": 1})
    yield "late", "n = 0\nFor i from 1 to 2000\na = '" + "abcde" * 300 + "'[i]\nn++\nEndFor", dict(error="WizardIndexError", line=3, column=4, vars={"i": 1500, "a": "e", "n": 1499})
    yield "deep", "a = " + "(" * 50 + "1 - 'x'" + ")" * 50, dict(error="WizardTypeError", line=1, column=54)


def c18():
    bad = "x = = 2\n"
    yield "broken and not executed", "If False\n" + bad * 1 + "EndIf\n" * 1 + "a = 1\n" * 500 + "b = 2", dict(vars={"a": 1, "b": 2})
    yield "many broken blocks", ("If False\n" + bad + "EndIf\n") * 150 + "b = 2", dict(vars={"b": 2})
    yield "far", "a = 1\n" * 1000 + "x = (\n", dict(error="WizardParseError", vars={"a": 1})


BIG = {k[:3].upper(): f for k, f in list(globals().items()) if len(k) == 3 and k[0] == "c" and k[1:].isdigit()}


def norm(x):
    if isinstance(x, (list, tuple)):
        return [norm(i) for i in x]
    return x


def big(check, ctx):
    for what, script, e in BIG[check.id]():
        o = Answers(e.get("answer"))
        out = run_real(script, e.get("subs", []), o, limit=60000, fresh=0)
        st = out.state or {}

        def bad(name, got, exp):
            raise Violation(f"{check.id}: large case ({what}): {name}", script=script[:3000], got=repr(got)[:3000], expected=repr(exp)[:3000], status=out.status, error=repr(out.error)[:500])

        status = e.get("status", "ERROR" if "error" in e else "COMPLETE")
        if out.status != status:
            bad("status", out.status, status)
        if "error" in e:
            if errclass(out.error) != e["error"]:
                bad("error", errclass(out.error), e["error"])
            if "line" in e and out.error.line != e["line"] or "column" in e and out.error.column != e["column"]:
                bad("position", (out.error.line, out.error.column), (e["line"], e.get("column")))
        for n, v in e.get("vars", {}).items():
            if n not in st["vars"] or st["vars"][n] != val(v):
                bad(f"variable {n[:50]}", st["vars"].get(n), v)
        for k, v in (("subs", e.get("names")), ("plugins", e.get("plugins"))):
            if v is not None and st[k] != v:
                bad(k, st[k], v)
        if "notes" in e and st["notes"] != [val(x) for x in e["notes"]]:
            bad("notes", st["notes"], e["notes"])
        if "renames" in e and dict(st["renames"]) != {k: val(v) for k, v in e["renames"].items()}:
            bad("renames", st["renames"], e["renames"])
        for k in ("modified", "disabled"):
            if k in e and st[k] != [tuple(val(x) for x in t) for t in e[k]]:
                bad(k, st[k], e[k])
        if "events" in e:
            got = norm([x for x in o.events if x[0] not in ("warning", "complete", "cancel", "error")])
            if got != norm(e["events"]):
                bad("calls", got, e["events"])
        if "warnings" in e:
            n = sum(x[0] == "warning" for x in o.events)
            if n != e["warnings"]:
                bad("warnings", n, e["warnings"])
        ctx.count("large cases")
