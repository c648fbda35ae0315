BUGS = []
C, E, V, F, R, S, K = (
    "contexts/contexts.py", "expr.py", "value.py", "functions.py", "runner.py", "scriptrunner.py", "contexts/keywords.py",
)
X, M, U, T, A, G, P, W = (
    "contexts/factory.py", "utils/mappings.py", "utils/__init__.py", "tweaks.py", "state.py", "severity.py", "interpreter.py", "errors.py",
)
Y, U2 = "utils/error_strategy.py", "contexts/utils.py"


def bug(id, property, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo="from h import *\n\n" + demo.strip("\n")))


UNTIL = '''
def until(ctx, name):
    while type(ctx).__name__ != name:
        ctx = ctx.exec()
    return ctx
'''


HOST = """
from wizard.expr import WizardExpressionVisitor
from wizard.contexts import *
from wizard.contexts import WizardInterpreterContextFactory
from wizard.keywords import WizardKeywordVisitor
from wizard.interpreter import WizardInterpreter
from wizard.state import WizardInterpreterState
from wizard.severity import SeverityContext
"""

# ------------------------------------------------------------------ C03
bug("c03-octal-two", "C03", [(U, "    elif isinstance(script, str):\n        stream = InputStream(script)", "    elif isinstance(script, str):\n        stream = InputStream(script.replace(\"\\u00a0\", \" \"))")],
    "a text with a no-break space", "no-break spaces of the script become spaces, even in texts",
    "eq(run('a = \"x\\u00a0y\"').vars, {'a': 'x\\u00a0y'})")
# ------------------------------------------------------------------ C04
bug("c04-if-else-state", "C04", [(C, "                if self._factory.evisitor.visitExpr(eifc.expr(), parent.state):\n                    return self._factory.make_body_context(eifc.body(), parent)",
    "                if self._factory.evisitor.visitExpr(eifc.expr(), parent.state):\n                    if eifc.body().children:\n                        return self._factory.make_body_context(eifc.body(), parent)\n                    break")],
    "an Elif with an empty block which is taken, and an Else", "the Else is executed after an Elif whose block is empty",
    "eq(run('If False\\nElif True\\nElse\\na = 1\\nEndIf').vars, {})")
# ------------------------------------------------------------------ C05
0 and bug("c05-break-exec", "C05", [(C, "        while not loop_or_case.is_top_level() and not isinstance(\n            loop_or_case, WizardBreakableContext\n        ):",
    "        while not isinstance(\n            loop_or_case, (WizardTopLevelContext, WizardBreakableContext)\n        ):")],
    "a Break within the text of an Exec, in a loop", "a Break in the text of an Exec does not leave the loop around it",
    "eq(run('For i in \"abc\"\\nExec(\"Break\")\\nEndFor').vars, {'i': 'a'})")
# ------------------------------------------------------------------ C06
0 and bug("c06-answer-identity", "C06", [(C, "            if self._fallthrough or any(\n                sopt.name == target.value for sopt in self._options\n            ):",
    "            if self._fallthrough or target.value in [\n                sopt.name for sopt in dict.fromkeys(self._options)\n            ][: len(self._cases)]:")],
    "more options answered than there are cases", "answers beyond the number of cases are forgotten",
    "r = run('SelectMany \"d\", \"a\",\"\",\"\", \"b\",\"\",\"\", \"c\",\"\",\"\"\\nCase \"c\"\\nx = 1\\nBreak\\nEndSelect', many=[['a', 'b', 'c']])\neq(r.vars, {'x': 1})")
bug("c06-default-first", "C06", [(C, "            self._defaults = [self._defaults[0]]\n", "            self._defaults = [self._defaults[-1]]\n")],
    "a SelectOne with several options marked as default", "the last of several defaults is taken rather than the first",
    "r = run('SelectOne \"d\", \"a\",\"\",\"\", \"|b\",\"\",\"\", \"|c\",\"\",\"\"\\nCase \"b\"\\nx = 1\\nBreak\\nEndSelect')\neq(r.vars, {'x': 1})")
# ------------------------------------------------------------------ C12
bug("c12-bool-both", "C12", [(T, "        return bool(self._modified) or bool(self._disabled)", "        return len(self._modified) > len(self._disabled) or any(\n            d.setting for d in self._disabled\n        )")],
    "only disabled lines with an empty name", "there are said to be no tweaks",
    "eq(bool(run('DisableINILine(\"a.ini\", \"s\", \"\")').state.tweaks), True)")
bug("c12-edit-strip", "C12", [(T, "        self._filename = filename\n", "        self._filename = filename.replace(\"/\", \"\\\\\")\n")],
    "a file whose name has a slash", "slashes in the names of files are replaced",
    "eq(run('DisableINILine(\"a/b.ini\", \"s\", \"x\")').state.tweaks.files(), ['a/b.ini'])")
# ------------------------------------------------------------------ C13
bug("c13-while-no-copy", "C13", [(C, "        loop = self._factory.copy_context(self)\n\n        # If the expression evaluates to True, we return a body context:", "        loop = self\n\n        # If the expression evaluates to True, we return a body context:")],
    "a While whose condition has an effect, executed again from an earlier context", "the condition of a While changes the state of the context executed",
    HOST + """
r = Run()
c = r.make_top_level_context('i = 0\\nWhile i++ < 3\\nEndWhile')
while type(c).__name__ != 'WizardWhileLoopContext':
    c = c.exec()
before = c.state.variables['i'].value
c.exec()
eq(c.state.variables['i'].value, before)
""")
bug("c13-case-no-copy", "C13", [(C, "                case.expr(), snext.state, str\n", "                case.expr(), self.state, str\n")],
    "a Case whose label has an effect", "the label of a Case changes the state of the context executed, and its effect is lost",
    "eq(run('i = 0\\nSelectOne \"d\", \"1\",\"\",\"\"\\nCase str(i++)\\nx = i\\nBreak\\nEndSelect').vars, {'i': 1, 'x': 1})")
bug("c13-exec-no-copy", "C13", [(C, "        state = self.state.copy()\n\n        # Parse the expression:", "        state = self.state\n\n        # Parse the expression:")],
    "an Exec whose text has an effect, executed again", "the text of an Exec changes the state of the context executed",
    """
r = Run()
c = r.make_top_level_context('i = 0\\nExec("x = " + str(i++))')
while type(c).__name__ != 'WizardExecContext':
    c = c.exec()
c.exec()
eq(c.state.variables['i'].value, 0)
""")
# ------------------------------------------------------------------ C16
bug("c16-default-kept", "C16", [(G, "        self._context[issue] = severity", "        if severity == self._default_severity:\n            self._context.pop(issue, None)\n        else:\n            self._context[issue] = severity")],
    "a severity set to what is the default, before the default is changed", "a severity equal to the default is forgotten",
    "r = Run()\nr.set_severity(Issue.USAGE_OF_NOTSET_VARIABLES, Severity.WARNING)\nr.set_default_severity(Severity.ERROR)\nr.go('a = b')\neq(r.err, None)")
# ------------------------------------------------------------------ C17
bug("c17-name-stripped", "C17", [(W, '        super().__init__(context, f"The name \'{name}\' is not defined.")\n        self._name = name', '        super().__init__(context, f"The name \'{name}\' is not defined.")\n        self._name = name.split(".")[-1]')],
    "an unknown method", "the name of an unknown method lacks its type",
    "r = run('a = \"x\".foo()')\neq(r.err.name, 'string.foo')")
0 and bug("c17-line-cached", "C17", [(U2, "    except TypeError as te:\n        raise WizardTypeError(context, te) from te", "    except TypeError as te:\n        raise WizardTypeError(context.parentCtx or context, te) from te")],
    "a statement other than an expression which fails with a type error", "the error is located at what contains the statement",
    HOST + """
class K(WizardKeywordVisitor):
    def visitNote(self, context, state, text):
        raise TypeError("no")


s = SeverityContext()
i = WizardInterpreter(WizardInterpreterContextFactory(WizardExpressionVisitor(SubPackages(), {}, s), K(s), s))
try:
    i.exec_until(i.make_top_level_context("x = 1\\nIf x\\n  Note 'a'\\nEndIf", WizardInterpreterState()), [])
except Exception as e:
    eq((e.line, e.column), (3, 2))
""")
# ------------------------------------------------------------------ C18
bug("c18-while-block", "C18", [(Y, "        wizardParser.WhileStmtContext: wizardLexer.EndWhile,\n", "")],
    "a While whose header is broken, in a block which is not executed", "the block goes on after the While which is broken",
    "eq(run('If False\\nWhile\\nz = 1\\nEndWhile\\nw = 1\\nEndIf\\ny = 1').vars, {'y': 1})")
bug("c18-for-set", "C18", [(Y, "            elif isinstance(ctx, wizardParser.ForStmtContext):\n                recoverSet.addOne(wizardLexer.EndFor)\n            elif isinstance(ctx, wizardParser.WhileStmtContext):\n                recoverSet.addOne(wizardLexer.EndWhile)",
    "            elif isinstance(ctx, wizardParser.WhileStmtContext):\n                recoverSet.addOne(wizardLexer.EndWhile)")],
    "a broken line in a For which is not executed", "what follows a For with a broken line is lost",
    "eq(run('If True\\nFor k from 1 to 0\\nx .= 2\\nEndFor\\nw = 1\\nEndIf\\ny = 1').vars, {'w': 1, 'y': 1})")
0 and bug("c18-case-set", "C18", [(Y, "                recoverSet.addOne(wizardLexer.Break)", "                recoverSet.addOne(wizardLexer.EndSelect)")],
    "a broken line in a case which is not chosen", "the cases after the one with a broken line are lost",
    "eq(run('SelectOne \"d\", \"a\",\"\",\"\", \"b\",\"\",\"\"\\nCase \"b\"\\nx .= 1\\nBreak\\nCase \"a\"\\nx = 1\\nBreak\\nEndSelect\\ny = 1').vars, {'x': 1, 'y': 1})")
0 and bug("c18-else-set", "C18", [(Y, "                recoverSet.addOne(wizardLexer.Else)\n", "")],
    "a broken line in the first block of an If which has an Else", "the Else is lost with the broken line before it",
    "eq(run('If False\\nx = = 2\\nElse\\ny = 1\\nEndIf').vars, {'y': 1})")
bug("c18-elif-set", "C18", [(Y, "                recoverSet.addOne(wizardLexer.Elif)\n", "")],
    "a broken line in the first block of an If which has an Elif", "the Elif is lost with the broken line before it",
    "eq(run('If False\\nx .= 1\\nElif True\\ny = 1\\nEndIf').vars, {'y': 1})")
0 and bug("c18-parent", "C18", [(Y, "            ctx = ctx.parentCtx\n", "            if len(recoverSet.intervals or []) > 1:\n                break\n            ctx = ctx.parentCtx\n")],
    "a broken line deep within blocks of several kinds", "recovery does not consider the outermost blocks",
    "eq(run('While False\\nIf True\\nFor k in \"a\"\\nSelectOne \"d\", \"a\", \"\", \"\"\\nCase \"a\"\\nx .= 1\\nBreak\\nEndSelect\\nEndFor\\nEndIf\\nEndWhile\\ny = 1').vars, {'y': 1})")
0 and bug("c18-visit-exception", "C18", [(E, "        if ctx.exception:\n            raise WizardParseError(ctx, ctx.exception)\n\n        try:", "        try:")],
    "a broken expression which is executed", "a broken expression gives an internal error or a value",
    "r = run('x = 3 +\\ny = = 2')\neq(type(r.err).__name__, 'WizardParseError')")
bug("c18-message-viable", "C18", [(W, "tokens.getText(e.startToken, e.offendingToken))", "tokens.getText(e.offendingToken, e.startToken))")],
    "a syntax error found some tokens after where it begins", "the error does not quote what was found",
    "r = run('x = a[\\n1 2')\neq(\"'a[\" in str(r.err) or \"'[\" in str(r.err), True)")
0 and bug("c18-quote", "C18", [(W, '        s = s.replace("\\n", "\\\\n")\n        s = s.replace("\\r", "\\\\r")', '        s = s.replace("\\r\\n", "\\\\r\\\\n")')],
    "a syntax error over several lines", "the text of a syntax error has several lines",
    "r = run('x = a[\\n')\nr2 = run('foo(\\n\\n,')\neq('\\n' in str(r.err) + str(r2.err), False)")
# ------------------------------------------------------------------ C19
bug("c19-splitlines", "C19", [(U, "            text = data.decode(encoding)", "            text = \"\\n\".join(data.decode(encoding).splitlines())")],
    "a file with a text which has a line separator other than a line feed", "unusual line separators within texts of a file become line feeds",
    "from pathlib import Path\nimport tempfile, os\nwith tempfile.TemporaryDirectory() as d:\n    p = Path(d) / 's.txt'\n    p.write_bytes('a = \"x\\u2028y\"\\n'.encode('utf-16'))\n    r = Run().go(p)\neq(r.vars, {'a': 'x\\u2028y'})")
bug("c19-bom", "C19", [(U, "                data = fp.read()", "                data = fp.read().rstrip(b\"\\0\\n\")")],
    "a file in UTF-16 or UTF-32 which ends with a line feed", "the last bytes of a file are lost",
    "from pathlib import Path\nimport tempfile, os\nwith tempfile.TemporaryDirectory() as d:\n    p = Path(d) / 's.txt'\n    p.write_bytes(b'\\xff\\xfe' + 'a = \"x\"\\n'.encode('utf-16-le'))\n    r = Run().go(p)\neq(r.vars, {'a': 'x'})")
bug("c19-path-cache", "C19", [(U, "            with open(script, \"rb\") as fp:\n                data = fp.read()", "            data = _read(str(script))"),
    (U, "def make_parse_wizard_context(\n", "@functools.cache\ndef _read(path: str) -> bytes:\n    with open(path, \"rb\") as fp:\n        return fp.read()\n\n\ndef make_parse_wizard_context(\n"),
    (U, "from pathlib import Path\n", "import functools\nfrom pathlib import Path\n")],
    "a file run again after it has changed", "a file which has changed is not read again",
    "from pathlib import Path\nimport tempfile, os\nwith tempfile.TemporaryDirectory() as d:\n    p = Path(d) / 's.txt'\n    p.write_text('a = 1')\n    Run().go(p)\n    p.write_text('a = 2')\n    r = Run().go(p)\neq(r.vars, {'a': 2})")
# ------------------------------------------------------------------ C20
bug("c20-files-key", "C20", [(T, "        return sorted(\n            set(m.filename for m in self._modified).union(\n                m.filename for m in self._disabled\n            )\n        )",
    "        return sorted(\n            set(m.filename for m in self._modified).union(\n                m.filename for m in self._disabled\n            ),\n            key=str.lower,\n        )")],
    "tweaks of files whose names only differ by the case", "the order of files which only differ by the case depends on the hash seed",
    "import os, subprocess\nif len(sys.argv) > 1:\n    print(run('DisableINILine(\"%s\", \"s\", \"x\")\\nDisableINILine(\"%s\", \"s\", \"x\")\\nDisableINILine(\"%s\", \"s\", \"x\")' % ('a.ini', 'A.ini', 'A.INI')).state.tweaks.files())\n    sys.exit()\nouts = {subprocess.run([sys.executable, __file__, 'x'], env=dict(os.environ, PYTHONHASHSEED=str(k)), capture_output=True, text=True).stdout for k in range(8)}\neq(len(outs), 1)")
bug("c20-visitor-values", "C20", [(E, "    def visitInteger(self, ctx: wizardParser.IntegerContext) -> Value[int]:\n        return Value(int(ctx.getText()))", "    _numbers: dict[int, Value[int]] = {}\n\n    def visitInteger(self, ctx: wizardParser.IntegerContext) -> Value[int]:\n        text = ctx.getText()\n        return self._numbers.setdefault(len(text) * 1000003 + hash(text) % 1000003, Value(int(text)))")],
    "two numbers of the same length whose hashes collide", "a number is taken for another one met before",
    "import os, subprocess\nif len(sys.argv) > 1:\n    for n in range(1000000, 1006000, 40):\n        s = '\\n'.join('a%d = %d' % (k, n + k) for k in range(40))\n        v = run(s).vars\n        if any(v['a%d' % k] != n + k for k in range(40)):\n            print('bad')\n            break\n    sys.exit()\nouts = [subprocess.run([sys.executable, __file__, 'x'], env=dict(os.environ, PYTHONHASHSEED='1'), capture_output=True, text=True).stdout]\neq(outs, [''])") if 0 else None
bug("c20-given-state", "C20", [(A, "        self._variables = dict(variables)", "        self._variables = variables if isinstance(variables, dict) and variables else {}")],
    "a state made from a dictionary which is then given to several executions, set before", "a state shares the mapping it was made from",
    "from wizard.state import WizardInterpreterState\nd = {'a': Value(1)}\ns = WizardInterpreterState(d)\ns.set('b', Value(2))\neq(sorted(d), ['a'])")
# ------------------------------------------------------------------ C21
bug("c21-origin", "C21", [(X, "        context = copy.copy(context)\n", "        context, origin = copy.copy(context), context\n        context._origin = origin\n")],
    "a long execution", "each context keeps the one it was copied from",
    """
import gc
from wizard.contexts import WizardInterpreterContext
n = []


class R(Run):
    def getFolder(self, path):
        gc.collect()
        n.append(sum(isinstance(o, WizardInterpreterContext) for o in gc.get_objects()))
        return "f"


R().go("i = 0\\nWhile i < 300\\ni += 1\\nIf i == 300\\nx = GetFolder('a')\\nEndIf\\nEndWhile")
eq(n[0] < 100, True)
""")
bug("c21-state-history", "C21", [(A, "        state._variables.update(self._variables)\n", "        state._variables.update(self._variables)\n        state._previous = self\n")],
    "a long execution", "each state keeps the one it was copied from",
    """
import gc
r = Run()
r.go("i = 0\\nWhile i < 300\\ni += 1\\nEndWhile")
gc.collect()
from wizard.state import WizardInterpreterState
n = sum(isinstance(o, WizardInterpreterState) for o in gc.get_objects())
eq(n < 100, True)
""")
bug("c21-break-chain", "C21", [(C, "        context: WizardInterpreterContext[ContextState, Any] = loop_or_case.break_()\n        return self._factory.copy_context(context, self.state)", "        context: WizardInterpreterContext[ContextState, Any] = loop_or_case.break_()\n        context = self._factory.copy_context(context, self.state)\n        context._left = self\n        return context")],
    "many loops left by a Break in the same block", "the contexts of each loop left by a Break stay alive",
    """
import gc
r = Run()
r.go("For i in 'a'\\nBreak\\nEndFor\\n" * 300)
gc.collect()
from wizard.contexts import WizardBreakContext
seen = []


class R2(Run):
    def complete(self):
        gc.collect()
        seen.append(sum(isinstance(o, WizardBreakContext) for o in gc.get_objects()))
        return True


R2().go("For i in 'a'\\nBreak\\nEndFor\\n" * 300)
eq(seen[0] < 20, True)
""")
bug("c21-until-recursive", "C21", [(P, "        while not isinstance(context, stargets + (WizardTerminationContext,)):\n            context = context.exec()\n\n        return context",
    "        if isinstance(context, stargets + (WizardTerminationContext,)):\n            return context\n        return self.exec_until(context.exec(), stargets)")],
    "an execution of more than some hundreds of steps with exec_until", "exec_until needs a depth of stack which grows with the steps",
    "r = Run()\nt = r.exec_until(r.make_top_level_context('i = 0\\nWhile i < 2000\\ni++\\nEndWhile'), [])\neq(t.state.variables['i'].value, 2000)")
# ------------------------------------------------------------------ C22
bug("c22-plugin-path", "C22", [(V, "        return (Plugin(Path(file).name) for file in self.files if self.is_plugin(file))", "        return (\n            Plugin(Path(file).stem + Path(file).suffix)\n            for file in self.files\n            if self.is_plugin(file) and not Path(file).name.startswith(\".\")\n        )")],
    "a plugin whose name begins with a dot", "a file like .esp is not a plugin",
    "eq([str(p) for p in Sub('a', ['x/.esp', 'b.esp']).plugins()], ['.esp', 'b.esp'])")
bug("c22-repr", "C22", [(V, "    def __str__(self) -> str:\n        return self._name\n", "    def __str__(self) -> str:\n        return self._name.strip()\n")],
    "a name with spaces around", "spaces around a name are lost when it is converted to a text",
    "eq(str(Plugin(' a ')), ' a ')")
# ------------------------------------------------------------------ C24
0 and bug("c24-until-exact", "C24", [(P, "        while not isinstance(context, stargets + (WizardTerminationContext,)):", "        while type(context) not in stargets + (WizardTerminationContext,):")],
    "exec_until with a base class, such as the contexts of keywords", "contexts of classes derived from those asked are not found",
    "from wizard.contexts import WizardKeywordContext\nr = Run()\nt = r.exec_until(r.make_top_level_context('Note \"a\"'), [WizardKeywordContext])\neq(type(t).__name__, 'WizardNoteContext')")
bug("c24-message", "C24", [(C, "        if not isinstance(self.parent, WizardCancelContext):\n            return None\n        return self.parent.message()", "        if not isinstance(self.parent, WizardCancelContext):\n            return None\n        return self.parent.message() or None")],
    "a Cancel with an empty message", "an empty message of Cancel becomes none",
    "r = Run()\nt = r.exec_until(r.make_top_level_context('Cancel \"\"'), [])\neq(t.message(), '')")
0 and bug("c24-return-in-exec", "C24", [(C, "        return isinstance(self.parent, WizardReturnContext)", "        return isinstance(self.parent, WizardReturnContext) and isinstance(\n            self.context, wizardParser.ReturnContext\n        ) and not isinstance(self.parent.parent.parent, WizardSelectCasesContext)")],
    "a Return in a case", "a Return directly in a case is a normal end",
    "eq(run('SelectOne \"d\", \"a\", \"\", \"\"\\nCase \"a\"\\nReturn\\nEndSelect').status.name, 'RETURN')")
# ------------------------------------------------------------------ C25
bug("c25-wrong-context", "C25", [(K, "        return self._factory.kvisitor.visitResetPluginName(self, state, plugin)", "        return self._factory.kvisitor.visitResetPluginName(self.parent, state, plugin)")],
    "a visitor which uses the context given to visitResetPluginName", "the context given for ResetPluginName is not that of the keyword",
    HOST + """
seen = []


class V(WizardKeywordVisitor):
    def visitResetPluginName(self, context, state, name):
        seen.append(context.context.getText())


s = SeverityContext()
i = WizardInterpreter(WizardInterpreterContextFactory(WizardExpressionVisitor(SubPackages(), {}, s), V(s), s))
i.exec_until(i.make_top_level_context("x = 1\\nResetPluginName 'a'", WizardInterpreterState()), [])
eq(seen, ["ResetPluginName'a'"])
""")
0 and bug("c25-note-format", "C25", [(K, "        return self._factory.kvisitor.visitNote(self, state, str(note))", "        return self._factory.kvisitor.visitNote(self, state, f\"{note!s:.255}\")")],
    "a note of more than 255 characters", "long notes are cut",
    "eq(len(run('Note \"%s\"' % ('x' * 300)).state.notes[0]), 300)")
0 and bug("c25-plugins-swap", "C25", [(K, '    if name in ["DeSelectPlugin", "DeSelectEspm"]:', '    if name.endswith("SelectPlugin") or name == "SelectEspm":\n        if not name.startswith("De"):\n            return WizardSelectPluginContext(factory, context, parent)\n    if name in ["DeSelectPlugin", "SelectEspm"[2:]]:')],
    "DeSelectEspm", "DeSelectEspm is unknown",
    "eq(run('DeSelectEspm \"a\"').err, None)")
# ------------------------------------------------------------------ C26
bug("c26-while-body", "C26", [(C, "        if self._factory.evisitor.visitExpr(self.context.expr(), loop.state):\n            return self._factory.make_body_context(self.context.body(), loop)\n\n        # Otherwise", "        if self._factory.evisitor.visitExpr(self.context.expr(), loop.state):\n            return WizardBodyContext(self._factory, self.context.body(), loop)\n\n        # Otherwise")],
    "a factory which makes its own body contexts", "the body of a While is not made by the factory",
    HOST + """
class B(WizardBodyContext):
    pass


class Fa(WizardInterpreterContextFactory):
    def make_body_context(self, context, parent):
        return B(self, context, parent)


s = SeverityContext()
i = WizardInterpreter(Fa(WizardExpressionVisitor(SubPackages(), {}, s), WizardKeywordVisitor(s), s))
c = i.make_top_level_context("x = 1\\nWhile x\\nx = 0\\nEndWhile", WizardInterpreterState())
while type(c).__name__ != "WizardTerminationContext":
    eq(type(c) is WizardBodyContext, False)
    c = c.exec()
""")
bug("c26-state-class", "C26", [(A, "        state = type(self)()\n", "        state = type(self)() if type(self).__init__ is not WizardInterpreterState.__init__ else WizardInterpreterState()\n")],
    "a state class of the embedder which only adds methods", "copies of a state have the base class",
    "from wizard.state import WizardInterpreterState\n\n\nclass St(WizardInterpreterState):\n    def twice(self):\n        return 2\n\n\neq(type(St().copy()).__name__, 'St')")
bug("c26-break-copy", "C26", [(C, "        context: WizardInterpreterContext[ContextState, Any] = loop.continue_()\n        return self._factory.copy_context(context, self.state)", "        import copy\n\n        context = copy.copy(loop.continue_())\n        context._state = self.state.copy()\n        return context")],
    "a factory with its own copy of contexts, and a Continue", "Continue does not copy the loop with the factory",
    HOST + """
n = []


class Fa(WizardInterpreterContextFactory):
    def copy_context(self, context, state=None):
        copy = super().copy_context(context, state)
        n.append(id(copy))
        keep.append(copy)
        return copy


keep = []
s = SeverityContext()
i = WizardInterpreter(Fa(WizardExpressionVisitor(SubPackages(), {}, s), WizardKeywordVisitor(s), s))
c = i.make_top_level_context("For k in 'ab'\\nContinue\\nEndFor", WizardInterpreterState())
while type(c).__name__ != "WizardContinueContext":
    c = c.exec()
d = c.exec()
eq(id(d) in n, True)
""")
# ------------------------------------------------------------------ C27
bug("c27-neg-zero", "C27", [(V, "        return Value(-self._value)", "        return Value(0 - self._value)")],
    "the opposite of 0.0", "the opposite of 0.0 is not -0.0",
    "eq(str(Value(0.0).__neg__().value), '-0.0')")
0 and bug("c27-index-neg", "C27", [(V, "            return Value(value[index._value])  # type: ignore", "            return Value(value[index._value % len(value)] if value and index._value < -len(value) else value[index._value])  # type: ignore")],
    "an index below minus the length", "an index which is too negative wraps",
    "try:\n    print(Value('abc')[Value(-4)])\n    sys.exit(1)\nexcept IndexError:\n    pass")
bug("c27-contains-lower", "C27", [(V, "            if item._value == istr:\n                return Value(True)", "            if item._value == istr:\n                return Value(True)\n            if case_insensitive and istr.startswith(item._value + \".\"):\n                return Value(True)")],
    "a name which is the beginning, up to a dot, of another one, looked for without case", "a name is found when it is only the beginning of another one",
    "eq(Value(Sub('s', ['a.esp'])).contains(Value('A'), True).value, False)")
bug("c27-sub-bool", "C27", [(V, "        return Value(self._value - other._value)", "        if self._type == VariableType.BOOL and other._type == VariableType.BOOL:\n            return Value(self._value != other._value)\n        return Value(self._value - other._value)")],
    "the difference of two booleans", "the difference of two booleans is a boolean",
    "eq(type((Value(True) - Value(True)).value).__name__, 'int')")
