exec(open("/verif/tools/bugs/b4.py").read().split("# ----")[0])
BUGS = []

# ------------------------------------------------------------------ C07
bug("c07-exec-comment", "C07", [(C, "        script = self._factory.evisitor.visitExpr(args[0], state, str).value\n", "        script: str = self._factory.evisitor.visitExpr(args[0], state, str).value\n        if \"\\n\" not in script:\n            # a single line: drop its comment\n            script = script.partition(\";\")[0]\n")],
    "an Exec of a single line with a literal which contains a semicolon", "the text is cut at the first semicolon, even in a literal",
    "eq(run('Exec(\"a = \\'x;y\\'\")').vars, {'a': 'x;y'})")
bug("c07-exec-escape", "C07", [(C, "        script = self._factory.evisitor.visitExpr(args[0], state, str).value\n", "        script = self._factory.evisitor.visitExpr(args[0], state, str).value\n        script = script.replace(\"\\\\t\", \"\\t\")\n")],
    "an Exec whose text has a literal with an escaped backslash before a t", "a backslash and a t become a tab in the text of the Exec",
    r"eq(run('Exec(\"a = \\'x\\\\\\\\\\\\\\\\tmp\\'\")').vars, {'a': 'x\\tmp'})")
bug("c07-exec-empty-state", "C07", [(C, "        return WizardTopLevelContext(self._factory, context, self.parent, state)", "        if not script.strip():\n            # nothing to execute\n            return self._factory.copy_parent(self)\n\n        return WizardTopLevelContext(\n            self._factory, context, self.parent, state\n        )")],
    "an Exec of an empty text whose computation has an effect", "the effects of the argument are lost when its text is empty",
    "eq(run('i = 0\\nt = \"x\"\\nExec(t[i++:])').vars['i'], 1)")
# ------------------------------------------------------------------ C14
bug("c13-cases-shared", "C13", [(C, "        self._cases = list(context.selectCaseList().caseStmt())\n", "        self._cases = list(context.selectCaseList().caseStmt())\n        if self._ismany and len(self._options) == len(self._cases):\n            self._options = options if isinstance(options, list) else list(options)\n"),
                                 (C, "            if self._fallthrough or any(\n                sopt.name == target.value for sopt in self._options\n            ):\n", "            matching = [s for s in self._options if s.name == target.value]\n            if self._fallthrough or matching:\n                # each option only has one case\n                for sopt in matching[:-1]:\n                    self._options.remove(sopt)\n")],
    "an answer of a SelectMany with the same option twice, as many as cases, and a rewind to that choice", "an answer given is modified when its cases are executed",
    """
from wizard.contexts import WizardSelectManyContext
r = Run()
c = r.make_top_level_context('SelectMany "d", "a","","", "b","",""\\nCase "a"\\nx = 1\\nBreak\\nCase "b"\\nBreak\\nEndSelect')
c = r.exec_until(c, [WizardSelectManyContext])
c = c.select([c.options[0], c.options[0]])
r.exec_until(c, [])
eq([o.name for o in c._selected], ['a', 'a'])
""")
bug("c14-current", "C14", [(S, "            self._ctx = ctx\n", "            if not isinstance(ctx, WizardTerminationContext):\n                self._ctx = ctx\n")],
    "the current context asked at the end of the script", "context() is not the context of the end in complete() and cancel()",
    """
class R(Run):
    def complete(self):
        self.kind = type(self.context()).__name__
        return True
eq(R().go('x = 1').kind, 'WizardTerminationContext')
""")
bug("c14-rewind-later", "C14", [(S, "                ctx = rfex.context\n", "                # stay within the blocks which are still there\n                ctx = rfex.context\n                while ctx.parent is not ctx and ctx.parent.state is ctx.state:\n                    ctx = ctx.parent\n")],
    "a rewind to a context which shares the state of its parent", "none",
    "eq(run('x = 1').vars, {'x': 1})")
bug("c14-flow-wrapped", "C14", [(F, "        ret: Value[Any] | Void | None = method(*pargs)\n", "        try:\n            ret: Value[Any] | Void | None = method(*pargs)\n        except (TypeError, ValueError):\n            raise\n        except Exception as ex:\n            raise TypeError(f\"{name}: {type(ex).__name__}.\") from ex\n")],
    "a rewind or an abort from a manager function", "a rewind from a function of the manager becomes a type error of the script",
    """
class R(Run):
    n = 0
    def getFolder(self, p):
        self.n += 1
        if self.n == 1:
            self.rewind(self.context())
        return 'x'
eq(R().go('a = GetFolder("b")').vars, {'a': 'x'})
""")
# ------------------------------------------------------------------ C15
bug("c15-return-exec", "C15", [(C, "        return self._factory.make_termination_context(self)\n\n\nclass WizardBodyContext(", "        parent: WizardInterpreterContext[ContextState, Any] = self.parent\n        while not parent.is_top_level():\n            if isinstance(parent, WizardCaseContext):\n                break\n            parent = parent.parent\n        else:\n            if len(self.state.variables) == 0:\n                # nothing has been done, as if there was no script\n                parent = self._factory.make_body_context(parent.context.body(), parent)\n                return self._factory.make_termination_context(parent)\n        return self._factory.make_termination_context((self))\n\n\nclass WizardBodyContext(")],
    "a Return before any variable is set", "the status of a Return without variables is that of a complete script",
    "eq(run('Return').status.name, 'RETURN')")
bug("c15-error-abort", "C15", [(S, "                            return (WizardScriptRunnerStatus.CANCEL, ctx.state)\n                    else:\n", "                            return (WizardScriptRunnerStatus.CANCEL, WizardRunnerState())\n                    else:\n")],
    "an abort from error()", "the state is lost after an abort from error()",
    """
class R(Run):
    def error(self, ex):
        self.abort()
eq(R().go('x = 1\\nBreak').vars, {'x': 1})
""")
bug("c15-cancel-message", "C15", [(C, "        return self._factory.make_termination_context(self)\n\n\nclass WizardReturnContext(", "        end: WizardInterpreterContext[ContextState, Any] = self\n        if self._message == \"\":\n            # no message: the same as a Return\n            end = WizardReturnContext(self._factory, self.context, self.parent, self.state)  # type: ignore\n        return self._factory.make_termination_context(end)\n\n\nclass WizardReturnContext(")],
    "a Cancel with an empty message", "a Cancel with an empty message completes the script",
    "eq(run('Cancel \"\"').status.name, 'CANCEL')")
# ------------------------------------------------------------------ C18
bug("c18-select-block", "C18", [(Y, "        wizardParser.SelectStmtContext: wizardLexer.EndSelect,\n", "        wizardParser.SelectCaseListContext: wizardLexer.EndSelect,\n")],
    "a broken choice within a block which is not executed", "the end of a broken choice is not consumed",
    "eq(run('If False\\nSelectOne = 3\\nCase \"a\"\\nBreak\\nEndSelect\\nEndIf\\nx = 1').vars, {'x': 1})")
bug("c18-message-cr", "C18", [(W, "        s = s.replace(\"\\r\", \"\\\\r\")\n", "        s = s.rstrip(\"\\r\")\n")],
    "a syntax error over several lines ended by \\r\\n", "the text of the error has a carriage return",
    "r = run('x = (1 +\\r\\n\\r\\nEndIf')\neq('\\r' in str(r.err), False)")
bug("c18-case-break", "C18", [(Y, "                recoverSet.addOne(wizardLexer.Break)\n", "                recoverSet.addOne(wizardLexer.Break)\n                recoverSet.addOne(wizardLexer.Default)\n")],
    "a broken statement in a case before a Default", "none",
    "eq(run('x = 1').vars, {'x': 1})")
# ------------------------------------------------------------------ C20
bug("c20-shared-parser", "C20", [(U, "    # Create the lexer and disable console logs:\n    lexer = wizardLexer(stream)\n    lexer.removeErrorListener(ConsoleErrorListener.INSTANCE)\n\n    token_stream = CommonTokenStream(lexer)\n\n    # Create the parser with a custom error strategy:\n    parser = wizardParser(token_stream)\n",
     "    # Create the lexer and disable console logs (the lexer is reused, making one\n    # takes time):\n    lexer = _LEXER\n    lexer.inputStream = stream  # type: ignore\n    lexer.removeErrorListener(ConsoleErrorListener.INSTANCE)\n\n    token_stream = CommonTokenStream(lexer)\n    token_stream.fill()\n\n    # Create the parser with a custom error strategy:\n    parser = wizardParser(token_stream)\n"),
     (U, "\n\ndef make_basic_context_factory(", "\n_LEXER = wizardLexer(InputStream(\"\"))\n\n\ndef make_basic_context_factory(")],
    "two threads which parse at the same time", "the lexer is shared by all threads",
    """
import threading
sys.setswitchinterval(1e-5)
bad = []
def work(k):
    s = "".join("v%d_%d = %d\\n" % (k, i, i) for i in range(200))
    for _ in range(10):
        try:
            if run(s).vars != {"v%d_%d" % (k, i): i for i in range(200)}:
                bad.append(k)
        except Exception as ex:
            bad.append(ex)
ts = [threading.Thread(target=work, args=(k,)) for k in range(4)]
[t.start() for t in ts]
[t.join() for t in ts]
eq(bad, [])
""")
bug("c20-exec-depth", "C20", [(C, "        state = self.state.copy()\n\n        # Parse the expression:\n", "        state: ContextState = self.state.copy()\n\n        # Count the texts executed:\n        count = getattr(self._factory, \"_nexec\", 0) + 1\n        self._factory._nexec = count  # type: ignore\n        if count > 600:\n            raise WizardTypeError(self.context, \"Too many calls to Exec().\")\n\n        # Parse the expression:\n")],
    "a runner used for more than 600 Exec in all", "a runner which has executed many Exec refuses others",
    "r = Run()\nfor i in range(7):\n    r.go('For i from 1 to 100\\nExec(\"x = 1\")\\nEndFor')\neq(r.err, None)")
# ------------------------------------------------------------------ C21
bug("c21-rewind-chain", "C21", [(S, "        raise WizardScriptRunner.RewindFlow(context)\n", "        flow = WizardScriptRunner.RewindFlow(context)\n        flow.origin = getattr(self, \"_flow\", None)  # type: ignore\n        self._flow = flow\n        raise flow\n")],
    "many rewinds in one run", "each rewind keeps all the earlier ones alive",
    """
import gc
class R(Run):
    n = 0
    def complete(self):
        self.n += 1
        if self.n < 300:
            self.rewind(self.back)
        return True
    def warning(self, t):
        self.back = self.context()
r = R().go('x = y\\nz = 1')
gc.collect()
eq(sum(1 for o in gc.get_objects() if type(o).__name__ == 'RewindFlow') < 20, True)
""")
bug("c21-for-values", "C21", [(C, "        loop.state.set(self._name, value)\n", "        loop._values = list(self._values)\n        loop.state.set(self._name, loop._values[self._index])\n")],
    "a For with many iterations", "each iteration copies the values of the loop, and takes a time which grows with their number",
    """
import time
def t(n):
    s = 'For i from 1 to %d\\nEndFor' % n
    best = 1e9
    for _ in range(3):
        a = time.process_time(); run(s); best = min(best, time.process_time() - a)
    return best / n
t(100)
eq(t(40000) < 4 * t(2000), True)
""")
# ------------------------------------------------------------------ C05
bug("c05-continue-case", "C05", [(C, "        self._index = 0\n        self._found = False\n        self._fallthrough = False\n\n    def break_(", "        self._index = 0\n        self._found = False\n        self._fallthrough = False\n\n    def continue_(self) -> WizardInterpreterContext[ContextState, Any]:\n        loop: Any = self.parent\n        while not isinstance(loop, WizardContinuableContext):\n            if loop.is_top_level():\n                raise WizardParseError(\n                    self.context, \"Invalid 'Continue' statement encountered.\"\n                )\n            loop = loop.parent\n        return loop.continue_() if self._ismany or self._found else self.break_()\n\n    def break_("), (C, "    WizardInterpreterContext[ContextState, _SelectOneOrManyRuleContext],\n    WizardBreakableContext[ContextState],\n):\n    # The list of selected options:", "    WizardInterpreterContext[ContextState, _SelectOneOrManyRuleContext],\n    WizardBreakableContext[ContextState],\n    WizardContinuableContext[ContextState],\n):\n    # The list of selected options:")],
    "a Continue outside of a loop, within a case", "none but the place of the error",
    "r = run('SelectOne \"d\", \"a\",\"\",\"\"\\nCase \"a\"\\nContinue\\nEndSelect')\neq(r.err.line, 3)")
bug("c05-return-for", "C05", [(C, "        while not loop_or_case.is_top_level() and not isinstance(\n            loop_or_case, WizardBreakableContext\n        ):\n            loop_or_case = loop_or_case.parent\n", "        while not loop_or_case.is_top_level() and not isinstance(\n            loop_or_case, WizardBreakableContext\n        ):\n            if isinstance(loop_or_case, WizardTopLevelContext):\n                raise WizardParseError(\n                    self.context, \"Invalid 'Break' statement encountered.\"\n                )\n            loop_or_case = loop_or_case.parent\n")],
    "a Break within an Exec, the loop being outside", "none: the text of an Exec has the parent of the Exec",
    "eq(run('For i in \"abc\"\\nExec(\"Break\")\\nEndFor').vars, {'i': 'a'})")
# ------------------------------------------------------------------ C17
bug("c17-typ-parent", "C17", [(E, "            raise WizardTypeError(\n                ctx,\n                f\"Expected value of type", "            raise WizardTypeError(\n                ctx if ctx.start is ctx.stop else ctx.parentCtx,\n                f\"Expected value of type")],
    "an expression of several words which has not the type which is expected", "the error is located at the statement rather than at the expression",
    "r = run('For i from 1 to len(\"a\") + 0.5\\nEndFor')\neq((r.err.line, r.err.column), (1, 16))")
bug("c17-message-values", "C17", [(E, "                f\"Expected value of type {VariableType.from_pytype(typ)} but got value\"\n                f\" of type {value.type}.\",\n", "                f\"Expected value of type {value.type} but got value of type\"\n                f\" {VariableType.from_pytype(typ)}.\",\n")],
    "any value which has not the type expected", "the text exchanges the types",
    "r = run('For i from 1 to \"a\"\\nEndFor')\neq(str(r.err).index('integer') < str(r.err).index('string'), True)")
# ------------------------------------------------------------------ C26
bug("c26-pargs-default", "C26", [(F, "                if isinstance(arg, optional):\n                    break\n", "                if isinstance(arg, optional):\n                    if vs and iarg == 1:\n                        continue\n                    break\n")],
    "none", "none",
    "eq(run('a = len(\"a\")').vars, {'a': 1})")
bug("c26-ret-empty", "C26", [(F, "        if ret is None:\n            ret = Void()\n", "        if ret is None or ret == \"\" and not rawargs and varargs:\n            ret = Void()\n")],
    "a wrapped function with any number of arguments which returns an empty text", "an empty text given by a function with any number of arguments is void",
    """
from wizard.functions import wrap_function
from wizard.state import WizardInterpreterState
f = wrap_function("f", lambda *a: "", str, varargs=True)
eq(f(WizardInterpreterState(), [Value("a")]).value, "")
""")
# ------------------------------------------------------------------ C24
bug("c24-until-dup", "C24", [(P, "        stargets = tuple(targets)\n", "        stargets = tuple(t for t in targets if not issubclass(type(context), t)) or tuple(targets)\n")],
    "a context which is of one of several kinds asked", "the start is passed over when several kinds are asked",
    """
from wizard.contexts import WizardTopLevelContext, WizardSelectOneContext
r = Run()
c = r.make_top_level_context('x = 1')
eq(r.exec_until(c, [WizardTopLevelContext, WizardSelectOneContext]) is c, True)
""")
# ------------------------------------------------------------------ C13
bug("c13-select-many-alias", "C13", [(C, "        copy._selected = list(options)\n", "        copy._selected = options if isinstance(options, list) else list(options)\n")],
    "a list answered which is changed by the caller afterwards", "the answer of a choice is the list of the caller",
    """
from wizard.contexts import WizardSelectManyContext
r = Run()
c = r.exec_until(r.make_top_level_context('x = 0\\nSelectMany "d", "a","","", "b","",""\\nCase "a"\\nx = 1\\nBreak\\nEndSelect'), [WizardSelectManyContext])
l = [c.options[0]]
d = c.select(l)
l.clear()
eq(r.exec_until(d, []).state.variables['x'].value, 1)
""")
