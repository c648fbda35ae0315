BUGS = []
C, E, V, F, R, S, K = (
    "contexts/contexts.py", "expr.py", "value.py", "functions.py", "runner.py", "scriptrunner.py", "contexts/keywords.py",
)
X, M, U, T, A, G, P, W = (
    "contexts/factory.py", "utils/mappings.py", "utils/__init__.py", "tweaks.py", "state.py", "severity.py", "interpreter.py", "errors.py",
)
Y, U2 = "utils/error_strategy.py", "contexts/utils.py"


def bug(id, property, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo="from h import *\n\n" + demo.strip("\n")))


UNTIL = '''
def until(ctx, name):
    while type(ctx).__name__ != name:
        ctx = ctx.exec()
    return ctx
'''

# ------------------------------------------------------------------ C02
bug("c02-or-short", "C02", [(E, "return self.visitExpr(ctx.expr(0), state) | self.visitExpr(ctx.expr(1), state)",
    "lhs = self.visitExpr(ctx.expr(0), state)\n        if lhs.value is True:\n            return lhs\n        return lhs | self.visitExpr(ctx.expr(1), state)")],
    "an Or whose left side is True and whose right side has an effect", "the right side of an Or is not evaluated",
    "eq(run('i = 0\\nb = True or i++ > 5').vars, {'i': 1, 'b': True})")
bug("c02-in-order", "C02", [(E, "return self.visitExpr(ctx.expr(1), state).contains(\n            self.visitExpr(ctx.expr(0), state), bool(ctx.Colon())\n        )",
    "item = self.visitExpr(ctx.expr(0), state)\n        container = self.visitExpr(ctx.expr(1), state)\n        return container.contains(item, bool(ctx.Colon()))")],
    "an In whose two sides both have effects, or both fail", "the item of an In is evaluated before the container",
    "r = run('i = 0\\nb = str(i += 0) in SubPackages[i++]' if 0 else 'i = 0\\nb = str(i++) in SubPackages[i++ - 1]', subs(A=['2']))\neq(r.vars, {'i': 2, 'b': True})")
bug("c02-slice-step-first", "C02", [(E, "        # Is there a start?\n", "        # Is there a step?\n        if ctx.Colon(1) and isinstance(ctx.children[-2], wizardParser.ExprContext):\n            step = self.visitExpr(ctx.children[-2], state)\n\n        # Is there a start?\n"),
    (E, "        # Is there a step?\n        if ctx.Colon(1) and isinstance(ctx.children[-2], wizardParser.ExprContext):\n            step = self.visitExpr(ctx.children[-2], state)\n\n        # We keep None", "        # We keep None")],
    "a slice whose step has an effect on its bounds", "the step of a slice is evaluated before its bounds",
    "eq(run(\"i = 0\\ns = 'abcdef'[i : 6 : i++]\").vars, {'i': 1, 's': 'abcdef'})")
bug("c02-option-lazy", "C02", [(C, "        a, b, c = (\n            factory.evisitor.visitExpr(opt.expr(0), state, str),\n            factory.evisitor.visitExpr(opt.expr(1), state, str),\n            factory.evisitor.visitExpr(opt.expr(2), state, str),\n        )",
    "        c, b, a = (\n            factory.evisitor.visitExpr(opt.expr(i), state, str) for i in (2, 1, 0)\n        )")],
    "an option whose expressions have effects on each other", "the expressions of an option are evaluated from the last to the first",
    "r = run(\"i = 0\\nSelectOne 'd', str(i++), str(i++), str(i++)\\nEndSelect\")\neq(r.calls[0][2], [('1', '2', '3')])")

# ------------------------------------------------------------------ C04
bug("c04-for-range-lazy-end", "C04", [(C, "        if self._index == len(self._values):\n", "        if self._index >= len(self._values) or (\n            self._index and self._values[0] == self._values[-1]\n        ):\n")],
    "a For over a text (or a subpackage) whose first and last items are equal", "the loop ends after its first iteration",
    "eq(run(\"s = ''\\nFor c in 'aba'\\ns += c\\nEndFor\").vars['s'], 'aba')")
bug("c04-while-literal", "C04", [(C, "if self._factory.evisitor.visitExpr(self.context.expr(), loop.state):\n            return self._factory.make_body_context(self.context.body(), loop)", "if self._factory.evisitor.visitExpr(self.context.expr(), loop.state).value is True:\n            return self._factory.make_body_context(self.context.body(), loop)")],
    "a While whose condition is not a bool (a number, a text)", "a While on a true value which is not a bool never executes",
    "eq(run('i = 3\\nn = 0\\nWhile i\\ni -= 1\\nn += 1\\nEndWhile').vars, {'i': 0, 'n': 3})")
bug("c04-else-after-elif", "C04", [(C, "            if self.context.elseStmt():\n                return", "            if self.context.elseStmt() and parent.state.variables == self.state.variables:\n                return")],
    "an If whose conditions change a variable, and with an Else", "the Else is skipped when the conditions changed a variable",
    "eq(run('i = 0\\nIf i++ > 5\\nElse\\nj = 1\\nEndIf').vars, {'i': 1, 'j': 1})")

# ------------------------------------------------------------------ C05
bug("c05-continue-nearest-for", "C05", [(C, "        while not loop.is_top_level() and not isinstance(\n            loop, WizardContinuableContext\n        ):\n            loop = loop.parent",
    "        while not loop.is_top_level() and not isinstance(\n            loop, WizardContinuableContext\n        ):\n            loop = loop.parent.parent if isinstance(loop, WizardCaseContext) else loop.parent")],
    "a Continue in a case in a loop, when the case context is walked through", "not reached: see the demonstration", "pass")
BUGS.pop()
bug("c05-break-state-case", "C05", [(C, "        copy = self._factory.copy_context(self)\n        copy._fallthrough = False\n", "        copy = self._factory.copy_context(self)\n        copy._fallthrough = self._found and self._ismany and self._index == 0\n")],
    "x", "x", "pass")
BUGS.pop()
bug("c05-return-in-exec", "C05", [(C, "        return isinstance(self.parent, WizardReturnContext)\n", "        return (\n            isinstance(self.parent, WizardReturnContext)\n            and self.parent.context.parentCtx is not None\n            and self.parent.context.start.tokenIndex > 0\n        )\n")],
    "a Return which is the first token of the script, or of the text of an Exec", "such a Return ends the script with the status COMPLETE (or neither)",
    "r = run(\"a = 1\\nExec('Return')\\na = 2\")\neq((r.status, r.vars), (WizardScriptRunnerStatus.RETURN, {'a': 1}))")
bug("c05-break-exec", "C05", [(C, "        while not loop_or_case.is_top_level() and not isinstance(\n            loop_or_case, WizardBreakableContext\n        ):",
    "        while not isinstance(loop_or_case, WizardTopLevelContext) and not isinstance(\n            loop_or_case, WizardBreakableContext\n        ):")],
    "a Break in the text of an Exec in a loop", "a Break in an Exec is an error", 
    "eq(run(\"i = 0\\nWhile True\\ni += 1\\nExec('Break')\\nEndWhile\").vars, {'i': 1})")

# ------------------------------------------------------------------ C06
bug("c06-found-many-default", "C06", [(C, "        elif self._default and (self._fallthrough or not self._found):", "        elif self._default and (\n            self._fallthrough or not self._found or (self._ismany and not self._options)\n        ):")],
    "x", "x", "pass")
BUGS.pop()
bug("c06-image-none", "C06", [(C, "            SelectOption(name, b.value, c.value if c.value.strip() else None)\n", "            SelectOption(name, b.value.strip(), c.value if c.value.strip() else None)\n")],
    "an option whose description starts or ends with blanks", "the blanks around the description of an option are lost",
    "r = run(\"SelectOne 'd', 'a', ' x ', ''\\nEndSelect\")\neq(r.calls[0][2], [('a', ' x ', None)])")
bug("c06-fall-to-default", "C06", [(C, "        elif self._default and (self._fallthrough or not self._found):", "        elif self._default and not self._found:")],
    "a last case without Break before a Default", "the last case does not fall through to the Default",
    "eq(run(\"x = 0\\nSelectOne 'd', 'a', '', ''\\nCase 'a'\\nx += 1\\nDefault\\nx += 10\\nEndSelect\").vars, {'x': 11})")

# ------------------------------------------------------------------ C08
bug("c08-find-minus-one", "C08", [(F, "            string.value.find(\n                substring.value, start.value, end.value if end.value != -1 else None\n            )", "            string.value.find(\n                substring.value, start.value, end.value if end.value >= 0 else None\n            )")],
    "find() with an end which is negative and not -1", "negative ends are ignored", 
    "eq(run(\"i = find('abcab', 'ab', 1, -2)\").vars, {'i': -1})")
bug("c08-lower-bool", "C08", [(F, "        if not isinstance(value.value, str):\n            return Value(0)\n        return Value(len(value.value))", "        if not isinstance(value.value, (str, SubPackages)):\n            return Value(0)\n        return Value(len(value.value))")],
    "len(SubPackages)", "the length of SubPackages is not 0", "eq(run('i = len(SubPackages)', subs(A=['x'], B=[])).vars, {'i': 0})")

# ------------------------------------------------------------------ C10
bug("c10-all-keeps", "C10", [(R, "        state._plugins = list(\n            dict.fromkeys(pg for sp in state._subpackages for pg in sp.plugins())\n        )", "        state._plugins = list(\n            dict.fromkeys(\n                [*state._plugins]\n                + [pg for sp in state._subpackages for pg in sp.plugins()]\n            )\n        )")],
    "SelectAllPlugins while a plugin of a subpackage which is not selected is selected", "SelectAllPlugins keeps the plugins which were selected alone",
    "r = run(\"SelectPlugin 'b.esp'\\nSelectSubPackage 'A'\\nSelectAllPlugins\", subs(A=['a.esp'], B=['b.esp']))\neq([p.name for p in r.state.plugins], ['a.esp'])")
bug("c10-select-spelling", "C10", [(R, "        plugin = self._plugins[ipg]\n", "        plugin = Plugin(name)\n")],
    "SelectPlugin with another case than the file's", "the selected plugin has the spelling of the script rather than of the file",
    "r = run(\"SelectPlugin 'A.ESP'\", subs(A=['a.esp']))\neq([p.name for p in r.state.plugins], ['a.esp'])")
bug("c10-deselect-drops-plugins", "C10", [(R, "            state._subpackages.remove(SubPackage(name))", "            i = state._subpackages.index(SubPackage(name))\n            sp = state._subpackages.pop(i)\n            if not state._subpackages:\n                state._plugins = [p for p in state._plugins if p not in list(sp.plugins())]")],
    "DeSelectSubPackage of the last selected subpackage", "the plugins of the subpackage are deselected too when no other subpackage is selected",
    "r = run(\"SelectSubPackage 'A'\\nDeSelectSubPackage 'a'\", subs(A=['a.esp']))\neq(([p.name for p in r.state.plugins], [p.name for p in r.state.subpackages]), (['a.esp'], []))")

# ------------------------------------------------------------------ C12
bug("c12-bool-modified", "C12", [(T, "return bool(self._modified) or bool(self._disabled)", "return bool(self.files()[:1] and self._modified) or len(self._disabled) > 1")],
    "a script which disables exactly one setting and edits none", "the tweaks are false although there is one",
    "r = run(\"DisableINILine('a', 'b', 'c')\")\neq(bool(r.state.tweaks), True)")
bug("c12-edit-comment", "C12", [(R, "WizardINISettingEdit(filename, section, setting, value, comment)", "WizardINISettingEdit(filename, section, setting, value, comment or None)")],
    "EditINI without a comment or with an empty one", "the comment is None rather than an empty text",
    "r = run(\"EditINI('a', 'b', 'c', 1, '')\")\neq([m.comment for m in r.state.tweaks.modified], [''])")
bug("c12-tweaks-order", "C12", [(T, "tweaks.extend(m for m in self.disabled if m.filename.lower() == file)", "done = {(m.section, m.setting) for m in tweaks}\n        tweaks.extend(\n            m\n            for m in self.disabled\n            if m.filename.lower() == file and (m.section, m.setting) not in done\n        )")],
    "a setting which is both edited and disabled", "the disabled setting is missing from the tweaks of the file",
    "r = run(\"EditINI('a', 'b', 'c', 1)\\nDisableINILine('a', 'b', 'c')\")\neq(len(r.state.tweaks.tweaks('A')), 2)")

# ------------------------------------------------------------------ C13
bug("c13-exec-state", "C13", [(C, "        state = self.state.copy()\n\n        # Parse the expression:", "        state = self.state\n\n        # Parse the expression:")],
    "an Exec whose argument has an effect on a variable, executed twice from the same context", "executing the context changes its own state",
    UNTIL + "r = Run()\nc = until(r.make_top_level_context(\"i = 0\\nExec('a = ' + str(i++))\"), 'WizardExecContext')\nc.exec()\neq(c.state.variables['i'].value, 0)")
bug("c13-keyword-args", "C13", [(K, "        state = self.state.copy()\n        self._visit(state, *self._get_args(self._argtypes, state))\n", "        args = self._get_args(self._argtypes, self.state)\n        state = self.state.copy()\n        self._visit(state, *args)\n")],
    "a keyword whose argument has an effect, executed twice from the same context", "executing the context changes its own state",
    UNTIL + "r = Run()\nc = until(r.make_top_level_context('i = 0\\nNote str(i++)'), 'WizardNoteContext')\nc.exec()\neq(c.state.variables['i'].value, 0)")
bug("c13-case-target", "C13", [(C, "        # Copy the current context:\n        snext = self._factory.copy_context(self)\n\n        # Cases remaining:\n        if self._index < len(self._cases):\n            # Find the next case:\n            case = self._cases[self._index]\n            snext._index += 1\n\n            target: Value[str] = self._factory.evisitor.visitExpr(\n                case.expr(), snext.state, str\n            )\n",
    "        # Cases remaining:\n        target: Value[str] | None = None\n        if self._index < len(self._cases):\n            target = self._factory.evisitor.visitExpr(\n                self._cases[self._index].expr(), self.state, str\n            )\n\n        # Copy the current context:\n        snext = self._factory.copy_context(self)\n\n        if target is not None:\n            # Find the next case:\n            case = self._cases[self._index]\n            snext._index += 1\n")],
    "a case label with an effect, executed twice from the same context", "executing the context changes its own state",
    UNTIL + "r = Run()\nc = until(r.make_top_level_context(\"i = 0\\nSelectMany 'd', '1', '', ''\\nCase str(i++)\\nEndSelect\"), 'WizardSelectCasesContext')\nc.exec()\neq(c.state.variables['i'].value, 0)")
bug("c13-cases-consumed", "C13", [(C, "            if self._fallthrough or any(\n                sopt.name == target.value for sopt in self._options\n            ):\n", "            matching = [sopt for sopt in self._options if sopt.name == target.value]\n            for sopt in matching[1:]:\n                self._options.remove(sopt)\n            if self._fallthrough or matching:\n")],
    "two selected options with the same name", "executing the cases changes the selected options of the context",
    UNTIL + "r = Run()\nc = until(r.make_top_level_context(\"SelectMany 'd', '|a', '', '', '|a', 'z', ''\\nCase 'a'\\nEndSelect\"), 'WizardSelectCasesContext')\nc.exec()\neq(len(c._options), 2)")

# ------------------------------------------------------------------ C14
bug("c14-last-choice", "C14", [(C, "        copy = self._factory.copy_context(self)\n        copy._selected = list(options)\n", "        copy = self._factory.copy_context(self)\n        # Remember the choice for the next time:\n        self._defaults[:] = [o for o in self._options if o in options] or self._defaults\n        copy._selected = list(options)\n")],
    "a rewind to a Select after an answer other than the default", "after a rewind the default shown is the previous answer, not the one of the script",
    '''
class R(Run):
    n = 0
    def complete(self):
        self.n += 1
        if self.n == 1:
            self.rewind(self.sel)
        return True
    def selectOne(self, d, o, default):
        self.sel = self.context()
        return super().selectOne(d, o, default)

r = R(None, one=['b', 'b'])
r.run("SelectOne 'd', 'a', '', '', 'b', '', ''\\nEndSelect")
eq([c[3] for c in r.calls if c[0] == 'selectOne'], ['a', 'a'])
''')
bug("c14-renames-shared", "C14", [(R, "        state._renames.update(self._renames)\n", "        if self._renames:\n            state._renames = self._renames\n")],
    "a rewind to a point before a second RenamePlugin", "a rename which was undone by a rewind is still there",
    '''
class R(Run):
    n = 0
    def complete(self):
        self.n += 1
        if self.n == 1:
            self.rewind(self.sel)
        return True
    def selectOne(self, d, o, default):
        self.sel = self.context()
        return super().selectOne(d, o, default)

r = R(None, one=['a', 'b'])
st = r.run("RenamePlugin 'x.esp', 'y'\\nSelectOne 'd', 'a', '', '', 'b', '', ''\\nCase 'a'\\nRenamePlugin 'z.esp', 't'\\nBreak\\nEndSelect")[1]
eq(len(st.renames), 1)
''')

# ------------------------------------------------------------------ C15
bug("c15-wizard-only", "C15", [(S, "                except Exception as ex:\n", "                except (WizardError, ArithmeticError, ValueError, LookupError) as ex:\n"),
    (S, "from .functions import", "from .errors import WizardError\nfrom .functions import")],
    "a callback of the manager which raises another kind of error (OSError, RuntimeError)", "run() propagates the exception of the callback instead of calling error()",
    '''
class R(Run):
    def getFolder(self, p):
        raise OSError('x')

r = R()
eq(r.run("x = GetFolder('a')")[0], WizardScriptRunnerStatus.ERROR)
''')
bug("c15-abort-no-cancel", "C15", [(S, "                except WizardScriptRunner.CancelFlow:\n                    if self.cancel():\n                        return (WizardScriptRunnerStatus.CANCEL, ctx.state)\n\n", "                except WizardScriptRunner.CancelFlow:\n                    return (WizardScriptRunnerStatus.CANCEL, ctx.state)\n\n")],
    "abort() from a callback", "cancel() is not called after abort()",
    '''
class R(Run):
    def getFolder(self, p):
        self.abort()

r = R()
eq(r.run("x = GetFolder('a')")[0], WizardScriptRunnerStatus.CANCEL)
eq(r.calls, [('cancel',)])
''')
bug("c15-base-exception", "C15", [(S, "                except Exception as ex:\n", "                except BaseException as ex:\n")],
    "KeyboardInterrupt or SystemExit while the script runs", "an interruption of the program is taken for an error of the script",
    '''
class R(Run):
    def getFolder(self, p):
        raise KeyboardInterrupt

r = R()
try:
    r.run("x = GetFolder('a')")
except KeyboardInterrupt:
    pass
else:
    raise SystemExit('swallowed')
''')
bug("c15-error-raises", "C15", [(S, "                    try:\n                        self.error(ex)\n                    except WizardScriptRunner.CancelFlow:\n                        if self.cancel():\n                            return (WizardScriptRunnerStatus.CANCEL, ctx.state)\n                    else:\n                        return (WizardScriptRunnerStatus.ERROR, ctx.state)\n",
    "                    try:\n                        self.error(ex)\n                    except WizardScriptRunner.RewindFlow:\n                        raise\n                    except Exception:\n                        if self.cancel():\n                            return (WizardScriptRunnerStatus.CANCEL, ctx.state)\n                    else:\n                        return (WizardScriptRunnerStatus.ERROR, ctx.state)\n")],
    "an error() which raises (the default one does)", "the exception of error() is lost: the run is reported as cancelled",
    '''
class R(Run):
    def error(self, exc):
        raise exc

try:
    R().run("x = -'a'")
except Exception as ex:
    eq(type(ex).__name__, 'WizardTypeError')
else:
    raise SystemExit('swallowed')
''')

# ------------------------------------------------------------------ C16
bug("c16-warn-once", "C16", [(G, "        if s == Severity.WARNING:\n            self.warning(warn)", "        if s == Severity.WARNING and self.__dict__.get('_last') != (issue, warn):\n            self._last = (issue, warn)\n            self.warning(warn)")],
    "the same issue twice in a row", "the second warning is dropped",
    "r = run('a = z + z')\neq(len([c for c in r.calls if c[0] == 'warning']), 2)")
bug("c16-same-as-default", "C16", [(G, "        self._context[issue] = severity", "        if severity is self._default_severity:\n            self._context.pop(issue, None)\n        else:\n            self._context[issue] = severity")],
    "set_severity() with the current default severity, then set_default_severity()", "the explicit severity of the issue is lost when the default changes",
    "r = Run()\nr.set_severity(Issue.USAGE_OF_NOTSET_VARIABLES, Severity.WARNING)\nr.set_default_severity(Severity.ERROR)\neq(r.run('a = z')[0], WizardScriptRunnerStatus.COMPLETE)")
bug("c16-default-clears", "C16", [(G, "        self._default_severity = severity", "        self._default_severity, self._context = severity, {}")],
    "set_default_severity() after set_severity()", "the severities of the issues are reset by set_default_severity()",
    "r = Run()\nr.set_severity(Issue.USAGE_OF_NOTSET_VARIABLES, Severity.WARNING)\nr.set_default_severity(Severity.ERROR)\neq(r.run('a = z')[0], WizardScriptRunnerStatus.COMPLETE)")
bug("c16-note-number", "C16", [(K, "        if not isinstance(note, str):\n            type_", "        if not isinstance(note, (str, int, float)):\n            type_")],
    "a Note of a number", "no issue is raised", "r = run('Note 3')\neq([c[0] for c in r.calls][:1], ['warning'])")
bug("c16-plugin-issue", "C16", [(R, "                Issue.SELECT_MISSING_PLUGIN,\n                WizardMissingPluginError(context.context, name),", "                Issue.SELECT_MISSING_PLUGIN\n                if self._plugins\n                else Issue.SELECT_MISSING_SUBPACKAGE,\n                WizardMissingPluginError(context.context, name),")],
    "SelectPlugin when no subpackage has plugins, with different severities for missing plugins and subpackages", "the severity of another issue is used",
    "r = Run()\nr.set_severity(Issue.SELECT_MISSING_PLUGIN, Severity.ERROR)\neq(r.run(\"SelectPlugin 'a.esp'\")[0], WizardScriptRunnerStatus.ERROR)")

# ------------------------------------------------------------------ C17
bug("c17-line-stop", "C17", [(W, "        return self._ctx.start.line  # type: ignore", "        return (self._ctx.stop or self._ctx.start).line  # type: ignore")],
    "an error on an expression or statement which spans several lines", "the line is the last one rather than the first",
    "r = run('a = 1 -\\n\\'x\\'')\neq(r.err.line, 1)")
bug("c17-index-abs", "C17", [(V, "            raise IndexError(index._value) from err", "            raise IndexError(abs(index._value)) from err")],
    "a negative index out of range", "the index of the error has lost its sign", "r = run(\"a = 'x'[-5]\")\neq(r.err.index, -5)")
bug("c17-outermost", "C17", [(E, "        except TypeError as te:\n            raise WizardTypeError(ctx, *te.args) from te", "        except (TypeError, WizardTypeError) as te:\n            raise WizardTypeError(ctx, *te.args) from te")],
    "a type error inside an expression which is inside another one", "the position is the one of the outermost expression",
    "r = run(\"a = 1 + 2 * -'x'\")\neq(r.err.column, 12)")
bug("c17-compound", "C17", [(C, "            raise WizardTypeError(self.context, str(te)) from te", "            raise WizardTypeError(self.context.expr(), str(te)) from te")],
    "a compound assignment with operands of wrong types", "the position is the one of the right side", "r = run(\"a = 1\\na += 'x'\")\neq((r.err.line, r.err.column), (2, 0))")
bug("c17-missing-name", "C17", [(W, "super().__init__(context, f\"Trying to activate missing '{name}' plugin.\")\n        self._name = name", "super().__init__(context, f\"Trying to activate missing '{name}' plugin.\")\n        self._name = name.lower()")],
    "a missing plugin whose name has upper-case letters", "the name of the error is in lower case",
    "r = Run()\nr.set_default_severity(Severity.ERROR)\nr.run(\"SelectPlugin 'A.esp'\")\neq(r.err.subpackage, 'A.esp')")

# ------------------------------------------------------------------ C18
bug("c18-option-exc", "C18", [(C, "        if opt.exception:\n            raise WizardParseError(opt, opt.exception)", "        if opt.exception and len(opt.expr()) < 3:\n            raise WizardParseError(opt, opt.exception)")],
    "an option broken after its third expression", "a broken option is accepted", "r = run(\"SelectOne 'd', 'a', '', '' 'b'\\nEndSelect\\nx = 1\")\neq(r.status, WizardScriptRunnerStatus.ERROR)")
bug("c18-recover-endselect", "C18", [(Y, "        wizardParser.SelectStmtContext: wizardLexer.EndSelect,\n", "        wizardParser.SelectOneContext: wizardLexer.EndSelect,\n")],
    "a Select which is broken, in a branch which is not executed", "the recovery does not step over its EndSelect, so what follows is broken too",
    "r = run(\"If False\\nSelectOne 'd', , ,\\nEndSelect\\nEndIf\\nx = 1\")\neq((r.status, r.vars), (WizardScriptRunnerStatus.COMPLETE, {'x': 1}))")
bug("c18-elif", "C18", [(Y, "                recoverSet.addOne(wizardLexer.Elif)\n                recoverSet.addOne(wizardLexer.Else)\n", "                recoverSet.addOne(wizardLexer.Else)\n")],
    "an If whose body is broken, which is not executed, with an Elif", "the Elif is swallowed by the recovery", 
    "r = run('If False\\nx = = 3\\nElif True\\ny = 1\\nEndIf')\neq((r.status, r.vars), (WizardScriptRunnerStatus.COMPLETE, {'y': 1}))")
bug("c18-exec-exc", "C18", [(C, "        if self.context.exception:\n            raise WizardParseError(self.context, self.context.exception)\n        return wrap", "        if self.context.exception and not isinstance(\n            self.context, wizardParser.BodyContext\n        ):\n            raise WizardParseError(self.context, self.context.exception)\n        return wrap")],
    "a body which is broken (and not one of its statements)", "the broken body is executed without an error or fails with another exception",
    "pass")
BUGS.pop()

# ------------------------------------------------------------------ C19
bug("c19-detect-head", "C19", [(U, "chardet.detect(data)", "chardet.detect(data[:2048])")],
    "a file whose first character which is not ASCII comes after 2048 bytes", "the file cannot be read",
    "import tempfile, pathlib\nwith tempfile.TemporaryDirectory() as d:\n    p = pathlib.Path(d) / 'w.txt'\n    t = 'a = 1\\n' * 500 + \"b = 'éàüß €'\\n\"\n    p.write_text(t, encoding='utf-8')\n    eq(run(p).vars, run(t).vars)")
bug("c19-newlines", "C19", [(U, "        else:\n            text = data\n", "        else:\n            text = '\\n'.join(data.splitlines())\n")],
    "a file object whose text has \\r\\n or other line separators inside a string", "the line separators inside the strings are changed",
    "import io\nt = 'a = \"x\\r\\ny\"'\neq(run(io.StringIO(t, newline='')).vars, run(t).vars)")
bug("c19-comments", "C19", [(U, "            text = data.decode(encoding)\n", "            # Comments are not needed:\n            text = re.sub(r'(?m)^[ \\t]*;.*$', '', data.decode(encoding))\n"), (U, "from pathlib import Path\n", "import re\nfrom pathlib import Path\n")],
    "a file with a string which spans several lines, one of which starts with ;", "a line of the string is lost",
    "import tempfile, pathlib\nwith tempfile.TemporaryDirectory() as d:\n    p = pathlib.Path(d) / 'w.txt'\n    t = 'a = \"x\\n; y\\nz\"\\n'\n    p.write_text(t)\n    eq(run(p).vars, run(t).vars)")

# ------------------------------------------------------------------ C20
bug("c20-plugin-cache", "C20", [(R, "        # use a dictionary to keep insertion order and remove duplicates\n        plugins = {pg: True for sp in self._subpackages for pg in sp.plugins()}\n        self._plugins = list(plugins.keys())\n",
    "        # use a dictionary to keep insertion order and remove duplicates\n        key = tuple(sp.name for sp in self._subpackages)\n        if key not in _PLUGINS:\n            plugins = {pg: True for sp in self._subpackages for pg in sp.plugins()}\n            _PLUGINS[key] = list(plugins.keys())\n        self._plugins = _PLUGINS[key]\n"),
    (R, "class WizardRunnerExpressionVisitor", "# Plugins of the subpackages:\n_PLUGINS: dict[tuple[str, ...], list[Plugin]] = {}\n\n\nclass WizardRunnerExpressionVisitor")],
    "two runners in a process, for packages with the same names of subpackages but other files", "the second runner knows the plugins of the first",
    "run('a = 1', subs(A=['a.esp']))\nr = run(\"SelectPlugin 'b.esp'\", subs(A=['b.esp']))\neq([p.name for p in r.state.plugins], ['b.esp'])")
bug("c20-severity-shared", "C20", [(G, "        self._context = {}", "        self._context = _SEVERITIES"), (G, "class SeverityContext:", "# Severities set explicitly:\n_SEVERITIES: MutableMapping[Issue, Severity] = {}\n\n\nclass SeverityContext:")],
    "two runners in a process, with different severities", "the severities of a runner are those of another",
    "r = Run()\nr.set_severity(Issue.USAGE_OF_NOTSET_VARIABLES, Severity.ERROR)\neq(run('a = z').status, WizardScriptRunnerStatus.COMPLETE)")
bug("c20-unset-sticky", "C20", [(E, "                return Value(0)\n            else:", "                return self._unset\n            else:"), (E, "    _severity: SeverityContext\n\n    def __init__(", "    _severity: SeverityContext\n    _unset: Value[int] = Value(0)\n\n    def __init__(")],
    "x", "x", "pass")
BUGS.pop()

# ------------------------------------------------------------------ C21
bug("c21-origin", "C21", [(X, "        context = copy.copy(context)\n", "        origin = context\n        context = copy.copy(context)\n        context._origin = origin\n")],
    "any long execution", "each context keeps the one it was copied from: memory grows with the number of steps",
    '''
import gc
from wizard.contexts import WizardInterpreterContext
n = 0
class R(Run):
    def complete(self):
        global n
        gc.collect()
        n = sum(isinstance(o, WizardInterpreterContext) for o in gc.get_objects())
        return True

R().run('For i from 1 to 300\\na = i\\nEndFor')
assert n < 100, n
''')
bug("c21-stack-state", "C21", [(A, "        state._variables.update(self._variables)\n", "        # Share the variables which are not changed:\n        from .utils.mappings import StackMutableMapping\n\n        state._variables = StackMutableMapping(self._variables)  # type: ignore\n")],
    "a script of more than about a thousand steps", "the mappings are stacked at each copy: the lookups become deeper and deeper, then fail",
    "eq(run('x = 0\\nFor i from 1 to 2000\\nx = x + 1\\nEndFor').vars, {'x': 2000, 'i': 2000})")
bug("c21-warnings-log", "C21", [(G, "        if s == Severity.WARNING:\n            self.warning(warn)", "        if s == Severity.WARNING:\n            self.__dict__.setdefault('_log', []).append((issue, exc))\n            self.warning(warn)")],
    "a loop whose body raises warnings", "the errors of all the warnings are kept",
    "import gc\nfrom wizard.errors import WizardNameError\nr = Run()\nr.run('For i from 1 to 300\\na = z\\nEndFor')\ngc.collect()\nn = sum(isinstance(o, WizardNameError) for o in gc.get_objects())\nassert n < 50, n")

# ------------------------------------------------------------------ C22
bug("c22-hash-lower", "C22", [(V, "return hash(self.name.casefold())", "return hash(self.name.lower())")],
    "two names which are equal by casefold but not by lower (ß, ss)", "equal names have different hashes",
    "a, b = Plugin('Straße.esp'), Plugin('STRASSE.esp')\neq((a == b, hash(a) == hash(b)), (True, True))")
bug("c22-str-lower", "C22", [(V, "return cmp(self.name.casefold(), other.casefold())", "return cmp(self.name.casefold(), other.lower())")],
    "a name compared with a text which differs by casefold but not by lower", "a name is not equal to a text which is equal to it without case",
    "eq(Plugin('strasse.esp') == 'Straße.esp', True)")
bug("c22-suffix", "C22", [(V, 'return name.endswith(".esp") or name.endswith(".esm") or name.endswith(".esl")', 'return Path(name).suffix in (".esp", ".esm", ".esl")')],
    "a file named just .esp", "a file is not a plugin although its name ends with .esp", "eq(SubPackage.is_plugin('d/.esp'), True)")

# ------------------------------------------------------------------ C23
bug("c23-len", "C23", [(M, "            keys.difference_update(self._deleted)\n\n        keys.update(self._variables)\n\n        return len(keys)", "            keys.difference_update(self._deleted)\n\n        return len(keys) + len(self._variables)")],
    "a key which is in both layers", "such a key is counted twice",
    "from wizard.utils.mappings import StackMutableMapping as S\np = S(); p['a'] = 1\nq = S(p); q['a'] = 2\neq(len(q), 1)")
bug("c23-del", "C23", [(M, "        if item in self._variables:\n            del self._variables[item]\n\n", "        if item in self._variables:\n            del self._variables[item]\n            if self._parent is None or item not in self._parent._variables:\n                return\n\n")],
    "three layers, a key of the last and the first one, deleted in the last one", "the value of the first layer reappears",
    "from wizard.utils.mappings import StackMutableMapping as S\np = S(); p['a'] = 1\nq = S(S(p)); q['a'] = 2\ndel q['a']\neq('a' in q, False)")
bug("c23-default", "C23", [(M, "        return self._parent[item]", "        return self._parent.get(item)  # type: ignore")],
    "a key which is in no layer, read from the upper layer", "None rather than KeyError", 
    "from wizard.utils.mappings import StackMutableMapping as S\neq('a' in S(S()), False)")

# ------------------------------------------------------------------ C24
bug("c24-dowhile", "C24", [(P, "        while not isinstance(context, stargets + (WizardTerminationContext,)):\n            context = context.exec()\n\n        return context", "        while not isinstance(context, WizardTerminationContext):\n            context = context.exec()\n            if isinstance(context, stargets):\n                break\n\n        return context")],
    "exec_until() from a context which is already one of the targets", "it is executed instead of being returned",
    UNTIL + "from wizard.contexts import WizardSelectOneContext\nr = Run()\nc = until(r.make_top_level_context(\"SelectOne 'd', 'a', '', ''\\nEndSelect\"), 'WizardSelectOneContext')\nassert r.exec_until(c, (WizardSelectOneContext,)) is c")
bug("c24-exact-type", "C24", [(P, "        while not isinstance(context, stargets + (WizardTerminationContext,)):", "        while type(context) not in stargets + (WizardTerminationContext,):")],
    "exec_until() with a base class as target", "the contexts of its subclasses are not found",
    "from wizard.contexts import WizardSelectContext\nr = Run()\nc = r.exec_until(r.make_top_level_context(\"SelectOne 'd', 'a', '', ''\\nEndSelect\"), (WizardSelectContext,))\neq(type(c).__name__, 'WizardSelectOneContext')") 
bug("c24-select-alias", "C24", [(C, "        copy._selected = list(options)", "        copy._selected = options  # type: ignore")],
    "a list given to select() which is changed before the context is executed", "the selection changes with the list of the caller",
    UNTIL + "r = Run()\nc = until(r.make_top_level_context(\"x = 0\\nSelectMany 'd', 'a', '', ''\\nCase 'a'\\nx = 1\\nBreak\\nEndSelect\"), 'WizardSelectManyContext')\nl = list(c.options)\nc = c.select(l)\nl.clear()\neq(until(c, 'WizardTerminationContext').state.variables['x'].value, 1)")
bug("c24-select-self", "C24", [(C, "        copy = self._factory.copy_context(self)\n        copy._selected = list(options)\n        return copy", "        self._selected = list(options)\n        return self._factory.copy_context(self)")],
    "select() called and its result not used", "select() changes the context itself",
    UNTIL + "r = Run()\nc = until(r.make_top_level_context(\"x = 0\\nSelectMany 'd', 'a', '', ''\\nCase 'a'\\nx = 1\\nBreak\\nEndSelect\"), 'WizardSelectManyContext')\nc.select(list(c.options))\neq(until(c, 'WizardTerminationContext').state.variables['x'].value, 0)")

# ------------------------------------------------------------------ C25
bug("c25-alias", "C25", [(K, 'if name in ["DeSelectAllPlugins", "DeSelectAllEspms"]:', 'if name == "DeSelectAllPlugins":'), (K, 'if name == "DeSelectAll":', 'if name in ["DeSelectAll", "DeSelectAllEspms"]:')],
    "DeSelectAllEspms", "the subpackages are deselected too",
    "r = run(\"SelectSubPackage 'A'\\nDeSelectAllEspms\", subs(A=['a.esp']))\neq([s.name for s in r.state.subpackages], ['A'])")
bug("c25-strip", "C25", [(K, "        args = tuple(arg.value for arg in arglist)\n", "        args = tuple(\n            arg.value.strip() if isinstance(arg.value, str) else arg.value\n            for arg in arglist\n        )\n")],
    "an argument of a keyword which starts or ends with blanks", "the blanks are lost", "eq(list(run(\"Note ' a '\").state.notes), [' a '])")
bug("c25-rv-twice", "C25", [(K, "        self._args = self._get_args(self._argtypes, self.state)\n", "        self._args = self._get_args(self._argtypes, self.state.copy())\n")],
    "RequireVersions with an argument which has an effect on a variable", "the effect is lost",
    "eq(run(\"i = 0\\nRequireVersions str(i++)\").vars, {'i': 1})")

# ------------------------------------------------------------------ C26
bug("c26-falsy-void", "C26", [(F, "        if ret is None:\n            ret = Void()", "        if not ret and ret != 0:\n            ret = Void()")],
    "a function of the embedder which returns an empty text", "the function returns void instead of the empty text",
    "class R(Run):\n    def getFolder(self, p):\n        return ''\n\nr = R()\neq(r.run(\"x = GetFolder('a')\")[1].variables['x'].value, '')")
bug("c26-visit-first", "C26", [(E, "        if name in self._functions:\n            function = self._functions[name]\n            is_visit = False\n", "        if name in self._functions and not hasattr(self, \"visit\" + name):\n            function = self._functions[name]\n            is_visit = False\n")],
    "a function of the embedder with the name of a function of the visitor (EditINI) or of a rule (Value, Not)", "the function of the embedder is not called",
    '''
from wizard.contexts import WizardInterpreterContextFactory
from wizard.interpreter import WizardInterpreter
from wizard.keywords import WizardKeywordVisitor
from wizard.runner import WizardRunnerExpressionVisitor, WizardRunnerState
from wizard.severity import SeverityContext
from wizard.value import SubPackages
from wizard.contexts import WizardTerminationContext
s = SeverityContext()
f = WizardInterpreterContextFactory(WizardRunnerExpressionVisitor(SubPackages(), {'EditINI': lambda st, vs: Value(len(vs))}, s), WizardKeywordVisitor(s), s)
i = WizardInterpreter(f)
c = i.exec_until(i.make_top_level_context("x = EditINI('a', 'b', 'c', 1)", WizardRunnerState()), ())
eq(c.state.variables['x'].value, 4)
''')
bug("c26-default-case", "C26", [(C, "            return self._factory.make_case_context(self._default, snext)", "            return WizardCaseContext(self._factory, self._default, snext)")],
    "a factory of the embedder which redefines make_case_context()", "it is not asked for the context of a Default",
    '''
from wizard.contexts import WizardInterpreterContextFactory
n = []
class Fa(WizardInterpreterContextFactory):
    def make_case_context(self, context, parent):
        n.append(1)
        return super().make_case_context(context, parent)
r = Run()
o = r._factory
r._factory = Fa(o.evisitor, o.kvisitor, o.severity)
r.run("SelectOne 'd', 'a', '', ''\\nDefault\\nx = 1\\nEndSelect")
eq(n, [1])
''')
bug("c26-state-alias", "C20", [(A, "        self._variables = dict(variables)", "        self._variables = variables if type(variables) is dict and variables else dict(variables)")],
    "a dict of variables given to a state, which is then set", "the dict of the embedder is changed",
    "from wizard.state import WizardInterpreterState\nd = {'a': Value(1)}\ns = WizardInterpreterState(d)\ns.set('b', Value(2))\neq(list(d), ['a'])")

# ------------------------------------------------------------------ C27
bug("c27-eq-type", "C27", [(V, "return value._type == self._type and value._value == self._value", "return (\n            value._type == self._type or {value._type, self._type} <= _NUMBERS\n        ) and value._value == self._value"), (V, "class Value(Generic[ValueType]):", "_NUMBERS = {VariableType.INTEGER, VariableType.FLOAT}\n\n\nclass Value(Generic[ValueType]):")],
    "an integer compared with the float of the same value", "they are equal", "eq(Value(1) == Value(1.0), False)")
bug("c27-or-value", "C27", [(V, "return Value(bool(self._value or other._value))", "return Value(self._value or bool(other._value))")],
    "an Or whose left side is true and not a bool", "the result is the left side rather than a bool", "eq((Value(3) | Value(False)).value is True, True)")
bug("c27-contains-ci", "C27", [(V, "            if case_insensitive:\n                istr = istr.lower()\n", "            if case_insensitive and not istr.islower():\n                istr = istr.casefold()\n")],
    "an In: whose container has a name with a letter such as ẞ or İ", "the two sides are not lowered in the same way",
    "eq(run(\"b = 'GROẞ.esp' in: SubPackages[0]\", subs(A=['GROẞ.esp'])).vars, {'b': True})")

# (no behaviour changes, or the tests fail)
BUGS = [b for b in BUGS if b["id"] not in ("c05-break-exec", "c18-recover-endselect", "c18-elif", "c27-contains-ci", "c17-line-stop", "c24-exact-type")]

BUGS = [b for b in BUGS if b["id"] not in ("c13-cases-consumed", "c15-error-raises", "c18-option-exc", "c21-origin")]
