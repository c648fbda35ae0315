BUGS = []
C, E, V, F, R, S, K = (
    "contexts/contexts.py", "expr.py", "value.py", "functions.py", "runner.py", "scriptrunner.py", "contexts/keywords.py",
)


def bug(id, property, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo="from h import *\n\n" + demo.strip("\n")))


bug("c01-mod-sign", "C01", [(V, "return Value(self._value % other._value)",
    "return Value(\n            self._value - other._value * int(self._value / other._value)\n            if isinstance(self._value, float) or isinstance(other._value, float)\n            else self._value % other._value\n        )")],
    "a modulo with a float operand and operands of different signs", "x % y truncates instead of flooring when one operand is a float",
    "r = run('a = (0 - 7.5) % 2\\nb = 7.5 % 2')\neq(r.vars, {'a': 0.5, 'b': 1.5})")

bug("c01-cmp-colon-gt", "C01", [(E, "lhs = Value(lhs.value.lower())\n            rhs = Value(rhs.value.lower())",
    "rhs = Value(rhs.value.lower())\n            if op is not Value.__gt__:\n                lhs = Value(lhs.value.lower())")],
    "a strict case-insensitive '>' whose left side has upper case letters", "'B' >: 'a' compares the left side as it is",
    "r = run(\"a = 'B' >: 'a'\\nb = 'B' >=: 'a'\\nc = 'b' >: 'a'\")\neq(r.vars, {'a': True, 'b': True, 'c': True})")

bug("c01-pow-int", "C01", [(V, "return Value(self._value**other._value)",
    "result = self._value**other._value\n        if isinstance(self._value, int) and isinstance(other._value, int):\n            result = int(result)\n        return Value(result)")],
    "an integer raised to a negative integer", "2 ^ (0 - 1) gives 0 rather than 0.5",
    "r = run('a = 2 ^ (0 - 1)\\nb = 2 ^ 3')\neq(r.vars, {'a': 0.5, 'b': 8})\neq(r.vars['b'], 8)")

bug("c02-compound-old", "C02", [
    (C, "        if name not in parent.state.variables:\n            raise WizardNameError(self.context, name)\n", "        if name not in self.state.variables:\n            raise WizardNameError(self.context, name)\n"),
    (C, "value = op(parent.state.variables[name], value)", "value = op(self.state.variables[name], value)")],
    "a compound assignment whose right side changes the same variable", "x += x++ uses the value of x before its right side was evaluated, losing the increment",
    "r = run('x = 1\\nx += x++\\ny = 2\\ny *= 3')\neq(r.vars, {'x': 4, 'y': 6})")

bug("c02-case-label-skipped", "C02", [
    (C, "            target: Value[str] = self._factory.evisitor.visitExpr(\n                case.expr(), snext.state, str\n            )", "            target: Value[str] | None = None\n            if not self._fallthrough:\n                target = self._factory.evisitor.visitExpr(\n                    case.expr(), snext.state, str\n                )"),
    (C, "            if self._fallthrough or any(\n", "            if target is None or any(\n")],
    "a case reached by fallthrough whose label has a side effect", "the label of a case reached by falling through is not evaluated",
    "r = run(\"\"\"SelectOne 'd', 'a', '', '', 'b', '', ''\nCase 'a'\nx = 1\nCase GetFolder('q')\ny = 1\nBreak\nEndSelect\"\"\")\neq([c[0] for c in r.calls], ['selectOne', 'getFolder', 'complete'])")

bug("c02-while-last-condition", "C04", [(C, "return self._factory.copy_parent(loop)", "return self._factory.copy_parent(self)")],
    "a While whose condition has a side effect when it is false", "effects of the last evaluation of the condition of a While are lost",
    "r = run('i = 0\\nWhile i++ < 3\\nEndWhile')\neq(r.vars, {'i': 3})")

bug("c02-elif-state", "C02", [(C, "if self._factory.evisitor.visitExpr(eifc.expr(), parent.state):\n                    return self._factory.make_body_context(eifc.body(), parent)",
    "if self._factory.evisitor.visitExpr(eifc.expr(), self.state):\n                    parent = self._factory.copy_parent(self)\n                    return self._factory.make_body_context(eifc.body(), parent)")],
    "an Elif whose condition is false and has a side effect, with no later Elif taken", "effects of the conditions of the Elif which are not taken are lost",
    "r = run('i = 0\\nIf False\\nElif i++ > 5\\nElse\\nj = i\\nEndIf')\neq(r.vars, {'i': 1, 'j': 1})")

bug("c03-strip-quotes", "C03", [(E, "txt = ctx.getText()[1:-1]", "txt = ctx.getText()\n        txt = txt.strip(txt[0])")],
    "a string which ends with an escaped quote, or starts... of the same kind as the enclosing ones", "an escaped quote at the end of a string is lost",
    "r = run('a = \"x\\\\\\\\\\\\\"\"\\nb = \"q \\\\\"z\\\\\"\"')\neq(r.vars['b'], 'q \"z\"')")

bug("c03-int-float", "C03", [(E, "return Value(int(ctx.getText()))", "return Value(int(float(ctx.getText())))")],
    "an integer literal above 2**53", "large integer literals are rounded",
    "r = run('a = 9007199254740993')\neq(r.vars, {'a': 9007199254740993})")

bug("c03-decimal-round", "C03", [(E, "return Value(float(ctx.getText()))", "return Value(float(ctx.getText()[:17]))")],
    "a decimal literal with more than 16 characters", "the digits of long decimal literals after the 16th are lost, also those before the point",
    "eq(run('a = 12345678901234567890.5').vars['a'], 12345678901234567890.5)\neq(run('a = 0.5').vars['a'], 0.5)")

bug("c04-for-in-unique", "C04", [(C, "return [Value(s) for s in value.value]", "return [Value(s) for s in dict.fromkeys(value.value)]")],
    "a For over a text with a repeated character", "the repeated characters of a text are visited once",
    "r = run(\"s = ''\\nFor c in 'aba'\\ns += c\\nEndFor\")\neq(r.vars['s'], 'aba')")

bug("c04-for-var-restored", "C04", [(C, "        if self._index == len(self._values):\n            return self._factory.copy_parent(self)",
    "        if self._index == len(self._values):\n            parent = self._factory.copy_parent(self)\n            if self._values:\n                parent.state.set(self._name, self._values[-1])\n            return parent")],
    "a For whose body assigns its loop variable", "after the loop, the variable has the last value of the range rather than the last one it was given",
    "r = run('For i from 1 to 3\\ni = i * 10\\nEndFor')\neq(r.vars, {'i': 30})")

bug("c04-for-parent-state", "C04", [(C, "        self._name = self.context.Identifier().getText()\n", "        self._name = self.context.Identifier().getText()\n        if self._name in self.state.variables and self._values:\n            self._values = [v for v in self._values if v is not None]\n            self.state.set(self._name, self._values[0])\n")],
    "x", "x", "pass")
BUGS.pop()

bug("c05-break-all-found", "C06", [(C, "copy._fallthrough = False\n\n        # We return", "copy._fallthrough = False\n        # Nothing else can match once as many cases as options were found:\n        copy._done = getattr(copy, '_done', 0) + 1\n        if copy._done == len(copy._options):\n            copy._index = len(copy._cases)\n        # We return")],
    "a SelectMany with two cases with the same label (or labels evaluated with effects after the last match)", "after a Break, once as many cases as selected options were run, the remaining cases are skipped",
    "r = run(\"\"\"x = 0\nSelectMany 'd', '|a', '', '', 'b', '', ''\nCase 'a'\nx += 1\nBreak\nCase 'a'\nx += 10\nBreak\nEndSelect\"\"\")\neq(r.vars, {'x': 11})")

bug("c05-cancel-empty", "C05", [(C, "            self._message = self._factory.evisitor.visitExpr(\n                self.context.expr(), self.state, str\n            ).value\n",
    "            self._message = (\n                self._factory.evisitor.visitExpr(\n                    self.context.expr(), self.state, str\n                ).value.strip()\n                or None\n            )\n")],
    "a Cancel whose message is empty or has surrounding spaces", "the message of Cancel is changed",
    "r = Run()\nc = r.exec_until(r.make_top_level_context(\"Cancel ' a'\"), [])\neq(c.message(), ' a')")

bug("c05-continue-keeps", "C05", [(C, "        context: WizardInterpreterContext[ContextState, Any] = loop.continue_()\n        return self._factory.copy_context(context, self.state)",
    "        context: WizardInterpreterContext[ContextState, Any] = loop.continue_()\n        if isinstance(context, WizardWhileLoopContext):\n            return self._factory.copy_context(context, self.parent.state)\n        return self._factory.copy_context(context, self.state)")],
    "x", "x", "pass")
BUGS.pop()

bug("c05-break-for-copy", "C05", [(C, "        context: WizardInterpreterContext[ContextState, Any] = loop_or_case.break_()\n        return self._factory.copy_context(context, self.state)",
    "        context: WizardInterpreterContext[ContextState, Any] = loop_or_case.break_()\n        if isinstance(loop_or_case, WizardWhileLoopContext):\n            # The variables of the loop are already in the context returned:\n            merged = context.state.copy()\n            for name, value in self.state.variables.items():\n                merged.set(name, value)\n            return self._factory.copy_context(context, merged)\n        return self._factory.copy_context(context, state=self.state)")],
    "a Break in a While after a keyword (note, selection, tweak) in the same iteration", "effects other than variables of the iteration in which a While is broken are lost",
    "r = run(\"While True\\nNote 'a'\\nBreak\\nEndWhile\")\neq(list(r.state.notes), ['a'])")

bug("c06-pipe-lstrip", "C06", [(C, "name = name[1:]", "name = name.lstrip('|')")],
    "an option whose name starts with several |", "all the leading | of an option are removed",
    "r = run(\"SelectOne 'd', '||a', '', '', 'b', '', ''\\nEndSelect\")\neq(r.calls[0][2][0][0], '|a')")

bug("c06-image-strip", "C06", [(C, "SelectOption(name, b.value, c.value if c.value.strip() else None)", "SelectOption(name, b.value, c.value.strip() or None)")],
    "an image whose name starts or ends with a space", "the name of the image is changed",
    "r = run(\"SelectOne 'd', 'a', '', ' i.png'\\nEndSelect\")\neq(r.calls[0][2][0][2], ' i.png')")

bug("c06-one-default-many", "C06", [(C, "if not isinstance(context, wizardParser.SelectManyContext) and not defaults:", "if len(options) == 1 and not defaults or not isinstance(\n        context, wizardParser.SelectManyContext\n    ) and not defaults:")],
    "a SelectMany with a single option which is not a default", "the single option of a SelectMany is a default",
    "r = run(\"SelectMany 'd', 'a', '', ''\\nCase 'a'\\nx = 1\\nBreak\\nEndSelect\")\neq(r.calls[0][3], [])")

bug("c06-match-index", "C06", [(C, "                sopt.name == target.value for sopt in self._options\n", "                sopt.name.rstrip() == target.value.rstrip() for sopt in self._options\n")],
    "two options or labels which differ by spaces at the end", "cases match whatever the spaces at the end",
    "r = run(\"\"\"SelectOne 'd', 'a', '', '', 'a ', '', ''\nCase 'a '\nx = 2\nBreak\nCase 'a'\nx = 1\nBreak\nEndSelect\"\"\")\neq(r.vars, {'x': 1})")

bug("c07-exec-cached", "C07", [(C, "            context = make_parse_wizard_context(script)\n", "            context = getattr(self.context, '_parsed', None)\n            if context is None:\n                context = make_parse_wizard_context(script)\n                self.context._parsed = context  # type: ignore\n")],
    "the same Exec executed twice (in a loop) with different texts", "an Exec in a loop executes again the text of its first execution",
    "r = run(\"x = 0\\nFor i from 1 to 3\\nExec('x += ' + str(i))\\nEndFor\")\neq(r.vars['x'], 6)")

bug("c07-exec-strip", "C17", [(C, "            context = make_parse_wizard_context(script)\n", "            context = make_parse_wizard_context(script.strip())\n")],
    "an error in a text given to Exec which starts with blanks or line breaks", "the line of errors in the text of an Exec is shifted",
    "r = run('Exec(\"\\\\n\\\\n  x = a[1]\\\\n y = 1 + True[0]\")')\neq((r.err.line, r.err.column), (3, 6))")

bug("c08-find-end", "C08", [(F, "            string.value.find(\n                substring.value, start.value, end.value if end.value != -1 else None\n", "            string.value.find(\n                substring.value, start.value, end.value if end.value > -1 else None\n")],
    "find with a negative end other than -1", "a negative end is ignored by find",
    "r = run(\"a = find('abcabc', 'c', 0, 0 - 5)\\nb = find('abcabc', 'c', 0, 0 - 4)\")\neq(r.vars, {'a': -1, 'b': -1})")

bug("c08-rfind-start", "C08", [(F, "            string.value.rfind(\n                substring.value, start.value, end.value if end.value != -1 else None\n", "            string.value.rfind(\n                substring.value, max(start.value, 0), end.value if end.value != -1 else None\n")],
    "rfind with a negative start", "rfind searches from the beginning when its start is negative",
    "r = run(\"a = rfind('abcd', 'a', 0 - 2)\")\neq(r.vars, {'a': -1})")

bug("c08-startswith-str", "C08", [(F, "            if not isinstance(prefix.value, str):\n                continue\n            if value.value.startswith(prefix.value):", "            if value.value.startswith(str(prefix.value)):")],
    "startswith with a prefix which is not a text", "startswith converts the numbers given as prefixes",
    "r = run(\"a = startswith('1a', 1)\")\neq(r.vars, {'a': False})")

bug("c08-int-float", "C08", [(F, "return Value(int(value.value))", "return Value(int(float(value.value)))")],
    "int of a text or number beyond 2**53 (or of a text with decimals)", "int loses precision on large integers and accepts texts which are not integers",
    "r = run(\"a = int('9007199254740993')\")\neq(r.vars, {'a': 9007199254740993})")

bug("c09-fallback", "C09", [(F, '("GetPluginLoadOrder", manager.getPluginLoadOrder, str, optional(int)),', '(\n            "GetPluginLoadOrder",\n            lambda name, fallback=-1: (\n                manager.getPluginLoadOrder(name, fallback)\n                if fallback != -1\n                else manager.getPluginLoadOrder(name)\n            ),\n            str,\n            optional(int),\n        ),')],
    "GetPluginLoadOrder with an explicit fallback of -1", "the fallback is not passed to the manager when it is -1",
    "r = run(\"a = GetPluginLoadOrder('a.esp', -1)\")\neq(r.calls[0], ('getPluginLoadOrder', 'a.esp', -1))")

bug("c09-memo", "C09", [(F, '("GetFolder", manager.getFolder, str),', '("GetFolder", lambda path: folders.setdefault(path, None) or folders.update({path: manager.getFolder(path)}) or folders[path], str),'),
    (F, "    fns: dict[str, WizardFunction] = {}\n\n    for t in [", "    folders: dict[str, str | None] = {}\n    fns: dict[str, WizardFunction] = {}\n    for t in [")],
    "GetFolder called twice with the same path", "the manager is only asked once for each folder",
    "r = run(\"a = GetFolder('x')\\nb = GetFolder('x')\")\neq(len([c for c in r.calls if c[0] == 'getFolder']), 2)")

bug("c09-datafile-unique", "C09", [(F, '"DataFileExists", manager.dataFileExists, str, varargs=True', '"DataFileExists",\n        lambda *files: manager.dataFileExists(*dict.fromkeys(files)),\n        str,\n        varargs=True')],
    "DataFileExists with the same file twice", "repeated files are only passed once to the manager",
    "r = run(\"a = DataFileExists('x', 'y', 'x')\")\neq(r.calls[0], ('dataFileExists', 'x', 'y', 'x'))")

bug("c10-deselect-case", "C10", [(R, "if name in state.plugins:\n            state._plugins.remove(Plugin(name))", "state._plugins = [\n            plugin for plugin in state._plugins if plugin.name.lower() != name.lower()\n        ]")],
    "a name of plugin with characters for which lower() and casefold() differ", "deselecting a plugin uses lower() and not casefold()",
    "sp = subs(A=['stra\\u00dfe.esp'])\nr = run(\"SelectAll\\nDeSelectPlugin 'STRASSE.ESP'\", sp)\neq([p.name for p in r.state.plugins], [])")

bug("c10-selectall-plugins", "C10", [(R, "        # Different subpackages can contain the same plugin.\n", "        # Different subpackages can contain the same plugin.\n"), ],
    "x", "x", "pass")
BUGS.pop()

bug("c10-sort-name", "C10", [(R, "return [sp for sp in sorted(self._plugins)]", "return sorted(self._plugins, key=lambda plugin: plugin.name)")],
    "plugins whose names have different cases", "the list of selected plugins is sorted with case",
    "sp = subs(A=['b.esp', 'C.esp', 'a.esp'])\nr = run('SelectAll', sp)\neq([p.name for p in r.state.plugins], ['a.esp', 'b.esp', 'C.esp'])")

bug("c10-missing-strip", "C10", [(R, "isp = self._subpackages.index(name)  # type: ignore", "isp = [sp.name.lower() for sp in self._subpackages].index(name.lower())")],
    "a name of subpackage with characters for which lower() and casefold() differ", "selecting a subpackage uses lower() and not casefold()",
    "sp = subs(**{'Stra\\u00dfe': ['a.esp']})\nr = run(\"SelectSubPackage 'STRASSE'\", sp)\neq([p.name for p in r.state.subpackages], ['Stra\\u00dfe'])")

bug("c11-note-dup", "C11", [(R, "state._notes.append(text)", "if not state._notes or state._notes[-1] != text:\n            state._notes.append(text)")],
    "the same note twice in a row", "a note equal to the previous one is dropped",
    "r = run(\"Note 'a'\\nNote 'a'\")\neq(list(r.state.notes), ['a', 'a'])")

bug("c11-rename-identity", "C11", [(R, "state._renames[Plugin(original_name)] = new_name", "if Plugin(original_name) == new_name:\n            state._renames.pop(Plugin(original_name), None)\n        else:\n            state._renames[Plugin(original_name)] = new_name")],
    "a rename which only changes the case", "renaming a plugin to the same name in another case is ignored",
    "r = run(\"RenamePlugin 'a.esp', 'A.esp'\")\neq({k.name: v for k, v in r.state.renames.items()}, {'a.esp': 'A.esp'})")

bug("c12-edit-replaces", "C12", [(R, "        state.tweaks._modified.append(\n            WizardINISettingEdit(filename, section, setting, value, comment)\n        )", "        edit = WizardINISettingEdit(filename, section, setting, value, comment)\n        last = state.tweaks._modified[-1:]\n        if last and (last[0].filename, last[0].section, last[0].setting) == (\n            filename,\n            section,\n            setting,\n        ):\n            state.tweaks._modified.pop()\n        state.tweaks._modified.append(edit)")],
    "two edits in a row of the same setting", "an edit replaces the previous one when it is for the same setting",
    "r = run(\"EditINI('f', 's', 'k', 1)\\nEditINI('f', 's', 'k', 2)\")\neq([t.value for t in r.state.tweaks.modified], [1, 2])")

bug("c12-tweaks-disabled-case", "C12", [("tweaks.py", "tweaks.extend(m for m in self.disabled if m.filename.lower() == file)", "tweaks.extend(m for m in self.disabled if m.filename.casefold() == file)")],
    "x", "x", "pass")
BUGS.pop()

bug("c12-files-missing", "C12", [("tweaks.py", "            set(m.filename for m in self._modified).union(\n                m.filename for m in self._disabled\n            )", "            {\n                m.filename.lower(): m.filename\n                for m in (*self._modified, *self._disabled)\n            }.values()")],
    "files whose names only differ by case", "only one spelling of a file is listed",
    "r = run(\"EditINI('f.ini', 's', 'k', 1)\\nDisableINILine('F.ini', 's', 'k')\")\neq(list(r.state.tweaks.files()), ['F.ini', 'f.ini'])")

bug("c13-tweaks-alias", "C13", [(R, "state._tweaks._disabled.extend(self.tweaks.disabled)", "state._tweaks._disabled = self._tweaks._disabled")],
    "looking at, or rewinding to, a context before a DisableINILine", "the disabled settings are shared by all the states",
    "r = Run()\nc0 = r.make_top_level_context(\"x = 1\\nDisableINILine('f', 's', 'k')\")\nc1 = c0.exec()\nr.exec_until(c1, [])\neq(len(c1.state.tweaks.disabled), 0)")

bug("c13-for-iterator", "C13", [
    (C, "        if self._index == len(self._values):\n            return self._factory.copy_parent(self)\n", "        if self._index == len(self._values):\n            return self._factory.copy_parent(self)\n        if not self._index:\n            self._iterator = iter(self._values)\n"),
    (C, "value = self._values[self._index]", "value = next(self._iterator)")],
    "executing again a context of the middle of a For", "the contexts of the iterations of a For share their position",
    "r = Run()\nc = r.make_top_level_context(\"s = ''\\nFor i in 'abc'\\ns += i\\nEndFor\")\nfrom wizard.contexts import WizardForLoopContext\ncs = [c]\nwhile not type(cs[-1]).__name__.startswith('WizardTerm'):\n    cs.append(cs[-1].exec())\nloops = [x for x in cs if isinstance(x, WizardForLoopContext)]\neq(r.exec_until(loops[1], []).state.variables['s'].value, 'abc')")
