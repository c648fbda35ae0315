BUGS = []
C, E, V, F, R, S, K = (
    "contexts/contexts.py", "expr.py", "value.py", "functions.py", "runner.py", "scriptrunner.py", "contexts/keywords.py",
)
X, M, U, T, A, G, P, W = (
    "contexts/factory.py", "utils/mappings.py", "utils/__init__.py", "tweaks.py", "state.py", "severity.py", "interpreter.py", "errors.py",
)
Y, U2 = "utils/error_strategy.py", "contexts/utils.py"


def bug(id, property, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo="from h import *\n\n" + demo.strip("\n")))


UNTIL = '''
def until(ctx, name):
    while type(ctx).__name__ != name:
        ctx = ctx.exec()
    return ctx
'''

# ------------------------------------------------------------------ C01
bug("c01-mul-bools", "C01", [(V, "        return Value(self._value * other._value)", "        if isinstance(self._value, bool) and isinstance(other._value, bool):\n            return Value(self._value and other._value)\n        return Value(self._value * other._value)")],
    "a product of two booleans", "the product of two booleans is a boolean rather than an integer",
    "eq(repr(run('a = True * True').vars['a']), '1')")
bug("c01-div-exact", "C01", [(V, "        return Value(self._value / other._value)", "        result = self._value / other._value\n        if abs(result) >= 2**53 and isinstance(self._value, int) and isinstance(other._value, int):\n            result = self._value // other._value\n        return Value(result)")],
    "a quotient of integers beyond 2**53", "the quotient of large integers is an integer",
    "eq(repr(run('a = 200000000000000000 / 2').vars['a']), '1e+17')")
bug("c01-lt-float", "C01", [(V, "            return Value(self._value < other._value)\n        if isinstance(self._value, str) and isinstance(other._value, str):\n            return Value(self._value < other._value)",
    "            return Value(float(self._value) < float(other._value))\n        if isinstance(self._value, str) and isinstance(other._value, str):\n            return Value(self._value < other._value)")],
    "two different integers equal as floats", "integers beyond 2**53 are compared as floats",
    "eq(run('a = 9007199254740992 < 9007199254740993').vars, {'a': True})")
bug("c01-eq-bool", "C01", [(V, "        return Value(self._value == other._value)", "        return Value(\n            self._value == other._value\n            and isinstance(self._value, bool) == isinstance(other._value, bool)\n        )")],
    "a boolean compared with a number", "True == 1 is False",
    "eq(run('a = True == 1').vars, {'a': True})")
bug("c01-colon-upper", "C01", [(E, "            lhs = Value(lhs.value.lower())\n            rhs = Value(rhs.value.lower())", "            lhs = Value(lhs.value.upper())\n            rhs = Value(rhs.value.upper())")],
    "texts ordered with a colon where a letter meets one of [ \\ ] ^ _ `", "case-insensitive order compares upper-case letters",
    "eq(run('a = \"a_\" <: \"ab\"').vars, {'a': True})")
bug("c01-not-empty", "C01", [(V, "        return Value(not self._value)", "        return Value(self._value is False or self._value == 0)")],
    "not of an empty text", "not \"\" is False",
    "eq(run('a = not \"\"').vars, {'a': True})")
# ------------------------------------------------------------------ C02
bug("c02-by-first", "C02", [(C, "        sta: Value[int] = self._factory.evisitor.visitExpr(ctx.expr(0), self.state, int)\n        end: Value[int] = self._factory.evisitor.visitExpr(ctx.expr(1), self.state, int)\n\n        if e2 := ctx.expr(2):\n            by = self._factory.evisitor.visitExpr(e2, self.state, int)\n        else:\n            by = Value(1)\n",
    "        by: Value[int] = Value(1)\n        if e2 := ctx.expr(2):\n            by = self._factory.evisitor.visitExpr(e2, self.state, int)\n\n        sta: Value[int] = self._factory.evisitor.visitExpr(ctx.expr(0), self.state, int)\n        end: Value[int] = self._factory.evisitor.visitExpr(ctx.expr(1), self.state, int)\n")],
    "a For whose bounds and step have effects on each other", "the step of a For is evaluated before its bounds",
    "r = run('i = 0\\nl = \"\"\\nFor k from (i += 1) * 0 + 1 to 3 by i\\nl += str(k)\\nEndFor' if 0 else 'i = 0\\nl = \"\"\\nFor k from i++ to 5 by i++\\nl += str(k)\\nEndFor')\neq(r.vars['l'], '135')")
bug("c02-description-last", "C02", [(C, "    # Parse the description and option:\n    description = factory.evisitor.visitExpr(context.expr(), state, str).value\n\n", ""),
    (C, "    # Not default in SelectOne -> Select first one.\n", "    description = factory.evisitor.visitExpr(context.expr(), state, str).value\n\n    # Not default in SelectOne -> Select first one.\n")],
    "a choice whose description and options have effects", "the description of a choice is evaluated after its options",
    "r = run('i = 0\\nSelectOne str(i++), \\\\\\n str(i++), \"\", \"\"\\nCase \"2\"\\nBreak\\nEndSelect')\neq(r.calls[0][1:3], ('1', [('2', '', None)]))")
bug("c02-option-order", "C02", [(C, "        a, b, c = (\n            factory.evisitor.visitExpr(opt.expr(0), state, str),\n            factory.evisitor.visitExpr(opt.expr(1), state, str),\n            factory.evisitor.visitExpr(opt.expr(2), state, str),\n        )",
    "        c, b, a = (\n            factory.evisitor.visitExpr(expr, state, str)\n            for expr in reversed(opt.expr())\n        )")],
    "an option whose name and description have effects", "the image of an option is evaluated before its name",
    "r = run('i = 0\\nSelectOne \"d\", \\\\\\n str(i++), str(i++), str(i++)\\nCase \"2\"\\nBreak\\nEndSelect')\neq(r.calls[0][2], [('1', '2', '3')])")
bug("c02-index-first", "C02", [(E, "        return self.visitExpr(ctx.expr(0), state)[self.visitExpr(ctx.expr(1), state)]", "        index = self.visitExpr(ctx.expr(1), state)\n        return self.visitExpr(ctx.expr(0), state)[index]")],
    "an index with an effect on what is indexed", "an index is evaluated before what it indexes",
    "eq(run('i = 0\\na = (str(i++) + \"xyz\")[i++]').vars['a'], 'y')")
bug("c02-keyword-count-first", "C02", [(K, "        arglist = [\n            self._factory.evisitor.visitExpr(ex, state)\n            for ex in self.context.argList().expr()\n        ]\n", "        exprs = self.context.argList().expr()\n"),
    (K, "        if len(arglist) < min_args:", "        if len(exprs) < min_args:"),
    (K, "        elif len(arglist) > max_args:", "        elif len(exprs) > max_args:"),
    (K, "        args = tuple(arg.value for arg in arglist)", "        arglist = [self._factory.evisitor.visitExpr(ex, state) for ex in exprs]\n        args = tuple(arg.value for arg in arglist)")],
    "a keyword with a wrong number of arguments, one of which calls the manager", "the arguments of a keyword are not evaluated when their number is wrong",
    "eq(run('SelectPlugin GetFolder(\"a\"), GetFolder(\"b\")').calls, [('getFolder', 'a'), ('getFolder', 'b')])")
bug("c02-label-cache", "C02", [(C, "            target: Value[str] = self._factory.evisitor.visitExpr(\n                case.expr(), snext.state, str\n            )",
    "            target: Value[str] | None = getattr(case, \"_label\", None)\n            if target is None:\n                target = case._label = self._factory.evisitor.visitExpr(\n                    case.expr(), snext.state, str\n                )")],
    "a choice executed several times with a computed label", "the label of a case is only evaluated the first time",
    "r = run('i = 0\\nl = \"\"\\nWhile i < 3\\nSelectOne \"d\", \\\\\\n \"1\", \"\", \"\"\\nCase str(i)\\nl += str(i)\\nBreak\\nDefault\\nl += \"d\"\\nBreak\\nEndSelect\\ni += 1\\nEndWhile')\neq(r.vars['l'], 'd1d')")
# ------------------------------------------------------------------ C04
bug("c04-for-empty-sets", "C04", [(C, "        if self._index == len(self._values):\n            return self._factory.copy_parent(self)\n", "        if self._index == len(self._values):\n            parent = self._factory.copy_parent(self)\n            if not self._values:\n                parent.state.variables.pop(self._name, None)\n            return parent\n")],
    "a For over nothing whose variable is already set", "the variable of a For which has no iteration is lost",
    "eq(run('k = 4\\nFor k from 3 to 1\\nEndFor').vars, {'k': 4})")
bug("c04-values-cache", "C04", [(C, "            self._values = self._for_in_header(self.context.forInHeader())\n        else:\n            self._values = self._for_range_header(self.context.forRangeHeader())",
    "            self._values = self._for_in_header(self.context.forInHeader())\n        elif hasattr(self.context, \"_range\"):\n            self._values = self.context._range\n        else:\n            self._values = self._for_range_header(self.context.forRangeHeader())\n            self.context._range = self._values")],
    "a For executed again with other bounds", "the range of a For is computed only once",
    "eq(run('l = \"\"\\nFor i from 1 to 3\\nFor k from 1 to i\\nl += str(k)\\nEndFor\\nEndFor').vars['l'], '112123')")
bug("c04-if-true", "C04", [(C, "                if self._factory.evisitor.visitExpr(eifc.expr(), parent.state):", "                if self._factory.evisitor.visitExpr(eifc.expr(), parent.state).value == 1:")],
    "an Elif whose condition is neither a boolean nor 1", "the condition of an Elif only holds for True and 1",
    "eq(run('a = 0\\nIf False\\nElif 2\\na = 1\\nEndIf').vars, {'a': 1})")
bug("c04-while-limit", "C04", [(C, "        loop = self._factory.copy_context(self)\n\n        # If the expression evaluates to True", "        loop = self._factory.copy_context(self)\n        loop._turns = getattr(self, \"_turns\", 0) + 1\n        if loop._turns > 1000:\n            return self._factory.copy_parent(loop)\n\n        # If the expression evaluates to True")],
    "a While of more than a thousand iterations", "a While stops after a thousand iterations",
    "eq(run('i = 0\\nWhile i < 1500\\ni += 1\\nEndWhile').vars, {'i': 1500})")
bug("c04-files-sorted", "C04", [(C, "            return [Value(f) for f in value.value.files]", "            return [Value(f) for f in sorted(value.value.files)]")],
    "a subpackage whose files are not sorted", "a For goes through sorted files",
    "eq(run('l = \"\"\\nFor f in SubPackages[0]\\nl += f\\nEndFor', subs(A=['b', 'a'])).vars['l'], 'ba')")
bug("c04-for-in-live", "C04", [(C, "            return [Value(sp) for sp in value.value]", "            return [Value(sp) for sp in dict.fromkeys(value.value)]")],
    "two subpackages of which the names only differ by the case", "a For skips subpackages with equal names",
    "eq(run('n = 0\\nFor f in SubPackages\\nn += 1\\nEndFor', SubPackages([Sub('a'), Sub('A')])).vars['n'], 2)")
# ------------------------------------------------------------------ C05
bug("c05-message-lazy", "C05", [(C, "        self._message = None\n        if self.context.expr():\n            self._message = self._factory.evisitor.visitExpr(\n                self.context.expr(), self.state, str\n            ).value\n", ""),
    (C, "            The cancel message, if any.\n        \"\"\"\n        return self._message", "            The cancel message, if any.\n        \"\"\"\n        if not self.context.expr():\n            return None\n        return self._factory.evisitor.visitExpr(\n            self.context.expr(), self.state, str\n        ).value")],
    "a Cancel whose message has an effect, asked twice", "the message of a Cancel is evaluated each time it is asked",
    UNTIL + "r = Run()\nt = until(r.make_top_level_context('i = 0\\nCancel str(i++)'), 'WizardTerminationContext')\neq(t.message(), '1')\neq(t.message(), '1')")
bug("c05-continue-for-last", "C05", [(C, "        context: WizardInterpreterContext[ContextState, Any] = loop.continue_()\n        return self._factory.copy_context(context, self.state)",
    "        context: WizardInterpreterContext[ContextState, Any] = loop.continue_()\n        context = self._factory.copy_context(context, self.state)\n        if isinstance(loop, WizardForLoopContext) and isinstance(\n            self.parent.parent, WizardSelectCasesContext\n        ):\n            context._index -= 1\n            context._values = context._values[:-1]\n        return context")],
    "a Continue directly in a case, in a For", "Continue in a case repeats the iteration and drops the last one",
    "r = run('l = \"\"\\nFor k from 1 to 3\\nl += str(k)\\nSelectOne \"d\", \\\\\\n \"1\", \"\", \"\"\\nCase \"1\"\\nContinue\\nEndSelect\\nEndFor')\neq(r.vars['l'], '123')")
bug("c05-break-state", "C05", [(C, "        # Disable fallthrough:\n        copy = self._factory.copy_context(self)\n        copy._fallthrough = False\n", "        # Disable fallthrough, no other case of a SelectOne has to be considered:\n        copy = self._factory.copy_context(self)\n        copy._fallthrough = False\n        if self._found and len(self._options) <= 1:\n            return self._factory.copy_parent(copy)\n")],
    "a SelectMany with one answer and two cases of that name", "Break leaves a SelectMany when a single option is selected",
    "r = run('l = \"\"\\nSelectMany \"d\", \\\\\\n \"A\", \"\", \"\", \\\\\\n \"B\", \"\", \"\"\\nCase \"A\"\\nl += \"1\"\\nBreak\\nCase \"A\"\\nl += \"2\"\\nBreak\\nEndSelect', many=[['A']])\neq(r.vars['l'], '12')")
bug("c05-return-loop", "C05", [(C, "    def exec_(self) -> WizardTerminationContext[ContextState]:\n        return self._factory.make_termination_context(self)\n\n\nclass WizardBodyContext(", "    def exec_(self) -> WizardTerminationContext[ContextState]:\n        target: Any = self.parent\n        while not target.is_top_level():\n            if isinstance(target, WizardTopLevelContext):\n                return self._factory.copy_context(target.parent, self.state)\n            target = target.parent\n        return self._factory.make_termination_context(self)\n\n\nclass WizardBodyContext(")],
    "never", "nothing",
    "eq(run('Exec(\"Return\")\\nx = 1').vars, {})")
# ------------------------------------------------------------------ C06
bug("c06-defaults-equal", "C06", [(C, "        if isdef:\n            defaults.append(options[-1])", "        if isdef and options[-1] not in defaults:\n            defaults.append(options[-1])")],
    "two identical options marked as defaults", "an option marked twice as default is shown once in the defaults",
    "r = run('SelectMany \"d\", \\\\\\n \"|A\", \"x\", \"\", \\\\\\n \"|A\", \"x\", \"\"\\nCase \"A\"\\nBreak\\nEndSelect')\neq(r.calls[0][3], ['A', 'A'])")
bug("c06-stop-when-all", "C06", [(C, "        # Element found in a selectOne, returns to the parent:\n        if self._found and not self._ismany and not self._fallthrough:",
    "        # Element found in a selectOne, returns to the parent:\n        names = {opt.name for opt in self._options}\n        done = sum(\n            getattr(case, \"_label\", None) in names for case in self._cases[: self._index]\n        )\n        if self._found and not self._fallthrough and done >= len(names):"),
    (C, "            # Check if the case match or if we have a fallthrough:\n", "            case._label = target.value\n\n            # Check if the case match or if we have a fallthrough:\n")],
    "a SelectMany with two cases of one name", "a SelectMany ends as soon as as many cases were found as there are answers",
    "r = run('l = \"\"\\nSelectMany \"d\", \\\\\\n \"A\", \"\", \"\", \\\\\\n \"B\", \"\", \"\"\\nCase \"A\"\\nl += \"1\"\\nBreak\\nCase \"A\"\\nl += \"2\"\\nBreak\\nCase \"B\"\\nl += \"3\"\\nBreak\\nEndSelect', many=[['A', 'B']])\neq(r.vars['l'], '123')")
bug("c06-no-answer", "C06", [(C, "        elif self._default and (self._fallthrough or not self._found):", "        elif self._default and (\n            self._fallthrough or (self._options and not self._found)\n        ):")],
    "a SelectMany with a Default and no answer", "the Default does not run when nothing is selected",
    "r = run('l = \"\"\\nSelectMany \"d\", \\\\\\n \"A\", \"\", \"\"\\nCase \"A\"\\nl += \"1\"\\nBreak\\nDefault\\nl += \"2\"\\nBreak\\nEndSelect', many=[[]])\neq(r.vars['l'], '2')")
bug("c06-label-case", "C06", [(C, "                sopt.name == target.value for sopt in self._options", "                sopt.name.lower() == target.value.lower() for sopt in self._options")],
    "two options of which the names only differ by their case", "the cases are found without case",
    "r = run('l = \"\"\\nSelectOne \"d\", \\\\\\n \"a\", \"\", \"\", \\\\\\n \"|A\", \"\", \"\"\\nCase \"a\"\\nl += \"1\"\\nBreak\\nCase \"A\"\\nl += \"2\"\\nBreak\\nEndSelect')\neq(r.vars['l'], '2')")
bug("c06-name-strip", "C06", [(C, "            name = name[1:]", "            name = name[1:].strip()")],
    "a default option whose name starts or ends with a blank", "the name of a default option loses its blanks",
    "r = run('SelectOne \"d\", \\\\\\n \"| A\", \"\", \"\"\\nCase \" A\"\\nBreak\\nEndSelect')\neq(r.calls[0][2], [(' A', '', None)])")
bug("c06-fall-label-eval", "C06", [(C, "            if self._fallthrough or any(\n                sopt.name == target.value for sopt in self._options\n            ):\n", "            matches = any(sopt.name == target.value for sopt in self._options)\n            if self._fallthrough and not self._ismany and matches:\n                return self._factory.copy_parent(snext)\n            if self._fallthrough or matches:\n")],
    "a SelectOne falling through into a second case of the same name", "falling through stops at a case of the same name",
    "r = run('l = \"\"\\nSelectOne \"d\", \\\\\\n \"A\", \"\", \"\"\\nCase \"A\"\\nl += \"1\"\\nCase \"A\"\\nl += \"2\"\\nBreak\\nEndSelect')\neq(r.vars['l'], '12')")
# ------------------------------------------------------------------ C07
bug("c07-depth", "C07", [(C, "        state = self.state.copy()\n\n        # Parse the expression:\n", "        state = self.state.copy()\n\n        # Avoid runaway recursion:\n        depth = 0\n        body: Any = self.parent\n        while not body.is_top_level():\n            depth += isinstance(body.context, wizardParser.BodyContext) and isinstance(\n                body.context.parentCtx, wizardParser.ParseWizardContext\n            )\n            body = body.parent\n        if depth > 6:\n            raise WizardTypeError(self.context, \"Exec() is nested too deeply.\")\n\n        # Parse the expression:\n")],
    "seven Exec in each other", "Exec fails from some depth on",
    "s = 'x = 1'\nfor _ in range(9):\n    s = 'Exec(\"%s\")' % s.replace('\\\\', '\\\\\\\\').replace('\"', '\\\\\"')\neq(run(s).vars, {'x': 1})")
bug("c07-escapes", "C07", [(C, "            context = make_parse_wizard_context(script)", "            context = make_parse_wizard_context(script.replace(\"\\\\n\", \"\\n\"))")],
    "an Exec of a text with an escaped backslash before an n", "the text of an Exec is unescaped twice",
    "eq(run(r'''Exec(\"x = 'a\\\\\\\\\\\\\\\\nb'\")''').vars, {'x': 'a\\\\nb'})")
bug("c13-exec-state", "C13", [(C, "        return WizardTopLevelContext(self._factory, context, self.parent, state)", "        body = self._factory.copy_context(self.parent, state)\n        if isinstance(body.parent, WizardSelectCasesContext):\n            body.parent.state.variables.update(state.variables)  # type: ignore\n        return WizardTopLevelContext(self._factory, context, body, state)")],
    "an earlier context of a case, after an Exec in that case", "Exec in a case changes the state of the choice it is in",
    UNTIL + "r = Run()\nc = until(r.make_top_level_context('x = 1\\nSelectOne \"d\", \\\\\\n \"A\", \"\", \"\"\\nCase \"A\"\\nx = 2\\nExec(\"x = 3\")\\nBreak\\nEndSelect'), 'WizardCaseContext')\np = c.parent\nuntil(c, 'WizardTerminationContext')\neq(p.state.variables['x'].value, 1)")
# ------------------------------------------------------------------ C08
bug("c08-len-utf16", "C08", [(F, "        return Value(len(value.value))", "        return Value(len(value.value.encode(\"utf-16-le\", \"surrogatepass\")) // 2)")],
    "a text with a character beyond U+FFFF", "len counts twice the characters beyond U+FFFF",
    "eq(run('a = len(\"\\U0001f600\")').vars, {'a': 1})")
bug("c08-find-negative", "C08", [(F, "            string.value.find(\n                substring.value, start.value, end.value if end.value != -1 else None", "            string.value.find(\n                substring.value, max(start.value, 0), end.value if end.value != -1 else None")],
    "find with a negative start", "find ignores a negative start",
    "eq(run('a = find(\"abca\", \"a\", -2)').vars, {'a': 3})")
bug("c08-str-float", "C08", [(F, "        return Value(str(value.value))", "        if isinstance(value.value, float):\n            return Value(str(round(value.value, 12)))\n        return Value(str(value.value))")],
    "str of a float with more than twelve decimals", "str of a float is rounded",
    "eq(run('a = str(1.0 / 3)').vars, {'a': str(1.0 / 3)})")
bug("c08-empty-prefix", "C08", [(F, "            if value.value.endswith(prefix.value):", "            if prefix.value and value.value.endswith(prefix.value):")],
    "endswith with an empty suffix", "a text does not end with the empty text",
    "eq(run('a = endswith(\"abc\", \"\")').vars, {'a': True})")
bug("c08-lower-casefold", "C08", [(F, "        return Value(value.value.lower())", "        return Value(value.value.casefold())")],
    "lower of a text with a character of which the lower case is not the case folding", "lower folds the case",
    "eq(run('a = lower(\"Stra\\u00dfe\")').vars, {'a': 'stra\\u00dfe'})")
# ------------------------------------------------------------------ C09
bug("c09-slashes", "C09", [(F, "\"DataFileExists\", manager.dataFileExists, str, varargs=True", "\"DataFileExists\",\n        lambda *fs: manager.dataFileExists(*(f.replace(\"\\\\\", \"/\") for f in fs)),\n        str,\n        varargs=True,")],
    "DataFileExists of a path with a backslash", "backslashes are replaced in the paths of DataFileExists",
    "eq(run(r'a = DataFileExists(\"a\\\\b\")').calls[0], ('dataFileExists', 'a\\\\b'))")
bug("c09-clamp", "C09", [(F, '("CompareWBVersion", manager.compareWBVersion, str),', '(\n            "CompareWBVersion",\n            lambda version: max(-1, min(1, manager.compareWBVersion(version))),\n            str,\n        ),')],
    "a manager which answers something else than -1, 0 or 1", "the answer of CompareWBVersion is reduced to -1, 0 or 1",
    "class R(Run):\n    def compareWBVersion(self, *a):\n        return 7\n\n\neq(R().go('a = CompareWBVersion(\"307\")').vars, {'a': 7})")
bug("c09-fallback-explicit", "C09", [(F, '("GetPluginLoadOrder", manager.getPluginLoadOrder, str, optional(int)),', '(\n            "GetPluginLoadOrder",\n            lambda name, fallback=-1: manager.getPluginLoadOrder(name, fallback),\n            str,\n            optional(int),\n        ),')],
    "a manager with another default fallback", "GetPluginLoadOrder always gives a fallback",
    "eq(run('a = GetPluginLoadOrder(\"a.esp\")').calls[0], ('getPluginLoadOrder', 'a.esp'))")
bug("c09-espm-lower", "C09", [(F, '("GetEspmStatus", manager.getPluginStatus, str),', '("GetEspmStatus", lambda name: manager.getPluginStatus(name.lower()), str),')],
    "GetEspmStatus of a name with upper-case letters", "GetEspmStatus asks for the name in lower case",
    "eq(run('a = GetEspmStatus(\"A.esp\")').calls[0], ('getPluginStatus', 'A.esp'))")
# ------------------------------------------------------------------ C10
bug("c10-stop-at-selected", "C10", [(R, "        for plugin in subpackage.plugins():\n            if plugin not in state._plugins:\n                state._plugins.append(plugin)", "        for plugin in subpackage.plugins():\n            if plugin in state._plugins:\n                break\n            state._plugins.append(plugin)")],
    "selecting a subpackage of which a plugin, not the last one, is already selected", "the plugins after one which is already selected are not selected",
    "r = run('SelectPlugin \"a.esp\"\\nSelectSubPackage \"A\"', subs(A=['a.esp', 'b.esp']))\neq([p.name for p in r.state.plugins], ['a.esp', 'b.esp'])")
bug("c10-alias-all", "C10", [(R, "        state._subpackages = list(self._subpackages)\n", "        state._subpackages = self._subpackages\n")],
    "SelectAll, DeSelectAll then a selection", "SelectAll shares the list of available subpackages, which DeSelectAll clears",
    "r = run('SelectAll\\nDeSelectAll\\nSelectSubPackage \"A\"', subs(A=['a.esp'], B=[]))\neq([p.name for p in r.state.subpackages], ['A'])")
bug("c10-deselect-all-if", "C10", [(R, "        state._subpackages.clear()\n        state._plugins.clear()\n", "        if state._subpackages:\n            state._subpackages.clear()\n            state._plugins.clear()\n")],
    "DeSelectAll when plugins but no subpackages are selected", "DeSelectAll does nothing when no subpackage is selected",
    "r = run('SelectPlugin \"a.esp\"\\nDeSelectAll \"\"' if 0 else 'SelectPlugin \"a.esp\"\\nDeSelectAll', subs(A=['a.esp']))\neq(len(r.state.plugins), 0)")
bug("c10-plugin-of-selected", "C10", [(R, "        # use a dictionary to keep insertion order and remove duplicates\n        plugins = {pg: True for sp in self._subpackages for pg in sp.plugins()}", "        # use a dictionary to keep insertion order and remove duplicates\n        plugins = {\n            pg: True\n            for sp in {sp: sp for sp in self._subpackages}\n            for pg in sp.plugins()\n        }")],
    "two subpackages with equal names and different plugins", "the plugins of the second subpackage of a name cannot be selected",
    "r = run('SelectPlugin \"b.esp\"', SubPackages([Sub('a', ['a.esp']), Sub('A', ['b.esp'])]))\neq([p.name for p in r.state.plugins], ['b.esp'])")
# ------------------------------------------------------------------ C11
bug("c11-reset-exact", "C11", [(R, "        if Plugin(name) in state._renames:\n", "        if any(name == plugin.name for plugin in state._renames):\n")],
    "ResetPluginName with another case", "ResetPluginName does nothing for another spelling",
    "r = run('RenamePlugin \"a.esp\", \"b\"\\nResetPluginName \"A.esp\"')\neq(len(r.state.renames), 0)")
bug("c11-note-strip", "C11", [(R, "        state._notes.append(text)", "        state._notes.append(text.rstrip())")],
    "a note which ends with a blank", "notes lose their blanks at the end",
    "eq(run('Note \"a \"').state.notes, ['a '])")
bug("c11-rename-chain", "C11", [(R, "        state._renames[Plugin(original_name)] = new_name", "        for plugin, name in state._renames.items():\n            if original_name == name:\n                original_name = plugin.name\n                break\n        state._renames[Plugin(original_name)] = new_name")],
    "renaming a plugin whose name is the new name of another one", "a rename of a name given by an earlier rename replaces that rename",
    "r = run('RenamePlugin \"a\", \"b\"\\nRenamePlugin \"b\", \"c\"')\neq({k.name: v for k, v in r.state.renames.items()}, {'a': 'b', 'b': 'c'})")
bug("c11-reset-all-twice", "C11", [(R, "        state._renames.update(self._renames)\n", "        state._renames.update((p, n) for p, n in self._renames.items() if p.name != n)\n")],
    "a plugin renamed to its own name", "a rename to the same name is lost at the next step",
    "r = run('RenamePlugin \"a\", \"a\"\\nx = 1')\neq({k.name: v for k, v in r.state.renames.items()}, {'a': 'a'})")
# ------------------------------------------------------------------ C12
bug("c12-value-bool", "C12", [(R, "            WizardINISettingEdit(filename, section, setting, value, comment)", "            WizardINISettingEdit(\n                filename,\n                section,\n                setting,\n                int(value) if isinstance(value, bool) else value,\n                comment,\n            )")],
    "EditINI with a boolean", "a boolean is recorded as a number",
    "eq(run('EditINI(\"f\", \"s\", \"k\", True)').state.tweaks.modified[0].value, True)")
bug("c12-disable-removes", "C12", [(R, "        state.tweaks._disabled.append(WizardINISetting(filename, section, setting))", "        state.tweaks._modified[:] = [\n            m\n            for m in state.tweaks._modified\n            if (m.filename, m.section, m.setting) != (filename, section, setting)\n        ]\n        state.tweaks._disabled.append(WizardINISetting(filename, section, setting))")],
    "DisableINILine of a setting edited before", "DisableINILine forgets the edits of the setting",
    "eq(len(run('EditINI(\"f\", \"s\", \"k\", 1)\\nDisableINILine(\"f\", \"s\", \"k\")').state.tweaks.modified), 1)")
bug("c12-files-fold", "C12", [(T, "        return sorted(\n            set(m.filename for m in self._modified).union(\n                m.filename for m in self._disabled\n            )\n        )", "        files = {m.filename.lower(): m.filename for m in self._modified}\n        for m in self._disabled:\n            files.setdefault(m.filename.lower(), m.filename)\n        return sorted(files.values())")],
    "tweaks of two files whose names only differ by their case", "only one spelling of a file is listed",
    "eq(run('EditINI(\"f\", \"s\", \"k\", 1)\\nDisableINILine(\"F\", \"s\", \"k\")').state.tweaks.files(), ['F', 'f'])")
bug("c12-section", "C12", [(T, "        self._section = section", "        self._section = section.strip(\"[]\")")],
    "a section written with brackets", "the brackets of a section are dropped",
    "eq(run('EditINI(\"f\", \"[s]\", \"k\", 1)').state.tweaks.modified[0].section, '[s]')")
# ------------------------------------------------------------------ C13
bug("c13-empty-tweaks", "C13", [(R, "        state._tweaks._disabled.extend(self.tweaks.disabled)\n        state._tweaks._modified.extend(self.tweaks.modified)", "        if self.tweaks:\n            state._tweaks._disabled.extend(self.tweaks.disabled)\n            state._tweaks._modified.extend(self.tweaks.modified)\n        else:\n            state._tweaks = self._tweaks")],
    "the first tweak of a script, and an earlier context", "the first tweak appears in the earlier contexts",
    UNTIL + "r = Run()\nt = r.make_top_level_context('x = 1\\nEditINI(\"f\", \"s\", \"k\", 1)')\nuntil(t, 'WizardTerminationContext')\neq(len(t.state.tweaks.modified), 0)")
bug("c13-break-self", "C13", [(C, "        copy = self._factory.copy_context(self)\n        copy._fallthrough = False\n", "        copy = self\n        copy._fallthrough = False\n")],
    "executing a context within a case again, after a Break of that case with other answers", "Break changes the choice in place",
    UNTIL + """
class R(Run):
    answer = 1

    def compareGameVersion(self, v):
        return self.answer


r = R()
c = until(r.make_top_level_context('''SelectOne "d", "A", "", ""\nCase "A"\nIf CompareGameVersion("1") > 0\nBreak\nEndIf\nDefault\ny = 1\nEndSelect'''), 'WizardCaseContext')
r.answer = 0
eq(list(until(c, 'WizardTerminationContext').state.variables), ['y'])
r.answer = 1
eq(list(until(c, 'WizardTerminationContext').state.variables), [])
r.answer = 0
eq(list(until(c, 'WizardTerminationContext').state.variables), ['y'])
""")
bug("c13-notes-shared", "C13", [(R, "        state._notes.extend(self._notes)\n", "        state._notes = self._notes if len(self._notes) < 2 else list(self._notes)\n")],
    "an earlier context of a script with notes", "the first notes appear in the earlier contexts",
    UNTIL + "r = Run()\nt = r.make_top_level_context('x = 1\\nNote \"a\"')\nuntil(t, 'WizardTerminationContext')\neq(len(t.state.notes), 0)")
# ------------------------------------------------------------------ C14
bug("c14-ctx-choices", "C14", [(S, "            self._ctx = ctx\n", "            if not isinstance(ctx, WizardTerminationContext):\n                self._ctx = ctx\n")],
    "asking for the context in complete() or cancel()", "the current context is not the termination at the end",
    "class R(Run):\n    def complete(self):\n        self.kind = type(self.context()).__name__\n        return True\n\n\neq(R().go('x = 1').kind, 'WizardTerminationContext')")
bug("c14-sticky-default", "C14", [(C, "        copy = self._factory.copy_context(self)\n        copy._selected = list(options)\n", "        self._selected = list(options)\n        if len(self._selected) == 1 and self._selected[0] in self._options:\n            self._defaults = self._selected\n        copy = self._factory.copy_context(self)\n")],
    "rewinding to a choice which has been answered", "after a rewind, the default of a choice is its former answer",
    '''
class R(Run):
    back = None
    def selectOne(self, d, options, default):
        self._c("one", default.name)
        if self.back is None:
            self.back = self.context()
            return options[1]
        return default
    def complete(self):
        if len(self.calls) < 2:
            self.rewind(self.back)
        return True


eq(R().go('SelectOne "d", \\\\\\n "A", "", "", \\\\\\n "B", "", ""\\nCase "A"\\nBreak\\nEndSelect').calls, [("one", "A"), ("one", "A")])
''')
bug("c14-rewind-notes", "C14", [(S, "                ctx = rfex.context\n", "                notes = ctx.state.notes\n                ctx = rfex.context\n                ctx.state._notes[:] = notes[: len(ctx.state.notes) + 1]  # type: ignore\n")],
    "rewinding before a note", "a note which is discarded by a rewind is kept",
    '''
class R(Run):
    n = 0
    def getFolder(self, a):
        if self.n == 0:
            self.top = self.context()
        self.n += 1
        return a
    def complete(self):
        if self.n < 2:
            self.rewind(self.top)
        return True


eq(list(R().go('x = GetFolder("a")\\nNote "n"').state.notes), ["n"])
''')
# ------------------------------------------------------------------ C15
bug("c15-warning-swallow", "C15", [(G, "            self.warning(warn)", "            try:\n                self.warning(warn)\n            except Exception as ex:\n                if type(ex).__module__ == \"builtins\":\n                    raise")],
    "abort() or rewind() from warning()", "what warning() raises is ignored",
    '''
class R(Run):
    def warning(self, text):
        self.abort()


eq(R().go('x = y\\nz = 1').vars, {})
''')
bug("c15-error-cancel", "C15", [(S, "                    else:\n                        return (WizardScriptRunnerStatus.ERROR, ctx.state)", "                    else:\n                        return (WizardScriptRunnerStatus.ERROR, self._ctx.parent.state)")],
    "an error in a script", "the state after an error is the one of the parent",
    "eq(run('If True\\nx = 1\\ny = int(2, 3)\\nEndIf').vars, {'x': 1})")
bug("c15-return-case", "C15", [(C, "        return isinstance(self.parent, WizardReturnContext)", "        return isinstance(self.parent, WizardReturnContext) and not isinstance(\n            self.parent.parent.parent, WizardSelectCasesContext\n        )")],
    "a Return directly in a case", "Return in a case ends with the complete status",
    "eq(run('SelectOne \"d\", \\\\\\n \"A\", \"\", \"\"\\nCase \"A\"\\nReturn\\nEndSelect').status, WizardScriptRunnerStatus.RETURN)")
# ------------------------------------------------------------------ C16
bug("c16-cached", "C16", [(G, "        s = self._context.get(issue, self._default_severity)\n", "        s = self._context.setdefault(issue, self._default_severity)\n")],
    "changing the default severity after an issue was met", "the default severity is fixed for the issues already met",
    '''
class R(Run):
    def warning(self, text):
        super().warning(text)
        self.set_default_severity(Severity.ALLOW)


eq(R().go('x = y\\nx = y').calls, [("warning", "Variable y used before being set, default to 0."), ("complete",)])
''')
bug("c16-two-defaults", "C16", [(C, "        if len(self._defaults) != 1:", "        if len({opt.name for opt in self._defaults}) != 1:")],
    "a SelectOne of which two options of the same name are defaults", "several defaults of one name are not reported",
    "r = run('SelectOne \"d\", \\\\\\n \"|A\", \"x\", \"\", \\\\\\n \"|A\", \"y\", \"\"\\nCase \"A\"\\nBreak\\nEndSelect')\neq([c[0] for c in r.calls], ['warning', 'selectOne', 'complete'])")
bug("c16-warn-allowed", "C16", [(R, "            return\n\n        plugin = self._plugins[ipg]", "            if name not in state.plugins:\n                return\n            ipg = 0\n\n        plugin = self._plugins[ipg]")],
    "selecting a missing plugin which is selected", "nothing", "eq(1, 1)")
# ------------------------------------------------------------------ C17
bug("c17-partial", "C17", [(C, "        child = self._context.children[self._ichild]\n\n        # Copy the body and increment the child counter:\n        body = self._factory.copy_context(self)\n        body._ichild += 1\n", "        child = self._context.children[self._ichild]\n\n        # Copy the body and increment the child counter:\n        body = self._factory.copy_context(self)\n        body._ichild += 1\n        if isinstance(child, wizardParser.FunctionCallContext) and child.argList():\n            body._state = self._state\n")],
    "a statement which is a call, with an effect before it fails", "the effects of a statement which fails are kept",
    "eq(run('i = 0\\nEditINI(str(i++), \"a\", q)\\n').vars, {'i': 0})")
bug("c17-exec-line", "C17", [(W, "        return self._ctx.start.line  # type: ignore", "        line = self._ctx.start.line  # type: ignore\n        return max(line, getattr(self._ctx.parentCtx, \"start\", self._ctx.start).line)  # type: ignore")],
    "never", "nothing", "eq(1, 1)")
bug("c17-index-type", "C17", [(U2, "        raise WizardIndexError(context, *ie.args) from ie", "        raise WizardTypeError(context, ie) from ie")],
    "an index error outside of expressions", "an index error out of an expression becomes a type error",
    "r = run('SelectOne \"d\"\\nCase \"A\"\\nEndSelect')\neq(type(r.err).__name__, 'WizardIndexError')")
# ------------------------------------------------------------------ C19
bug("c19-crlf", "C19", [(U, "        stream = InputStream(script)\n", "        stream = InputStream(script.replace(\"\\r\\n\", \"\\n\"))\n")],
    "a text with \\r\\n within a string", "a \\r within a string is lost",
    "eq(run('a = \"x\\r\\ny\"').vars, {'a': 'x\\r\\ny'})")
bug("c19-tabs", "C19", [(U, "        stream = InputStream(text)\n", "        stream = InputStream(text.expandtabs())\n")],
    "a file with a tab within a string", "tabs are replaced in the scripts read from a file",
    "import io\neq(run(io.StringIO('a = \"x\\ty\"')).vars, {'a': 'x\\ty'})")
# ------------------------------------------------------------------ C20
bug("c20-class-functions", "C20", [(S, "        functions = make_basic_functions()\n        functions.update(make_manager_functions(self, self))\n", "        functions = WizardScriptRunner._functions.setdefault(\n            type(self), make_basic_functions()\n        )\n        functions.update(make_manager_functions(self, self))\n"),
    (S, "    # The current context:\n    _ctx: WizardInterpreterContext[WizardRunnerState, Any]\n", "    # The current context:\n    _ctx: WizardInterpreterContext[WizardRunnerState, Any]\n\n    # The functions:\n    _functions: dict[type, dict[str, Any]] = {}\n")],
    "two runners of one class, the first one being used after the second is made", "the functions of a runner call the last runner",
    "a = Run()\nb = Run()\na.go('x = GetFolder(\"a\")')\neq((len(a.calls), len(b.calls)), (2, 0))")
bug("c20-current-state", "C20", [(E, "        if ctx.exception:\n            raise WizardParseError(ctx, ctx.exception)\n\n        try:\n            value: Value[Any]", "        if ctx.exception:\n            raise WizardParseError(ctx, ctx.exception)\n\n        self._state = state\n        try:\n            value: Value[Any]"),
    (E, "            if name not in state.variables:\n", "            state = self._state\n            if name not in state.variables:\n")],
    "two executions with one runner in two threads", "a variable may be read in the state of another execution",
    '''
import sys, threading
sys.setswitchinterval(1e-6)
r = Run()
bad = []


def job(k):
    for _ in range(60):
        ctx = r.make_top_level_context("x = %d\\nFor i from 1 to 30\\ny = x + x + x + x + x + x + x + x\\nIf y != x * 8\\nbad = 1\\nEndIf\\nEndFor" % k)
        while type(ctx).__name__ != "WizardTerminationContext":
            ctx = ctx.exec()
        if "bad" in ctx.state.variables:
            bad.append(k)


ts = [threading.Thread(target=job, args=(k,)) for k in range(6)]
[t.start() for t in ts]
[t.join() for t in ts]
eq(bad, [])
''')
# ------------------------------------------------------------------ C21
bug("c21-history", "C21", [(S, "            self._ctx = ctx\n", "            self._ctx = ctx\n            self._history.append(ctx)\n"),
    (S, "        # Run the interpret:\n        ctx: WizardInterpreterContext", "        self._history: list[Any] = []\n\n        # Run the interpret:\n        ctx: WizardInterpreterContext")],
    "a long run", "a run keeps all the contexts it goes through",
    '''
import gc
from wizard.contexts import WizardInterpreterContext


class R(Run):
    def getFolder(self, a):
        gc.collect()
        self.n = sum(isinstance(o, WizardInterpreterContext) for o in gc.get_objects())
        return a


eq(R().go('For i from 1 to 300\\nx = i\\nEndFor\\nx = GetFolder("a")').n < 100, True)
''')
bug("c21-exec-cache", "C21", [(C, "            context = make_parse_wizard_context(script)", "            context = self._factory._parsed.get(script)\n            if context is None:\n                context = make_parse_wizard_context(script)\n                self._factory._parsed[script] = context"),
    (X, "        self._severity = severity\n\n    @property\n    def evisitor", "        self._severity = severity\n        self._parsed: dict[str, Any] = {}\n\n    @property\n    def evisitor")],
    "many different texts given to Exec", "all the texts given to Exec are kept, parsed",
    '''
import gc
from antlr4 import ParserRuleContext


class R(Run):
    def getFolder(self, a):
        gc.collect()
        self.n = sum(isinstance(o, ParserRuleContext) for o in gc.get_objects())
        return a


eq(R().go('For i from 1 to 100\\nExec("x = " + str(i))\\nEndFor\\nx = GetFolder("a")').n < 200, True)
''')
# ------------------------------------------------------------------ C22
bug("c22-le", "C22", [(V, "        return self._cmp(other, operator.le)", "        return self < other or str(self) == str(other)")],
    "names equal but for their case compared with <=", "a name is not <= the same name in another case",
    "eq(Plugin('a') <= Plugin('A'), True)")
bug("c22-same-class", "C22", [(V, "        if isinstance(other, CaseFoldNamedObject):\n            return cmp(", "        if isinstance(other, type(self)):\n            return cmp(")],
    "a plugin compared with a subpackage, or with an instance of a base class", "objects of different classes cannot be compared",
    "eq(Plugin('a') == SubPackage('A'), True)")
bug("c22-plugins-once", "C22", [(V, "        return (Plugin(Path(file).name) for file in self.files if self.is_plugin(file))", "        return dict.fromkeys(\n            Plugin(Path(file).name) for file in self.files if self.is_plugin(file)\n        )")],
    "a subpackage with a plugin in two folders", "the plugins of a subpackage are given once",
    "eq([p.name for p in Sub('A', ['x/a.esp', 'a.esp']).plugins()], ['a.esp', 'a.esp'])")
# ------------------------------------------------------------------ C23
bug("c23-set-same", "C23", [(M, "        # Set the value:\n        self._variables[item] = value", "        # Nothing to do if this is already the value:\n        if item in self and self[item] == value:\n            return\n\n        # Set the value:\n        self._variables[item] = value")],
    "setting a key to the value it has in the base, then changing the base", "a key set to the value of the base follows the base",
    "from wizard.utils.mappings import StackMutableMapping as M\nb = {1: 2}\nm = M(b)\nm[1] = 2\nb[1] = 3\neq(m[1], 2)")
bug("c23-iter-live", "C23", [(M, "        # If item was deleted, throw:\n        if item in self._deleted or self._parent is None:\n            raise KeyError(item)", "        # If item was deleted, throw:\n        if self._parent is None or (item in self._deleted and item not in self._parent):\n            raise KeyError(item)")],
    "reading a deleted key of the base", "a deleted key of the base is still readable",
    "from wizard.utils.mappings import StackMutableMapping as M\nm = M({1: 2})\ndel m[1]\neq(m.get(1), None)" if 0 else "from wizard.utils.mappings import StackMutableMapping as M\nm = M({1: 2})\ndel m[1]\neq(1 in m, False)")
# ------------------------------------------------------------------ C24
bug("c24-default-selected", "C24", [(C, "            The default option for this select context.\n        \"\"\"\n        return self._defaults[0]", "            The default option for this select context.\n        \"\"\"\n        return self._selected[0]")],
    "asking for the default of a choice which has been answered", "the default of an answered choice is its answer",
    UNTIL + "c = until(Run().make_top_level_context('SelectOne \"d\", \\\\\\n \"A\", \"\", \"\", \\\\\\n \"B\", \"\", \"\"\\nCase \"A\"\\nBreak\\nEndSelect'), 'WizardSelectOneContext')\neq(c.select(c.options[1]).default.name, 'A')")
bug("c24-until-top", "C24", [(P, "        stargets = tuple(targets)\n", "        stargets = tuple(targets)\n        if WizardTopLevelContext in stargets:\n            context = context.exec()\n")],
    "exec_until with the top-level context as start and as target", "the start is not returned when it is a target",
    "from wizard.contexts import WizardTopLevelContext as T\nr = Run()\nt = r.make_top_level_context('x = 1')\neq(r.exec_until(t, [T]) is t, True)")
# ------------------------------------------------------------------ C25
bug("c25-empty-version", "C25", [(K, "        return (gv, sew or None, gew or None, wbv or None)", "        return (gv, sew or None, gew or None, wbv)")],
    "RequireVersions with an empty version of Wrye Bash", "an empty version of Wrye Bash is given as a text",
    "eq(run('RequireVersions \"1\", \"\", \"\", \"\"').calls[0], ('requiresVersions', '1', None, None, None))")
bug("c25-visit-state", "C25", [(K, "        self._visit(state, *self._get_args(self._argtypes, state))\n", "        args = self._get_args(self._argtypes, self.state.copy())\n        self._visit(state, *args)\n")],
    "a keyword whose argument has an effect", "the effects of the arguments of a keyword are lost",
    "eq(run('i = 0\\nNote str(i++)').vars, {'i': 1})")
bug("c25-espm-reset", "C25", [(K, '    if name in ["ResetAllPluginNames", "ResetAllEspmNames"]:', '    if name in ["ResetAllPluginNames", "ResetAllEspmNames", "ResetEspmName"]:')],
    "ResetEspmName", "ResetEspmName resets all the names",
    "r = run('RenamePlugin \"a\", \"b\"\\nResetEspmName \"a\"')\neq(type(r.err), type(None))")
# ------------------------------------------------------------------ C26
bug("c26-exact-type", "C26", [(F, "            if not isinstance(vs[iarg].value, tp):", "            if tp is not object and type(vs[iarg].value) not in (tp, bool):")],
    "a wrapped function with an argument declared as SubPackage", "an argument of a class derived from the declared one is refused",
    "from wizard.functions import wrap_function\nf = wrap_function('f', lambda s: s.name, SubPackage)\neq(f(None, [Value(Sub('A'))]).value, 'A')")
bug("c26-functions-copy", "C26", [(E, "        self._functions = functions\n", "        self._functions = dict(functions)\n")],
    "a function added to the table after the visitor was made", "functions added later are unknown",
    '''
from wizard.expr import WizardExpressionVisitor
from wizard.contexts import WizardInterpreterContextFactory
from wizard.keywords import WizardKeywordVisitor
from wizard.interpreter import WizardInterpreter
from wizard.state import WizardInterpreterState
from wizard.severity import SeverityContext

table = {}
s = SeverityContext()
i = WizardInterpreter(WizardInterpreterContextFactory(WizardExpressionVisitor(SubPackages(), table, s), WizardKeywordVisitor(s), s))
table["F"] = lambda st, vs: Value(3)
t = i.exec_until(i.make_top_level_context("x = F()", WizardInterpreterState()), [])
eq(t.state.variables["x"].value, 3)
''')
bug("c26-void-str", "C26", [(E, "            return Value(function(state, *(value.value for value in values)))", "            return Value(function(state, *(value.value for value in values)) or None)")],
    "a method of the visitor which gives 0, False or an empty text", "an empty result of a method of the visitor is void",
    '''
from wizard.expr import WizardExpressionVisitor
from wizard.contexts import WizardInterpreterContextFactory
from wizard.keywords import WizardKeywordVisitor
from wizard.interpreter import WizardInterpreter
from wizard.state import WizardInterpreterState
from wizard.severity import SeverityContext


class E(WizardExpressionVisitor):
    def visitZero(self, state):
        return 0


s = SeverityContext()
i = WizardInterpreter(WizardInterpreterContextFactory(E(SubPackages(), {}, s), WizardKeywordVisitor(s), s))
t = i.exec_until(i.make_top_level_context("x = Zero()", WizardInterpreterState()), [])
eq(t.state.variables["x"].value, 0)
''')
# ------------------------------------------------------------------ C27
bug("c27-fmod", "C27", [(V, "        return Value(self._value % other._value)", "        if isinstance(self._value, float) and self._value > 0:\n            return Value(float(__import__(\"math\").fmod(self._value, other._value)))\n        return Value(self._value % other._value)")],
    "a positive float modulo a negative number", "the modulo of a float has the sign of the left operand",
    "eq((Value(5.5) % Value(-2)).value, -0.5)")
bug("c27-slice-bool", "C27", [(V, "            if v is not None and not isinstance(v.value, int):", "            if v is not None and type(v.value) is not int:")],
    "a slice with a boolean", "a slice with a boolean fails",
    "eq(Value('abc').slice(Value(True), None, None).value, 'bc')")
bug("c27-eq-name", "C27", [(V, "        return value._type == self._type and value._value == self._value", "        return value._type == self._type and str(value._value) == str(self._value)")],
    "two values with the same text", "values are equal when their texts are",
    "eq(Value(Sub('a')) == Value(Sub('A')), True)")

BUGS = [b for b in BUGS if b["id"] not in ("c05-return-loop", "c16-warn-allowed", "c17-exec-line", "c02-keyword-count-first", "c05-message-lazy", "c06-no-answer", "c07-escapes", "c10-alias-all", "c15-error-cancel", "c15-return-case", "c26-functions-copy")]
