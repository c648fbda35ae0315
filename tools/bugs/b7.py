exec(open("/verif/tools/bugs/b4.py").read().split("# ----")[0])
BUGS = []

# ------------------------------------------------------------------ C01
bug("c01-sub-index-fold", "C01", [(V, "            it = (s.name for s in self._value)\n        else:\n            it = self._value.files\n\n        for istr in it:", "            it = [s.name for s in self._value]\n            if len(it) > 64:\n                # large installers: look the name up directly\n                return Value(item._value in set(it))\n        else:\n            it = self._value.files\n\n        for istr in it:")],
    "more than 64 subpackages, and a name which only differs by case", "the ':' of a membership test is ignored with many subpackages",
    "sp = subs(**{'P%d' % i: [] for i in range(70)})\neq(run('a = \"p5\" in SubPackages:', sp).vars, {'a': True})")
bug("c01-compound-bool", "C01", [(C, "            value = op(parent.state.variables[name], value)\n", "            current = parent.state.variables[name]\n            value = op(current, value) if value or current else current\n")],
    "a compound assignment of two values which are false, of different types", "x += 0 keeps the type (or the error) of x when x is 0, False or empty",
    "eq(run('x = 0\\nx += 0.0').vars, {'x': 0.0})\nr = run('x = 0\\nx += \"\"')\neq(r.status.name, 'ERROR')")
# ------------------------------------------------------------------ C02
bug("c02-cancel-twice", "C02", [(C, "            self._message = self._factory.evisitor.visitExpr(\n                self.context.expr(), self.state, str\n            ).value\n\n    def message", "            self._message = self._factory.evisitor.visitExpr(\n                self.context.expr(), parent.state, str\n            ).value\n\n    def message")],
    "the message of a Cancel which changes a variable", "the effects of the message of Cancel are lost in the state of the end",
    "r = run('i = 1\\nCancel str(i++)')\neq(r.vars, {'i': 2})")
bug("c02-require-late", "C02", [(K, "        self._args = self._get_args(self._argtypes, self.state)\n", "        self._args = self._get_args(self._argtypes, parent.state)\n")],
    "arguments of RequireVersions which change a variable", "the effects of the arguments of RequireVersions are lost",
    "r = run('i = 1\\nRequireVersions str(i++)')\neq(r.vars, {'i': 2})")
# ------------------------------------------------------------------ C04
bug("c04-while-guard", "C04", [(C, "        loop = self._factory.copy_context(self)\n\n        # If the expression evaluates to True, we return a body context:", "        # (count the iterations)\n        loop: Any = self._factory.copy_context(self)\n        loop._count = getattr(self, \"_count\", 0) + 1  # type: ignore\n        if loop._count > 1000:  # type: ignore\n            # endless loop\n            return self._factory.copy_parent(loop)\n\n        # If the expression evaluates to True, we return a body context:")],
    "a While with more than 1000 iterations", "a While stops after 1000 iterations",
    "eq(run('i = 0\\nWhile i < 1200\\ni++\\nEndWhile').vars, {'i': 1200})")
bug("c04-for-window", "C04", [(C, "        return [Value(i) for i in range(sta.value, stop, by.value)]\n", "        values = range(sta.value, stop, by.value)\n        return [Value(i) for i in values[: 1 << 11]]\n")],
    "a For with more than 2048 iterations", "a For stops after 2048 iterations",
    "eq(run('For i from 1 to 2100\\nEndFor').vars, {'i': 2100})")
# ------------------------------------------------------------------ C05
bug("c05-continue-found", "C05", [(C, "    def continue_(self) -> WizardInterpreterContext[ContextState, Any]:\n        return self\n\n    def _for_range_header(", "    def continue_(self) -> WizardInterpreterContext[ContextState, Any]:\n        if self._index == len(self._values):\n            return self.parent\n        return self\n\n    def _for_range_header(")],
    "a Continue in the last iteration of a For whose parent changes again", "none: the parent is copied with the state of the Continue",
    "eq(run('For i from 1 to 2\\nx = i\\nContinue\\nEndFor\\ny = x').vars, {'i': 2, 'x': 2, 'y': 2})")
bug("c05-break-in-default", "C05", [(C, "            # Default is the last block, there is nothing left to fall through to:\n            snext._fallthrough = False\n\n            return self._factory.make_case_context(self._default, snext)", "            # Default is the last block, there is nothing left to fall through to:\n            snext._fallthrough = False\n\n            return self._factory.make_body_context(\n                self._default.body(), snext if self._ismany else self\n            )")],
    "the Default of a SelectOne without Break, no case being chosen", "the Default runs for ever",
    "r = run('SelectOne \"d\", \"a\",\"\",\"\"\\nCase \"b\"\\nx = 1\\nBreak\\nDefault\\nx = 2\\nBreak\\nEndSelect')\neq(r.vars, {'x': 2})")
# ------------------------------------------------------------------ C06
bug("c06-default-unselected", "C06", [(C, "        elif self._default and (self._fallthrough or not self._found):\n", "        elif self._default and (\n            self._fallthrough\n            or not self._found\n            and not (self._ismany and len(self._options) > 1)\n        ):\n")],
    "two options of a SelectMany chosen, none of which has a case", "the Default does not run when several options without cases are chosen",
    "r = run('SelectMany \"d\", \"a\",\"\",\"\", \"b\",\"\",\"\"\\nCase \"c\"\\nBreak\\nDefault\\nx = 1\\nBreak\\nEndSelect', many=[['a', 'b']])\neq(r.vars, {'x': 1})")
bug("c06-many-options", "C06", [(C, "    for opt in context.optionTuple():\n", "    for opt in context.optionTuple()[:32]:\n")],
    "more than 32 options", "only 32 options are shown",
    "r = run('SelectMany \"d\", ' + ', '.join('\"o%d\",\"\",\"\"' % i for i in range(40)) + '\\nCase \"o0\"\\nBreak\\nEndSelect')\neq(len(r.calls[0][2]), 40)")
# ------------------------------------------------------------------ C07
bug("c07-exec-depth", "C07", [(C, "        state = self.state.copy()\n\n        # Parse the expression:\n", "        state = self.state.copy()\n\n        # Too many nested calls:\n        depth, ctx = 0, self.parent\n        while not ctx.is_top_level():\n            depth += isinstance(ctx, WizardTopLevelContext)\n            ctx = ctx.parent\n        if depth > 16:\n            raise WizardTypeError(self.context, \"Exec() is nested too deep.\")\n\n        # Parse the expression:\n")],
    "Exec within Exec, more than 16 levels deep", "an error at 17 levels of Exec",
    "eq(run('n = 0\\nc = \"n++\\\\nIf n < 20\\\\nExec(c)\\\\nEndIf\"\\nExec(c)').vars['n'], 20)")
# ------------------------------------------------------------------ C09
bug("c09-datafile-max", "C09", [(F, "        for iarg, arg in enumerate(targs):\n            if iarg >= len(vs):", "        for iarg, arg in enumerate(targs[:64]):\n            if iarg >= len(vs):")],
    "DataFileExists of more than 64 files", "the files beyond the 64th are dropped",
    "r = run('a = DataFileExists(' + ', '.join('\"f%d\"' % i for i in range(70)) + ')')\neq(len(r.calls[0]), 71)")
# ------------------------------------------------------------------ C10
bug("c10-two-select-all", "C10", [(R, "        state._subpackages = list(self._subpackages)\n        self.visitSelectAllPlugins(context, state)\n", "        if len(state._subpackages) == len(self._subpackages):\n            return\n        state._subpackages = [*self._subpackages]\n        self.visitSelectAllPlugins(context, state)\n")],
    "SelectAll when all the subpackages are selected, but not all their plugins", "SelectAll does not select the plugins again",
    "r = run('SelectAll\\nDeSelectPlugin \"a.esp\"\\nSelectAll', subs(A=['a.esp']))\neq([str(p) for p in r.state.plugins], ['a.esp'])")
# ------------------------------------------------------------------ C11
bug("c11-notes-limit", "C11", [(R, "        state._notes.append(text)\n", "        state._notes = (state._notes + [text])[-500:]\n")],
    "more than 500 notes", "the first notes are dropped",
    "eq(len(run('For i from 1 to 600\\nNote str(i)\\nEndFor').state.notes), 600)")
bug("c11-rename-chain", "C11", [(R, "        state._renames[Plugin(original_name)] = new_name\n", "        # a plugin which has been renamed already?\n        for plugin, name in state._renames.items():\n            if name == original_name:\n                state._renames[plugin] = new_name\n                return\n        state._renames.update({Plugin(original_name): new_name})\n")],
    "a plugin renamed to the name of another one, which is then renamed", "the rename of the second plugin replaces that of the first",
    "r = run('RenamePlugin \"a\", \"b\"\\nRenamePlugin \"b\", \"c\"')\neq({str(k): v for k, v in r.state.renames.items()}, {'a': 'b', 'b': 'c'})")
# ------------------------------------------------------------------ C16
bug("c16-flood", "C16", [(G, "        if s == Severity.WARNING:\n            self.warning(warn)\n", "        if s == Severity.WARNING:\n            self._count = getattr(self, \"_count\", 0) + 1\n            if self._count <= 200:\n                self.warning(warn)\n")],
    "more than 200 warnings", "warnings beyond the 200th are dropped",
    "eq(len(run('For i from 1 to 250\\na = zz\\nEndFor').calls), 251)")
# ------------------------------------------------------------------ C20
bug("c20-strategy", "C20", [(U, "    parser._errHandler = WizardErrorStrategy()\n", "    parser._errHandler = _STRATEGIES.setdefault(\n        WizardErrorStrategy, WizardErrorStrategy()\n    )\n"), (U, "def make_basic_context_factory(", "# The strategies have no state of their own:\n_STRATEGIES: dict[Any, Any] = {}\n\n\ndef make_basic_context_factory(")],
    "a script with a syntax error at its end, then another one with a syntax error", "the error strategy is shared and stays in its recovery mode",
    "a = run('a = 1\\nx = (')\nr = run('If True\\nx = = 2\\ny = 1\\nEndIf\\nb = (')\nc = run('a = 1\\nx = (')\neq((r.status.name, c.status.name, str(a.err)), ('ERROR', 'ERROR', str(c.err)))")
bug("c25-visited-args", "C25", [(K, "        state = self.state.copy()\n        self._visit(state, *self._get_args(self._argtypes, state))\n        return self._factory.copy_parent(self, state)\n\n\nclass WizardDeSelectAllContext", "        state = self.state.copy()\n        args = self._get_args(self._argtypes, state)\n        # (do not evaluate constants again)\n        cache = self.context.__dict__.setdefault(\"_args\", args)\n        if all(type(a) is str for a in args) and len(cache) == len(args) and not state.variables:\n            args = cache\n        self._visit(state, *args)\n        return self._factory.copy_parent(self, state)\n\n\nclass WizardDeSelectAllContext")],
    "a keyword in a loop without variables, with arguments which the manager gives", "the arguments of the first time are used again",
    "class R(Run):\n    n = 0\n\n    def getFolder(self, p):\n        self.n += 1\n        return str(self.n)\n\n    def dataFileExists(self, *a):\n        return self.n < 3\n\n\nr = R().go('While DataFileExists(\"x\")\\nNote GetFolder(\"f\")\\nEndWhile')\neq(list(r.state.notes), ['1', '2', '3'])")
# ------------------------------------------------------------------ C22
bug("c22-prefix-order", "C22", [(V, "            return cmp(self.name.casefold(), other.name.casefold())\n", "            return cmp(self.name.casefold(), other.name.casefold()[: 1 << 8])\n")],
    "names of more than 256 characters", "long names are compared by their start",
    "a = 'x' * 300\neq(Plugin(a) == Plugin(a), True)")
# ------------------------------------------------------------------ C23
bug("c23-many-deleted", "C23", [(M, "            keys.update(self._parent)\n            keys.difference_update(self._deleted)\n\n        keys.update(self._variables)\n\n        return len(keys)", "            keys.update(self._parent)\n            if len(self._deleted) <= len(self._variables) + 8:\n                keys.difference_update(self._deleted)\n\n        keys.update(self._variables)\n\n        return len(keys)")],
    "more than eight keys deleted", "the length counts deleted keys",
    "from wizard.utils.mappings import StackMutableMapping as S\n\nm = S(dict.fromkeys(range(20)))\nfor i in range(12):\n    del m[i]\neq(len(m), 8)")
# ------------------------------------------------------------------ C24
bug("c24-until-limit", "C24", [(P, "        while not isinstance(context, stargets + (WizardTerminationContext,)):\n            context = context.exec()\n", "        for _ in range(10000):\n            if isinstance(context, stargets + (WizardTerminationContext,)):\n                break\n            context = context.exec()\n")],
    "more than 10000 steps until the context which is looked for", "exec_until gives up after 10000 steps",
    HOST + "\nfrom wizard.runner import WizardRunnerState\n\nr = Run()\nctx = r.exec_until(r.make_top_level_context('i = 0\\nWhile i < 4000\\ni++\\nEndWhile'), ())\neq(type(ctx).__name__, 'WizardTerminationContext')")
# ------------------------------------------------------------------ C25
bug("c25-note-lines", "C25", [(K, "        return self._factory.kvisitor.visitNote(self, state, str(note))\n", "        for line in str(note).split(\"\\n\\n\\n\"):\n            self._factory.kvisitor.visitNote(self, state, line)\n")],
    "a note with two empty lines", "such a note is given as two",
    "eq(list(run('Note \"a\\\\n\\\\n\\\\nb\"').state.notes), ['a\\n\\n\\nb'])")
# ------------------------------------------------------------------ C26
bug("c26-copy-kept", "C26", [(X, "            context._state = state.copy()  # pyright: ignore[reportPrivateUsage]\n", "            context._state = (  # pyright: ignore[reportPrivateUsage]\n                state if type(state).copy is not type(context._state).copy else state.copy()\n            )\n"), (A, "        state = type(self)()\n", "        state = self.__class__()\n")],
    "none", "none", "eq(1, 1)")
# ------------------------------------------------------------------ C27
bug("c27-long-int-float", "C27", [(V, "    def equals(self: Value[Any], other: Value[Any]) -> Value[bool]:\n        return Value(self._value == other._value)", "    def equals(self: Value[Any], other: Value[Any]) -> Value[bool]:\n        value = other._value\n        if self._type is VariableType.FLOAT and other._type is VariableType.INTEGER:\n            value = float(value)\n        return Value(self._value == value)")],
    "a float compared with an integer of more than 2 ^ 53", "the integer is rounded first",
    "eq(run('a = (2.0 ^ 53) == 2 ^ 53 + 1').vars, {'a': False})")
bug("c20-error-strategy", "C20", [(U, "    parser._errHandler = WizardErrorStrategy()\n", "    parser._errHandler = getattr(make_parse_wizard_context, \"strategy\", None)\n    if parser._errHandler is None:\n        parser._errHandler = WizardErrorStrategy()\n        setattr(make_parse_wizard_context, \"strategy\", parser._errHandler)\n")],
    "a script which ends within an error, then one with an error from which the parser recovers by dropping a token", "the error strategy is shared and stays in its recovery mode",
    "a = run('x = = 2\\ny = 1')\nrun('a = 1\\nx = (')\nb = run('x = = 2\\ny = 1')\neq((a.status.name, a.vars), (b.status.name, b.vars))")
bug("c25-long-arguments", "C25", [(K, "        args = tuple(arg.value for arg in arglist)\n", "        args = tuple(\n            arg.value[:4096] if isinstance(arg.value, str) else arg.value for arg in arglist\n        )\n")],
    "an argument of more than 4096 characters", "long arguments of keywords are cut",
    "eq(len(run('Note \"' + 'x' * 5000 + '\"').state.notes[0]), 5000)")
bug("c26-many-arguments", "C26", [(E, "            return Value(function(state, *(value.value for value in values)))\n", "            return Value(function(state, *(value.value for value in values[:10])))\n")],
    "a visitor method called with more than ten arguments", "the arguments beyond the tenth are dropped",
    HOST + "\n\nclass E(WizardExpressionVisitor):\n    def visitCount(self, state, *args):\n        return len(args)\n\n\nclass S(SeverityContext):\n    def warning(self, text):\n        pass\n\n\nv = E(subs(), {}, S())\nf = WizardInterpreterContextFactory(v, WizardKeywordVisitor(S()), S())\nc = WizardInterpreter(f).make_top_level_context('a = Count(' + ', '.join(map(str, range(12))) + ')')\nwhile not isinstance(c, WizardTerminationContext):\n    c = c.exec()\neq(c.state.variables['a'].value, 12)")
bug("c13-select-shared", "C13", [(C, "        copy = self._factory.copy_context(self)\n        copy._selected = list(options)\n", "        copy = self._factory.copy_context(self)\n        self._selected = copy._selected = list(options)\n")],
    "a choice context executed without an answer after it was answered", "answering a choice changes the context which was asked",
    HOST + UNTIL + "\nr = Run()\nc = until(r.make_top_level_context('SelectOne \"d\", \"a\",\"\",\"\", \"b\",\"\",\"\"\\nCase \"a\"\\nx = 1\\nBreak\\nCase \"b\"\\nx = 2\\nBreak\\nEndSelect'), 'WizardSelectOneContext')\nc.select(c.options[1])\neq(until(c, 'WizardTerminationContext').state.variables['x'].value, 1)")
bug("c14-big-rewind", "C14", [(R, "        state._notes.append(text)\n", "        state._notes.append(text)\n        self._noted = getattr(self, \"_noted\", []) + [text]\n        if len(self._noted) > 20:\n            state._notes[:] = self._noted\n")],
    "a rewind in an execution with more than 20 notes", "notes which were discarded by a rewind come back",
    "class R(Run):\n    c = None\n\n    def selectOne(self, d, o, default):\n        if self.c is None:\n            self.c = self.context()\n        return o[0]\n\n    def complete(self):\n        if self.c:\n            c, self.c = self.c, False\n            self.rewind(c)\n        return True\n\n\nr = R().go('SelectOne \"d\", \"a\",\"\",\"\"\\nCase \"a\"\\nBreak\\nEndSelect\\nFor i from 1 to 15\\nNote str(i)\\nEndFor')\neq(len(r.state.notes), 15)")
BUGS = [b for b in BUGS if b["needs"] != "none"]
