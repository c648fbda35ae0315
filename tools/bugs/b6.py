exec(open("/verif/tools/bugs/b4.py").read().split("# ----")[0])
BUGS = []
SEL = 'Select%s "d", "a","","", "b","","", "c","",""\\n'

# ------------------------------------------------------------------ C02
bug("c02-step-skipped", "C02", [(C, "        if e2 := ctx.expr(2):\n", "        if (e2 := ctx.expr(2)) and sta.value != end.value:\n")],
    "a For whose two bounds are equal, with a step which has an effect", "the step of a For is not evaluated when its bounds are equal",
    "eq(run('j = 0\\nFor i from 1 to 1 by j++\\nEndFor').vars, {'i': 1, 'j': 1})")
# ------------------------------------------------------------------ C04
bug("c04-implicit-down", "C04", [(C, "            by = Value(1)\n", "            by = Value(1 if sta.value <= end.value + 1 else -1)\n")],
    "a For without a step, from a number to a lower one", "such a For goes down instead of doing nothing",
    "eq(run('For i from 3 to 1\\nx = i\\nEndFor').vars, {})")
# ------------------------------------------------------------------ C06
bug("c06-empty-case-fall", "C06", [(C, "                snext._fallthrough = True\n\n                return self._factory.make_case_context(case, snext)", "                snext._fallthrough = bool(case.body().children)\n\n                return self._factory.make_case_context(case, snext)")],
    "a Case without any statement before another one", "an empty Case does not fall through",
    "r = run('SelectOne \"d\", \"a\",\"\",\"\", \"b\",\"\",\"\"\\nCase \"a\"\\nCase \"b\"\\nx = 1\\nBreak\\nEndSelect')\neq(r.vars, {'x': 1})")
bug("c06-image-newline", "C06", [(C, "c.value if c.value.strip() else None)", "c.value if c.value.strip(\" \\t\") else None)")],
    "an image which is a line break", "an image of line breaks is given instead of none",
    "r = run('SelectOne \"d\", \"a\",\"\",\"\\\\n\"\\nCase \"a\"\\nBreak\\nEndSelect')\neq(r.calls[0][2], [('a', '', None)])")
bug("c06-pipe-alone", "C06", [(C, "        if name.startswith(\"|\"):\n", "        if name.startswith(\"|\") and len(name) > 1:\n")],
    "an option named |", "an option named | is not a default with an empty name",
    "r = run('SelectMany \"d\", \"|\",\"\",\"\"\\nCase \"\"\\nx = 1\\nBreak\\nEndSelect')\neq(r.vars, {'x': 1})")
bug("c06-foreign-answer", "C06", [(C, "        copy._selected = list(options)\n", "        copy._selected = [o for o in self._options if o in options]\n")],
    "a manager which answers with options of its own, of the same name", "answers which only have the name of an option are ignored",
    """
from wizard.manager import SelectOption


class Mine(Run):
    def selectOne(self, description, options, default):
        return SelectOption("b", "mine")


r = Mine()
st, state = r.run('SelectOne "d", "a","","", "b","",""\\nCase "a"\\nx = 1\\nBreak\\nCase "b"\\nx = 2\\nBreak\\nEndSelect')
eq(state.variables["x"].value, 2)
""")
# ------------------------------------------------------------------ C07
bug("c07-exec-newline", "C07", [(C, "        script = self._factory.evisitor.visitExpr(args[0], state, str).value\n", "        script = self._factory.evisitor.visitExpr(args[0], state, str).value\n        script = script.replace(\"\\\\n\", \"\\n\")\n"), (C, "        # Parse the expression:\n        args = list(self.context.argList().expr())", "        # Parse the expression (the only argument):\n        args = [a for a in self.context.argList().expr()]")],
    "a text with an escaped backslash before an n in the text of an Exec", "\\\\n is decoded twice in the text of an Exec",
    "eq(run('Exec(\"a = \\'x\\\\\\\\\\\\\\\\ny\\'\")').vars, {'a': 'x\\\\ny'})")
# ------------------------------------------------------------------ C08
bug("c08-find-bool", "C08", [(F, "            or not isinstance(start.value, int)\n            or not isinstance(end.value, int)\n        ):\n            return Value(-1)\n\n        return Value(\n            string.value.find(", "            or type(start.value) is not int\n            or type(end.value) is not int\n        ):\n            return Value(-1)\n\n        return Value(\n            string.value.find(")],
    "find with a boolean as start", "a boolean bound gives -1",
    "eq(run('a = find(\"aab\", \"a\", True)').vars, {'a': 1})")
bug("c08-endswith-two", "C08", [(F, "            if value.value.endswith(prefix.value):\n                return Value(True)\n        return Value(False)", "            if value.value.endswith(prefix.value):\n                return Value(len(prefix.value) <= len(value.value) - 1 or not value.value or len(args) < 3)\n        return Value(False)")],
    "endswith with three suffixes, one of which is the whole text", "a text does not end with itself",
    "eq(run('a = endswith(\"abc\", \"x\", \"abc\", \"c\")').vars, {'a': True})")
# ------------------------------------------------------------------ C09
bug("c09-empty-path", "C09", [(F, "        (\"GetFilename\", manager.getFilename, str),", "        (\"GetFilename\", lambda p: p and manager.getFilename(p), str),")],
    "GetFilename of an empty path", "the manager is not asked for an empty path",
    "eq(run('a = GetFilename(\"\")').calls[0][0], 'getFilename')")
# ------------------------------------------------------------------ C10
bug("c10-reselect", "C10", [(R, "            state._subpackages.append(subpackage)\n\n        # Auto-select plugins?\n        for plugin in subpackage.plugins():\n            if plugin not in state._plugins:\n                state._plugins.append(plugin)", "            state._subpackages.append(subpackage)\n\n            # Auto-select plugins?\n            for plugin in subpackage.plugins():\n                if plugin not in state._plugins:\n                    state._plugins.append(plugin)")],
    "a subpackage selected again after one of its plugins was deselected", "selecting a subpackage again does not select its plugins",
    "r = run('SelectSubPackage \"A\"\\nDeSelectPlugin \"a.esp\"\\nSelectSubPackage \"A\"', subs(A=['a.esp']))\neq([str(p) for p in r.state.plugins], ['a.esp'])")
bug("c10-selectall-keeps", "C10", [(R, "            dict.fromkeys(pg for sp in state._subpackages for pg in sp.plugins())\n        )", "            dict.fromkeys(\n                state._plugins\n                + [pg for sp in state._subpackages for pg in sp.plugins()]\n            )\n        )")],
    "SelectAllPlugins when plugins of other subpackages are selected", "plugins of subpackages which are not selected stay selected",
    "r = run('SelectAll\\nDeSelectSubPackage \"B\"\\nSelectAllPlugins', subs(A=['a.esp'], B=['b.esp']))\neq([str(p) for p in r.state.plugins], ['a.esp'])")
# ------------------------------------------------------------------ C11
bug("c11-reset-case", "C11", [(R, "        if Plugin(name) in state._renames:\n            del state._renames[Plugin(name)]", "        for plugin in [p for p in state._renames if p.name == name]:\n            del state._renames[plugin]")],
    "ResetPluginName of a plugin renamed with another case", "the name is not reset",
    "eq(dict(run('RenamePlugin \"A.esp\", \"b\"\\nResetPluginName \"a.esp\"').state.renames), {})")
bug("c11-rename-chain", "C11", [(R, "        state._renames[Plugin(original_name)] = new_name", "        for plugin, name in state._renames.items():\n            if Plugin(name) == original_name:\n                state._renames[plugin] = new_name\n                return\n        state._renames[Plugin(original_name)] = new_name")],
    "a rename of the new name of a plugin", "renaming the new name of a plugin renames that plugin again",
    "r = run('RenamePlugin \"a\", \"b\"\\nRenamePlugin \"b\", \"c\"')\neq({str(k): v for k, v in r.state.renames.items()}, {'a': 'b', 'b': 'c'})")
# ------------------------------------------------------------------ C12
bug("c12-tweaks-last", "C12", [(T, "            m for m in self.modified if m.filename.lower() == file\n        ]", "            m\n            for m in {\n                (m.section, m.setting): m for m in self.modified if m.filename.lower() == file\n            }.values()\n        ]")],
    "a setting edited twice", "only the last edit of a setting is among the tweaks of the file",
    "r = run('EditINI(\"a\", \"s\", \"x\", 1)\\nEditINI(\"a\", \"s\", \"x\", 2)')\neq([t.value for t in r.state.tweaks.tweaks('a')], [1, 2])")
# ------------------------------------------------------------------ C13
bug("c13-end-frees", "C13", [(C, "        if self._index == len(self._values):\n            return self._factory.copy_parent(self)", "        if self._index == len(self._values):\n            self._values = []\n            return self._factory.copy_parent(self)")],
    "executing again the last context of a For", "a For which has ended cannot be executed again",
    UNTIL + """
r = Run()
c = until(r.make_top_level_context('For i in "ab"\\nEndFor'), "WizardForLoopContext")
while True:
    n = c.exec()
    if n.parent is n or type(n).__name__ == "WizardBodyContext" and n.parent.parent is n.parent:
        break
    c = n
eq(type(c.exec()), type(n))
""")
# ------------------------------------------------------------------ C16
bug("c16-alias", "C16", [(G, "    SELECT_MISSING_PLUGIN = auto()", "    SELECT_MISSING_PLUGIN = SELECT_MISSING_SUBPACKAGE")],
    "different severities for missing plugins and missing subpackages", "the two issues have one severity",
    """
r = Run()
r.set_severity(Issue.SELECT_MISSING_SUBPACKAGE, Severity.ALLOW)
r.set_severity(Issue.SELECT_MISSING_PLUGIN, Severity.ERROR)
r.run('SelectSubPackage "x"\\na = 1')
eq(r.err, None)
""")
bug("c16-shared", "C16", [(G, "class SeverityContext:\n    _default_severity: Severity\n    _context: MutableMapping[Issue, Severity]\n", "class SeverityContext:\n    _default_severity: Severity\n    _context: MutableMapping[Issue, Severity] = {}\n"), (G, "        self._context = {}\n", "")],
    "severities set on one runner, and another runner", "the severities set on a runner are those of all runners",
    """
r = Run()
r.set_severity(Issue.USAGE_OF_NOTSET_VARIABLES, Severity.ERROR)
r = Run()
r.run('a = b')
eq(r.err, None)
""")
# ------------------------------------------------------------------ C18
0 and bug("c18-default-set", "C18", [(Y, "                (wizardParser.CaseStmtContext, wizardParser.DefaultStmtContext),", "                (wizardParser.CaseStmtContext,),")],
    "a broken line in a Default which is not executed", "a broken line in a Default breaks what follows",
    "r = run('SelectOne \"d\", \"a\",\"\",\"\", \"b\",\"\",\"\"\\nCase \"a\"\\nx = 1\\nBreak\\nDefault\\nx = = 2\\nBreak\\nEndSelect\\ny = 3')\neq((r.err, r.vars), (None, {'x': 1, 'y': 3}))")
0 and bug("c18-else-set", "C18", [(Y, "                recoverSet.addOne(wizardLexer.Else)\n", "")],
    "a broken line in the first block of an If which has an Else", "the Else is lost",
    "r = run('If False\\nx = = 2\\nElse\\ny = 1\\nEndIf')\neq((r.err, r.vars), (None, {'y': 1}))")
0 and bug("c18-select-set", "C18", [(Y, "                recoverSet.addOne(wizardLexer.EndSelect)\n", "                pass\n")],
    "a broken choice in a block which is not executed", "what follows the choice is lost",
    "r = run('If False\\nSelectOne \"d\", \"a\",,\"\"\\nCase \"a\"\\nBreak\\nEndSelect\\nEndIf\\ny = 1')\neq((r.err, r.vars), (None, {'y': 1}))")
# ------------------------------------------------------------------ C22
bug("c22-backslash", "C22", [(V, "        return (Plugin(Path(file).name) for file in self.files if self.is_plugin(file))", "        return (\n            Plugin(Path(file.replace(\"\\\\\", \"/\")).name)\n            for file in self.files\n            if self.is_plugin(file)\n        )")],
    "a file with a backslash in its name", "the name of such a plugin is cut",
    "eq([str(p) for p in Sub('A', ['a\\\\b.esp']).plugins()], ['a\\\\b.esp'])")
# ------------------------------------------------------------------ C23
bug("c23-none", "C23", [(M, "        if item in self._variables:\n            return self._variables[item]\n", "        if self._variables.get(item) is not None:\n            return self._variables[item]\n")],
    "a key set to None", "a key set to None has the value of the layer below, or none",
    "from wizard.utils.mappings import StackMutableMapping\na = StackMutableMapping()\na['k'] = 1\nb = StackMutableMapping(a)\nb['k'] = None\neq(b['k'], None)")
# ------------------------------------------------------------------ C24
0 and bug("c24-exact-target", "C24", [(P, "        while not isinstance(context, stargets + (WizardTerminationContext,)):", "        while type(context) not in stargets + (WizardTerminationContext,):")],
    "exec_until() with a base class as target", "contexts of derived classes are missed",
    """
from wizard.contexts import WizardSelectContext, WizardInterpreterContext
r = Run()
c = r.exec_until(r.make_top_level_context('SelectOne "d", "a","",""\\nCase "a"\\nBreak\\nEndSelect'), [WizardSelectContext])
eq(type(c).__name__, "WizardSelectOneContext")
""")
0 and bug("c24-select-empty", "C24", [(C, "        copy._selected = list(options)\n", "        copy._selected = list(options) or self._selected\n")],
    "select([]) on a SelectMany with defaults", "selecting nothing selects the defaults",
    "eq(run('SelectMany \"d\", \"|a\",\"\",\"\"\\nCase \"a\"\\nx = 1\\nBreak\\nEndSelect', many=[[]]).vars, {})")
# ------------------------------------------------------------------ C26
bug("c26-optional-type", "C26", [(F, "                tp = cast(type, arg.t)  # type: ignore\n", "                tp = object\n")],
    "a wrapped function called with an optional argument of a wrong type", "the types of optional arguments are not checked",
    "r = run('a = GetPluginLoadOrder(\"x\", \"y\")')\neq(type(r.err).__name__, 'WizardTypeError')")
bug("c26-termination", "C26", [(C, "class WizardReturnContext(\n    WizardInterpreterContext[ContextState, wizardParser.ReturnContext]\n):\n    \"\"\"\n    Special context that is returned when a 'Return' instruction is encountered.\n    \"\"\"\n\n    def exec_(self) -> WizardTerminationContext[ContextState]:\n        return self._factory.make_termination_context(self)", "class WizardReturnContext(\n    WizardInterpreterContext[ContextState, wizardParser.ReturnContext]\n):\n    \"\"\"\n    Special context that is returned when a 'Return' instruction is encountered.\n    \"\"\"\n\n    def exec_(self) -> WizardTerminationContext[ContextState]:\n        return WizardTerminationContext(self._factory, self.context, self)")],
    "a factory which makes its own termination contexts, and a Return", "the termination of a Return is not made by the factory",
    HOST + """
class T(WizardTerminationContext): pass
class Fac(WizardInterpreterContextFactory):
    def make_termination_context(self, parent):
        return T(self, parent.context, parent)
s = SeverityContext()
i = WizardInterpreter(Fac(WizardExpressionVisitor(SubPackages(), {}, s), WizardKeywordVisitor(s), s))
eq(type(i.exec_until(i.make_top_level_context('Return', WizardInterpreterState()), [])), T)
""")
# ------------------------------------------------------------------ C27
bug("c27-ge-nan", "C27", [(V, "            return Value(self._value >= other._value)\n        if isinstance(self._value, str)", "            return Value(not self._value < other._value)\n        if isinstance(self._value, str)")],
    "a comparison with a float which is not a number", "1 >= nan is True",
    "eq((Value(1) >= Value(float('nan'))).value, False)")
bug("c27-eq-same", "C27", [(V, "        return Value(self._value == other._value)\n", "        return Value(self is other or self._value == other._value)\n")],
    "a value which is not a number compared with itself", "nan == nan is True",
    "v = Value(float('nan'))\neq(v.equals(v).value, False)")
bug("c27-ne-same", "C27", [(V, "        return Value(self._value != other._value)\n", "        return Value(self._type != other._type or self._value != other._value)\n")],
    "an integer which differs from a float by its type only", "1 != 1.0 is True",
    "eq(Value(1).not_equals(Value(1.0)).value, False)")
