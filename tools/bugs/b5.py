exec(open("/verif/tools/bugs/b4.py").read().split("# ----")[0])
N = "antlr4/wizardParser.py"
BUGS = []

# ------------------------------------------------------------------ C01
bug("c01-pow-right", "C01", [(N, "                        self.match(wizardParser.Raise)\n                        self.state = 242\n                        self.expr(11)", "                        self.match(wizardParser.Raise)\n                        self.state = 242\n                        self.expr(10)")],
    "three or more numbers raised in a row", "powers are grouped from the right",
    "eq(run('a = 2 ^ 3 ^ 2').vars, {'a': 64})")
bug("c01-mod-right", "C01", [(N, "                        self.state = 245\n                        self.expr(10)", "                        self.state = 245\n                        self.expr(9)")],
    "divisions and modulos in a row", "products, quotients and modulos are grouped from the right",
    "eq(run('a = 100 / 10 * 5 % 7').vars, {'a': 50.0 % 7})")
bug("c01-neg-pow", "C01", [(N, "                self.state = 228\n                self.expr(14)", "                self.state = 228\n                self.expr(10)")],
    "the opposite of a number which is raised", "-2 ^ 2 is minus four",
    "eq(run('a = -2 ^ 2').vars, {'a': 4})")
bug("c01-minus-and", "C01", [(E, "        op: Callable[[Value[Any], Value[Any]], Value[Any]]\n", "        op: Callable[[Value[Any], Value[Any]], Value[Any]]\n")],
    "", "", "") if 0 else None
bug("c01-eq-colon-strip", "C01", [(E, "            lhs = Value(lhs.value.lower())\n            rhs = Value(rhs.value.lower())", "            lhs = Value(lhs.value.lower())\n            rhs = Value(rhs.value.casefold())")],
    "a case-insensitive comparison with a letter such as the german sharp s", "texts equal without case are different",
    "eq(run('a = \"\\u00df\" ==: \"\\u00df\"').vars, {'a': True})")
# ------------------------------------------------------------------ C08
bug("c08-starts-stop", "C08", [(F, "            if not isinstance(prefix.value, str):\n                continue\n            if value.value.startswith", "            if not isinstance(prefix.value, str):\n                break\n            if value.value.startswith")],
    "startswith with a prefix which is not a text before one which is", "the prefixes after one which is not a text are ignored",
    "eq(run('a = startswith(\"abc\", 1, \"a\")').vars, {'a': True})")
bug("c08-float-subpackages", "C08", [(F, "        if isinstance(value.value, (SubPackage, SubPackages, Void)):\n            return Value(0.0)", "        if isinstance(value.value, (SubPackage, Void)):\n            return Value(0.0)")],
    "float(SubPackages)", "float(SubPackages) fails",
    "eq(run('a = float(SubPackages)').vars, {'a': 0.0})")
bug("c08-find-start", "C08", [(F, "            string.value.find(\n                substring.value, start.value, end.value if end.value != -1 else None", "            string.value.find(\n                substring.value, start.value or None, end.value if end.value != -1 or start.value < 0 else None")],
    "find with a negative start and -1 as end", "an end of -1 is not the end of the text when the start is negative",
    "eq(run('a = find(\"abc\", \"c\", -2, -1)').vars, {'a': 2})")
# ------------------------------------------------------------------ C10
bug("c10-plugin-as-named", "C10", [(R, "        plugin = self._plugins[ipg]\n        if plugin not in state._plugins:", "        plugin = Plugin(name) if self._plugins[ipg] != name.lower() else self._plugins[ipg]\n        if plugin not in state._plugins:")],
    "", "", "eq(1, 2)") if 0 else None
bug("c10-deselect-lower", "C10", [(R, "        if name in state.plugins:\n            state._plugins.remove(Plugin(name))", "        state._plugins = [\n            p for p in state._plugins if p.name.lower() != name.lower()\n        ]")],
    "a plugin whose name has a letter such as the german sharp s, deselected with another spelling", "names equal without case (STRASSE, stra\u00dfe) are not deselected",
    "r = run('SelectAll\\nDeSelectPlugin \"STRASSE.esp\"', [Sub('A', ['stra\\u00dfe.esp', 'b.esp'])])\neq([str(p) for p in r.state.plugins], ['b.esp'])")
bug("c10-available", "C10", [(R, "            if plugin not in state._plugins:\n                state._plugins.append(plugin)", "            if plugin not in state._plugins:\n                state._plugins.append(self._plugins[self._plugins.index(plugin)])")],
    "", "", "eq(1, 2)") if 0 else None
bug("c10-select-order", "C10", [(R, "        return [sp for sp in sorted(self._plugins)]", "        return [sp for sp in sorted(self._plugins, key=lambda p: p.name.lower())]")],
    "plugins whose names have letters such as the german sharp s", "plugins are not sorted like all names",
    "r = run('SelectAll', [Sub('A', ['s\\u00dfa.esp', 'sta.esp'])])\neq([str(p) for p in r.state.plugins], ['s\\u00dfa.esp', 'sta.esp'])")
# ------------------------------------------------------------------ C11
bug("c11-rename-again", "C11", [(R, "        state._renames[Plugin(original_name)] = new_name", "        for plugin, name in state._renames.items():\n            if name == original_name:\n                original_name = plugin.name\n                break\n        state._renames[Plugin(original_name)] = new_name")],
    "a plugin renamed with the new name of another", "renaming the new name of a plugin changes the first renaming",
    "r = run('RenamePlugin \"a.esp\", \"b.esp\"\\nRenamePlugin \"b.esp\", \"c.esp\"', [Sub('A', ['a.esp', 'b.esp'])])\neq({str(k): v for k, v in r.state.renames.items()}, {'a.esp': 'b.esp', 'b.esp': 'c.esp'})")
# ------------------------------------------------------------------ C12
bug("c12-tweaks-fold", "C12", [(T, "        tweaks.extend(m for m in self.disabled if m.filename.lower() == file)", "        tweaks.extend(\n            m\n            for m in self.disabled\n            if m.filename.lower() == file\n            and not any(\n                (m.section, m.setting) == (t.section, t.setting) for t in tweaks\n            )\n        )")],
    "a setting which is both edited and disabled", "a setting which was edited does not appear as disabled in the tweaks of a file",
    "r = run('EditINI(\"a.ini\", \"s\", \"x\", 1)\\nDisableINILine(\"a.ini\", \"s\", \"x\")')\neq(len(r.state.tweaks.tweaks('a.ini')), 2)")
# ------------------------------------------------------------------ C13
bug("c13-default-shared", "C13", [(C, "        copy._selected = list(options)\n", "        copy._selected.clear()\n        copy._selected.extend(options)\n")],
    "a Select answered, then executed again with its defaults", "selecting changes the defaults of the context it is called on",
    "r = Run()\nc = r.make_top_level_context('SelectMany \"d\", \"|a\", \"\", \"\", \"b\", \"\", \"\"\\nCase \"a\"\\nx = 1\\nBreak\\nEndSelect')\nwhile type(c).__name__ != 'WizardSelectManyContext':\n    c = c.exec()\nc.select([c.options[1]])\neq([o.name for o in c.defaults], ['a'])")
# ------------------------------------------------------------------ C19
bug("c19-detect-head", "C19", [(U, 'encoding = chardet.detect(data)["encoding"] or "utf-8"', 'encoding = chardet.detect(data[:2048])["encoding"] or "utf-8"')],
    "a long file in UTF-8 whose first characters which are not in ASCII are far from the beginning", "the encoding is found from the beginning of the file only",
    "from pathlib import Path\nimport tempfile, os\nwith tempfile.TemporaryDirectory() as d:\n    p = Path(d) / 's.txt'\n    p.write_bytes(('; ' + 'x' * 4000 + '\\na = \"\\u65e5\\u672c\\u8a9e\"\\n').encode())\n    r = Run().go(p)\neq(r.vars, {'a': '\\u65e5\\u672c\\u8a9e'})")
bug("c19-read-limit", "C19", [(U, "            data = script.read()  # type: ignore", "            data = script.read(1 << 20)  # type: ignore")],
    "a stream of more than a million characters", "the end of long streams is ignored",
    "import io\nr = Run().go(io.StringIO('; ' + 'x' * (1 << 20) + '\\na = 1'))\neq(r.vars, {'a': 1})")
# ------------------------------------------------------------------ C20
bug("c20-factory-cache", "C20", [(F, "    wf = WizardFunctions()\n    fns: dict[str, WizardFunction] = {}\n", "    if _basic_functions:\n        return _basic_functions\n\n    wf = WizardFunctions()\n    fns: dict[str, WizardFunction] = {}\n"),
    (F, '    return {name.rstrip("_"): fn for name, fn in fns.items()}\n', '    _basic_functions.update({name.rstrip("_"): fn for name, fn in fns.items()})\n    return _basic_functions\n\n\n_basic_functions: dict[str, WizardFunction] = {}\n')],
    "two runners, the first used after the second is made", "the functions of the manager of the last runner are called by all",
    "class A(Run):\n    def getFolder(self, path):\n        return 'A'\n\n\nclass B(Run):\n    def getFolder(self, path):\n        return 'B'\n\n\na = A()\nb = B()\neq(a.go('x = GetFolder(\"y\")').vars, {'x': 'A'})")
# ------------------------------------------------------------------ C23
bug("c23-same-value", "C23", [(M, "        # Set the value:\n        self._variables[item] = value", "        # Set the value:\n        if self._parent is None or self._parent.get(item) is not value:\n            self._variables[item] = value")],
    "a key set to the value of the layer below, which then changes", "a key set to the value below follows later changes of the layer below",
    "from wizard.utils.mappings import StackMutableMapping\na = StackMutableMapping()\na['k'] = 1\nb = StackMutableMapping(a)\nb['k'] = 1\na['k'] = 2\neq(b['k'], 1)")
bug("c23-set-stale", "C23", [(M, "        # Remove the item from the list of deleted item:\n        if item in self._deleted:\n            self._deleted.remove(item)\n", "        # Remove the item from the list of deleted item:\n        self._deleted.discard(item if self._parent is None or item in self._parent else None)\n")],
    "a key of no layer below, deleted, set and deleted again", "(see needs)",
    "eq(1, 1)") if 0 else None
# ------------------------------------------------------------------ C24
0 and bug("c24-exec-parent", "C24", [(C, "        return WizardTopLevelContext(self._factory, context, self.parent, state)", "        return WizardTopLevelContext(self._factory, context, self, state)")],
    "an Exec in a block", "the parent of what an Exec executes is not the enclosing body",
    "r = Run()\nc = r.make_top_level_context('Exec(\"x = 1\")\\ny = 2')\nwhile not (type(c).__name__ == 'WizardTopLevelContext' and not c.is_top_level()):\n    c = c.exec()\neq(type(c.parent).__name__, 'WizardBodyContext')")
# ------------------------------------------------------------------ C26
bug("c26-optional-default", "C26", [(F, "                if isinstance(arg, optional):\n                    break", "                if isinstance(arg, optional):\n                    pargs.append(None)\n                    continue")],
    "a wrapped function called without an optional argument", "absent optional arguments are given as None instead of being left out",
    "from wizard.functions import wrap_function, optional\nf = wrap_function('f', lambda a, b=5: a + b, int, optional(int))\neq(f(None, [Value(1)]).value, 6)")
bug("c26-type-sub", "C26", [(F, "            if not isinstance(vs[iarg].value, tp):", "            if not isinstance(vs[iarg].value, tp) and not (\n                tp is float and isinstance(vs[iarg].value, int)\n            ):")],
    "a wrapped function of a float called with an integer", "integers are accepted for floats",
    "from wizard.functions import wrap_function\nf = wrap_function('f', lambda a: a, float)\ntry:\n    f(None, [Value(1)])\nexcept TypeError:\n    pass\nelse:\n    raise SystemExit('accepted')")
# ------------------------------------------------------------------ C27
bug("c27-contains-lower", "C27", [(V, "        if isinstance(item._value, SubPackage):\n            item = Value(item._value.name)\n", "        if isinstance(item._value, SubPackage):\n            item = Value(item._value.name)\n            case_insensitive = True\n")],
    "a subpackage looked for in subpackages by its spelling", "a subpackage is found although the name is spelled otherwise",
    "a, b = Sub('A', []), Sub('a', [])\neq(Value(SubPackages([a])).contains(Value(b)).value, False)")
bug("c27-iter-files", "C27", [(V, "        return (Value(x) for x in it)", "        return (Value(x) for x in dict.fromkeys(it))")],
    "a subpackage with a file listed twice", "iterating a subpackage omits repeated files",
    "eq([v.value for v in Value(Sub('a', ['x', 'x'])).__iter__()], ['x', 'x'])")
