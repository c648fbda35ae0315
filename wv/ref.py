"""
Reference interpreter for Wizard programs given as lang.py trees.

It is a direct structured interpreter (host exceptions for control flow), written
from the documented semantics, and shares no code with the code under test. It
predicts the status, the final state, the trace of calls to the manager, and the
class and position of the error if there is one.
"""

from .lang import N


class Sub:
    """A subpackage of the model."""

    def __init__(self, name, files):
        self.name = name
        self.files = list(files)

    def __repr__(self):
        return f"Sub({self.name})"


class SubsList:
    pass


SUBS = SubsList()


class VoidT:
    def __repr__(self):
        return "Void"


VOID = VoidT()

# Class of the errors which are not specific to Wizard scripts (division by zero,
# int('x')...): any exception but an internal one will do.
HOST = "HostError"


class RefError(Exception):
    def __init__(self, cls, node, name=None, **extra):
        Exception.__init__(self, cls)
        self.cls = cls
        self.node = node
        self.name = name
        self.extra = extra
        self.pr = None  # printer which knows the position of the node


class TooBig(Exception):
    """The program is out of the model's budget: discard it."""


class BreakEx(Exception):
    def __init__(self, node):
        self.node = node


class ContinueEx(Exception):
    def __init__(self, node):
        self.node = node


class ReturnEx(Exception):
    pass


class CancelEx(Exception):
    def __init__(self, message):
        self.message = message


class AbortEx(Exception):
    """abort() called by the manager."""


def typename(v):
    if v is VOID:
        return "void"
    if isinstance(v, bool):
        return "bool"
    if isinstance(v, int):
        return "integer"
    if isinstance(v, float):
        return "float"
    if isinstance(v, str):
        return "string"
    if isinstance(v, Sub):
        return "SubPackage"
    if v is SUBS:
        return "SubPackage[]"
    raise AssertionError(v)


def isnum(v):
    return isinstance(v, (int, float))


METHODS = ["str", "int", "float", "len", "startswith", "endswith", "lower", "find", "rfind"]
MANAGER = {
    "CompareGameVersion": ("compareGameVersion", 1),
    "CompareSEVersion": ("compareSEVersion", 1),
    "CompareGEVersion": ("compareGEVersion", 1),
    "CompareWBVersion": ("compareWBVersion", 1),
    "GetPluginStatus": ("getPluginStatus", 1),
    "GetEspmStatus": ("getPluginStatus", 1),
    "GetFilename": ("getFilename", 1),
    "GetFolder": ("getFolder", 1),
}
ALIASES = {
    "ResetAllEspmNames": "ResetAllPluginNames",
    "SelectAllEspms": "SelectAllPlugins",
    "DeSelectAllEspms": "DeSelectAllPlugins",
    "ResetEspmName": "ResetPluginName",
    "DeSelectEspm": "DeSelectPlugin",
    "SelectEspm": "SelectPlugin",
    "RenameEspm": "RenamePlugin",
}
KWARITY = {
    "DeSelectAll": (0, 0),
    "DeSelectAllPlugins": (0, 0),
    "DeSelectPlugin": (1, 1),
    "DeSelectSubPackage": (1, 1),
    "Note": (1, 1),
    "RenamePlugin": (2, 2),
    "RequireVersions": (1, 4),
    "ResetAllPluginNames": (0, 0),
    "ResetPluginName": (1, 1),
    "SelectAll": (0, 0),
    "SelectAllPlugins": (0, 0),
    "SelectPlugin": (1, 1),
    "SelectSubPackage": (1, 1),
}


class State:
    __slots__ = ("vars", "subs", "plugins", "renames", "notes", "disabled", "modified")

    def __init__(self):
        self.vars = {}
        self.subs = []  # Sub
        self.plugins = []  # names
        self.renames = {}  # casefold -> (name, new)
        self.notes = []
        self.disabled = []
        self.modified = []

    def copy(self):
        s = State()
        for a in self.__slots__:
            v = getattr(self, a)
            setattr(s, a, v.copy())
        return s


def is_plugin(f):
    return f.endswith((".esp", ".esm", ".esl"))


def basename(f):
    return f.rsplit("/", 1)[-1]


class Ref:
    """
    subs: list of Sub. oracle: object with answer(kind, *args), which also records
    the events, and may raise AbortEx. severities: dict issue -> 'allow' | 'warn' |
    'error', with the default under None.
    """

    def __init__(self, subs, oracle, severities=None, budget=4000):
        self.subs = subs
        self.oracle = oracle
        self.sev = severities or {None: "warn"}
        self.budget = budget
        self.steps = 0
        self.pr = None
        self.nholes = 0
        self.depth = 0
        self.maxdepth = 0
        self.cov = set()
        self.allplugins = []
        for s in subs:
            for f in s.files:
                if is_plugin(f):
                    n = basename(f)
                    if n.casefold() not in (p.casefold() for p in self.allplugins):
                        self.allplugins.append(n)

    # ------------------------------------------------------------ run
    def run(self, body, pr=None, state=None):
        """Returns (status, state, error or None, message)"""
        self.pr = pr
        self.st = state or State()
        self.snap = self.st.copy()
        try:
            try:
                self.body(body)
            except (BreakEx, ContinueEx) as ex:
                # Handled where the statement is (loopdepth), never here.
                raise AssertionError(ex)
            except ReturnEx:
                self.oracle.event("complete")
                return ("RETURN", self.st, None)
            except CancelEx as ex:
                self.message = ex.message
                self.oracle.event("cancel")
                return ("CANCEL", self.st, None)
            self.oracle.event("complete")
            return ("COMPLETE", self.st, None)
        except AbortEx:
            self.oracle.event("cancel")
            return ("CANCEL", self.snap, None)
        except RefError as ex:
            self.oracle.event("error", ex.cls)
            return ("ERROR", self.snap, ex)

    def tick(self):
        self.steps += 1
        if self.steps > self.budget:
            raise TooBig("steps")

    def step(self):
        """A step starts here: if it fails, its effects are dropped."""
        self.tick()
        self.snap = self.st.copy()

    def fail(self, cls, node, name=None, **extra):
        ex = RefError(cls, node, name, **extra)
        ex.pr = self.pr
        raise ex

    def issue(self, issue, node, cls, name=None):
        s = self.sev.get(issue, self.sev[None])
        self.cov.add(("issue", issue, s))
        if s == "error":
            self.fail(cls, node, name)
        if s == "warn":
            self.oracle.event("warning", issue, name)

    # ------------------------------------------------------------ statements
    inloop = ()  # kinds of the enclosing constructs: 'loop' | 'case'

    def body(self, stmts):
        self.depth += 1
        self.maxdepth = max(self.maxdepth, self.depth)
        try:
            for s in stmts:
                self.step()
                self.cov.add(s.k)
                getattr(self, "s_" + s.k)(s)
        finally:
            self.depth -= 1

    def inside(self, kind, stmts):
        old = self.inloop
        self.inloop = old + (kind,)
        try:
            self.body(stmts)
        finally:
            self.inloop = old

    def setvar(self, n, v):
        if isinstance(v, int) and v.bit_length() > 3000:
            raise TooBig("int")
        if isinstance(v, str) and len(v) > 5000:
            raise TooBig("str")
        self.st.vars[n] = v

    def s_assign(self, s):
        self.setvar(s.n, self.ev(s.e))

    def s_compound(self, s):
        v = self.ev(s.e)
        if s.n not in self.st.vars:
            self.fail("WizardNameError", s, s.n)
        self.setvar(s.n, self.binop(s.op[:-1], self.st.vars[s.n], v, s))

    def s_expr(self, s):
        self.ev(s.e)

    def s_if(self, s):
        if truth(self.ev(s.c)):
            return self.body(s.body)
        for c, b in s.elifs:
            if truth(self.ev(c)):
                self.cov.add("elif")
                return self.body(b)
        if s.els is not None:
            self.cov.add("else")
            self.body(s.els)

    def s_while(self, s):
        while True:
            self.step()
            if not truth(self.ev(s.c)):
                break
            try:
                self.inside("loop", s.body)
            except BreakEx:
                self.cov.add("while-break")
                break
            except ContinueEx:
                self.cov.add("while-continue")

    def loop(self, s, values):
        for v in values:
            self.step()
            self.setvar(s.n, v)
            try:
                self.inside("loop", s.body)
            except BreakEx:
                self.cov.add("for-break")
                break
            except ContinueEx:
                self.cov.add("for-continue")
        self.step()

    def typed(self, e, t):
        v = self.ev(e)
        # bool values are integers
        if not isinstance(v, t):
            self.fail("WizardTypeError", ("out", e), types=("integer" if t is int else "string", typename(v)))
        return v

    def s_forrange(self, s):
        a = self.typed(s.a, int)
        b = self.typed(s.b, int)
        by = self.typed(s.by, int) if s.by is not None else 1
        if by == 0:
            self.fail(HOST, s)
        if abs(b - a) // abs(by) > self.budget:
            raise TooBig("range")
        vals = []
        i = int(a)
        while (i <= b) if by > 0 else (i >= b):
            vals.append(i)
            i += by
        self.cov.add(("for", "up" if by > 0 else "down", min(len(vals), 2)))
        self.loop(s, vals)

    def s_forin(self, s):
        v = self.ev(s.e)
        if isinstance(v, Sub):
            vals = list(v.files)
        elif v is SUBS:
            vals = list(self.subs)
        elif isinstance(v, str):
            vals = list(v)
        else:
            # reported on the header, which starts at 'in'
            self.fail("WizardTypeError", ("hdr", s))
        self.cov.add(("forin", typename(v), min(len(vals), 2)))
        self.loop(s, vals)

    def s_break(self, s):
        if not self.inloop:
            self.fail("WizardParseError", s)
        raise BreakEx(s)

    def s_continue(self, s):
        if "loop" not in self.inloop:
            self.fail("WizardParseError", s)
        raise ContinueEx(s)

    def s_return(self, s):
        raise ReturnEx()

    def s_cancel(self, s):
        m = None
        if s.e is not None:
            m = self.typed(s.e, str)
        self.step()
        raise CancelEx(m)

    def s_raw(self, s):
        s.effect(self)

    def s_exec(self, s):
        # The text is computed first, holes included:
        if s._arg is not None:
            self.tick()
            v = self.typed(s._arg, str)
        old = self.pr
        self.pr = s._sub if not walk_exec_holes(s.body) else None
        self.step()
        # Positions are relative to this text (see fail()).
        try:
            self.body(s.body)
        finally:
            self.pr = old

    def s_dyn(self, s):
        self.tick()
        i = self.ev(s.i)
        e = self.ev(s.e)
        self.step()
        self.step()
        self.setvar(s.prefix + str(i), e)

    def s_select(self, s):
        desc = self.typed(s.desc, str)
        opts, defs = [], []
        for n, d, i in s.opts:
            n, d, i = self.typed(n, str), self.typed(d, str), self.typed(i, str)
            isdef = n.startswith("|")
            if isdef:
                n = n[1:]
            o = (n, d, i if i.strip() else None)
            opts.append(o)
            if isdef:
                defs.append(len(opts) - 1)
        if not s.many:
            if not opts:
                # (where it is reported is not specified)
                self.fail("WizardIndexError", None)
            if not defs:
                defs = [0]
            if len(defs) > 1:
                self.issue("MULTIPLE_DEFAULTS_IN_SELECT_ON", s, "WizardTypeError")
            defs = defs[:1]
            self.step()
            chosen = self.oracle.ask("selectOne", desc, opts, opts[defs[0]])
            names = [chosen]
        else:
            self.step()
            names = self.oracle.ask("selectMany", desc, opts, [opts[i] for i in defs])
        self.cov.add(("answer", min(len(set(names)), 2)))
        self.cases(s, names)

    def cases(self, s, names):
        found = fall = False
        for c in s.cases:
            if found and not fall and not s.many:
                break
            self.step()
            label = self.typed(c.e, str)
            if fall or label in names:
                if fall and label not in names:
                    self.cov.add("fallthrough")
                found = True
                fall = True
                try:
                    self.inside("case", c.body)
                except BreakEx:
                    self.cov.add("case-break")
                    fall = False
        if s.default is not None and (fall or not found):
            self.step()
            self.cov.add(("default", fall))
            try:
                self.inside("case", s.default)
            except BreakEx:
                self.cov.add("default-break")
        self.step()

    # -- keywords
    def s_kw(self, s):
        name = ALIASES.get(s.n, s.n)
        self.cov.add(("kw", s.n))
        args = [self.ev(a) for a in s.args]
        lo, hi = KWARITY[name]
        if not lo <= len(args) <= hi:
            self.fail("WizardTypeError", s)
        self.kwnode = s
        if name == "RequireVersions":
            self.tick()
            args = [args[0]] + [a or None for a in args[1:]]
            args += [None] * (4 - len(args))
            self.step()
            self.oracle.event("requiresVersions", *args)
            return
        getattr(self, "k_" + name)(*args)

    def strs(self, *args):
        for a in args:
            if not isinstance(a, str):
                raise TooBig("non string name")

    def asname(self, a):
        """Subpackages can be used as names."""
        if isinstance(a, Sub):
            return a.name
        if not isinstance(a, str):
            raise TooBig("non string name")
        return a

    def k_DeSelectAll(self):
        self.st.subs.clear()
        self.st.plugins.clear()

    def k_DeSelectAllPlugins(self):
        self.st.plugins.clear()

    def k_DeSelectPlugin(self, name):
        name = self.asname(name).casefold()
        self.st.plugins = [p for p in self.st.plugins if p.casefold() != name]

    def k_DeSelectSubPackage(self, name):
        name = self.asname(name).casefold()
        self.st.subs = [p for p in self.st.subs if p.name.casefold() != name]

    def k_Note(self, v):
        if v is VOID or v is SUBS:
            raise TooBig("note of object")
        if not isinstance(v, str):
            self.issue("USAGE_OF_ANYTHING_IN_NOTE", self.kwnode, "WizardTypeError")
        self.st.notes.append(tostr(v))

    def k_RenamePlugin(self, a, b):
        a = self.asname(a)
        old = self.st.renames.get(a.casefold())
        self.st.renames[a.casefold()] = (old[0] if old else a, b)

    def k_ResetAllPluginNames(self):
        self.st.renames.clear()

    def k_ResetPluginName(self, a):
        self.st.renames.pop(self.asname(a).casefold(), None)

    def addplugins(self, sub):
        for f in sub.files:
            if is_plugin(f):
                self.addplugin(basename(f))

    def addplugin(self, n):
        if n.casefold() not in (p.casefold() for p in self.st.plugins):
            self.st.plugins.append(n)

    def k_SelectAll(self):
        self.st.subs = []
        for s in self.subs:
            self.st.subs.append(s)
        self.k_SelectAllPlugins()

    def k_SelectAllPlugins(self):
        self.st.plugins = []
        for s in self.st.subs:
            self.addplugins(s)

    def k_SelectPlugin(self, a):
        name = self.asname(a)
        for p in self.allplugins:
            if p.casefold() == name.casefold():
                return self.addplugin(p)
        self.issue("SELECT_MISSING_PLUGIN", self.kwnode, "WizardMissingPluginError", name)

    def k_SelectSubPackage(self, a):
        name = self.asname(a)
        for s in self.subs:
            if s.name.casefold() == name.casefold():
                if s.name.casefold() not in (x.name.casefold() for x in self.st.subs):
                    self.st.subs.append(s)
                self.addplugins(s)
                return
        self.issue(
            "SELECT_MISSING_SUBPACKAGE", self.kwnode, "WizardMissingPackageError", name
        )

    # ------------------------------------------------------------ expressions
    def ev(self, e):
        self.steps += 0.05
        if self.steps > self.budget:
            raise TooBig("steps")
        v = getattr(self, "x_" + e.k)(e)
        if isinstance(v, int) and v.bit_length() > 3000:
            raise TooBig("int")
        if isinstance(v, str) and len(v) > 5000:
            raise TooBig("str")
        return v

    def x_int(self, e):
        return e.v

    def x_dec(self, e):
        return float(e.a + "." + e.b)

    def x_str(self, e):
        return e.v

    def x_bool(self, e):
        return e.v

    def x_subs(self, e):
        return SUBS

    def x_var(self, e):
        if e.n not in self.st.vars:
            self.issue("USAGE_OF_NOTSET_VARIABLES", e, "WizardNameError", e.n)
            return 0
        return self.st.vars[e.n]

    def x_par(self, e):
        return self.ev(e.e)

    def x_hole(self, e):
        if not isinstance(e._evaluated, int):
            raise TooBig("text computed from something else than an integer")
        return e._evaluated

    def x_neg(self, e):
        v = self.ev(e.e)
        if not isnum(v) or isinstance(v, bool):
            self.fail("WizardTypeError", e)
        return -v

    def x_not(self, e):
        return not truth(self.ev(e.e))

    def x_bin(self, e):
        l = self.ev(e.l)
        r = self.ev(e.r)
        if e.ci:
            if not isinstance(l, str) or not isinstance(r, str):
                self.fail("WizardTypeError", e)
            l, r = l.lower(), r.lower()
        return self.binop(e.op, l, r, e)

    def binop(self, op, l, r, node):
        self.cov.add(("op", op, typename(l), typename(r)))
        if op in ("and", "or"):
            l, r = truth(l), truth(r)
            return (l and r) if op == "and" else (l or r)
        if op in ("==", "!="):
            if isinstance(r, Sub) and not isinstance(l, Sub):
                l, r = r, l
            if isinstance(l, Sub):
                if isinstance(r, Sub):
                    r = r.name
                if not isinstance(r, str):
                    self.fail("WizardTypeError", node)
                eq = l.name.casefold() == r.casefold()
            elif l is SUBS or r is SUBS or l is VOID or r is VOID:
                raise TooBig("comparison of objects")
            else:
                eq = l == r
            return eq if op == "==" else not eq
        if op in ("<", "<=", ">", ">="):
            if not (isnum(l) and isnum(r)) and not (
                isinstance(l, str) and isinstance(r, str)
            ):
                self.fail("WizardTypeError", node)
            return {"<": l < r, "<=": l <= r, ">": l > r, ">=": l >= r}[op]
        if op == "+" and isinstance(l, str) and isinstance(r, str):
            return l + r
        if not isnum(l) or not isnum(r):
            self.fail("WizardTypeError", node)
        try:
            if op == "+":
                return l + r
            if op == "-":
                return l - r
            if op == "*":
                return l * r
            if op == "/":
                return l / r
            if op == "%":
                return l % r
            if op == "^":
                if isinstance(l, int) and isinstance(r, int):
                    if abs(int(r)) * abs(int(l)).bit_length() > 3000:
                        raise TooBig("power")
                v = l**r
                if isinstance(v, complex):
                    self.fail(HOST, node)
                return v
        except (ZeroDivisionError, OverflowError):
            self.fail(HOST, node)
        raise AssertionError(op)

    def x_in(self, e):
        # The operands are not evaluated in a given order
        r = self.ev(e.r)
        l = self.ev(e.l)
        self.cov.add(("in", typename(l), typename(r)))
        if not isinstance(r, Sub) and r is not SUBS:
            self.fail("WizardTypeError", e)
        if not isinstance(l, (str, Sub)):
            self.fail("WizardTypeError", e)
        if isinstance(l, Sub):
            l = l.name
        items = r.files if isinstance(r, Sub) else [s.name for s in self.subs]
        if e.ci:
            return l.lower() in [i.lower() for i in items]
        return l in items

    def x_idx(self, e):
        v = self.ev(e.e)
        i = self.ev(e.i)
        if not isinstance(v, (str, Sub)) and v is not SUBS:
            self.fail("WizardTypeError", e)
        if not isinstance(i, int):
            self.fail("WizardTypeError", e)
        seq = v.name if isinstance(v, Sub) else self.subs if v is SUBS else v
        if not -len(seq) <= i < len(seq):
            self.fail("WizardIndexError", e, index=i)
        return seq[i]

    def x_sl(self, e):
        v = self.ev(e.e)
        parts = [None if p is None else self.ev(p) for p in (e.a, e.b, e.c)]
        if not isinstance(v, str):
            self.fail("WizardTypeError", e)
        for p in parts:
            if p is not None and not isinstance(p, int):
                self.fail("WizardTypeError", e)
        if parts[2] == 0 and parts[2] is not None:
            self.fail(HOST, e)
        return slice_(v, *parts)

    def x_incdec(self, e):
        if e.n not in self.st.vars:
            self.fail("WizardNameError", e, e.n)
        v = self.st.vars[e.n]
        v = self.binop("+", v, 1 if e.op == "++" else -1, e)
        self.setvar(e.n, v)
        return v

    def x_meth(self, e):
        v = self.ev(e.e)
        t = typename(v)
        if not (t == "string" and e.n in METHODS) and not (
            t in ("integer", "float", "bool") and e.n == "str"
        ):
            self.fail("WizardNameError", e, t + "." + e.n)
        args = [v] + [self.ev(a) for a in e.args]
        return self.basic(e, e.n, args)

    def x_call(self, e):
        n = e.n
        if n in ("Exec", "EndExec"):
            self.fail("WizardNameError", e, n)
        known = (
            n in METHODS
            or n in MANAGER
            or n in ("GetPluginLoadOrder", "DataFileExists", "DisableINILine", "EditINI")
            or n in self.custom
        )
        if not known:
            self.fail("WizardNameError", e, n)
        args = [self.ev(a) for a in e.args]
        self.cov.add(("fn", n, len(args)))
        if n in self.custom:
            return self.custom[n](self, e, args)
        if n in METHODS:
            v = self.basic(e, n, args)
            if e.__dict__.get("_holeof") is not None:
                e._holeof._evaluated = args[0]
            return v
        if n in MANAGER:
            m, c = MANAGER[n]
            if len(args) != c or not all(isinstance(a, str) for a in args):
                self.fail("WizardTypeError", e)
            return self.oracle.ask(m, *args)
        if n == "GetPluginLoadOrder":
            if not 1 <= len(args) <= 2:
                self.fail("WizardTypeError", e)
            if not isinstance(args[0], str):
                self.fail("WizardTypeError", e)
            if len(args) == 2 and not isinstance(args[1], int):
                self.fail("WizardTypeError", e)
            return self.oracle.ask("getPluginLoadOrder", *args)
        if n == "DataFileExists":
            if not args or not all(isinstance(a, str) for a in args):
                self.fail("WizardTypeError", e)
            return self.oracle.ask("dataFileExists", *args)
        if n == "DisableINILine":
            if len(args) != 3:
                self.fail("WizardTypeError", e)
            self.st.disabled.append(tuple(args))
            return VOID
        if n == "EditINI":
            if not 4 <= len(args) <= 5:
                self.fail("WizardTypeError", e)
            self.st.modified.append(tuple(args) if len(args) == 5 else tuple(args) + ("",))
            return VOID

    custom = {}

    def basic(self, e, n, args):
        arity = {
            "str": (1, 1),
            "int": (1, 1),
            "float": (1, 1),
            "len": (1, 1),
            "lower": (1, 1),
            "startswith": (1, 999),
            "endswith": (1, 999),
            "find": (2, 4),
            "rfind": (2, 4),
        }[n]
        if not arity[0] <= len(args) <= arity[1]:
            self.fail("WizardTypeError", e)
        v = args[0]
        if n == "str":
            if v is VOID or v is SUBS:
                raise TooBig("str of object")
            return tostr(v)
        if n in ("int", "float"):
            t = int if n == "int" else float
            if v is VOID or v is SUBS or isinstance(v, Sub):
                return t(0)
            try:
                return t(v)
            except (ValueError, OverflowError):
                self.fail(HOST, e)
        if n == "len":
            return len(v) if isinstance(v, str) else 0
        if n == "lower":
            return v.lower() if isinstance(v, str) else v
        if n in ("startswith", "endswith"):
            if not isinstance(v, str):
                return False
            for a in args[1:]:
                if isinstance(a, str):
                    if n == "startswith" and v[: len(a)] == a:
                        return True
                    if n == "endswith" and (not a or v[-len(a) :] == a):
                        return True
            return False
        # find, rfind
        start = args[2] if len(args) > 2 else 0
        end = args[3] if len(args) > 3 else -1
        if (
            not isinstance(v, str)
            or not isinstance(args[1], str)
            or not isinstance(start, int)
            or not isinstance(end, int)
        ):
            return -1
        if end == -1:
            end = len(v)
        start, end, _ = slice(start, end).indices(len(v))
        sub = args[1]
        if start > len(v) or (len(args) > 2 and args[2] > len(v)):
            return -1
        r = range(start, end - len(sub) + 1)
        for i in r if n == "find" else reversed(r):
            if v[i : i + len(sub)] == sub:
                return i
        return -1


def walk_exec_holes(body):
    from .lang import walk

    return [n for n in walk(body) if n.k == "hole"]


def truth(v):
    if v is VOID:
        return True
    if isinstance(v, Sub):
        return True
    if v is SUBS:
        raise TooBig("truth of object")
    return bool(v)


def tostr(v):
    if isinstance(v, Sub):
        return v.name
    return str(v)


def slice_(v, a, b, c):
    """v[a:b:c] by hand"""
    n = len(v)
    step = 1 if c is None else int(c)
    if step > 0:
        lo, hi = 0, n
        a = lo if a is None else a
        b = hi if b is None else b
    else:
        lo, hi = -1, n - 1
        a = hi if a is None else (a + n if a < 0 else a)
        a = max(a, lo)
        b = lo if b is None else (b + n if b < 0 else b)
        b = max(b, lo)
        a, b = min(a, hi), min(b, hi)
        out = []
        i = a
        while i > b:
            out.append(v[i])
            i += step
        return "".join(out)
    if a < 0:
        a += n
    if b < 0:
        b += n
    a, b = min(max(a, 0), n), min(max(b, 0), n)
    out = []
    i = a
    while i < b:
        out.append(v[i])
        i += step
    return "".join(out)
