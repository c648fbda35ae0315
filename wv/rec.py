"""
Run programs on the real interpreter, through its public API only, and record
what can be observed from outside: calls to the manager, status, final state,
errors.
"""

import signal
import zlib

from . import env  # noqa: F401
from .ref import AbortEx, Sub, SUBS, VOID, VoidT

from wizard.contexts import WizardInterpreterContext
from wizard.errors import WizardError
from wizard.manager import SelectOption
from wizard.scriptrunner import WizardScriptRunner
from wizard.severity import Issue, Severity, SeverityContext
from wizard.value import SubPackage, SubPackages, Value, Void


class StepLimit(BaseException):
    """The interpreter takes many more steps than the program needs."""


class Hang(BaseException):
    """A single step takes an unreasonable amount of processor time."""


class Inconclusive(Exception):
    pass


# -------------------------------------------------------------- step accounting

_real_exec = WizardInterpreterContext.exec


class Monitor:
    """Observes every exec() of every context."""

    def __init__(self):
        self.reset()

    def reset(self, limit=None):
        self.steps = 0
        self.limit = limit
        self.before = None
        self.after = None


import threading

_tls = threading.local()


def monitor():
    m = getattr(_tls, "m", None)
    if m is None:
        m = _tls.m = Monitor()
    return m


def _exec(self):
    m = monitor()
    m.steps += 1
    if m.limit is not None and m.steps > m.limit:
        raise StepLimit(m.steps)
    if m.before is not None:
        m.before(self)
    r = _real_exec(self)
    if m.after is not None:
        m.after(self, r)
    return r


WizardInterpreterContext.exec = _exec


class cpu_watchdog:
    """Raises Hang in the main thread after some seconds of processor time."""

    def __init__(self, seconds):
        self.seconds = seconds

    def __enter__(self):
        def handler(signum, frame):
            raise Hang(f"{self.seconds} s of processor time")

        self.old = signal.signal(signal.SIGPROF, handler)
        signal.setitimer(signal.ITIMER_PROF, self.seconds)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, self.old)


# ------------------------------------------------------------------ subpackages


class RealSub(SubPackage):
    def __init__(self, name, files):
        super().__init__(name)
        self._f = list(files)

    @property
    def files(self):
        return iter(self._f)


def real_subs(subs):
    return SubPackages([RealSub(s.name, s.files) for s in subs])


# ------------------------------------------------------------------------ oracle


class Oracle:
    """
    Plays the manager for both sides: records the events and gives the answers,
    which only depend on the seed and on the call (or also on the history).
    """

    def __init__(self, seed, history=False, aborts=()):
        self.seed = seed
        self.history = history
        self.events = []
        self.aborts = aborts  # indices of the events which abort

    def event(self, *ev):
        self.events.append(ev)

    def h(self, *key):
        if self.history:
            key += (sum(1 for e in self.events if e[0] not in ("warning",)),)
        return zlib.crc32(repr((self.seed,) + key).encode())

    def ask(self, kind, *args):
        self.events.append((kind,) + args)
        if len(self.events) - 1 in self.aborts:
            raise AbortEx()
        return self.answer(kind, *args)

    def answer(self, kind, *args):
        h = self.h(kind, *args)
        if kind.startswith("compare"):
            return h % 3 - 1 if h % 13 else (-2, 2, 7, -100, 2**40)[h // 13 % 5]
        if kind == "getPluginStatus":
            return h % 5 - 1 if h % 13 else (-2, 17, 2**33)[h // 13 % 3]
        if kind == "getPluginLoadOrder":
            return h % 300 if h % 3 else (args[1] if len(args) > 1 else -1)
        if kind == "dataFileExists":
            return bool(h & 1)
        if kind in ("getFilename", "getFolder"):
            if h % 11 == 0:
                return ("Data\\A b.esp", "É\U0001f600.esm", "|x", "a'b\"c", " ", "12", "İ")[h // 11 % 7]
            return "" if h % 5 == 0 else "r%d" % (h % 7)
        if kind == "selectOne":
            desc, opts, default = args
            r = h % (len(opts) + 1)
            return default[0] if r == len(opts) else opts[r][0]
        if kind == "selectMany":
            desc, opts, defs = args
            r = h % 4
            if r == 0:
                return [d[0] for d in defs]
            return [o[0] for i, o in enumerate(opts) if (h >> (4 + i % 20)) & 1]
        raise AssertionError(kind)


def opt(o):
    return (o.name, o.description, o.image)


class RecRunner(WizardScriptRunner):
    """The runner, with an oracle as manager."""

    def __init__(self, subs, oracle, fresh=0, raise_errors=False):
        self.oracle = oracle
        self.fresh = fresh
        self.errors = []
        self.problems = []
        super().__init__(subs)

    def ask(self, kind, *args):
        try:
            return self.oracle.ask(kind, *args)
        except AbortEx:
            self.abort()

    def compareGameVersion(self, version):
        return self.ask("compareGameVersion", version)

    def compareSEVersion(self, version):
        return self.ask("compareSEVersion", version)

    def compareGEVersion(self, version):
        return self.ask("compareGEVersion", version)

    def compareWBVersion(self, version):
        return self.ask("compareWBVersion", version)

    def dataFileExists(self, *filepaths):
        return self.ask("dataFileExists", *filepaths)

    def getPluginLoadOrder(self, filename, *fallback):
        return self.ask("getPluginLoadOrder", filename, *fallback)

    def getPluginStatus(self, filename):
        return self.ask("getPluginStatus", filename)

    def getFilename(self, path):
        return self.ask("getFilename", path)

    def getFolder(self, path):
        return self.ask("getFolder", path)

    def warning(self, text):
        self.oracle.event("warning", text)

    def error(self, exc):
        self.errors.append(exc)
        self.oracle.event("error", errclass(exc))

    def cancel(self):
        self.oracle.event("cancel")
        return True

    def complete(self):
        self.oracle.event("complete")
        return True

    def requiresVersions(self, game, se, ge, wb):
        self.oracle.event("requiresVersions", game, se, ge, wb)

    def selectOne(self, description, options, default):
        if not any(o is default for o in options) and default not in list(options):
            self.problems.append("default is not one of the options")
        name = self.ask(
            "selectOne", description, [opt(o) for o in options], opt(default)
        )
        for o in options:
            if o.name == name:
                if self.fresh == 2:
                    # an option of its own, of this name
                    return SelectOption(o.name, "(" + o.description, "x")
                if self.fresh:
                    return SelectOption(o.name, o.description, o.image)
                return o
        raise AssertionError("no such option")

    def selectMany(self, description, options, default=[]):
        names = self.ask(
            "selectMany",
            description,
            [opt(o) for o in options],
            [opt(o) for o in default],
        )
        res = [o for o in options if o.name in names]
        if self.fresh:
            res = [SelectOption(o.name, o.description, o.image) for o in reversed(res)]
            if self.fresh == 2:
                res = tuple(SelectOption(o.name, "(" + o.description, "x") for o in res)
        return res


HOST_OK = (ValueError, ArithmeticError, UnicodeError)


def errclass(exc):
    if isinstance(exc, WizardError):
        return type(exc).__name__
    if isinstance(exc, HOST_OK):
        return "HostError"
    return "internal:" + type(exc).__name__


# ---------------------------------------------------------------------- snapshots


def val(v):
    """A comparable form of a value (type and value)."""
    if isinstance(v, Value):
        t = str(v.type)
        v = v.value
    else:
        t = None
    if isinstance(v, (Void, VoidT)):
        r = ("void",)
    elif isinstance(v, (SubPackage, Sub)):
        r = ("SubPackage", v.name)
    elif isinstance(v, SubPackages) or v is SUBS:
        r = ("SubPackage[]",)
    elif isinstance(v, bool):
        r = ("bool", v)
    elif isinstance(v, int):
        r = ("integer", v)
    elif isinstance(v, float):
        r = ("float", repr(v))
    elif isinstance(v, str):
        r = ("string", v)
    elif v is None:
        r = ("none",)
    else:
        r = ("other", type(v).__name__)
    if t is not None and t != r[0]:
        return ("WRONG-TYPE", t) + r
    return r


def real_state(st):
    d = {"vars": {n: val(v) for n, v in st.variables.items()}}
    if hasattr(st, "subpackages"):
        d["subs"] = [s.name for s in st.subpackages]
        d["plugins"] = [p.name for p in st.plugins]
        d["renames"] = sorted(
            (p.name.casefold(), val(v)) for p, v in st.renames.items()
        )
        d["notes"] = [val(n) for n in st.notes]
        d["disabled"] = [
            tuple(val(x) for x in (t.filename, t.section, t.setting))
            for t in st.tweaks.disabled
        ]
        d["modified"] = [
            tuple(
                val(x) for x in (t.filename, t.section, t.setting, t.value, t.comment)
            )
            for t in st.tweaks.modified
        ]
    return d


def ref_state(st):
    key = str.casefold
    return {
        "vars": {n: val(v) for n, v in st.vars.items()},
        "subs": sorted((s.name for s in st.subs), key=key),
        "plugins": sorted(st.plugins, key=key),
        "renames": sorted((k, val(v[1])) for k, v in st.renames.items()),
        "notes": [val(n) for n in st.notes],
        "disabled": [tuple(val(x) for x in t) for t in st.disabled],
        "modified": [tuple(val(x) for x in t) for t in st.modified],
    }


def match_event(ref, real):
    """Does the real event match the one of the model?"""
    if ref[0] != real[0]:
        return False
    if ref[0] == "warning":
        return ref[2] is None or str(ref[2]) in real[1]
    if ref[0] == "error":
        return ref[1] == real[1]
    return exact(ref[1:], real[1:])


def exact(a, b):
    """Equality which distinguishes 1, 1.0 and True."""
    if type(a) is not type(b):
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            pass
        else:
            return val(a) == val(b) and val(a)[0] != "other"
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(exact(x, y) for x, y in zip(a, b))
    if isinstance(a, (Sub, VoidT)):
        return val(a) == val(b)
    return a == b or (a != a and b != b)


class Outcome:
    def __init__(self, status, state, error, events):
        self.status = status
        self.state = state
        self.error = error
        self.events = events


def run_real(script, subs, oracle, severities=None, limit=None, fresh=0, cpu=60, runner=None):
    """Run the script with run(). Returns an Outcome."""
    if runner is None:
        runner = RecRunner(real_subs(subs), oracle, fresh)
        set_severities(runner, severities)
    m = monitor()
    m.reset(limit)
    status, state, error = None, None, None
    try:
        with cpu_watchdog(cpu):
            st, state = runner.run(script)
        status = st.name
        if runner.errors:
            error = runner.errors[-1]
    except StepLimit as ex:
        status = "STEPLIMIT"
    except Hang as ex:
        status = "HANG"
    except RecursionError as ex:
        status, error = "RAISED", ex
    except Exception as ex:
        status, error = "RAISED", ex
    finally:
        m.limit = None
    o = Outcome(status, real_state(state) if state is not None else None, error, oracle.events)
    o.runner = runner
    o.raw_state = state
    o.steps = m.steps
    return o


SEV = {"allow": Severity.ALLOW, "warn": Severity.WARNING, "error": Severity.ERROR}


def set_severities(ctx, severities):
    for k, v in (severities or {}).items():
        if k is None:
            ctx.set_default_severity(SEV[v])
        else:
            ctx.set_severity(Issue[k], SEV[v])


def diff_state(a, b, keys=None):
    """First difference between the expected (a) and observed (b) states."""
    for k in keys or a:
        if a[k] != b.get(k):
            if k == "vars":
                for n in sorted(set(a[k]) | set(b[k])):
                    if a[k].get(n) != b[k].get(n):
                        return f"variable {n}: expected {a[k].get(n)}, got {b[k].get(n)}"
            return f"{k}: expected {a[k]!r}, got {b.get(k)!r}"
    return None


def diff_events(ref, real):
    for i in range(max(len(ref), len(real))):
        a = ref[i] if i < len(ref) else None
        b = real[i] if i < len(real) else None
        if a is None or b is None or not match_event(a, b):
            return f"event {i}: expected {a!r}, got {b!r}"
    return None
