from ..gen import Gen, make_subs
from ..harness import Check, Violation
from ..lang import render
from ..model import compare, safe
from ..rec import Oracle, Outcome, RecRunner, StepLimit, cpu_watchdog, errclass, monitor, real_state, real_subs, ref_state, diff_state
from ..ref import AbortEx, Ref, RefError


class Injected(Exception):
    pass


class InjectedRuntime(RuntimeError):
    pass


class InjectedKey(KeyError):
    pass


class InjectedValue(ValueError):
    pass


class InjectedOS(OSError):
    pass


class InjectedNotImplemented(NotImplementedError):
    pass


class Stop(BaseException):
    pass


KINDS = [Injected, InjectedRuntime, InjectedKey, InjectedValue, InjectedOS, InjectedNotImplemented, Stop]


class FaultOracle(Oracle):
    """Something happens during the call number `at`."""

    def __init__(self, seed, at, fault, model):
        super().__init__(seed, aborts=())
        self.at = at
        self.fault = fault  # None, 'abort' or an exception
        self.model = model
        self.hit = None

    def trip(self):
        if self.fault is None or len(self.events) - 1 != self.at:
            return
        if self.events[-1][0] in ("error", "cancel"):
            # those come after the end of the execution
            return
        self.hit = self.events[-1][0]
        if self.model:
            if self.fault == "abort":
                raise AbortEx()
            if isinstance(self.fault, Stop):
                raise self.fault
            raise RefError(errclass(self.fault), None)
        if self.fault == "abort":
            self.runner.abort()
        raise self.fault

    def event(self, *ev):
        self.events.append(ev)
        self.trip()

    def ask(self, kind, *args):
        self.events.append((kind,) + args)
        self.trip()
        return self.answer(kind, *args)


class Runner(RecRunner):
    """mode: what error() does"""

    mode = "return"
    other = None

    def error(self, exc):
        super().error(exc)
        if self.mode == "raise":
            raise exc
        if self.mode == "other":
            self.other = Injected("other")
            raise self.other
        if self.mode == "abort":
            self.abort()


class RaisingRunner(RecRunner):
    """error() is the default one"""

    def error(self, exc):
        self.errors.append(exc)
        self.oracle.event("error", errclass(exc))
        from wizard.manager import ManagerUserInterface

        return ManagerUserInterface.error(self, exc)


class C(Check):
    id = "C15"
    rule = (
        "random programs, with failing and aborting callbacks at random calls and error() which returns, raises again,"
        " raises something else, aborts or is the default one; non-trivial: a fault was injected or the program failed"
    )
    require = (
        "status COMPLETE", "status RETURN", "status CANCEL", "status ERROR", "status RAISED", "aborts", "faults", "error mode raise",
        "error mode other", "error mode abort", "error mode return", "error mode default", "stops", "abort from warning", "abort from selectOne",
        "abort from selectMany", "abort from requiresVersions", "abort from complete", "abort from getFilename", "fault in complete",
        "fault in selectOne", "fault in selectMany", "fault in requiresVersions", "fault in warning", "fault in dataFileExists", "late events",
    )

    def fixed_complete_false(self, ctx):
        """complete() or cancel() which return False: "continue" according to their documentation."""

        class R(RecRunner):
            n = 0

            def complete(self):
                self.n += 1
                return self.n > 1

            def cancel(self):
                self.n += 1
                return self.n > 1

        for script in ("x = 1", "Return", "Cancel 'm'"):
            o = Oracle(0)
            r = R(None, o)
            r.run(script)
            ctx.count("returned False")
            if any(isinstance(e, NotImplementedError) for e in r.errors):
                raise Violation(
                    f"C15: {script!r} with complete() or cancel() returning False ('False to continue') ends with NotImplementedError",
                    key="continue-after-termination", script=script,
                )

    def fixed_late(self, ctx):
        """What happens after thousands of calls, or of warnings."""
        n = 2500

        class R(RecRunner):
            calls = 0
            fault = None

            def getFolder(self, path):
                self.calls += 1
                if self.calls == n:
                    if self.fault is None:
                        self.abort()
                    if self.fault:
                        raise self.fault
                return path

        script = "i = 0\nWhile True\ni++\na = zz\nx = GetFolder(str(i))\nIf i == " + str(n + 50) + "\nReturn\nEndIf\nEndWhile"
        for fault, status, ends, last in (
            (None, "CANCEL", ["cancel"], n), (Injected("late"), "ERROR", ["error"], n), (InjectedRuntime("late"), "ERROR", ["error"], n), (0, "RETURN", ["complete"], n + 50),
        ):
            o = Oracle(0)
            r = R(None, o)
            r.fault = fault
            got, state = r.run(script)
            e = [x[0] for x in o.events]
            if (
                got.name != status or [x for x in e if x != "warning"] != ends or e.count("warning") != last or e[-1] != ends[0] or state.variables["i"] != last
                or (fault and r.errors != [fault]) or state.variables["x"] != str(last if status == "RETURN" else last - 1)
            ):
                raise Violation(
                    f"C15: a late event ({fault!r}) gives {got.name} with {[x for x in e if x != 'warning']}, {e.count('warning')} warnings, errors {r.errors!r}, expected {status}",
                    script=script, state=repr(real_state(state))[:1000],
                )
            ctx.count("late events")

    def case(self, ctx):
        r = ctx.rnd
        subs = make_subs(r)
        g = Gen(
            r, subs, mix=0.2, depth=2, manager=r.choice([0.1, 0.5]), effects=r.choice([0, 0.3]), kw=r.choice([1, 5]), ini=0.7, exec_=0.5,
            select=r.choice([1, 3]), while_=0.7, forrange=0.7, forin=0.7, expr=2, unset=r.choice([0, 0.1]),
            break_=1, continue_=1, errors=r.choice([0, 0, 0.03]), body=r.choice([2, 3, 5]), nest=3, total=r.choice([3, 5, 10, 20]), cancel=0.2,
            return_=0.2,
        )
        prog = g.program()
        script, pr = render(prog)
        seed = r.getrandbits(30)
        first = Oracle(seed)
        ref0 = Ref(subs, first)
        ref0.run(prog, pr)
        fault = None
        at = None
        x = r.random()
        if x < 0.35:
            fault = "abort"
        elif x < 0.75:
            fault = r.choice(KINDS)("injected %d" % r.randint(0, 9))
        if fault is not None:
            at = r.randrange(len(first.events)) if r.random() < 0.8 else len(first.events) - 1
        ro = FaultOracle(seed, at, fault, True)
        ref = Ref(subs, ro)
        stop = None
        try:
            res = ref.run(prog, pr)
        except Stop as ex:
            stop = ex
            res = None
        if res is not None and ro.hit == "complete":
            # nothing was being executed any more
            res = (res[0], ref.st, res[2])
        o = FaultOracle(seed, at, fault, False)
        mode = r.choice(["return", "return", "raise", "other", "abort", "default"])
        cls = RaisingRunner if mode == "default" else Runner
        runner = cls(real_subs(subs), o, r.choice([0, 1, 2]))
        runner.mode = mode
        o.runner = runner
        m = monitor()
        m.reset(500 + 30 * int(ref0.steps))
        raised = status = state = None
        try:
            with cpu_watchdog(60):
                st, state = runner.run(script)
            status = st.name
        except StepLimit:
            status = "STEPLIMIT"
        except (Exception, Stop) as ex:
            status, raised = "RAISED", ex
        finally:
            m.reset()
        last = real_state(runner.context().state)

        def fail(d):
            raise Violation(
                "C15: " + d, script=script, subpackages=[(s.name, s.files) for s in subs], seed=seed, fault=repr(fault), at=at, error_mode=mode,
                expected=ro.events, calls=o.events,
            )

        ctx.count("status " + str(status))
        if o.hit:
            ctx.count(("abort from " if fault == "abort" else "fault in ") + o.hit)
            ctx.count("aborts" if fault == "abort" else "faults")
        if stop is not None:
            ctx.count("stops")
            if raised is not fault:
                fail(f"an exception which is not an Exception has not been propagated: {status} {raised!r}")
            if any(e[0] in ("error", "cancel") for e in o.events):
                fail("error() or cancel() called for an exception which is not an Exception")
            ctx.nontrivial((script, seed, at))
            return
        err = runner.errors[-1] if runner.errors else None
        want = res
        events = list(ro.events)
        if res[0] == "ERROR":
            ctx.count("error mode " + mode)
            if len(runner.errors) != 1:
                fail(f"error() called {len(runner.errors)} times")
            if fault is not None and fault != "abort" and o.hit and err is not fault:
                fail(f"error() received {err!r} instead of the exception of the callback")
            if mode in ("raise", "default"):
                if raised is not err:
                    fail(f"error() raised its argument again, and run() gave {status} {raised!r}")
            elif mode == "other":
                if raised is not runner.other:
                    fail(f"error() raised another exception, and run() gave {status} {raised!r}")
            elif mode == "abort":
                want = ("CANCEL", res[1], None)
                events.append(("cancel",))
            ctx.nontrivial((script, seed, at))
        elif o.hit:
            ctx.nontrivial((script, seed, at))
        ro.events = events
        if raised is not None:
            if res[0] != "ERROR" or mode not in ("raise", "default", "other"):
                fail(f"run() raised {raised!r}")
            status, st = "ERROR", last
        else:
            st = real_state(state)
            if last != st:
                fail("the state returned is not the one of the last context")
        out = Outcome(status, st, err, o.events)
        out.steps = m.steps
        d = compare(want, ref, ro, out)
        if d:
            fail(d)
        ctx.sample({"script": script[:1000], "fault": repr(fault), "at": at, "status": status, "mode": mode})


CHECK = C()
