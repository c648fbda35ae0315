import wizard.contexts as wc
from wizard.contexts import (
    WizardCancelContext, WizardRequireVersionsContext, WizardReturnContext, WizardSelectManyContext, WizardSelectOneContext, WizardTerminationContext,
    WizardTopLevelContext,
)
from wizard.interpreter import WizardInterpreter
from wizard.manager import SelectOption
from wizard.runner import WizardRunnerState
from wizard.utils import make_runner_context_factory, make_top_level_context

from ..gen import Gen, make_subs
from ..harness import Check, Violation
from ..lang import render
from ..model import safe
from ..rec import (
    HOST_OK, Oracle, RecRunner, StepLimit, cpu_watchdog, diff_events, diff_state, errclass, monitor, opt, real_state, real_subs, ref_state,
)
from ..ref import Ref

CLASSES = sorted(
    (c for n, c in vars(wc).items() if n.startswith("Wizard") and n.endswith("Context") and n != "WizardInterpreterContext"),
    key=lambda c: c.__name__,
)
SELECTS = (WizardSelectOneContext, WizardSelectManyContext)


class Defaults(Oracle):
    """Answers every question about options with the defaults."""

    def answer(self, kind, *args):
        if kind == "selectOne":
            return args[2][0]
        if kind == "selectMany":
            return [d[0] for d in args[2]]
        return super().answer(kind, *args)


class C(Check):
    id = "C24"
    rule = (
        "random programs executed with exec() and exec_until() for random lists of kinds of contexts, answering the Select"
        " contexts by hand or not, compared with the model; what is seen of the contexts at every stop is compared with the trace"
        " of a plain execution; non-trivial: at least 2 stops"
    )
    require = (
        "stops", "immediate", "terminations", "cancelled", "returned", "completed", "selects answered", "selects by default", "versions",
        "fresh options", "unselected", "cancel contexts", "errors", "top level", "chains", "dropped answers", "long executions",
    )

    def program(self, r, subs):
        g = Gen(
            r, subs, mix=0.2, trace=0.2, depth=2, manager=0.3, effects=0.2, kw=r.choice([1, 4]), ini=0.3, exec_=0.5, select=r.choice([1, 4]), while_=1, forrange=1, forin=0.7,
            break_=1, continue_=1, errors=r.choice([0, 0, 0.02]), body=r.choice([2, 3, 5]), nest=3, total=r.choice([5, 10, 20]), cancel=0.4, return_=0.4,
        )
        return g.program()

    def fixed_long(self, ctx):
        """exec_until() goes on as long as it takes."""
        script = (
            "n = 0\nFor i from 1 to 3000\nWhile n < i\nn++\nEndWhile\nIf i % 2\nContinue\nEndIf\nEndFor\n"
            + "n++\n" * 500 + "SelectOne 'd', " + ", ".join(f"'{'|' if i == 200 else ''}o{i}', '{i}', 'i{i}'" for i in range(250))
            + "\n" + "".join(f"Case 'o{i}'\nx = {i}\nBreak\n" for i in range(250)) + "EndSelect\nWhile True\nn++\nIf n == 6000\nCancel str(n)\nEndIf\nEndWhile"
        )
        o = Oracle(0)
        runner = RecRunner(real_subs([]), o)
        factory = make_runner_context_factory(real_subs([]), runner, runner)
        for interp in (runner, WizardInterpreter(factory)):
            c = interp.exec_until(interp.make_top_level_context(script, WizardRunnerState()), [WizardSelectOneContext])
            if not isinstance(c, WizardSelectOneContext) or c.state.variables["n"].value != 3500:
                raise Violation(f"C24: a long execution stops at a {type(c).__name__}", n=repr(c.state.variables.get("n")))
            if [opt(x) for x in c.options] != [(f"o{i}", str(i), f"i{i}") for i in range(250)] or c.default is not c.options[200]:
                raise Violation("C24: many options", options=repr([opt(x) for x in c.options])[:500])
            for choice in (None, 0, 249):
                d = c if choice is None else c.select(c.options[choice])
                t = interp.exec_until(d, ())
                n, x = (t.state.variables.get(k) for k in "nx")
                if not isinstance(t, WizardTerminationContext) or not t.is_cancel() or t.message() != "6000" or n != 6000 or x != (200 if choice is None else choice):
                    raise Violation(f"C24: a long execution ends with a {type(t).__name__}", n=repr(n), x=repr(x), choice=choice)
        ctx.count("long executions")

    def case(self, ctx):
        r = ctx.rnd
        subs = make_subs(r)
        prog = self.program(r, subs)
        script, pr = render(prog, r, 0, r.choice([0, 0.3]), "plain")
        seed = r.getrandbits(30)
        answer = r.random() < 0.5
        mk = Oracle if answer else Defaults
        ro = mk(seed)
        ref = Ref(subs, ro)
        status, state, err = ref.run(prog, pr)
        limit = 300 + 30 * int(ref.steps)
        o = mk(seed)
        runner = RecRunner(real_subs(subs), o)
        x = r.random()
        if x < 0.4:
            interp = runner
            top = runner.make_top_level_context(script)
        else:
            factory = make_runner_context_factory(real_subs(subs), runner, runner)
            interp = WizardInterpreter(factory)
            top = interp.make_top_level_context(script, WizardRunnerState()) if x < 0.7 else make_top_level_context(script, factory, WizardRunnerState())
            if interp is not runner and top.factory is not factory:
                raise Violation("C24: the factory of the context is not the one given", script=script)
        if not isinstance(top, WizardTopLevelContext) or not top.is_top_level() or top.parent is not top:
            raise Violation("C24: the first context is not the top level", script=script)
        ctx.count("top level")

        def fail(what, **k):
            raise Violation("C24: " + what, script=script, subpackages=[(s.name, s.files) for s in subs], seed=seed, answered=answer, **k)

        targets = r.sample(CLASSES, r.choice([0, 1, 2, 4, 8]))
        if answer:
            targets += SELECTS
        if r.random() < 0.3:
            targets.append(WizardRequireVersionsContext)
        if r.random() < 0.3:
            targets.append(WizardCancelContext)
        r.shuffle(targets)
        tt = tuple(targets)
        executed = []
        m = monitor()
        m.reset(limit)

        def before(c):
            executed.append(c)

        stops = 0
        c = top
        err2 = None
        try:
            with cpu_watchdog(60):
                while True:
                    start = c
                    n0 = len(executed)
                    m.before = before
                    try:
                        c = interp.exec_until(c, r.choice([list, tuple])(targets))
                    finally:
                        m.before = None
                    ran = executed[n0:]
                    if tt and any(isinstance(e, tt) for e in ran):
                        fail("exec_until() executed a context of a kind it was to stop at", targets=repr(targets))
                    if not isinstance(c, tt + (WizardTerminationContext,)):
                        fail(f"exec_until() stopped at {type(c).__name__}", targets=repr(targets))
                    if isinstance(start, tt + (WizardTerminationContext,)):
                        if c is not start or ran:
                            fail("exec_until() went on from a context of a kind it was to stop at", targets=repr(targets))
                        ctx.count("immediate")
                    elif not ran or ran[0] is not start:
                        fail("exec_until() did not start with the context given")
                    ctx.count("stops")
                    stops += 1
                    self.look(ctx, c, fail, interp)
                    if isinstance(c, WizardTerminationContext):
                        break
                    # again: stays there
                    if interp.exec_until(c, targets) is not c:
                        fail("exec_until() from a target does not return it")
                    if isinstance(c, SELECTS):
                        c = self.choose(ctx, c, o, answer, fail)
                    elif isinstance(c, WizardRequireVersionsContext):
                        self.versions(ctx, c, o, interp is runner, fail)
                    prev, c = c, c.exec()
        except StepLimit:
            fail(f"does not end (the model takes {int(ref.steps)} steps)")
        except Violation:
            raise
        except Exception as ex:
            err2 = ex
        finally:
            m.before = None
            m.limit = None
        if err2 is not None:
            if status != "ERROR":
                fail(f"expected {status}, got {err2!r}")
            if errclass(err2) != err.cls:
                fail(f"expected {err.cls}, got {err2!r}")
            ctx.count("errors")
            return
        if status == "ERROR":
            fail(f"expected {err.cls}")
        kinds = (c.is_cancel(), c.is_return(), c.is_complete())
        if kinds != (status == "CANCEL", status == "RETURN", status == "COMPLETE"):
            fail(f"{status}, but is_cancel(), is_return(), is_complete() are {kinds}")
        ctx.count({"CANCEL": "cancelled", "RETURN": "returned", "COMPLETE": "completed"}[status])
        if status != "CANCEL" and c.message() is not None:
            fail(f"a message without Cancel: {c.message()!r}")
        d = diff_state(ref_state(state), real_state(c.state))
        if d:
            fail(d)
        skip = ("complete", "cancel", "selectOne", "selectMany", "warning")
        if interp is not runner and WizardRequireVersionsContext not in tt:
            # (only the runner tells the manager of the versions)
            skip += ("requiresVersions",)
        a = [e for e in ro.events if e[0] not in skip]
        b = [e for e in o.events if e[0] not in skip]
        d = diff_events(a, b)
        if d:
            fail("calls: " + d)
        ctx.count("terminations")
        if stops >= 2:
            ctx.nontrivial((script, repr(targets)))
            ctx.sample({"script": script[:800], "targets": [t.__name__ for t in targets], "stops": stops, "status": status})

    def look(self, ctx, c, fail, interp):
        """The chain of parents of a context goes to the top level."""
        n = 0
        p = c
        while not p.is_top_level():
            q = p.parent
            n += 1
            if q is p or n > 5000:
                fail(f"the chain of the parents of a {type(c).__name__} does not end at a top level context")
            p = q
        if p.parent is not p or not isinstance(p, WizardTopLevelContext):
            fail("the top of the chain is not a top level context")
        if c.factory is not p.factory:
            fail("another factory")
        if c is not p and c.is_top_level():
            fail("two top levels")
        if isinstance(c, WizardCancelContext):
            t = c.exec()
            if not isinstance(t, WizardTerminationContext) or t.message() != c.message() or not t.is_cancel():
                fail(f"message {c.message()!r} of Cancel, {t.message()!r} of the termination")
            ctx.count("cancel contexts")
        elif isinstance(c, WizardReturnContext):
            t = c.exec()
            if not isinstance(t, WizardTerminationContext) or not t.is_return() or t.message() is not None:
                fail("Return is not followed by its termination")
        ctx.count("chains")

    def choose(self, ctx, c, o, answer, fail):
        r = ctx.rnd
        one = isinstance(c, WizardSelectOneContext)

        def look(c):
            ds = [c.default] if one else c.defaults
            return type(c), c.description, [opt(x) for x in c.options], [opt(x) for x in ds], real_state(c.state)

        seen = look(c)
        if answer:
            if one:
                n = o.ask("selectOne", c.description, [opt(x) for x in c.options], opt(c.default))
                chosen = next(x for x in c.options if x.name == n)
            else:
                ns = o.ask("selectMany", c.description, [opt(x) for x in c.options], [opt(x) for x in c.defaults])
                chosen = [x for x in c.options if x.name in ns]
            if r.random() < 0.4:
                ctx.count("fresh options")
                if one:
                    chosen = SelectOption(chosen.name, "another", "image")
                else:
                    chosen = tuple(SelectOption(x.name, "", None) for x in reversed(chosen))
            ctx.count("selects answered")
        elif r.random() < 0.5:
            chosen = c.default if one else list(c.defaults)
            ctx.count("selects by default")
        else:
            # not answered at all
            if one and c.default not in c.options or not one and any(d not in c.options for d in c.defaults):
                fail("a default which is not an option")
            ctx.count("unselected")
            self.other(ctx, c)
            return c
        if r.random() < 0.3:
            self.other(ctx, c)
        s = c.select(chosen)
        if r.random() < 0.3:
            self.other(ctx, c)
            self.other(ctx, s)
        if type(s) is not type(c):
            fail(f"select() gives a {type(s).__name__}")
        if isinstance(chosen, list):
            chosen.clear()  # (the list is the caller's)
        if look(s) != seen:
            fail("select() changed what the context shows")
        if look(c) != seen:
            fail("select() changed the original context")
        return s

    def other(self, ctx, c):
        """Another answer, which is dropped: it changes nothing."""
        r = ctx.rnd
        if not c.options:
            return
        if isinstance(c, WizardSelectOneContext):
            s = c.select(r.choice(c.options))
        else:
            s = c.select(r.sample(list(c.options), r.randint(0, len(c.options))))
        if r.random() < 0.3 and c.options:
            # (of the answer, too)
            if isinstance(s, WizardSelectOneContext):
                s.select(r.choice(c.options))
            else:
                s.select([])
        ctx.count("dropped answers")

    def versions(self, ctx, c, o, told, fail):
        """What the context shows is what the manager will be told."""
        n = len(o.events)
        c.exec()
        got = [e for e in o.events[n:] if e[0] == "requiresVersions"]
        del o.events[n:]
        shown = ("requiresVersions", c.game_version, c.script_extender_version, c.graphics_extender_version, c.wrye_bash_version)
        if told:
            if got != [shown]:
                fail(f"the context shows the versions {shown}, the manager is told {got}")
        else:
            o.event(*shown)  # (as the model does)
        ctx.count("versions")


CHECK = C()
