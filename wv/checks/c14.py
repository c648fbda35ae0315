import zlib

from ..gen import KWS, Gen, chain, make_subs
from ..harness import Check, Violation
from ..lang import render
from ..model import compare, safe
from ..rec import (
    Hang, Oracle, RecRunner, StepLimit, Outcome, cpu_watchdog, diff_events, diff_state, errclass, monitor, real_state, real_subs, ref_state, RealSub, val,
)
from wizard.value import SubPackages

from ..ref import AbortEx, Ref, TooBig


class Node:
    """The calls made so far on a branch (a persistent list)."""

    __slots__ = ("prev", "event", "answer", "state", "n")

    def __init__(self, prev, event, state):
        self.prev = prev
        self.event = event
        self.answer = None
        self.state = state
        self.n = prev.n + 1 if prev is not None else 1


def unroll(node):
    out = []
    while node is not None:
        out.append(node)
        node = node.prev
    return out[::-1]


class LiveOracle(Oracle):
    """Answers never repeat: they depend on all the calls made, discarded ones included."""

    def __init__(self, seed, rnd, rewinds, rate, arate, problems):
        super().__init__(seed)
        self.total = 0
        self.tail = None
        self.rnd = rnd
        self.left = rewinds
        self.rate = rate
        self.arate = arate
        self.done = 0
        self.from_ = {}
        self.visited = []
        self.prefix = {}
        self.was = {}
        self.keep = []
        self.shown = []  # contexts seen through context()
        self.problems = problems
        self.discarded = 0
        self.current = None

    def h(self, *key):
        return zlib.crc32(repr((self.seed, self.total) + key).encode())

    def event(self, *ev):
        self.total += 1
        self.tail = Node(self.tail, ev, real_state(self.runner.context().state))
        self.maybe(ev[0])

    def ask(self, kind, *args):
        self.total += 1
        self.tail = n = Node(self.tail, (kind,) + args, real_state(self.runner.context().state))
        self.maybe(kind)
        if self.rnd.random() < self.arate:
            n.answer = "ABORT"
            raise AbortEx()
        n.answer = ("A", self.answer(kind, *args))
        return n.answer[1]

    def arrived(self, ctx):
        self.current = ctx
        if id(ctx) not in self.prefix:
            self.prefix[id(ctx)] = self.tail
            self.visited.append(ctx)
            if len(self.visited) < 1500:
                self.was[id(ctx)] = real_state(ctx.state)

    def maybe(self, kind):
        ctx = self.runner.context()
        if ctx is not self.current:
            self.problems.append(
                f"context() is not the context being executed during {kind}:"
                f" {type(ctx).__name__} instead of {type(self.current).__name__}"
            )
        if kind in ("selectOne", "selectMany", "error", "complete", "cancel"):
            self.shown.append(ctx)
        if self.left <= 0 or self.rnd.random() > self.rate:
            return
        target = self.rnd.choice(self.shown if self.shown and self.rnd.random() < 0.6 else self.visited)
        self.left -= 1
        self.done += 1
        self.from_[kind] = self.from_.get(kind, 0) + 1
        if id(target) in self.was:
            d = diff_state(self.was[id(target)], real_state(target.state))
            if d:
                self.problems.append(f"the state of a context rewound to is not what it was: {d}")
        was = self.tail.n
        self.tail = self.prefix[id(target)]
        self.discarded += was - (self.tail.n if self.tail else 0)
        self.current = target
        self.runner.rewind(target)


class Replay(Oracle):
    def __init__(self, nodes):
        super().__init__(0)
        self.nodes = nodes
        self.bad = None
        self.states = []

    def check(self, ev):
        i = len(self.events)
        self.events.append(ev)
        if ev[0] in ("complete",):
            st = self.ref.st
        else:
            st = self.ref.snap
        if i < len(self.nodes) and self.bad is None:
            d = diff_state(ref_state(st), self.nodes[i].state)
            if d:
                self.bad = f"state of context() during call {i} ({ev[0]}): {d}"
            self.states.append(i)

    def event(self, *ev):
        self.check(ev)

    def ask(self, kind, *args):
        i = len(self.events)
        self.check((kind,) + args)
        if i >= len(self.nodes) or self.nodes[i].answer is None or self.nodes[i].event[0] != kind:
            # out of step with the recorded calls, reported below
            raise Diverged()
        a = self.nodes[i].answer
        if a == "ABORT":
            raise AbortEx()
        return a[1]


class Diverged(Exception):
    pass


class C(Check):
    id = "C14"
    rule = (
        "random programs run by a runner whose callbacks (choices, manager functions, warnings, versions, error,"
        " cancel, complete) sometimes rewind to a context seen earlier, on this branch or on a discarded one, or abort;"
        " the calls of the branch which remains are replayed by the model; non-trivial: at least one rewind"
    )
    require = (
        "rewinds", "rewinds from selectOne", "rewinds from selectMany", "rewinds from warning", "rewinds from error",
        "rewinds from cancel", "rewinds from complete", "rewinds from getFilename", "rewinds from requiresVersions",
        "discarded calls", "states compared", "aborts", "large",
    )

    def fixed_large(self, ctx):
        """Many rewinds in one long execution, to many places."""
        n = 240

        class R(RecRunner):
            first = {}
            start = n
            plan = []
            ends = []
            asked = []

            def dataFileExists(self, path):
                i = int(path)
                self.asked.append(i)
                c = self.context()
                self.first.setdefault(i, c)
                if i == 10**6:
                    # a callback which goes back a thousand times
                    if len(self.spins) < 1000:
                        self.spins.append(i)
                        self.rewind(self.first[i])
                    return True
                return i >= self.start

            def complete(self):
                self.ends.append(real_state(self.context().state))
                if self.plan:
                    self.start = self.plan.pop(0)
                    self.asked.clear()
                    self.rewind(self.first[self.start])
                return True

        script = (
            f"k = 0\nx = DataFileExists('{10**6}')\nFor i from 0 to {n - 1}\nIf DataFileExists(str(i))\nNote str(i)\nk++\nRenamePlugin str(i), 'r'\n"
            "EditINI('f', 's', str(i), i)\nSelectSubPackage 'P' + str(i)\nEndIf\nEndFor"
        )
        subs = [RealSub(f"P{i}", [f"{i}.esp"]) for i in range(n)]
        o = Oracle(0)
        r = R(SubPackages(subs), o)
        r.spins = []
        r.plan = plan = [n - 1, 0, n // 2] + [i * 37 % n for i in range(30)]
        expected = [n] + plan
        r.plan = list(plan)
        status, state = r.run(script)
        ctx.maximum("rewinds of a large execution", len(r.ends) + len(r.spins))
        if status.name != "COMPLETE" or len(r.ends) != len(expected):
            raise Violation(f"C14: many rewinds: {status.name} after {len(r.ends)} ends, expected {len(expected)}", script=script)
        if r.asked != list(range(plan[-1], n)):
            raise Violation("C14: many rewinds: other calls after the last one", got=r.asked, start=plan[-1])
        for j, (e, st) in enumerate(zip(r.ends + [real_state(state)], expected + [plan[-1]])):
            ran = list(range(st, n))
            if (
                e["vars"]["k"] != val(len(ran)) or e["notes"] != [val(str(i)) for i in ran] or len(e["renames"]) != len(ran)
                or len(e["modified"]) != len(ran) or sorted(e["subs"]) != sorted(f"P{i}" for i in ran) or len(e["plugins"]) != len(ran)
            ):
                raise Violation(f"C14: many rewinds: the state after rewind {j}, from {st}", script=script, state=repr(e)[:3000])
        ctx.count("large")

    def case(self, ctx):
        r = ctx.rnd
        subs = make_subs(r)
        few = {}
        if r.random() < 0.3:
            # many of the same statements
            few = dict(kws=[(1, k) for k in r.sample(KWS, r.choice([1, 1, 2, 3]))], kw=r.choice([10, 25]), ini=r.choice([0, 0.7, 10]))
        g = Gen(
            r, subs, mix=0.2, depth=2, manager=r.choice([0.1, 0.5]), effects=r.choice([0, 0.3]), exec_=0.5, **dict(dict(kw=r.choice([1, 5]), ini=0.7), **few),
            select=r.choice([1, 3]), while_=0.7, forrange=0.7, forin=0.7, expr=2, unset=r.choice([0, 0.1]),
            break_=1, continue_=1, errors=r.choice([0, 0, 0.02]), body=r.choice([2, 3, 5]), nest=3, total=r.choice([3, 5, 10, 20]), cancel=0.1,
            return_=0.1,
        )
        prog = chain(r, True) if r.random() < 0.2 else g.program()
        script, pr = render(prog)
        seed = r.getrandbits(30)
        Ref(subs, Oracle(seed)).run(prog, pr)
        problems = []
        o = LiveOracle(seed, r, r.choice([1, 2, 3, 6]), r.choice([0.05, 0.2, 0.5]), r.choice([0, 0, 0.02]), problems)
        runner = RecRunner(real_subs(subs), o, r.choice([0, 1, 2]))
        o.runner = runner
        m = monitor()
        m.reset(30000)
        start = []

        def before(c):
            if not start:
                start.append(c)
                o.arrived(c)

        def after(c, res):
            o.keep.append(c)
            o.arrived(res)

        # the top-level context is known from its first exec()
        m.before, m.after = before, after
        status = state = err = None
        try:
            with cpu_watchdog(60):
                st, state = runner.run(script)
            status = st.name
            if runner.errors:
                err = runner.errors[-1]
        except StepLimit:
            status = "STEPLIMIT"
        except Hang:
            status = "HANG"
        except Exception as ex:
            status, err = "RAISED", ex
        finally:
            m.reset()
        nodes = unroll(o.tail)
        rp = Replay(nodes)
        ref = Ref(subs, rp)
        rp.ref = ref

        def fail(d):
            raise Violation(
                "C14: after the rewinds, " + d, script=script, subpackages=[(s.name, s.files) for s in subs], seed=seed,
                calls=[n.event for n in nodes], answers=[n.answer for n in nodes], rewinds=o.from_,
            )

        try:
            res = ref.run(prog, pr)
        except Diverged:
            fail("the calls are not those of one execution: " + (rp.bad or diff_events(rp.events, [n.event for n in nodes][: len(rp.events)]) or "a call is missing"))
        out = Outcome(status, real_state(state) if state is not None else None, err, [n.event for n in nodes])
        out.steps = 0
        d = compare(res, ref, rp, out) or rp.bad
        if d is None and problems:
            d = problems[0]
        if d is None and runner.problems:
            d = runner.problems[0]
        if d:
            fail(d)
        ctx.count("rewinds", o.done)
        ctx.count("discarded calls", o.discarded)
        ctx.count("states compared", len(rp.states))
        ctx.count("status " + status)
        if any(n.answer == "ABORT" for n in nodes):
            ctx.count("aborts")
        for k, n in o.from_.items():
            ctx.count("rewinds from " + k, n)
        ctx.maximum("contexts", len(o.visited))
        ctx.maximum("rewinds", o.done)
        if o.done:
            ctx.nontrivial((script, seed))
            ctx.sample({"script": script[:1500], "rewinds": dict(o.from_), "discarded": o.discarded, "remaining": [repr(n.event)[:100] for n in nodes[:8]]})


CHECK = C()
