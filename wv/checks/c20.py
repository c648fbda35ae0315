import hashlib
import os
import random
import subprocess
import sys
import threading
from types import MappingProxyType

from .. import env
from ..drive import choose, drive, kind_of
from ..gen import Gen, make_subs
from ..harness import Check, Violation
from ..lang import render
from ..model import compare, safe
from ..rec import (
    SEV, Oracle, Outcome, RecRunner, StepLimit, diff_state, errclass, monitor, real_state, real_subs, run_real, set_severities, val,
)
from ..ref import AbortEx, Ref, Sub, TooBig

from wizard.contexts import WizardTerminationContext
from wizard.runner import WizardRunnerState
from wizard.severity import SeverityContext
from wizard.state import WizardInterpreterState
from wizard.utils import make_basic_context_factory, make_top_level_context
from wizard.value import Value


def raw_state(st):
    """With the order of everything."""
    return (
        [(n, val(v)) for n, v in st.variables.items()],
        [s.name for s in st.subpackages],
        [p.name for p in st.plugins],
        [(p.name, val(v)) for p, v in st.renames.items()],
        [val(n) for n in st.notes],
        real_state(st)["disabled"],
        real_state(st)["modified"],
        list(st.tweaks.files()),
        [[t.setting for t in st.tweaks.tweaks(f)] for f in st.tweaks.files()],
    )


def generated(r, subs, **p):
    g = Gen(
        r, subs, **dict(dict(
            mix=0.15, depth=2, manager=0.3, effects=r.choice([0, 0.3]), kw=r.choice([2, 5]), ini=0.7, select=1, exec_=0.5, floats=0.15, expr=2, unset=0.03,
            body=r.choice([2, 3]), nest=r.choice([1, 2, 3]), total=r.choice([3, 8, 16]), errors=r.choice([0, 0, 0.03]), cancel=0.2, return_=0.2), **p),
    )
    return g.program()


def program(r, subs, **p):
    prog = generated(r, subs, **p)
    script, pr = render(prog)
    ref = Ref(subs, Oracle(0))
    ref.run(prog, pr)
    return script, 2000 + 30 * int(ref.steps)


class Stepper:
    """drive(), one step at a time"""

    def __init__(self, ctx, oracle, limit):
        self.ctx = ctx
        self.oracle = oracle
        self.limit = limit
        self.end = None
        self.n = 0

    def step(self):
        if self.end is not None:
            return False
        c = self.ctx
        if isinstance(c, WizardTerminationContext):
            self.end = (kind_of(c), None)
            return False
        self.n += 1
        if self.n > self.limit:
            self.end = ("LIMIT", None)
            return False
        try:
            self.ctx = choose(c, self.oracle).exec()
        except AbortEx:
            self.end = ("ABORT", None)
        except Exception as ex:
            self.end = ("ERROR", errclass(ex))
        return self.end is None

    def outcome(self):
        return self.end, raw_state(self.ctx.state)


class C(Check):
    id = "C20"
    rule = (
        "random programs executed again by new and reused runners, interleaved step by step with others on shared and"
        " separate runners, in threads, and in processes with other hash seeds; non-trivial: all"
    )
    min_evals = 60
    require = ("again", "reused", "interleaved", "interleaved on one runner", "threads", "processes", "initial states", "switches", "severities", "namesakes", "mappings", "many runs")

    def fixed_processes(self, ctx):
        seed = ctx.rnd.getrandbits(30)
        got = {}
        procs = []
        for h in ("0", "1", "12345", "random"):
            e = dict(os.environ, PYTHONHASHSEED=h, PYTHONUTF8="1", PYTHONDONTWRITEBYTECODE="1")
            procs.append((h, subprocess.Popen(
                [sys.executable, "-B", "-m", "wv.checks.c20", str(seed), "60"], cwd=env.VERIF, env=e, stdout=subprocess.PIPE, text=True)))
        for h, p in procs:
            out, _ = p.communicate(timeout=300)
            if p.returncode != 0:
                raise RuntimeError("subprocess failed")
            got[h] = out.split("\n")
            ctx.count("processes")
        for h, g in got.items():
            for i, (a, b) in enumerate(zip(got["0"], g)):
                if a != b:
                    raise Violation(f"C20: another outcome with PYTHONHASHSEED={h}: {a} / {b}", seed=seed, program=i)

    def fixed_many(self, ctx):
        """Hundreds of scripts on one runner."""
        subs = [Sub("P%d" % i, ["p%d.esp" % i]) for i in range(5)]
        scripts = [
            "x = (", "If True\nx = = 2\ny = 1\nEndIf\nz = 1", "a = 1\nb = a +", "n = 0\nWhile n < 50\nn++\nNote str(n)\nEndWhile", "a = zz\nSelectPlugin 'none'",
            "SelectAll\nDeSelectPlugin 'p1.esp'\nRenamePlugin 'p2.esp', 'q'", "Exec('x = 1\\ny = (')", "EditINI('f', 's', 'k', 1)\nDisableINILine('f', 's', 'k')\nReturn", "Cancel 'm'", "a = 'x' - 1", "Foo 'x'",
            "SelectMany 'd', 'a', '', '', '|b', '', ''\nCase 'a'\nx = 1\nCase 'b'\nx = 2\nDefault\nx = 3\nEndSelect", "For s in SubPackages\nFor f in s\nNote f\nEndFor\nEndFor\nBreak", "",
            "For i from 1 to 40\nExec('x = ' + str(i))\nEndFor", "For i from 1 to 30\na = GetFolder(str(i))\nSelectOne 'd', 'a', '', ''\nCase 'a'\nb = i\nEndSelect\nEndFor",
        ]
        alone = []
        for s in scripts:
            o = Oracle(3)
            out = run_real(s, subs, o)
            alone.append((out.status, errclass(out.error), safe(out.error), out.events, out.state))
        o = Oracle(3)
        runner = RecRunner(real_subs(subs), o)
        for i in range(420):
            k = i * 5 % len(scripts) if i < 300 else i * i % len(scripts)
            o.events = []
            runner.errors = []
            out = run_real(scripts[k], subs, o, runner=runner)
            got = (out.status, errclass(out.error), safe(out.error), out.events, out.state)
            if got != alone[k]:
                raise Violation(f"C20: run {i} of a runner gives another outcome", script=scripts[k], alone=repr(alone[k]), got=repr(got))
        ctx.count("many runs")

    def case(self, ctx):
        x = ctx.rnd.random()
        if x < 0.3:
            self.reuse(ctx)
        elif x < 0.4:
            self.namesakes(ctx)
        elif x < 0.85:
            self.interleave(ctx)
        elif x < 0.9:
            self.initial(ctx)
        elif x < 0.94:
            self.mappings(ctx)
        else:
            self.threads(ctx)

    def reuse(self, ctx):
        """One runner for several scripts, each compared with a new runner."""
        r = ctx.rnd
        subs = make_subs(r)
        shared = real_subs(subs)
        seed = r.getrandbits(30)
        o = Oracle(seed)
        sev = {None: r.choice(["warn", "warn", "allow", "error"])}
        runner = RecRunner(shared, o)
        set_severities(runner, sev)
        ctx.count("severities")
        scripts = []
        for i in range(r.randint(2, 4)):
            script, limit = program(r, subs)
            if scripts and r.random() < 0.3:
                script, limit = scripts[0]
            scripts.append((script, limit))
            aborts = (r.randint(0, 5),) if r.random() < 0.2 else ()
            o1 = Oracle(seed, aborts=aborts)
            # next to it, a runner with other severities
            other = RecRunner(real_subs(subs), Oracle(seed))
            set_severities(other, {k: r.choice(list(SEV)) for k in (None, "USAGE_OF_NOTSET_VARIABLES", "SELECT_MISSING_PLUGIN")})
            a = run_real(script, subs, o1, sev, limit=limit)
            o.events = []
            o.aborts = aborts
            runner.errors = []
            b = run_real(script, subs, o, limit=limit, runner=runner)
            d = None
            if a.status != b.status:
                d = f"status {a.status} then {b.status} {safe(b.error)}"
            elif errclass(a.error) != errclass(b.error) or safe(a.error) != safe(b.error):
                d = f"error {safe(a.error)} then {safe(b.error)}"
            elif a.events != b.events:
                d = f"calls {a.events} then {b.events}"
            elif a.raw_state is not None and raw_state(a.raw_state) != raw_state(b.raw_state):
                d = "another state: " + str(diff_state(a.state, b.state))
            if d:
                raise Violation("C20: with a runner which has been used: " + d, scripts=scripts, seed=seed, severities=sev, aborts=aborts)
            ctx.count("again")
            if i:
                ctx.count("reused")
        if [(s.name, list(s.files)) for s in shared] != [(s.name, s.files) for s in subs]:
            raise Violation("C20: the list of subpackages changed", scripts=scripts)
        ctx.nontrivial(tuple(scripts))

    def namesakes(self, ctx):
        """Runners whose subpackages have the same names, and other files."""
        r = ctx.rnd
        subs = make_subs(r)
        other = [Sub(r.choice([s.name, s.name, s.name.swapcase()]), r.sample(s.files, r.randint(0, len(s.files))) + ["new%d.esp" % i] * r.randint(0, 1)) for i, s in enumerate(subs)]
        if r.random() < 0.3:
            r.shuffle(other)
        seed = r.getrandbits(30)
        jobs = []
        for ss in (subs, other):
            jobs.append((generated(r, ss), ss))
        r.shuffle(jobs)
        for prog, ss in jobs:
            script, pr = render(prog)
            ro = Oracle(seed)
            ref = Ref(ss, ro)
            res = ref.run(prog, pr)
            out = run_real(script, ss, Oracle(seed), limit=300 + 30 * int(ref.steps))
            d = compare(res, ref, ro, out)
            if d:
                raise Violation(
                    "C20: after an execution with other subpackages of the same names: " + d, script=script,
                    subpackages=[[(s.name, s.files) for s in j[1]] for j in jobs], seed=seed,
                )
        ctx.count("namesakes")
        ctx.nontrivial(script)

    def interleave(self, ctx):
        r = ctx.rnd
        subs = make_subs(r)
        shared = real_subs(subs)
        n = r.choice([2, 2, 3, 5])
        same = r.random() < 0.5
        o0 = Oracle(1)
        runner = RecRunner(shared, o0)
        seeds, alone, live, scripts = [], [], [], []
        for i in range(n):
            script, limit = program(r, subs)
            if i and r.random() < 0.3:
                script, limit = scripts[-1], scripts_limit
            scripts_limit = limit
            scripts.append(script)
            # the functions are answered by the runner: one seed if it is shared
            seed = 1 if same else r.getrandbits(30)
            seeds.append(seed)

            def make():
                o = Oracle(seed)
                rn = RecRunner(real_subs(subs) if r.random() < 0.5 else shared, o)
                return Stepper(rn.make_top_level_context(script), o, limit)

            a = make()
            while a.step():
                pass
            alone.append(a.outcome())
            if same:
                b = Stepper(runner.make_top_level_context(script), o0, limit)
                ctx.count("interleaved on one runner")
            else:
                b = make()
            live.append(b)
        active = list(live)
        while active:
            s = r.choice(active)
            for _ in range(r.choice([1, 1, 2, 5])):
                if not s.step():
                    active.remove(s)
                    break
            ctx.count("switches")
        for i in range(n):
            g = live[i].outcome()
            if g != alone[i]:
                raise Violation(
                    "C20: another outcome when the execution is interleaved with others", script=scripts[i], others=scripts, alone=alone[i],
                    interleaved=g, same_runner=same, seed=seeds[i], subpackages=[(s.name, s.files) for s in subs],
                )
        ctx.count("interleaved", n)
        ctx.nontrivial(tuple(scripts))
        ctx.sample({"scripts": [s[:300] for s in scripts], "same runner": same})

    def initial(self, ctx):
        """A state given by the caller."""
        r = ctx.rnd
        subs = make_subs(r)
        script, limit = program(r, subs)
        seed = r.getrandbits(30)
        o = Oracle(seed)
        runner = RecRunner(real_subs(subs), o)
        given = {k: r.choice([1, "a", True, 2.5]) for k in r.sample(["i1", "s1", "zz", "b2"], 2)}
        st = WizardRunnerState()
        for k, v in given.items():
            st.set(k, Value(v))
        before = raw_state(st)
        e = drive(runner.make_top_level_context(script, st), o, limit)
        if raw_state(st) != before:
            raise Violation("C20: the state given by the caller has been modified", script=script, before=before, after=raw_state(st))
        pre = "".join("%s = %s\n" % (k, repr(v)) for k, v in given.items())
        runner2 = RecRunner(real_subs(subs), Oracle(seed))
        e2 = drive(runner2.make_top_level_context(pre + script), Oracle(seed), limit)
        if e.outcome() != e2.outcome():
            raise Violation("C20: a variable given is not like one which has been set", script=pre + script, given=e.outcome(), set=e2.outcome())
        e3 = drive(runner.make_top_level_context(script), Oracle(seed), limit)
        e4 = drive(runner2.make_top_level_context(script), Oracle(seed), limit)
        if e3.outcome() != e4.outcome():
            raise Violation("C20: an execution depends on the initial state of a previous one", script=script)
        ctx.count("initial states")
        ctx.nontrivial(pre + script)

    def mappings(self, ctx):
        """A basic state made from a mapping, which stays as it is."""
        r = ctx.rnd
        subs = make_subs(r)
        script, limit = program(r, subs, mix=0, manager=0, kw=0, ini=0, effects=0.3)
        given = {k: r.choice([1, "a", True, 2.5]) for k in r.sample(["i1", "s1", "zz", "b2", "c1"], r.choice([0, 1, 2, 3]))}
        mapping = {k: Value(v) for k, v in given.items()}
        base = dict(mapping)
        st = WizardInterpreterState(mapping if r.random() < 0.7 else MappingProxyType(mapping))
        twin = WizardInterpreterState(mapping)
        twin.set(r.choice(list(given) + ["new"]), Value("other"))
        twin.copy().set("newer", Value(0))
        WizardInterpreterState().set("default", Value(1))

        def fail(what):
            raise Violation("C20: " + what, script=script, given=given, mapping=repr(mapping), state=repr(dict(st.variables)))

        def same(when):
            if mapping != base:
                fail("the mapping given by the caller was modified " + when)
            if {k: val(v) for k, v in st.variables.items()} != {k: val(v) for k, v in base.items()} or list(st.variables) != list(base):
                fail("a state is not independent of the mapping it was made from " + when)
            if WizardInterpreterState().variables:
                fail("a new state has variables " + when)

        same("by another state")
        seed = r.getrandbits(30)
        sev = SeverityContext()
        sev.warning = lambda text: None
        f = make_basic_context_factory(real_subs(subs), sev)
        ends = []
        for pre, state in (("", st), ("", st.copy()), ("".join("%s = %s\n" % (k, repr(v)) for k, v in given.items()), WizardInterpreterState())):
            e = drive(make_top_level_context(pre + script, f, state), Oracle(seed), limit)
            ends.append((e.kind, errclass(e.error) if e.error else None, [(n, val(v)) for n, v in e.ctx.state.variables.items()]))
            same("by an execution")
        if ends[1] != ends[0] or ends[2] != ends[0]:
            fail(f"a variable given is not like one which has been set: {ends}")
        mapping["later"] = Value(3)
        if "later" in st.variables:
            fail("a state changed with the mapping it was made from")
        ctx.count("mappings")
        ctx.nontrivial(script)

    def threads(self, ctx):
        r = ctx.rnd
        subs = make_subs(r)
        shared = real_subs(subs)
        # (the text is parsed here: the parser itself is not under test)
        jobs = []
        for i in range(4):
            script, limit = program(r, subs, exec_=0)
            seed = r.getrandbits(30)
            jobs.append((script, limit, seed))

        def make(j):
            o = Oracle(j[2])
            return Stepper(RecRunner(shared, o).make_top_level_context(j[0]), o, j[1])

        alone = []
        for j in jobs:
            s = make(j)
            while s.step():
                pass
            alone.append(s.outcome())
        live = [[make(j) for _ in range(3)] for j in jobs]
        old = sys.getswitchinterval()
        sys.setswitchinterval(1e-5)

        def work(ss):
            for s in ss:
                while s.step():
                    pass

        ts = [threading.Thread(target=work, args=(ss,)) for ss in live]
        try:
            for t in ts:
                t.start()
            for t in ts:
                t.join()
        finally:
            sys.setswitchinterval(old)
        for j, a, ss in zip(jobs, alone, live):
            for s in ss:
                if s.end is None or s.outcome() != a:
                    raise Violation("C20: another outcome in a thread", script=j[0], alone=a, thread=s.outcome(), others=[x[0] for x in jobs])
        ctx.count("threads", len(ts))
        ctx.nontrivial(tuple(j[0] for j in jobs))


CHECK = C()


def main():
    r = random.Random(int(sys.argv[1]))
    for _ in range(int(sys.argv[2])):
        subs = make_subs(r)
        try:
            # (half of them with many of what is kept in sets and mappings)
            script, limit = program(r, subs, **(dict(ini=6, kw=6, total=20) if r.random() < 0.5 else {}))
        except TooBig:
            print("too big")
            continue
        if r.random() < 0.5:
            # many of what is kept in sets and mappings
            fs = ["a.ini", "A.ini", "A.INI", "b.ini", "B.ini", "x/b.ini", "c d.ini"]
            pre = [
                r.choice(['EditINI("%s", "%s", "b", 1)', 'DisableINILine("%s", "%s", "b")']) % (r.choice(fs), r.choice("stS"))
                for _ in range(r.randint(2, 8))
            ]
            pre += ["v%s = %d" % (r.choice("aAbBcC"), r.randint(0, 9)) for _ in range(r.randint(0, 5))]
            r.shuffle(pre)
            script = "\n".join(pre) + "\nq0 = 0\n" + script
        o = Oracle(r.getrandbits(30))
        out = run_real(script, subs, o, limit=limit)
        text = repr((out.status, errclass(out.error), safe(out.error), raw_state(out.raw_state) if out.raw_state else None, out.events))
        print(hashlib.sha256(text.encode()).hexdigest()[:12], out.status)


if __name__ == "__main__":
    main()
