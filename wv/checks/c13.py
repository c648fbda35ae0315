from ..drive import drive as drive_
from ..drive import fingerprint
from ..gen import Gen, chain, make_subs
from ..harness import Check, Violation
from ..lang import render
from ..model import safe
from ..rec import Oracle, RealSub, RecRunner, real_state, real_subs
from ..ref import Ref

from wizard.value import SubPackages, Value


class C(Check):
    id = "C13"
    rule = (
        "random programs stepped by hand, keeping all the contexts; then random ones are"
        " executed again, in random orders and with other answers; non-trivial: a"
        " program of at least 10 contexts, some executed again"
    )
    require = ("contexts checked", "executed again", "branches", "selects branched", "errors again", "copies", "everywhere", "unanswered", "large")

    def fixed_large(self, ctx):
        """A long execution, of which all the contexts are kept."""
        script = (
            "n = 0\nt = ''\nFor i from 1 to 60\nWhile n < i * 2\nn++\nNote str(n)\nEndWhile\nSelectMany 'd', '|a', '', '', '|b', '', ''\nCase 'a'\nt += 'a'\nEditINI('f', 's', 'k', n)\n"
            "Case 'b'\nExec(\"t += 'b'\\nRenamePlugin str(n), t\")\nBreak\nDefault\nt = 'd'\nEndSelect\nSelectSubPackage 'P' + str(n % 40)\nDeSelectPlugin '3.esp'\nEndFor"
        )
        o = Oracle(5)
        runner = RecRunner(SubPackages([RealSub(f"P{i}", [f"{i}.esp"]) for i in range(40)]), o)
        fps = []

        class Visited(list):
            def append(self, c):
                list.append(self, c)
                fps.append(fingerprint(c))

        visited = Visited()
        end = drive_(runner.make_top_level_context(script), o, 100000, visited)
        first = end.outcome()
        if end.kind[0] != "COMPLETE":
            raise Violation(f"C13: a long execution ends with {end.kind} {end.error!r}", script=script)
        for i in range(0, len(visited), len(visited) // 12):
            for seed in (1, 5):
                e = drive_(visited[i], Oracle(seed), 100000)
                if seed == 5 and e.outcome() != first:
                    raise Violation(f"C13: another outcome when executed again from context {i} of a long execution", script=script, first=first, again=e.outcome())
        for i, (c, f) in enumerate(zip(visited, fps)):
            if fingerprint(c) != f:
                raise Violation(f"C13: context {i} ({type(c).__name__}) of a long execution changed", before=f, after=fingerprint(c))
        ctx.count("large")
        ctx.maximum("contexts of the large execution", len(visited))

    def case(self, ctx):
        r = ctx.rnd
        subs = make_subs(r)
        g = Gen(
            r, subs, mix=0.2, trace=0.3, depth=2, manager=0.3, effects=0.3, kw=r.choice([1, 5]), ini=0.7, exec_=0.5, select=1.5, while_=1, forrange=1, forin=0.7,
            break_=1, continue_=1, errors=r.choice([0, 0, 0.02]), body=r.choice([2, 3, 5]), nest=3, total=r.choice([5, 10, 20]), cancel=0.1,
            return_=0.1,
        )
        short = r.random() < 0.45
        prog = chain(r, True) if short else g.program()
        script, pr = render(prog)
        seed = r.getrandbits(30)
        ref = Ref(subs, Oracle(seed))
        res = ref.run(prog, pr)
        limit = 300 + 30 * int(ref.steps)
        o = Oracle(seed)
        runner = RecRunner(real_subs(subs), o)
        top = runner.make_top_level_context(script)

        def drive(c, oracle, *a):
            # (the functions of the manager are answered by the same one)
            runner.oracle = oracle
            return drive_(c, oracle, *a)

        fps = []

        class Visited(list):
            def append(self, c):
                # (as it is before it is executed)
                list.append(self, c)
                fps.append(fingerprint(c))

        visited = Visited()
        end = drive(top, o, limit, visited)
        events = list(o.events)
        first = end.outcome()

        def fail(what, **k):
            raise Violation("C13: " + what, script=script, subpackages=[(s.name, s.files) for s in subs], seed=seed, **k)

        if end.kind[0] == "LIMIT":
            fail("the program does not end")
        if end.kind[0] != res[0]:
            fail(f"expected {res[0]}, got {end.kind[0]} {safe(end.error)}")

        def unchanged(when):
            for i, (c, f) in enumerate(zip(visited, fps)):
                g = fingerprint(c)
                ctx.count("contexts checked")
                if g != f:
                    fail(f"context {i} ({type(c).__name__}) changed {when}", before=f, after=g)

        unchanged("during the execution")
        k = r.choice([1, 2, 3])
        for _ in range(k):
            # again from any context, with the same answers
            i = r.randrange(len(visited))
            o.events = []
            e2 = drive(visited[i], o, limit)
            ctx.count("executed again")
            if e2.kind[0] == "ERROR":
                ctx.count("errors again")
            if e2.outcome() != first:
                fail(f"another outcome when executed again from context {i}", first=first, again=e2.outcome())
            tail = [e for e in o.events if e[0] != "warning"]
            evs = [e for e in events if e[0] != "warning"]
            if tail != evs[len(evs) - len(tail) :]:
                fail(f"other calls when executed again from context {i}", first=evs, again=tail)
            # with other answers, twice
            i = r.randrange(len(visited))
            sel = [j for j, c in enumerate(visited) if hasattr(c, "select")]
            if sel and r.random() < 0.6:
                i = r.choice(sel)
                ctx.count("selects branched")
            other = r.getrandbits(30)
            a = drive(visited[i], Oracle(other), limit)
            oa = a.outcome()
            b = drive(visited[i], Oracle(other), limit)
            ctx.count("branches")
            if b.outcome() != oa and "LIMIT" not in (a.kind[0], b.kind[0]):
                fail(f"two outcomes for the same answers from context {i}", first=oa, again=b.outcome())
            if sel:
                # not answered, now that it was: its defaults
                c = visited[r.choice(sel)]
                a = drive(c.exec(), Oracle(other), limit)
                oa = a.outcome()
                b = drive(c.select(c.defaults if hasattr(c, "defaults") else c.default).exec(), Oracle(other), limit)
                if b.outcome() != oa and "LIMIT" not in (a.kind[0], b.kind[0]):
                    fail("a choice which is not answered, after it was, does not take its defaults", unanswered=oa, defaults=b.outcome())
                ctx.count("unanswered")
                if hasattr(c, "defaults"):
                    # the list answered stays the caller's, repeated options included
                    chosen = [r.choice(c.options) for _ in range(r.randint(0, len(c.options) + 1))]
                    given = list(chosen)
                    d = c.select(given)
                    oa = drive(d.exec(), Oracle(other), limit).outcome()
                    if len(given) != len(chosen) or any(x is not y for x, y in zip(given, chosen)):
                        fail("the list which was answered was modified")
                    given[:] = c.options[:1]
                    if drive(d.exec(), Oracle(other), limit).outcome() != oa and oa[0][0] != "LIMIT":
                        fail("an answer changed, or changes with the list of the caller")
                    ctx.count("lists answered")
            unchanged("by executing other branches")
            if end.outcome() != first:
                fail("the final state changed by executing other branches")
        if len(visited) <= 40 and (short or r.random() < 0.2):
            # from everywhere, with other answers, then with the same ones
            for i in range(len(visited)):
                for _ in range(2):
                    drive(visited[i], Oracle(r.getrandbits(30)), limit)
            for i in range(len(visited)):
                if drive(visited[i], Oracle(seed), limit).outcome() != first:
                    fail(f"another outcome when executed again from context {i}, after other answers", first=first)
            unchanged("by executing everything with other answers")
            ctx.count("everywhere")
        # copies of a state are independent of it
        c = r.choice(visited)
        cp = c.state.copy()
        if real_state(cp) != real_state(c.state) or type(cp) is not type(c.state):
            fail("a copy of a state is not equal to it")
        before = real_state(c.state)
        for n in list(cp.variables):
            cp.set(n, Value("changed"))
        cp.set("a new one", Value(1))
        kv = runner.make_top_level_context("SelectAll", cp)
        drive(kv, Oracle(0), 100)
        if real_state(c.state) != before:
            fail("a state changed when its copy was modified")
        ctx.count("copies")
        ctx.maximum("contexts", len(visited))
        if len(visited) >= 10:
            ctx.nontrivial(script)
            ctx.sample({"script": script[:1500], "contexts": len(visited), "outcome": repr(first)[:500]})


CHECK = C()
