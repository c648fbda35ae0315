import gc
import os
import sys
import tracemalloc

from .. import env
from ..harness import Check, Violation
from ..model import safe
from ..rec import Oracle, RecRunner, StepLimit, cpu_watchdog, monitor, real_subs
from ..ref import Sub

from wizard.contexts import (
    WizardInterpreterContext,
    WizardReturnContext,
    WizardSelectManyContext,
    WizardSelectOneContext,
)
from wizard.manager import SelectOption
from wizard.state import WizardInterpreterState

SUBS = [Sub("A", ["a.esp", "b.txt"]), Sub("B", ["c.esm"]), Sub("C", [])]


class Watch(RecRunner):
    """Counts what is alive, and the depth of the stack, at chosen calls."""

    def __init__(self, n, oracle, rewinds=0):
        super().__init__(real_subs(SUBS), oracle)
        self.n = n
        self.samples = []
        self.marks = ()
        self.blocks = []
        self.seen = 0
        self.rewinds = rewinds
        self.rewound = 0
        self.kept = None
        self.calls = 0

    def getFolder(self, path):
        self.seen += 1
        if self.seen in self.marks:
            gc.collect()
            self.blocks.append(sys.getallocatedblocks())
        if self.seen == self.n:
            gc.collect()
            k = [0, 0, 0]
            for o in gc.get_objects():
                if isinstance(o, WizardInterpreterContext):
                    k[0] += 1
                elif isinstance(o, WizardInterpreterState):
                    k[1] += 1
                elif isinstance(o, SelectOption):
                    k[2] += 1
            self.samples.append((tuple(k), self.stack(), self.depth()))
        return "f"

    def getFilename(self, path):
        return path

    def stack(self):
        n = 0
        f = sys._getframe()
        while f is not None:
            n += 1
            f = f.f_back
        return n

    def depth(self):
        c = self.context()
        n = 0
        while c.parent is not c:
            c = c.parent
            n += 1
            if n > 10**6:
                return -1
        return n

    def requiresVersions(self, game, se, ge, wb):
        self.calls += 1
        if game == "mark":
            self.kept = self.context()
        elif game == "again" and self.rewound < self.rewinds:
            self.rewound += 1
            self.rewind(self.kept)

    def selectOne(self, description, options, default):
        return options[-1]

    def selectMany(self, description, options, default=[]):
        return list(options)[::2]

    def warning(self, text):
        pass


class Work:
    """Counts the lines and calls of the code under test (the generated parser excluded)."""

    def __init__(self):
        self.n = 0
        self.on = False

    def start(self):
        mon = sys.monitoring
        if not self.on:
            self.on = True
            mon.use_tool_id(mon.PROFILER_ID, "wv-work")
            prefix = os.path.join(env.SRC, "wizard") + os.sep
            skip = os.path.join(prefix, "antlr4") + os.sep
            ours = {}

            def seen(code, *_):
                o = ours.get(code)
                if o is None:
                    f = code.co_filename
                    o = ours[code] = f.startswith(prefix) and not f.startswith(skip)
                if not o:
                    return mon.DISABLE
                self.n += 1

            mon.register_callback(mon.PROFILER_ID, mon.events.LINE, seen)
            mon.register_callback(mon.PROFILER_ID, mon.events.PY_START, seen)
            mon.register_callback(mon.PROFILER_ID, mon.events.JUMP, seen)
        self.n = 0
        mon.set_events(mon.PROFILER_ID, mon.events.LINE | mon.events.PY_START | mon.events.JUMP)

    def stop(self):
        sys.monitoring.set_events(sys.monitoring.PROFILER_ID, 0)
        return self.n


WORK = Work()


class Build:
    """A block whose executions all take the same steps, and the nesting of it."""

    def __init__(self, r):
        self.r = r
        self.n = 0
        self.out = []

    def name(self):
        self.n += 1
        return "n%d" % self.n

    def block(self, nest, loop, size, ind=0):
        for _ in range(self.r.randint(1, size)):
            self.one(nest, loop, size)

    def one(self, nest, loop, size):
        r = self.r
        o = self.out
        k = r.randrange(17 if nest > 0 else 6)
        if k == 0:
            o.append("v = %d + %d" % (r.randint(0, 9), r.randint(0, 9)))
        elif k == 1:
            o.append(r.choice(["SelectAll", "DeSelectAll", "SelectSubPackage 'a'", "SelectPlugin 'A.ESP'", "SelectAllPlugins", "DeSelectPlugin 'x'", "RenamePlugin 'a', 'b'", "ResetAllPluginNames"]))
            # (an expression on the next line would be an argument)
            o += ["If True", "EndIf"]
        elif k == 2:
            o.append(r.choice(["y = old", "len('abc')", "GetFilename('x')", "'abc'.find('b')", "t = 'abc'[1:]", "u = 0", "u += 2", "w = SubPackages[0]"]))
        elif k == 3:
            if r.random() < 0.5:
                # (never the same text)
                o += ["cc += 1", "Exec('x = ' + str(cc) + '\\nIf x\\nx += 1\\nEndIf')"]
            else:
                o.append("Exec('x = 1\\nIf x\\nx += 1\\nEndIf')")
        elif k == 4:
            o.append("RequireVersions '1', '2'")
        elif k == 5:
            # a jump under a condition which never holds
            o += ["If False", r.choice(["Return", "Cancel 'x'"] + (["Break", "Continue"] if loop else [])), "EndIf"]
        elif k in (6, 7):
            c = r.choice(["True", "False", "1 == 1"])
            o.append("If " + c)
            self.block(nest - 1, loop, size)
            if r.random() < 0.5:
                o.append("Elif " + r.choice(["True", "False"]))
                self.block(nest - 1, loop, size)
            if r.random() < 0.5:
                o.append("Else")
                self.block(nest - 1, loop, size)
            o.append("EndIf")
        elif k in (8, 9):
            v = self.name()
            o.append(r.choice(["For %s from 1 to 2", "For %s from 3 to 0 by -1", "For %s in 'ab'", "For %s in SubPackages", "For %s in SubPackages[0]"]) % v)
            self.block(nest - 1, True, size)
            self.jump()
            o.append("EndFor")
        elif k == 10:
            v = self.name()
            o += ["%s = 0" % v, "While %s < %d" % (v, r.randint(0, 2)), "%s += 1" % v]
            self.block(nest - 1, True, size)
            self.jump()
            o.append("EndWhile")
        elif k in (11, 12):
            many = r.random() < 0.5
            o.append('%s "d", "A", "", "", "|B", "", "", "C", "", ""' % ("SelectMany" if many else "SelectOne"))
            for c in "ABC"[: r.randint(1, 3)]:
                o.append('Case "%s"' % c)
                self.block(nest - 1, loop, size)
                if r.random() < 0.7:
                    o.append("Break")
            if r.random() < 0.6:
                o.append("Default")
                self.block(nest - 1, loop, size)
                if r.random() < 0.7:
                    o.append("Break")
            o.append("EndSelect")
        elif k == 13:
            inner = Build(r)
            inner.block(0, False, 2)
            body = "\n".join(x for x in inner.out if "Exec" not in x)
            o.append("Exec('%s')" % body.replace("\\", "\\\\").replace("'", "\\'").replace("\n", "\\n"))
        else:
            # (more of the loops with jumps)
            v = self.name()
            o.append("For %s from 1 to 3" % v)
            o += ["If %s == 2" % v, r.choice(["Continue", "Break"]), "EndIf"]
            self.block(nest - 1, True, size)
            o.append("EndFor")

    def jump(self):
        if self.r.random() < 0.3:
            self.out.append(self.r.choice(["Break", "Continue"]))


class C(Check):
    id = "C21"
    rule = (
        "random blocks run N, 2N and 3N times (by each kind of loop, by rewinding, in a straight line, in chains of"
        " Elif and of Case): steps, contexts alive, length of the chain of contexts and stack compared; non-trivial: all"
    )
    require = (
        "for range", "for in", "while", "while continue", "rewinds", "straight", "elif", "cases", "for continue", "nested", "deep nesting", "straight exec", "work compared", "memory compared", "exec_until", "kept compared",
    )
    min_evals = 40
    case_cpu = 300

    def run1(self, script, n, probe, rewinds=0, seen=None, work=False, marks=()):
        w = self.w = Watch(seen if seen is not None else n, Oracle(1), rewinds)
        w.marks = marks
        m = monitor()
        m.reset(2000 + n * 4000)
        self.work = 0
        try:
            with cpu_watchdog(120):
                if work:
                    WORK.start()
                st, state = w.run("cc = 1000000\n" + script)
                # (reading the variables is part of it)
                for k in state.variables:
                    state.variables[k]
                dict(state.variables)
        except StepLimit:
            raise Violation("C21: too many steps", script=script[:3000], n=n)
        finally:
            m.limit = None
            if work:
                self.work = WORK.stop()
        if st.name != "COMPLETE":
            raise Violation(f"C21: ended with {st.name}: {safe(w.errors[-1]) if w.errors else ''}", script=script[:3000], n=n)
        if probe and not w.samples:
            raise Violation("C21: the last iteration was not reached", script=script[:3000], n=n, seen=w.seen)
        return m.steps, (w.samples[0] if w.samples else None)

    def compare(self, ctx, kind, mk, base, rewinds=False):
        ns = [base, 2 * base, 3 * base]
        got = []
        works = []
        work = ctx.rnd.random() < 0.5 or base >= 50
        for n in ns:
            script = mk(n)
            got.append(self.run1(script, n, True, n - 1 if rewinds else 0, work=work))
            works.append(self.work)
        if work:
            d1, d2 = works[1] - works[0], works[2] - works[1]
            if d2 > d1 * 1.01 + 30:
                raise Violation(f"C21: {kind}: {ns} iterations take {works} lines and calls of the interpreter", script=mk(base)[:3000])
            ctx.count("work", sum(works))
            ctx.count("work compared")
        if base >= 150 and "straight" not in kind:
            # the memory, at three times of the same execution (what is allocated once was)
            self.run1(mk(ns[-1]), ns[-1], True, ns[-1] - 1 if rewinds else 0, marks=ns)
            bl = self.w.blocks
            if len(bl) != 3 or min(bl[1] - bl[0], bl[2] - bl[1]) > 0.5 * base:
                raise Violation(f"C21: {kind}: {bl} blocks of memory are allocated after {ns} iterations", script=mk(base)[:3000])
            ctx.count("memory compared")
            ctx.maximum("blocks more", max(bl[1] - bl[0], bl[2] - bl[1]))
        s = [g[0] for g in got]
        if s[1] - s[0] != s[2] - s[1]:
            raise Violation(f"C21: {kind}: {ns} iterations take {s} steps", script=mk(base)[:3000])
        for i, what in enumerate(("contexts, states and options alive", "frames on the stack", "contexts between the current one and the top")):
            v = [g[1][i] for g in got]
            if not (v[0] == v[1] == v[2]):
                raise Violation(f"C21: {kind}: {what} after {ns} iterations: {v}", script=mk(base)[:3000])
        ctx.count(kind)
        ctx.count("iterations", sum(ns))
        ctx.count("steps", sum(s))
        ctx.maximum("iterations", ns[-1])
        ctx.maximum("depth", got[0][1][2])
        ctx.nontrivial((kind, mk(base)))
        ctx.sample({"kind": kind, "n": ns, "steps": s, "alive": got[0][1][0], "script": mk(base)[:600]})

    def case(self, ctx):
        r = ctx.rnd
        b = Build(r)
        big = ctx.i % 80 < 8 and ctx.i >= 8
        b.block(r.choice([0, 1, 2, 3]) if not big else r.choice([0, 1]), True, r.choice([1, 2, 3]) if not big else 1)
        if big and r.random() < 0.35:
            # (a text which is never the same)
            b.out[:0] = ["cc += 1", r.choice(["Exec('x = ' + str(cc))", "Exec('x = 1\\n;' + str(cc))", "x = 'a' + str(cc)", "GetFilename('a' + str(cc))"])]
        blk = "\n".join(b.out)
        if big:
            base = r.choice([150, 150, 300])
        else:
            base = r.choice([3, 6, 6, 12])
        probe = "GetFolder('p')"
        kind = r.choice(
            ["for range", "for in", "while", "while continue", "for continue", "rewinds", "straight", "straight", "elif", "cases", "nested", "deep nesting", "straight exec"])
        if kind == "for range":
            form = r.choice(["For it from 1 to %d", "For it from 0 to %d - 1", "For it from %d to 1 by -1"])
            mk = lambda n: f"old = 5\nv = 0\nu = 0\n{form % n}\n{blk}\n{probe}\nEndFor"
        elif kind == "for in":
            mk = lambda n: f"old = 5\nv = 0\nu = 0\nFor it in '{'x' * n}'\n{blk}\n{probe}\nEndFor"
        elif kind == "while":
            mk = lambda n: f"old = 5\nv = 0\nu = 0\nit = 0\nWhile it < {n}\nit += 1\n{blk}\n{probe}\nEndWhile"
        elif kind == "while continue":
            mk = lambda n: f"old = 5\nv = 0\nu = 0\nit = 0\nWhile it < {n}\nit += 1\n{blk}\n{probe}\nIf True\nContinue\nEndIf\nEndWhile"
        elif kind == "for continue":
            mk = lambda n: f"old = 5\nv = 0\nu = 0\nFor it from 1 to {n}\n{blk}\n{probe}\nSelectMany 'd', 'A', '', ''\nCase 'A'\nContinue\nEndSelect\nEndFor"
        elif kind == "nested":
            # a loop of constant size in the loop, the probe after it
            mk = lambda n: f"old = 5\nv = 0\nu = 0\nFor it from 1 to {n}\nFor jt from 1 to 4\n{blk}\nIf jt == 3\nBreak\nEndIf\nEndFor\n{probe}\nEndFor"
        elif kind == "rewinds":
            base = min(base, 150)
            mk = lambda n: f"old = 5\nv = 0\nu = 0\nRequireVersions 'mark'\n{self.nojump(blk)}\n{probe}\nRequireVersions 'again'"
            return self.compare(ctx, kind, mk, base, True)
        elif kind == "straight":
            base = min(base, 60)
            mk = lambda n, blk=self.noloop(r): "old = 5\nv = 0\nu = 0\n" + f"{blk}\n{probe}\n" * n
        elif kind == "straight exec":
            base = min(base, 24)
            mk = lambda n: "old = 5\nv = 0\n" + "Exec(\"v = 1\\nExec('v = 2')\\nGetFolder('q')\")\n" * n
        elif kind == "elif":
            mk = lambda n: "old = 5\nv = 0\nu = 0\nFor it from 1 to %d\nIf False\n%s\nEndIf\n%s\nEndFor" % (n, "Elif False\nv = 1\n" * 20 + "Else\nv = 2", probe)
        elif kind == "cases":
            many = r.choice(["SelectOne", "SelectMany"])
            brk = r.choice(["", "Break\n"])
            mk = lambda n: "old = 5\nv = 0\nFor it from 1 to %d\n%s 'd', 'A', '', '', 'B', '', ''\n%sEndSelect\n%s\nEndFor" % (
                n, many, "".join(f"Case '{c}'\nv = 1\n{brk}" for c in "XABYAB"), probe)
        else:
            return self.deep(ctx)
        self.compare(ctx, kind, mk, base)

    def nojump(self, blk):
        return blk.replace("If False\nBreak\n", "If False\n").replace("If False\nContinue\n", "If False\n")

    def noloop(self, r):
        b = Build(r)
        b.block(r.choice([0, 1, 1]), False, 3)
        return "\n".join(b.out)

    def deep(self, ctx):
        """The chain of contexts grows with the nesting, by a constant per level."""
        r = ctx.rnd
        shapes = {
            "if": ("If True", "EndIf"),
            "for": ("For k%d from 1 to 1", "EndFor"),
            "while": ("w%d = 0\nWhile w%d < 1\nw%d = 1", "EndWhile"),
            "case": ("SelectOne 'd', 'A', '', ''\nCase 'A'", "Break\nEndSelect"),
        }
        ks = [r.choice(sorted(shapes)) for _ in range(r.randint(1, 3))]

        def mk(n):
            head, tail = [], []
            for i in range(n):
                h, t = shapes[ks[i % len(ks)]]
                head.append(h.replace("%d", str(i)))
                tail.append(t)
            return "v = 0\n" + "\n".join(head) + "\nGetFolder('p')\n" + "\n".join(reversed(tail))

        base = 2 * len(ks)
        got = [self.run1(mk(n), n, True, seen=1) for n in (base, 2 * base, 3 * base)]
        d = [g[1][2] for g in got]
        s = [g[0] for g in got]
        alive = [g[1][0] for g in got]
        st = [g[1][1] for g in got]
        if d[1] - d[0] != d[2] - d[1] or s[1] - s[0] != s[2] - s[1] or len(set(st)) != 1:
            raise Violation(f"C21: nesting {ks}: depth {d}, steps {s}, stack {st}", script=mk(base))
        if any(alive[1][i] - alive[0][i] != alive[2][i] - alive[1][i] for i in range(3)):
            raise Violation(f"C21: nesting {ks}: alive {alive}", script=mk(base))
        ctx.count("deep nesting")
        ctx.nontrivial(("deep", tuple(ks)))
        ctx.maximum("depth", d[-1])

    def fixed_large(self, ctx):
        """Many iterations: neither the stack nor the chain may grow with them."""
        for mk, n in (
            (lambda n: f"old = 5\nx = 0\nFor i from 1 to {n}\nx += 1\ny = old\nGetFolder('p')\nEndFor", 6000),
            (lambda n: f"old = 5\nx = 0\nWhile x < {n}\nx += 1\ny = old\nGetFolder('p')\nIf True\nContinue\nEndIf\nEndWhile", 4000),
        ):
            self.run1(mk(n), n, True)
            ctx.count("large")
            ctx.maximum("iterations", n)

    def fixed_kept(self, ctx):
        """What the contexts of some iterations take, when they are kept, does not depend on the length of the loop."""

        def kept(script, at, steps):
            w = RecRunner(real_subs(SUBS), Oracle(1))
            c = w.make_top_level_context(script)
            for _ in range(at):
                c = c.exec()
            gc.collect()
            tracemalloc.start()
            try:
                a = tracemalloc.get_traced_memory()[0]
                keep = [c]
                for _ in range(steps):
                    keep.append(keep[-1].exec())
                return tracemalloc.get_traced_memory()[0] - a
            finally:
                tracemalloc.stop()

        for kind, mk, small, large in (
            ("range", lambda n: f"For i from 1 to {n}\nx = 1\nEndFor", 60, 20000),
            ("characters", lambda n: f"For i in '{'x' * n}'\nx = 1\nEndFor", 60, 20000),
            ("statements", lambda n: "x = 1\n" * n, 80, 1500),
            ("cases", lambda n: "SelectMany 'd', " + ", ".join(f"'|{i}', '', ''" for i in range(n)) + "\n" + "".join(f"Case '{i}'\nBreak\n" for i in range(n)) + "EndSelect", 60, 700),
        ):
            got = [kept(mk(n), 60, 60) for n in (small, small, large)][1:]
            if got[1] > got[0] * 2 + 30000:
                raise Violation(f"C21: keeping 60 contexts of {large} {kind} takes {got[1]} bytes, {got[0]} for {small}", script=mk(small)[:500])
            ctx.count("kept compared")
            ctx.maximum("bytes kept", got[1])

    def fixed_until(self, ctx):
        """As many steps with a single call of exec_until()."""
        for script, n in (
            ("x = 0\nFor i from 1 to 4000\nx += 1\nEndFor", 4000),
            ("x = 0\nWhile x < 3000\nx += 1\nEndWhile", 3000),
            ("x = 0\n" + "x += 1\n" * 2000, 2000),
        ):
            for stops in ([], [WizardSelectOneContext, WizardSelectManyContext], (WizardReturnContext,)):
                w = RecRunner(real_subs(SUBS), Oracle(1))
                try:
                    c = w.exec_until(w.make_top_level_context(script), stops)
                except RecursionError:
                    raise Violation(f"C21: exec_until() cannot execute {n} iterations", script=script[:200])
                if c.state.variables["x"].value != n:
                    raise Violation(f"C21: exec_until(): x is {c.state.variables['x'].value} after {n} iterations", script=script[:200])
                ctx.count("exec_until")


CHECK = C()
