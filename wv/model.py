"""Checks which compare runs of generated programs with the reference model."""

import copy

from .gen import Gen, make_subs
from .harness import Check, Violation
from .lang import N, render, walk
from .rec import (
    HOST_OK,
    Oracle,
    diff_events,
    diff_state,
    errclass,
    ref_state,
    run_real,
)
from .ref import HOST, Ref, TooBig


def node_pos(err):
    n = err.node
    return err.pr.pos[(n[0], id(n[1])) if isinstance(n, tuple) else id(n)]


def compare(ref_result, ref, ref_oracle, out, positions=False, keys=None, events=True):
    """The first difference between the model and the real run, or None."""
    status, state, err = ref_result
    if status != out.status:
        if out.status == "STEPLIMIT":
            return (
                f"expected {status} after {int(ref.steps)} steps of the model, but the"
                f" script is still running after {out.steps} steps"
            )
        return (
            f"expected {status} ({err.cls if err else ''}), got {out.status}"
            f" ({type(out.error).__name__ if out.error else ''}: {safe(out.error)})"
        )
    if events:
        d = diff_events(ref_oracle.events, out.events)
        if d:
            return d
    if err is not None:
        c = errclass(out.error)
        if c != err.cls:
            return f"expected {err.cls}, got {c}: {safe(out.error)}"
        if positions and err.cls != HOST and err.pr is not None and err.node is not None:
            p = node_pos(err)
            if p != (out.error.line, out.error.column):
                return (
                    f"expected {err.cls} at {p}, got"
                    f" {(out.error.line, out.error.column)}: {safe(out.error)}"
                )
    return diff_state(ref_state(state), out.state, keys)


def safe(ex):
    try:
        return str(ex)
    except Exception as e:
        return f"<{type(e).__name__} when rendering it: {e}>"


class ModelCheck(Check):
    profile = {}
    positions = False
    keys = None
    styles = ("plain",)
    parens = 0.0
    alt = 0.3
    history = False
    severities = None
    steps_factor = 30

    def program(self, ctx, subs):
        g = Gen(ctx.rnd, subs, **dict(dict(mix=0.3), **self.draw_profile(ctx)))
        return g.program()

    def draw_profile(self, ctx):
        return self.profile

    def subs(self, ctx):
        return make_subs(ctx.rnd)

    def case(self, ctx):
        subs = self.subs(ctx)
        prog = self.program(ctx, subs)
        self.check_program(ctx, subs, prog)

    def draw_options(self, ctx):
        r = ctx.rnd
        return dict(
            style=r.choice(self.styles),
            parens=r.choice([0, self.parens]),
            alt=r.choice([0, self.alt]),
            fresh=r.choice([0, 1, 2]),
            seed=r.getrandbits(30),
        )

    def trial(self, subs, prog, o, rnd, severities=None):
        """Returns (difference, script, ref, reference result, outcome)"""
        script, pr = render(prog, rnd, o["parens"], o["alt"], o["style"])
        ro = Oracle(o["seed"], self.history)
        ref = self.make_ref(subs, ro, severities)
        res = ref.run(prog, pr)
        oo = Oracle(o["seed"], self.history)
        out = run_real(
            script,
            subs,
            oo,
            severities,
            limit=300 + self.steps_factor * int(ref.steps),
            fresh=o["fresh"],
        )
        d = compare(res, ref, ro, out, self.positions, self.keys)
        if d is None:
            d = self.extra(res, ref, out)
        if d is None and out.runner.problems:
            d = out.runner.problems[0]
        return d, script, ref, res, out

    def make_ref(self, subs, oracle, severities):
        return Ref(subs, oracle, severities)

    def extra(self, res, ref, out):
        return None

    def check_program(self, ctx, subs, prog, severities=None, o=None):
        o = o or self.draw_options(ctx)
        d, script, ref, res, out = self.trial(subs, prog, o, ctx.rnd, severities)
        self.observe(ctx, script, ref, res, out)
        if d is not None:
            if out.status not in ("HANG",):
                script, d = self.shrink(subs, prog, o, script, d, severities)
            raise Violation(
                f"{self.id}: {d}",
                script=script,
                subpackages=[(s.name, s.files) for s in subs],
                severities=severities,
                options=o,
            )
        return ref, res, out, script

    def observe(self, ctx, script, ref, res, out):
        ctx.count("status " + res[0])
        ctx.count("events", len(out.events))
        ctx.count("steps", out.steps)
        ctx.maximum("nesting", ref.maxdepth)
        ctx.maximum("steps", out.steps)
        for k in ref.cov:
            if isinstance(k, str):
                ctx.count("ran " + k)
            elif k[0] == "kw":
                ctx.count("keyword " + k[1])
            elif k[0] == "issue":
                ctx.count("issue %s %s" % k[1:])
            elif k[0] == "fn":
                ctx.count("function " + k[1])
        if self.is_nontrivial(ref, res, out):
            ctx.nontrivial(script)
            ctx.sample(
                {
                    "script": script if len(script) < 1500 else script[:1500] + "...",
                    "status": out.status,
                    "events": [repr(e) for e in out.events[:8]],
                }
            )

    def is_nontrivial(self, ref, res, out):
        return True

    def shrink(self, subs, prog, o, script, d, severities):
        """Drop statements while the difference remains (bounded)."""
        o = dict(o, style="plain", parens=0, alt=0)
        prog = copy.deepcopy(prog)

        def fails():
            try:
                dd, s, ref, res, out = self.trial(subs, prog, o, None, severities)
            except TooBig:
                return None
            except Violation:
                raise
            except Exception:
                return None
            return None if dd is None or out.status == "HANG" else (dd, s)

        got = fails()
        if got is None:
            return script, d
        budget = 150
        changed = True
        while changed and budget > 0:
            changed = False
            for body in bodies(prog):
                i = 0
                while i < len(body) and budget > 0:
                    budget -= 1
                    x = body.pop(i)
                    r = fails()
                    if r is None:
                        body.insert(i, x)
                        i += 1
                    else:
                        got = r
                        changed = True
        return got[1], got[0]


def bodies(prog):
    out = [prog]
    for n in walk(prog):
        for a in ("body", "els", "default", "cases"):
            b = n.__dict__.get(a)
            if isinstance(b, list):
                out.append(b)
        if n.k == "if":
            out.append(n.elifs)
            out.extend(b for _, b in n.elifs)
    return out
