"""Stepping through contexts by hand, with the public API only."""

from wizard.contexts import (
    WizardSelectManyContext,
    WizardSelectOneContext,
    WizardTerminationContext,
)

from .rec import errclass, opt, real_state
from .ref import AbortEx


def choose(ctx, oracle):
    """Selects what the oracle answers."""
    if isinstance(ctx, WizardSelectOneContext):
        n = oracle.ask("selectOne", ctx.description, [opt(o) for o in ctx.options], opt(ctx.default))
        return ctx.select(next(o for o in ctx.options if o.name == n))
    if isinstance(ctx, WizardSelectManyContext):
        ns = oracle.ask(
            "selectMany", ctx.description, [opt(o) for o in ctx.options], [opt(o) for o in ctx.defaults]
        )
        return ctx.select([o for o in ctx.options if o.name in ns])
    return ctx


class End:
    def __init__(self, kind, ctx, error=None, path=()):
        self.kind = kind
        self.ctx = ctx
        self.error = error
        self.path = path

    def outcome(self):
        """Comparable."""
        return (self.kind, errclass(self.error) if self.error else None, real_state(self.ctx.state))


def kind_of(ctx):
    if ctx.is_cancel():
        return ("CANCEL", ctx.message())
    if ctx.is_return():
        return ("RETURN", None)
    assert ctx.is_complete()
    return ("COMPLETE", None)


def drive(ctx, oracle, limit, record=None):
    """Run until the end; `record` is a list which receives the contexts."""
    n = 0
    while True:
        if record is not None:
            record.append(ctx)
        if isinstance(ctx, WizardTerminationContext):
            return End(kind_of(ctx), ctx)
        n += 1
        if n > limit:
            return End(("LIMIT", None), ctx)
        try:
            ctx = choose(ctx, oracle).exec()
        except AbortEx:
            return End(("ABORT", None), ctx)
        except Exception as ex:
            return End(("ERROR", None), ctx, ex)


def fingerprint(ctx):
    """What can be seen of a context."""
    f = [type(ctx).__name__, real_state(ctx.state), id(ctx.context), id(ctx.parent), ctx.is_top_level()]
    if isinstance(ctx, (WizardSelectOneContext, WizardSelectManyContext)):
        f.append((ctx.description, [opt(o) for o in ctx.options]))
        if isinstance(ctx, WizardSelectOneContext):
            f.append(opt(ctx.default))
        else:
            f.append([opt(o) for o in ctx.defaults])
    if isinstance(ctx, WizardTerminationContext):
        f.append(kind_of(ctx))
    return f
