"""
Runs a check: forked workers produce cases until the time budget is used, the
parent merges what they observed, writes the evidence and gives the verdict.

Verdicts: 0 held on what was observed, 1 violation (with a VIOLATION line),
3 inconclusive (the deciding monitors did not observe enough).
"""

import gc
import hashlib
import json
import mmap
import os
import pickle
import random
import select
import signal
import sys
import time
import traceback

from . import env
from .rec import Hang, StepLimit
from .ref import TooBig


class Violation(Exception):
    def __init__(self, what, key=None, **details):
        super().__init__(what)
        self.what = what
        self.key = key  # mechanism, for known findings
        self.details = details


class Ctx:
    """What a case uses to draw its choices and report what it observed."""

    def __init__(self, check, tier):
        self.check = check
        self.tier = tier
        self.counts = {}
        self.maxima = {}
        self.keys = set()
        self.samples = []
        self.evals = 0
        self.rnd = None
        self.i = None

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def maximum(self, name, n):
        self.maxima[name] = max(self.maxima.get(name, 0), n)

    def nontrivial(self, key):
        if len(self.keys) >= 300_000:  # (memory: what is reported is a lower bound)
            return
        self.keys.add(
            int.from_bytes(hashlib.blake2b(repr(key).encode(), digest_size=8).digest(), "big")
        )

    def sample(self, obj):
        if len(self.samples) < 3:
            self.samples.append(obj)


# ------------------------------------------------------------- lines observed


class Lines:
    """Lines of the code under test which were executed (sys.monitoring)."""

    def __init__(self):
        self.seen = set()
        self.prefix = os.path.join(env.SRC, "wizard") + os.sep
        self.skip = os.path.join(self.prefix, "antlr4") + os.sep

    def start(self):
        mon = sys.monitoring
        self.tool = mon.COVERAGE_ID
        mon.use_tool_id(self.tool, "wv")

        def line(code, n):
            f = code.co_filename
            if f.startswith(self.prefix) and not f.startswith(self.skip):
                self.seen.add((f[len(self.prefix) :], n))
            return mon.DISABLE

        mon.register_callback(self.tool, mon.events.LINE, line)
        mon.set_events(self.tool, mon.events.LINE)

    def executable(self):
        total = {}
        for d, _, fs in os.walk(self.prefix):
            if d.startswith(self.skip.rstrip(os.sep)):
                continue
            for f in fs:
                if f.endswith(".py"):
                    p = os.path.join(d, f)
                    with open(p, encoding="utf-8") as fp:
                        code = compile(fp.read(), p, "exec")
                    lines = set()
                    stack = [code]
                    while stack:
                        c = stack.pop()
                        if c is not code and c.co_flags & 0x3:
                            lines.update(l for _, _, l in c.co_lines() if l)
                        stack.extend(x for x in c.co_consts if hasattr(x, "co_code"))
                    total[p[len(self.prefix) :]] = lines
        return total


# ------------------------------------------------------------------- workers


def case_rnd(check, seed, i):
    return random.Random(f"{check.id}/{seed}/{i}")


def one(check, ctx, seed, i):
    ctx.rnd = case_rnd(check, seed, i)
    ctx.i = i
    check.case(ctx)


def unexpected(ex):
    """
    A violation if the exception comes from the code under test itself, in a place
    where the check expected none; None if the check itself is at fault.
    """
    tb = traceback.extract_tb(ex.__traceback__)
    if tb and any(os.path.realpath(f.filename).startswith(os.path.realpath(env.SRC)) for f in tb):
        return Violation(
            f"unexpected {type(ex).__name__}: {ex}",
            traceback="".join(traceback.format_exception(ex)),
        )
    if isinstance(ex, (AttributeError, TypeError, LookupError, ValueError, AssertionError, StopIteration)):
        # what the code under test gave cannot be read as it should
        return Violation(
            f"unreadable result: {type(ex).__name__}: {ex}",
            traceback="".join(traceback.format_exception(ex)),
        )
    return None


class Stuck(BaseException):
    """A case has used much more processor time than any should."""


def stuck(signum, frame):
    signal.setitimer(signal.ITIMER_VIRTUAL, 20)
    raise Stuck("".join(traceback.format_stack(frame)[-12:]))


def worker(check, tier, seed, w, nw, deadline, fd, maxcases, stop):
    import resource

    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    ctx = Ctx(check, tier)
    gc.collect()
    gc.freeze()
    gc.set_threshold(50_000, 50, 100)
    lines = Lines()
    lines.start()
    violations = []
    error = None
    signal.signal(signal.SIGVTALRM, stuck)
    i = w
    n = 0
    while not stop[0] and time.monotonic() < deadline and n < maxcases and len(violations) < 3:
        try:
            ctx.evals += 1
            signal.setitimer(signal.ITIMER_VIRTUAL, check.case_cpu)
            one(check, ctx, seed, i)
        except TooBig as ex:
            ctx.evals -= 1
            ctx.count("discarded")
        except Violation as v:
            violations.append(
                {"what": v.what, "key": v.key, "i": i, "details": v.details}
            )
            if v.key is None or not check.is_known(v.key):
                stop[0] = 1
                break
        except (Stuck, StepLimit, Hang) as ex:
            stop[0] = 1
            violations.append({"what": f"does not end ({type(ex).__name__})", "key": None, "i": i, "details": {"where": str(ex)}})
            break
        except Exception as ex:
            stop[0] = 1
            v = unexpected(ex)
            if v is None:
                error = f"case {i}: " + traceback.format_exc()
            else:
                violations.append({"what": v.what, "key": None, "i": i, "details": v.details})
            break
        left = signal.getitimer(signal.ITIMER_VIRTUAL)[0]
        ctx.maximum("seconds of a case", round(check.case_cpu - left, 1))
        i += nw
        n += 1
    signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    lines_seen = lines.seen
    data = pickle.dumps(
        (
            ctx.evals,
            ctx.counts,
            ctx.maxima,
            ctx.keys,
            ctx.samples,
            violations,
            error,
            lines_seen,
        )
    )
    with os.fdopen(fd, "wb") as fp:
        fp.write(data)


class Check:
    id = "C00"
    title = ""
    rule = ""
    level = "exploration"
    assumptions = [
        "the CPython interpreter, antlr4 runtime and chardet of /opt/venv are trusted",
        "the reference model of /verif/wv states the intended semantics",
    ]
    quick_s = 40
    thorough_s = 420
    workers = 8
    case_cpu = 90  # seconds of processor time, by far more than any case needs
    min_evals = 200
    require = ()  # counters which must not be 0
    maxcases = 10**9

    known = ()

    def is_known(self, key):
        return any(k["key"] == key for k in self.known)

    def setup(self, tier):
        pass

    def case(self, ctx):
        raise NotImplementedError

    # Once, in the parent: deterministic cases. Same protocol as case().
    def fixed_cases(self, ctx):
        pass

    def fixed_big(self, ctx):
        """Large cases (big.py), of which the result is known."""
        from .big import BIG, big

        if self.id in BIG:
            big(self, ctx)


def load_known(pid):
    p = os.path.join(env.VERIF, "known_findings.json")
    with open(p) as fp:
        entries = json.load(fp)
    return [e for e in entries if e["property"] == pid and e["kind"] == "finding"]


def run_check(check, tier, seed):
    t0 = time.monotonic()
    check.known = load_known(check.id)
    check.setup(tier)
    budget = check.quick_s if tier == "quick" else check.thorough_s
    budget = float(os.environ.get("WV_BUDGET", budget))
    violations = []
    errors = []
    ctx = Ctx(check, tier)
    ctx.rnd = random.Random(f"{check.id}/{seed}/fixed")
    ctx.i = "fixed"
    signal.signal(signal.SIGVTALRM, stuck)
    for fn in check_fixed(check):
        try:
            ctx.evals += 1
            signal.setitimer(signal.ITIMER_VIRTUAL, check.case_cpu)
            fn(ctx)
        except (Stuck, StepLimit, Hang) as ex:
            violations.append({"what": f"does not end ({type(ex).__name__})", "key": None, "i": "fixed:" + fn.__name__, "details": {"where": str(ex)}})
        except Violation as v:
            violations.append({"what": v.what, "key": v.key, "i": "fixed:" + fn.__name__, "details": v.details})
        except Exception as ex:
            v = unexpected(ex)
            if v is None:
                errors.append("fixed case: " + traceback.format_exc())
            else:
                violations.append({"what": v.what, "key": None, "i": "fixed:" + fn.__name__, "details": v.details})

    signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    # (slow machines: most of the budget is for the random cases)
    deadline = max(t0 + budget, time.monotonic() + 0.7 * budget)
    hard = deadline + 420
    procs = []
    unknown = [v for v in violations if v["key"] is None or not check.is_known(v["key"])]
    stop = mmap.mmap(-1, 1)  # shared: a worker found something
    if not unknown:
        for w in range(check.workers):
            r, wr = os.pipe()
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                code = 0
                try:
                    worker(check, tier, seed, w, check.workers, deadline, wr, check.maxcases, stop)
                except BaseException:
                    traceback.print_exc()
                    code = 9
                finally:
                    sys.stdout.flush()
                    sys.stderr.flush()
                    os._exit(code)
            os.close(wr)
            procs.append((pid, r))
    total = ctx
    lines = set()
    bufs = {r: b"" for _, r in procs}
    open_ = set(bufs)
    while open_:
        left = hard - time.monotonic()
        if left <= 0:
            break
        rs, _, _ = select.select(list(open_), [], [], left)
        for r in rs:
            d = os.read(r, 1 << 20)
            if d:
                bufs[r] += d
            else:
                open_.discard(r)
    for pid, r in procs:
        if r in open_:
            os.kill(pid, signal.SIGKILL)
            errors.append("a worker did not end in time")
        _, st = os.waitpid(pid, 0)
        os.close(r)
        if r in open_:
            continue
        if st != 0 or not bufs[r]:
            errors.append(f"a worker ended with status {st}")
            continue
        ev, counts, maxima, keys, samples, viol, err, ls = pickle.loads(bufs[r])
        total.evals += ev
        for k, v in counts.items():
            total.count(k, v)
        for k, v in maxima.items():
            total.maximum(k, v)
        total.keys |= keys
        total.samples.extend(samples)
        violations.extend(viol)
        if err:
            errors.append(err)
        lines |= ls

    known_hit = {}
    unknown = []
    for v in violations:
        if v["key"] is not None and check.is_known(v["key"]):
            known_hit.setdefault(v["key"], v)
        else:
            unknown.append(v)
    for k in check.known:
        if k["key"] in known_hit:
            print(f"KNOWN-FINDING: property={check.id} {k['what']}")

    executable = Lines().executable()
    nexec = sum(len(v) for v in executable.values())
    hit = {}
    for f, l in lines:
        if f in executable and l in executable[f]:
            hit[f] = hit.get(f, 0) + 1
    wall = time.monotonic() - t0
    cov = {
        "evaluations": total.evals,
        "distinct_nontrivial": len(total.keys),
        "rule": check.rule,
        "samples": total.samples[:6],
        "observed": dict(sorted(total.counts.items(), key=lambda x: str(x[0]))),
        "maxima": total.maxima,
        "function_body_lines_observed": f"{sum(hit.values())}/{nexec}",
        "lines_by_file": {f: f"{hit.get(f, 0)}/{len(v)}" for f, v in sorted(executable.items()) if v},
        "known_findings_observed": sorted(known_hit),
        "workers": check.workers,
    }
    from .big import BIG

    missing = [r for r in (*check.require, *(("large cases",) if check.id in BIG else ())) if not total.counts.get(r)]
    if not unknown and (missing or total.evals < check.min_evals):
        errors.append(
            f"inconclusive: {total.evals} evaluations (minimum {check.min_evals}),"
            f" never observed: {missing}"
        )
    edir = os.environ.get("WV_EVIDENCE") or os.path.join(env.VERIF, "evidence")
    os.makedirs(edir, exist_ok=True)
    ev = {
        "property": check.id,
        "tier": tier,
        "seed": seed,
        "level": check.level,
        "coverage": cov,
        "assumptions": check.assumptions,
        "wall_s": round(wall, 2),
        "violations": len(unknown),
    }
    path = os.path.join(edir, check.id + ".json")
    with open(path + ".tmp", "w") as fp:
        json.dump(ev, fp, indent=1, default=repr)
    os.replace(path + ".tmp", path)
    print(
        f"{check.id} {tier} seed={seed}: {total.evals} executions,"
        f" {len(total.keys)} distinct non-trivial, {wall:.1f} s"
    )
    if unknown:
        rdir = os.path.join(edir, "replay")
        os.makedirs(rdir, exist_ok=True)
        v = min(unknown, key=lambda v: len(json.dumps(v, default=repr)))
        rp = os.path.join(rdir, f"{check.id}.json")
        with open(rp, "w") as fp:
            json.dump(
                {"property": check.id, "seed": seed, "tier": tier, "case": v["i"], "what": v["what"], "details": v["details"],
                 "replay": f"/opt/venv/bin/python -B -m wv.run {check.id} --replay {rp}"},
                fp, indent=1, default=repr)
        print(v["what"])
        for k, x in v["details"].items():
            print(f"--- {k}\n{x if isinstance(x, str) else repr(x)}")
        print(f"VIOLATION property={check.id} replay={rp}")
        return 1
    if errors:
        for e in errors[:3]:
            print("ERROR", e, file=sys.stderr)
        return 3
    return 0


def check_fixed(check):
    return [getattr(check, n) for n in sorted(dir(check)) if n.startswith("fixed_") and n != "fixed_cases"]


def replay(check, path):
    with open(path) as fp:
        d = json.load(fp)
    check.known = load_known(check.id)
    check.setup(d["tier"])
    ctx = Ctx(check, d["tier"])
    try:
        if isinstance(d["case"], str):
            ctx.rnd = random.Random(f"{check.id}/{d['seed']}/fixed")
            ctx.i = "fixed"
            getattr(check, d["case"].split(":")[1])(ctx)
        else:
            one(check, ctx, d["seed"], d["case"])
    except Violation as v:
        print(v.what)
        for k, x in v.details.items():
            print(f"--- {k}\n{x if isinstance(x, str) else repr(x)}")
        print(f"VIOLATION property={check.id} replay={path}")
        return 1
    print("the case now passes")
    return 0
