"""Exhaustive stateless explorer used by all checks.

A check is a module with
    ID, TECHNIQUE, LEVEL_NOTE, ASSUMPTIONS
    scenarios(tier) -> list of JSON-able dicts, simplest first
    run(scenario, ctx)          one execution (may branch with ctx.choose)
    bounds(tier) -> str
optionally
    prepare()                   called once before forking
    FRESH = True                every scenario in its own freshly forked process
    TIMEOUT = seconds           per scenario (all of its executions)
"""

import hashlib
import json
import os
import pickle
import signal
import sys
import time
import traceback
from collections import Counter
from multiprocessing.connection import wait
import multiprocessing as mp

import numpy as np

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
    def __init__(self, msg, sig=None):
        super().__init__(msg)
        self.msg = msg
        self.sig = sig


class HarnessError(Exception):
    pass


class Timeout(BaseException):
    pass


def digest(obj):
    return int.from_bytes(
        hashlib.blake2b(repr(obj).encode(), digest_size=8).digest(), "big"
    )


class Ctx:
    """One execution."""

    def __init__(self, shared, prefix):
        self.shared = shared
        self.prefix = prefix
        self.choices = []
        self.points = []
        self.labels = []

    def choose(self, label, options):
        options = list(options)
        i = len(self.choices)
        c = self.prefix[i] if i < len(self.prefix) else 0
        if c >= len(options):
            raise HarnessError("replay divergence at %r" % (label,))
        self.choices.append(c)
        self.points.append(len(options))
        self.labels.append((label, options[c]))
        return options[c]

    def op(self, n=1):
        self.shared.ops += n

    def trace(self, n=1):
        self.shared.traces += n

    def state(self, *key):
        self.shared.states.add(digest(key))

    def outcome(self, x):
        if len(self.shared.outcomes) < 5000:
            self.shared.outcomes[str(x)] += 1

    def fail(self, msg, sig=None):
        raise Violation(msg, sig)

    def check(self, cond, msg, sig=None):
        if not cond:
            raise Violation(msg if isinstance(msg, str) else msg(), sig)

    def close(self, actual, expected, tol, msg, sig=None):
        """|actual-expected| <= tol elementwise (NaN or shape mismatch fails)."""
        a = np.asarray(_np(actual))
        e = np.asarray(_np(expected))
        if a.shape != e.shape:
            raise Violation(
                "%s: shape %s, expected %s" % (msg, a.shape, e.shape), sig
            )
        with np.errstate(all="ignore"):
            d = np.abs(a - e)
            ok = d <= tol
        if not np.all(ok):
            bad = np.argwhere(~np.atleast_1d(ok))[0]
            aa = np.atleast_1d(a)[tuple(bad)]
            ee = np.atleast_1d(e)[tuple(bad)]
            raise Violation(
                "%s: at %s got %r, expected %r (tolerance %g)"
                % (msg, list(map(int, bad)), aa.item(), ee.item(), float(np.max(tol))),
                sig,
            )


def _np(x):
    try:
        import torch

        if isinstance(x, torch.Tensor):
            return x.detach().resolve_conj().cpu().numpy()
        if isinstance(x, (list, tuple)) and x and isinstance(x[0], torch.Tensor):
            return np.array([_np(v) for v in x])
    except ImportError:
        pass
    return x


class Shared:
    def __init__(self):
        self.ops = 0
        self.traces = 0
        self.states = set()
        self.outcomes = Counter()
        self.execs = 0
        self.max_choices = 0
        self.violations = []
        self.samples = []
        self.skipped = Counter()
        self.errors = []


def explore_scenario(check, scenario, shared, stop_on_violation=True, known=()):
    """Depth-first enumeration of all choice sequences of one scenario."""
    stack = [[]]
    while stack:
        prefix = stack.pop()
        ctx = Ctx(shared, prefix)
        shared.execs += 1
        v = None
        try:
            check.run(scenario, ctx)
        except Violation as e:
            v = (e.msg, e.sig)
        except HarnessError as e:
            shared.errors.append(str(e))
            return
        except Timeout:
            v = ("execution did not finish within the time limit", None)
        except Exception as e:  # noqa: the code under test failed on in-scope input
            tb = traceback.extract_tb(e.__traceback__)
            last = tb[-1]
            v = (
                "unexpected %s: %s (at %s:%s)"
                % (type(e).__name__, str(e)[:300], last.filename, last.name),
                None,
            )
        if len(shared.samples) < 3:
            shared.samples.append(
                dict(scenario=scenario, choices=[_j(l) for l in ctx.labels])
            )
        shared.max_choices = max(shared.max_choices, len(ctx.choices))
        if v is not None:
            shared.violations.append(
                dict(
                    scenario=scenario,
                    choices=list(ctx.choices),
                    labels=[_j(l) for l in ctx.labels],
                    msg=v[0],
                    sig=v[1],
                )
            )
            if v[1] not in known and stop_on_violation:
                return
        # schedule the alternatives after the prefix, deepest first
        for i in range(len(prefix), len(ctx.points)):
            for alt in range(ctx.points[i] - 1, 0, -1):
                stack.append(ctx.choices[:i] + [alt])


def _j(x):
    try:
        json.dumps(x)
        return x
    except TypeError:
        return repr(x)


def _alarm(signum, frame):
    raise Timeout()


def _child(conn, check, batch, known):
    shared = Shared()
    signal.signal(signal.SIGALRM, _alarm)
    limit = getattr(check, "TIMEOUT", 240)
    try:
        for idx, sc in batch:
            signal.setitimer(signal.ITIMER_REAL, limit)
            try:
                explore_scenario(check, sc, shared, known=known)
            except Timeout:
                shared.violations.append(
                    dict(scenario=sc, choices=[], labels=[], msg="time limit", sig=None)
                )
            signal.setitimer(signal.ITIMER_REAL, 0)
            if any(v["sig"] not in known for v in shared.violations) or shared.errors:
                break
    except BaseException:
        shared.errors.append(traceback.format_exc())
    conn.send_bytes(pickle.dumps(shared))
    conn.close()
    sys.stdout.flush()
    os._exit(0)


def explore(check, scenarios, known=(), procs=8):
    fresh = getattr(check, "FRESH", False)
    tasks = list(enumerate(scenarios))
    if fresh:
        batches = [[t] for t in tasks]
    else:
        n = max(1, min(len(tasks), procs * 6))
        batches = [tasks[i::n] for i in range(n)]
    ctxmp = mp.get_context("fork")
    pending = list(reversed(batches))
    live = {}
    total = Shared()
    done = 0
    stop = False
    while (pending and not stop) or live:
        while pending and not stop and len(live) < procs:
            batch = pending.pop()
            r, w = ctxmp.Pipe(duplex=False)
            p = ctxmp.Process(target=_child, args=(w, check, batch, known), daemon=True)
            p.start()
            w.close()
            live[r] = (p, batch)
        for r in wait(list(live), timeout=5):
            p, batch = live.pop(r)
            try:
                sh = pickle.loads(r.recv_bytes())
            except (EOFError, OSError):
                p.join()
                total.violations.append(
                    dict(
                        scenario=batch[0][1],
                        choices=[],
                        labels=[],
                        msg="process died with exit code %s while exploring (batch of %d)"
                        % (p.exitcode, len(batch)),
                        sig=None,
                    )
                )
                stop = True
                r.close()
                continue
            r.close()
            p.join()
            done += len(batch)
            total.ops += sh.ops
            total.traces += sh.traces
            total.execs += sh.execs
            total.states |= sh.states
            total.outcomes.update(sh.outcomes)
            total.skipped.update(sh.skipped)
            total.max_choices = max(total.max_choices, sh.max_choices)
            total.samples.extend(sh.samples[: max(0, 5 - len(total.samples))])
            total.violations.extend(sh.violations)
            total.errors.extend(sh.errors)
            if sh.errors or any(v["sig"] not in known for v in sh.violations):
                stop = True
        if stop:
            for r, (p, _) in list(live.items()):
                p.terminate()
                p.join()
                r.close()
            live.clear()
    return total, done, len(tasks), stop
