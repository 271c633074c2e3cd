"""Decides one case: explores fn(path) symbolically; a counterexample counts only
if running fn again on the model's plain python values shows the same failure
(the code under test then sees no proxy at all)."""
import signal
import threading
import traceback

from . import symex
from .symex import BoundExceeded, Counterexample, Inconclusive, PathAbort, Stats, explore


class Unsupported(Exception):
    """The harness cannot interpret something: no verdict."""


class Replay:
    """The interface of symex.Path on concrete values."""

    concrete = True

    def __init__(self, model, choices):
        self._m, self._c = model, list(choices)
        self.stats = Stats()
        self.vars = {}

    def int(self, name, lo=None, hi=None):
        return int(self._m.get(name, lo if lo is not None else 0))

    def real(self, name):
        return float(self._m.get(name, 0))

    def boolean(self, name):
        return bool(self._m.get(name, False))

    def assume(self, c):
        if not c:
            raise PathAbort()

    def choice(self, n, tag=None):
        if n == 1:
            return 0
        return self._c.pop(0) if self._c else 0

    def prove(self, claim, what="", info=None):
        if not claim:
            raise Counterexample(what, dict(self._m))
        return True

    def feasible(self, c=True):
        return bool(c)

    def model(self, *extra):
        return dict(self._m)


def confirm(fn, cex):
    """The failure of `fn` on the counterexample's values, or None."""
    symex._CTX.append(Replay(cex.model or {}, getattr(cex, "choices", [])))
    try:
        fn(symex._CTX[-1])
    except Counterexample as c:
        return c.what
    except PathAbort:
        return None
    finally:
        symex._CTX.pop()
    return None


def guarded(fn, allow=()):
    """fn whose ordinary exceptions become counterexamples."""

    def body(p):
        try:
            fn(p)
        except (PathAbort, BoundExceeded, Inconclusive, Counterexample, Unsupported):
            raise
        except allow:
            return
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = next((f"{f.filename.rpartition('/')[2]}:{f.lineno}" for f in reversed(tb) if "/vt/" not in f.filename), "")
            raise Counterexample(f"fails with {type(e).__name__}: {str(e)[:300]} ({where})", p.model()) from None

    return body


class deadline:
    """Ends a case whose concrete code does not come back."""

    def __init__(self, seconds):
        self.s = int(seconds)

    def __enter__(self):
        self.on = threading.current_thread() is threading.main_thread()
        if self.on:
            self.old = signal.signal(signal.SIGALRM, self.ring)
            signal.alarm(self.s)

    def ring(self, *_):
        raise BoundExceeded(f"no end within {self.s}s")

    def __exit__(self, *_):
        if self.on:
            signal.alarm(0)
            signal.signal(signal.SIGALRM, self.old)


def decide(fn, stats, label="", allow=(), **kw):
    """dict(status="ok"|"cex"|"spurious"|"inconclusive", what, replay)"""
    body = guarded(fn, allow)
    hit, missed = [], []

    def on_cex(c):
        try:
            w = confirm(body, c)
        except (BoundExceeded, Inconclusive, Unsupported) as e:
            w = None
        if w is None:
            missed.append(c)
            return len(missed) > 5
        hit.append((w, c))
        return True

    kw.setdefault("max_paths", 2000)
    kw.setdefault("max_seconds", 120)
    try:
        with deadline(kw["max_seconds"] + 30):
            explore(body, stats=stats, on_cex=on_cex, **kw)
    except (BoundExceeded, Inconclusive, Unsupported) as e:
        if not hit:
            return dict(status="inconclusive", what=f"{label}: {type(e).__name__} {e}")
    except RecursionError:
        return dict(status="inconclusive", what=f"{label}: recursion")
    if hit:
        w, c = hit[0]
        return dict(status="cex", what=f"{label}: {w}; values {c.model}",
                    replay=dict(case=label, what=w, values=c.model, choices=c.choices))
    if missed:
        c = missed[0]
        return dict(status="spurious", what=f"{label}: {c.what}; values {c.model}")
    return dict(status="ok", what="")
