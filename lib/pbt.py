"""What a check module uses: sub-check registration, the per-case context, oracles."""
import hashlib
import json
import math

import numpy as np


class PropertyFailure(Exception):
    """The property does not hold on this case."""


class HarnessError(Exception):
    """The check could not be carried out (never reported as a violation)."""


class Skip(Exception):
    """This sub-check cannot be applied to this tree (e.g. a private helper is gone)."""


class Discard(Exception):
    """The generated case lies outside the property's domain."""


class Sub:
    def __init__(self, name, strategy, run, quick, thorough=None, shards=1, rule="", seeds=()):
        self.name = name
        self.strategy = strategy      # a Hypothesis strategy, or a callable returning one
        self.run = run                # run(case, ctx)
        self.quick = quick            # cases per run (over all shards)
        self.thorough = thorough or quick * 20
        self.shards = shards
        self.rule = rule
        self.seeds = list(seeds)      # regression cases, always run first


class Check:
    def __init__(self, pid, rule, assumptions=()):
        self.pid = pid
        self.rule = rule
        self.assumptions = list(assumptions)
        self.subs = []
        self.known = []               # callables returning None or a description

    def sub(self, strategy, quick, thorough=None, shards=1, name=None, rule="", seeds=()):
        def deco(fn):
            self.subs.append(Sub(name or fn.__name__, strategy, fn, quick, thorough, shards,
                                 rule, seeds))
            return fn
        return deco

    def known_finding(self, fn):
        self.known.append(fn)
        return fn


def canonical(case):
    return json.dumps(case, sort_keys=True, separators=(",", ":"))


class Ctx:
    def __init__(self):
        self.evaluations = 0
        self.nontrivial_keys = set()
        self.labels = {}
        self.samples = []
        self.discarded = 0
        self._case = None
        self._nt = False

    def begin(self, case):
        self._case = case
        self._nt = False

    def nontrivial(self, cond=True):
        if cond:
            self._nt = True

    def label(self, name, cond=True):
        if cond:
            self.labels[name] = self.labels.get(name, 0) + 1

    def end(self):
        self.evaluations += 1
        if self._nt:
            text = canonical(self._case)
            key = hashlib.md5(text.encode()).hexdigest()
            if key not in self.nontrivial_keys:
                self.nontrivial_keys.add(key)
                if len(self.samples) < 3 and len(text) < 1500:
                    self.samples.append(self._case)

    # ---- oracles
    def fail(self, msg):
        raise PropertyFailure(msg)

    def check(self, cond, msg="condition does not hold"):
        if not cond:
            raise PropertyFailure(msg() if callable(msg) else msg)

    def equal(self, got, want, what="values"):
        if isinstance(got, np.ndarray) or isinstance(want, np.ndarray):
            g, w = np.asarray(got), np.asarray(want)
            if g.shape != w.shape:
                raise PropertyFailure("%s: shape %s, expected %s" % (what, g.shape, w.shape))
            if not np.array_equal(g, w, equal_nan=g.dtype.kind == "f" and w.dtype.kind == "f"):
                raise PropertyFailure("%s: got %s, expected %s" % (what, brief(g), brief(w)))
        elif not (got == want):
            raise PropertyFailure("%s: got %s, expected %s" % (what, brief(got), brief(want)))

    def close(self, got, want, rtol=1e-6, atol=1e-9, what="values"):
        g = np.asarray(got, dtype=np.float64)
        w = np.asarray(want, dtype=np.float64)
        if g.shape != w.shape:
            raise PropertyFailure("%s: shape %s, expected %s" % (what, g.shape, w.shape))
        bad = ~np.isclose(g, w, rtol=rtol, atol=atol, equal_nan=False)
        # equal infinities are close by isclose already
        if np.any(bad):
            i = np.argwhere(bad)
            at = tuple(int(x) for x in i[0]) if g.ndim else ()
            raise PropertyFailure("%s: at %s got %r, expected %r (%d of %d entries differ)" % (
                what, at, float(g[at]), float(w[at]), int(bad.sum()), g.size))

    def finite(self, a, what="values"):
        a = np.asarray(a, dtype=np.float64)
        if not np.all(np.isfinite(a)):
            raise PropertyFailure("%s: not finite: %s" % (what, brief(a)))

    def distribution(self, a, what="distribution", axis=-1, tol=1e-5, strict=False):
        a = np.asarray(a, dtype=np.float64)
        self.finite(a, what)
        if a.size and a.min() < -tol * 1e-3:
            raise PropertyFailure("%s: negative probability %r" % (what, float(a.min())))
        if strict and a.size and a.min() <= 0:
            raise PropertyFailure("%s: zero probability" % what)
        s = a.sum(axis=axis)
        if a.size and np.abs(s - 1).max() > tol:
            raise PropertyFailure("%s: sums to %r" % (what, float(np.ravel(s)[np.abs(np.ravel(s) - 1).argmax()])))


def brief(x, n=300):
    s = repr(x)
    return s if len(s) <= n else s[:n] + "..."


def need(mod, name):
    """A private helper: its absence is no violation, the sub-check is skipped."""
    if not hasattr(mod, name):
        raise Skip("%s has no %s" % (getattr(mod, "__name__", mod), name))
    return getattr(mod, name)
