"""The expected best of k runs: every outcome of the draws, for every small set of samples."""
import contextlib
import itertools
import random
import types

import numpy as np

from .. import adapt  # noqa: F401  (puts the code under test on the path)
from ..engine import Unit, tick

ID = "C26"


def prepare(tier):
    return [], None


def rau():
    from ama_xiv_combat_sim.rotation_analysis.rotation_analysis_utils import RotationAnalysisUtils
    return RotationAnalysisUtils


class Draws:
    """hands out the scripted indices, trial by trial, whatever shape is asked for"""

    def __init__(self, n, k, trials, picks):
        self.n, self.k, self.trials, self.picks = n, k, trials, picks
        self.flat = [i for t in picks for i in t]
        self.at, self.odd = 0, None

    def take(self, size, n):
        if n != self.n:
            self.odd = "draws from %d values instead of %d" % (n, self.n)
            n = self.n
        shape = () if size is None else (int(size),) if np.isscalar(size) else tuple(int(s) for s in size)
        m = int(np.prod(shape)) if shape else 1
        got = [self.flat[(self.at + i) % len(self.flat)] for i in range(m)]
        self.at += m
        if shape == (self.k, self.trials):       # one column per trial
            return np.array(self.picks).T.copy()
        return np.array(got).reshape(shape) if shape else got[0]


@contextlib.contextmanager
def scripted(d):
    r = np.random
    names = ("choice", "randint", "rand", "random", "random_sample", "default_rng")
    old = {n: getattr(r, n) for n in names}

    def choice(a, size=None, replace=True, p=None, *_, **__):
        if not replace:
            d.odd = "draws without replacement"
        if p is not None and not np.allclose(p, 1.0 / len(p)):
            d.odd = "draws with unequal odds"
        v = np.arange(a) if np.isscalar(a) else np.asarray(a)
        return v[d.take(size, len(v))]

    def ints(low, high=None, size=None, *_, **__):
        lo, hi = (0, low) if high is None else (low, high)
        return lo + d.take(size, hi - lo)

    def unit(size=None):
        return (np.asarray(d.take(size, d.n)) + 0.5) / d.n

    gen = types.SimpleNamespace(choice=choice, integers=ints, random=unit)
    old_py = {n: getattr(random, n) for n in ("choice", "choices", "random")}
    try:
        r.choice, r.randint, r.random, r.random_sample = choice, ints, unit, unit
        r.rand = lambda *s: unit(s or None)
        r.default_rng = lambda *a, **k: gen
        random.choice = lambda s: s[d.take(None, len(s))]
        random.choices = lambda s, weights=None, *, cum_weights=None, k=1: [s[i] for i in d.take(k, len(s))]
        random.random = lambda: float(unit())
        yield d
    finally:
        for n, f in old.items():
            setattr(r, n, f)
        for n, f in old_py.items():
            setattr(random, n, f)


def close(a, b):
    return abs(float(a) - b) <= 1e-9 * max(1.0, abs(b))


def _outcomes(rec, x, k, trials):
    f = rau().get_expected_max_in_k_runs
    for kind in (list, tuple, np.array):
        tick()
        for flat in itertools.product(range(len(x)), repeat=k * trials):
            picks = [flat[i * k:(i + 1) * k] for i in range(trials)]
            h = dict(samples=x, k=k, trials=trials, draws=picks)
            rec.sample(h)
            vals = kind(x)
            with scripted(Draws(len(x), k, trials, picks)) as d:
                got = f(vals, k, num_trials=trials)
            rec.histories += 1
            rec.transitions += k * trials
            rec.state((tuple(x), k, trials, flat))
            if list(vals) != list(x):
                rec.fail("the samples were altered", h)
            if not min(x) - 1e-9 <= float(got) <= max(x) + 1e-9:
                rec.fail("expected best %r lies outside the samples" % (got,), h)
            if d.at == 0:          # draws from a source that is not under control: only the bounds are decided
                rec.count(uncontrolled=1)
                continue
            if d.odd:
                rec.fail(d.odd, h)
            if d.at != k * trials:
                rec.fail("%d draws for %d trials of %d" % (d.at, trials, k), h)
            want = sum(max(x[i] for i in p) for p in picks) / trials
            if not close(got, want):
                rec.fail("expected best is %r, should be %r" % (got, want), h)


def _certain(rec, n):
    """outcomes that do not depend on the draws, with the real source"""
    f = rau().get_expected_max_in_k_runs
    for v in (0.0, 1.0, -3.5, 7, 12345.678, -1e9):
        for k in (1, 2, 3, 7, 50):
            for trials in (1, 2, 3, 10, 64):
                tick()
                got = f([v] * n, k, num_trials=trials)
                rec.histories += 1
                rec.transitions += k * trials
                rec.state((v, n, k, trials))
                if not close(got, float(v)):
                    rec.fail("best of %d equal samples %r is %r" % (n, v, got), dict(n=n, k=k, trials=trials))
    got = f(list(range(n)), 3)
    if not 0 <= float(got) <= n - 1:
        rec.fail("default number of trials: %r outside the samples" % (got,), dict(n=n))


def _many(rec, x, k, trials):
    """many trials: the draws of the first ones and of the later ones all count"""
    f = rau().get_expected_max_in_k_runs
    for late in (trials - 1, trials // 2, 0):
        tick()
        hi = len(x) - 1
        picks = [[0] * (k - 1) + [hi] if t == late else [0] * k for t in range(trials)]
        with scripted(Draws(len(x), k, trials, picks)) as d:
            got = f(list(x), k, num_trials=trials)
        h = dict(samples=x if len(x) < 10 else '%d values, all but the last %r' % (len(x), x[0]), k=k, trials=trials, other_draw_in_trial=late)
        rec.sample(h)
        rec.histories += 1
        rec.transitions += k * trials
        rec.state((len(x), x[-1], k, trials, late))
        if d.at == 0:
            rec.count(uncontrolled=1)
            continue
        if d.odd or d.at != k * trials:
            rec.fail(d.odd or "%d draws for %d trials of %d" % (d.at, trials, k), h)
        want = (x[0] * (trials - 1) + x[-1]) / trials
        if not close(got, want):
            rec.fail("expected best is %r, should be %r" % (got, want), h)


def units(tier):
    deep = tier == "thorough"
    out = []
    xs = [(5.0,), (1.0, 2.0), (2.0, 1.0), (-1.5, -4.0), (10, 20, 40), (3.0, -7.25, 3.0), (-9, -8, -7)] + \
         ([(1, 2, 4, 8), (-4.0, 0.0, 0.5, -1.0)] if deep else [])
    top = 8 if deep else 6
    for x in xs:
        for k in range(1, 7):
            for t in range(1, 7):
                if k != t and k * t <= top and len(x) ** (k * t) <= (70000 if deep else 4100):
                    out.append(Unit("outcomes %s %d %d" % (x, k, t), _outcomes, x, k, t))
    for t in (99, 101, 1000, 1001, 9999, 10000, 10001, 20011):
        for k in (1, 3):
            out.append(Unit("many %d %d" % (t, k), _many, (1.0, 1e6 * t), k, t))
    for k in (100, 1000, 5003):
        out.append(Unit("best of %d" % k, _many, (1.0, 5e3), k, 7))
    for n in (50, 1001, 30000):
        out.append(Unit("samples %d" % n, _many, (1.0,) * (n - 1) + (1e4,), 3, 11))
    for n in range(1, 12 if deep else 6):
        out.append(Unit("certain %d" % n, _certain, n))
    return out


def bounds(tier):
    deep = tier == "thorough"
    return dict(outcomes="every outcome of the draws for %d sample sets of 1-%d values, k and trials with k*trials <= %d, three container types" % (
        (9, 4, 8) if deep else (7, 3, 6)),
                many="99 to 20011 trials, all alike but the first, middle or last; k up to 5003; up to 30000 samples, all alike but the last",
                certain="equal samples: 6 values x 5 k x 5 trial counts x sizes 1-%d, real random source" % (11 if deep else 5))
