"""Controlled randomness: the code's random draws are taken over and scripted, so that every outcome
of the rolls can be enumerated."""
import contextlib

import numpy as np

ONE = 1 - 2.0 ** -53


class Script:
    """hands out scripted uniform draws for every call of the expected size, 0.5 for all others"""

    def __init__(self, size, draws):
        self.size, self.draws, self.used, self.other = size, draws, 0, 0

    def take(self, shape):
        shape = tuple(int(x) for x in shape)
        n = int(np.prod(shape)) if shape else 1
        if n == self.size and self.size > 0:
            d = self.draws(self.used)
            self.used += 1
            if d is not None:
                return np.array(d, dtype=float).reshape(shape)
        self.other += 1
        return np.full(shape, 0.5) if shape else 0.5


@contextlib.contextmanager
def scripted(script):
    r = np.random
    names = ("rand", "random", "random_sample", "ranf", "sample", "uniform", "default_rng")
    old = {n: getattr(r, n) for n in names if hasattr(r, n)}

    def norm(size):
        return () if size is None else (size,) if np.isscalar(size) else tuple(size)

    def uniform(low=0.0, high=1.0, size=None):
        return low + (np.asarray(high) - low) * script.take(norm(size))

    class Gen:
        def random(self, size=None, *a, **k):
            return script.take(norm(size))

        def uniform(self, low=0.0, high=1.0, size=None):
            return uniform(low, high, size)

    try:
        r.rand = lambda *s: script.take(s)
        for n in ("random", "random_sample", "ranf", "sample"):
            if n in old:
                setattr(r, n, lambda size=None: script.take(norm(size)))
        r.uniform = uniform
        r.default_rng = lambda *a, **k: Gen()
        yield script
    finally:
        for n, f in old.items():
            setattr(r, n, f)
