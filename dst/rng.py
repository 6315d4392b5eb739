"""
The random number generator of the code under test, behind a seam.

Adversary replaces the random numbers in [0, 1) that numpy.random gives, whether
they are drawn by module functions, RandomState or default_rng, by a scripted
stream: repeated, extreme, crowded or regular numbers for a limited number of
draws, fair ones afterwards.
"""

import contextlib

import numpy as np

KINDS = ["fair", "zero", "one", "same", "crowd", "repeat", "lattice", "extremes", "two", "few"]


class Adversary:
    def __init__(self, sim, script, seed, limit=20000, unit=0.1):
        self.sim = sim
        self.script = list(script)
        self.fair = np.random.RandomState(seed)
        self.limit = limit
        self.unit = unit
        self.draws = 0
        self.used = []
        self.last = None
        self.high = 0.0

    def unit_numbers(self, shape):
        """Random numbers in [0, 1)"""
        k = self.script[self.draws] if self.draws < len(self.script) else "fair"
        self.draws += 1
        self.sim.step()
        if self.draws > self.limit:
            from .kernel import StepLimit

            raise StepLimit(f"more than {self.limit} draws of random numbers")
        if k != "fair":
            self.used.append(k)
            self.sim.fired["random/" + k] += 1
        self.sim.ev("draw", k, shape)
        r = self.fair
        one = np.nextafter(1.0, 0.0)
        n = int(np.prod(shape, dtype=int))
        if k == "zero":
            u = np.zeros(n)
        elif k == "one":
            u = np.full(n, one)
        elif k == "same":
            u = np.full(n, r.random_sample())
        elif k == "crowd":
            u = 0.5 + 1e-4 * r.random_sample(n)
        elif k == "repeat":
            u = np.resize(self.last, n) if self.last is not None and len(self.last) else r.random_sample(n)
        elif k == "lattice":
            m = max(1, int(np.ceil(np.sqrt(n))))
            u = np.minimum((np.arange(n) % m) * self.unit, one)
        elif k == "extremes":
            u = np.where(r.random_sample(n) < 0.5, 0.0, one)
        elif k == "two":
            u = r.random_sample(n)
            m = shape[-1] if len(shape) > 1 else 1
            if n >= 2 * m:
                u[-m:] = u[:m]
        elif k == "few":
            u = r.choice(r.random_sample(3), n)
        else:
            u = r.random_sample(n)
        self.last = np.array(u)
        return u.reshape(shape)

    # functions of numpy.random
    def uniform(self, low=0.0, high=1.0, size=None):
        shape = size if size is not None else np.broadcast(np.asarray(low), np.asarray(high)).shape
        shape = (int(shape),) if np.ndim(shape) == 0 else tuple(int(i) for i in shape)
        self.high = max(self.high, float(np.max(high)))
        u = np.asarray(low) + (np.asarray(high) - np.asarray(low)) * self.unit_numbers(shape)
        u = np.minimum(u, np.nextafter(np.asarray(high, dtype=float), np.asarray(low, dtype=float)))
        return float(u) if size is None and shape == () else u

    def random_sample(self, size=None):
        return self.uniform(0.0, 1.0, size)

    random = random_sample
    ranf = random_sample
    sample = random_sample

    def rand(self, *shape):
        return self.uniform(0.0, 1.0, shape if shape else None)

    def seed(self, *a, **k):
        self.sim.ev("seed")

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return getattr(self.fair, name)

    @contextlib.contextmanager
    def installed(self):
        saved = []
        make = lambda *a, **k: self  # noqa: E731
        for n in ("uniform", "random_sample", "random", "ranf", "sample", "rand", "seed"):
            saved.append((n, getattr(np.random, n)))
            setattr(np.random, n, getattr(self, n))
        for n in ("RandomState", "default_rng"):
            saved.append((n, getattr(np.random, n)))
            setattr(np.random, n, make)
        try:
            yield self
        finally:
            for n, v in saved:
                setattr(np.random, n, v)
