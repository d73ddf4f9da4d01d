"""A random generator whose outcomes are arbitrary (symbolic)."""
import itertools
import numpy as np


class AnyRNG:
    """Every draw is an arbitrary legal outcome.

    perms: how many permutations a shuffle may give (identity, reversal,
    rotations, ... in a fixed order; all when n! is not larger)."""

    def __init__(self, env, name='r', perms=24, mid=False):
        """mid: every draw is the middle / first of what is possible."""
        self.mid = mid
        self.env = env
        self.name = name
        self.perms = perms
        self.k = 0
        self.drawn = []

    def _n(self):
        self.k += 1
        return '%s%d' % (self.name, self.k)

    def shuffle(self, a):
        n = len(a)
        if self.mid:
            return
        idx = list(range(n))
        ps = [tuple(idx), tuple(idx[::-1])] + \
            [tuple(idx[i:] + idx[:i]) for i in range(1, n)]
        if self.perms > len(ps):
            for p in itertools.islice(itertools.permutations(idx), 5040):
                ps.append(p)
                if len(set(ps)) >= self.perms:
                    break
        ps = list(dict.fromkeys(ps))[:self.perms]
        p = ps[self.env.choice(self._n(), len(ps))]
        vals = [a[i] for i in p]
        for i in range(n):
            a[i] = vals[i]

    def permutation(self, n):
        a = np.arange(n) if not hasattr(n, '__len__') else np.array(n)
        self.shuffle(a)
        return a

    def uniform(self, low=0.0, high=1.0):
        env = self.env
        nm = self._n()
        env.check(low <= high, 'a random length is drawn from a range')
        if self.mid:
            return (low + high) / 2 if env.symbolic else \
                float((low + high) / 2)
        if env.symbolic:
            v = env.float(nm)
            env.assume(v >= low)
            env.assume(v <= high)
        else:
            v = env.float(nm)
            lo, hi = float(low), float(high)
            v = min(max(v, lo), hi)
        self.drawn.append(v)
        return v

    def randint(self, low, high=None):
        if high is None:
            low, high = 0, low
        low, high = int(low), int(high)
        if low >= high:
            raise ValueError('low >= high')
        if self.mid:
            return low
        return low + self.env.choice(self._n(), high - low)

    def random(self, size=None):
        return self.uniform(0.0, 1.0)

    random_sample = rand = random

    def integers(self, low, high=None):
        return self.randint(low, high)

    seeds = None

    def seed(self, seed=None):
        """A generator that is seeded later on."""
        if self.seeds is not None:
            if self.seeds and self.seeds[-1] is None:
                self.seeds.pop()
            self.seeds.append(seed)


class use_rng:
    """Make the generators of numpy.random (and its global one) give this
    generator."""
    GLOBAL = ('shuffle', 'permutation', 'uniform', 'randint', 'random',
              'random_sample', 'rand')

    def __init__(self, rng):
        self.rng = rng
        self.seeds = []

    def make(self, seed=None):
        return self.rng

    def reseed(self, seed=None):
        self.seeds.append(seed)
        self.stream = self.make(seed)

    def __enter__(self):
        self.keep = {n: getattr(np.random, n)
                     for n in self.GLOBAL + ('seed', 'RandomState',
                                             'default_rng')}

        def make(seed=None):
            self.seeds.append(seed)
            return self.make(seed)
        np.random.RandomState = np.random.default_rng = make
        self.stream = self.make()
        if isinstance(self.rng, AnyRNG):
            self.rng.seeds = self.seeds
        np.random.seed = self.reseed
        for n in self.GLOBAL:
            setattr(np.random, n, lambda *a, n=n, **k: getattr(
                self.stream, n)(*a, **k))
        return self

    def __exit__(self, *a):
        for n, v in self.keep.items():
            setattr(np.random, n, v)
