"""Random draws as inputs: every draw is a symbolic choice, decided by forking.

After seed(x) the draws are a function of x and of their position, so equal
seeds give equal draws and nothing else does.  The replay feeds the draws of the
solver model to the real code.
"""
import contextlib
import numpy as np
from checks.common import pick
from symx import npx


class Draws:
    def __init__(self, s, prefix='draw'):
        self.s, self.prefix = s, prefix
        self.state, self.count, self.known = None, 0, {}
        self.calls = []           # (size of the population, array of draws, extra arguments)
        self.seeds = []
        self.limit = None         # number of draws that are symbolic, the later ones are fixed
        self.taken = 0

    def seed(self, x=None):
        self.state, self.count = None if x is None else str(x), 0 if x is not None else self.count
        self.seeds.append(x)

    def one(self, n, base=0):
        free = self.state is None
        name = f'{self.prefix}[{self.count}]' if free else f'{self.prefix}[{self.state}#{self.count}]'
        self.count += 1
        if (name, n) not in self.known:
            fixed = n <= 1 or (self.limit is not None and self.taken >= self.limit)
            self.known[name, n] = base + (2 * self.count + 1) % n if fixed else pick(self.s, name, list(range(base, base + n)))
            self.taken += 1
        return self.known[name, n]

    def many(self, n, size, base=0, **kw):
        n = int(n)
        if n <= 0:
            raise ValueError('a must be greater than 0 unless no samples are taken')
        shape = () if size is None else (size,) if isinstance(size, (int, np.integer)) else tuple(size)
        out = np.array([self.one(n, base) for _ in range(int(np.prod(shape)) if shape else 1)], dtype=np.int64)
        out = out.reshape(shape) if shape else out[0]
        self.calls.append((n, np.array(out), kw))
        return out

    def choice(self, a, size=None, replace=True, p=None):
        if isinstance(a, (int, np.integer)):
            return self.many(a, size, replace=replace, p=p)
        a = np.asarray(a)
        return a[self.many(len(a), size, replace=replace, p=p)]

    def randint(self, low, high=None, size=None, dtype=int):
        return self.many(low, size) if high is None else self.many(high - low, size, low)


@contextlib.contextmanager
def draws(s, prefix='draw'):
    d = Draws(s, prefix)
    names = ('choice', 'randint', 'seed')
    if s.symbolic:
        old = {n: npx.OVERRIDES.get(f'numpy.random.{n}') for n in names}
        for n in names:
            npx.OVERRIDES[f'numpy.random.{n}'] = getattr(d, n)
    real = {n: getattr(np.random, n) for n in names}
    for n in names:
        setattr(np.random, n, getattr(d, n))
    try:
        yield d
    finally:
        for n in names:
            setattr(np.random, n, real[n])
            if s.symbolic:
                if old[n] is None:
                    del npx.OVERRIDES[f'numpy.random.{n}']
                else:
                    npx.OVERRIDES[f'numpy.random.{n}'] = old[n]
