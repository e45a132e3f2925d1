"""Random draws as symbolic choices: every outcome is explored."""
import random
import sys

from pysym.engine import E, SymNum, all_of

REAL = random.Random


def draw(n):
    """Any of 0..n-1; the solver says which are possible where the code needs to know."""
    return E().position('draw', 0, n - 1) if n > 1 else 0


class SymRandom:
    def __init__(self, seed=None):
        pass

    def seed(self, *a, **k):
        pass

    def randrange(self, start, stop=None, step=1):
        if stop is None:
            start, stop = 0, start
        r = range(int(start), int(stop), int(step))
        if not r:
            raise ValueError('empty range')
        if len(r) > 64:      # a seed: nobody looks at its value
            return start + step * draw(len(r))
        return r[draw(len(r))]

    def randint(self, a, b):
        return self.randrange(a, b + 1)

    def choice(self, xs):
        if not len(xs):
            raise IndexError('empty sequence')
        return xs[draw(len(xs))]

    def choices(self, xs, *, k=1, **_):
        return [self.choice(xs) for _ in range(k)]

    def sample(self, xs, k):
        if not hasattr(xs, '__getitem__'):
            raise TypeError('population must be a sequence')
        xs = list(xs)
        if k > len(xs) or k < 0:
            raise ValueError('sample larger than population')
        return [xs.pop(draw(len(xs))) for _ in range(k)]

    def shuffle(self, xs):
        for i in reversed(range(1, len(xs))):
            j = draw(i + 1)
            xs[i], xs[j] = xs[j], xs[i]

    def random(self):
        e = E()
        u = e.real('u', 0, 1)
        if not e.concrete:
            e.assume(u < 1)
        if hasattr(e, 'draws'):
            e.draws.append(u)
        return u

    def uniform(self, a, b):
        return a + (b - a) * self.random()


_done = []


def install():
    """Every use of random.Random in tnco draws symbolically from now on."""
    if _done:
        return
    _done.append(1)
    import inspect
    for name, m in list(sys.modules.items()):
        if name.split('.')[0] == 'tnco' and m is not None:
            for k, v in list(vars(m).items()):
                if v is REAL:
                    setattr(m, k, SymRandom)
                elif v is random:
                    fake = type(random)('random')
                    fake.__dict__.update(random.__dict__)
                    fake.Random = SymRandom
                    r = SymRandom()
                    for f in ('randrange', 'randint', 'choice', 'choices', 'sample', 'shuffle', 'random', 'uniform'):
                        setattr(fake, f, getattr(r, f))
                    setattr(m, k, fake)
                elif getattr(v, '__self__', None) is getattr(random, '_inst', 0):
                    setattr(m, k, getattr(SymRandom(), v.__name__))
