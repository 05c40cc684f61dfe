"""The random seam: the functions of the module `random` draw from a seeded
stream, plain or adversarial, while one is installed."""
import random

NAMES = [n for n in ('random', 'uniform', 'randint', 'choice', 'randrange',
                     'sample', 'shuffle', 'choices', 'getrandbits',
                     'triangular', 'gauss', 'betavariate') if
         hasattr(random, n)]
SHAPES = ['plain', 'low', 'high', 'cycle', 'sticky', 'repeat']


def gen_stream(R):
    return R.choice(['plain']*4 + SHAPES[1:])


class Adversary(random.Random):
    """Every draw below n comes from a biased source: smallest or largest
    values, a cycle, a value kept for long, a short sequence repeated."""

    def __init__(self, seed, shape):
        self.base = random.Random(seed)
        self.shape = shape
        self.k = 0
        self.last = 0.0
        self.loop = [self.base.random() for _ in range(
            self.base.randint(1, 9))]
        super().__init__(seed)

    def point(self):
        self.k += 1
        b = self.base
        if b.random() < .08:          # never constant for ever
            return b.random()
        if self.shape == 'low':
            return 0.0
        if self.shape == 'high':
            return 1 - 1e-12
        if self.shape == 'cycle':
            return self.k % 7/7.0
        if self.shape == 'repeat':
            return self.loop[self.k % len(self.loop)]
        if b.random() < .2:
            self.last = b.random()
        return self.last

    def random(self):
        return self.point()

    def getrandbits(self, k):
        return min(int(self.point()*(1 << k)), (1 << k) - 1)

    def _randbelow(self, n):
        return min(int(self.point()*n), n - 1)

    _randbelow_with_getrandbits = _randbelow
    _randbelow_without_getrandbits = _randbelow


class Stream:
    "with Stream(seed, shape): ..."

    def __init__(self, seed, shape='plain'):
        self.seed, self.shape = seed, shape

    def __enter__(self):
        self.keep = {n: getattr(random, n) for n in NAMES}
        random.seed(self.seed)
        if self.shape != 'plain':
            adv = Adversary(self.seed, self.shape)
            adv._randbelow = Adversary._randbelow.__get__(adv)
            for n in NAMES:
                setattr(random, n, getattr(adv, n))
        return self

    def __exit__(self, *a):
        for n, f in self.keep.items():
            setattr(random, n, f)
