"""Randomness under the control of the simulator.

- the global NumPy generator: seeded, or loaded with a stream whose doubles
  are chosen one by one (0, the largest double below 1, runs of equal
  values, ...), so that any stream can be replayed;
- entropy of the operating system (os.urandom, and with it uuid4,
  SystemRandom and numpy.random.default_rng()): a seeded stream, counted;
- Python's random module: seeded.
"""
import hashlib
import os
import random

import numpy as np

TOP = (1 << 53) - 1     # largest double below 1, in units of 2^-53


def _untemper(y):
    """State word whose tempered output is y (MT19937)."""
    y ^= y >> 18
    y ^= (y << 15) & 0xefc60000
    x = y
    for _ in range(5):
        x = y ^ ((x << 7) & 0x9d2c5680)
    y = x
    x = y
    for _ in range(3):
        x = y ^ (x >> 11)
    return x & 0xffffffff


def force(doubles, seed=0):
    """Load the global generator so that the next doubles are
    doubles[i] * 2^-53 (at most 312 of them; ordinary ones follow)."""
    words = []
    for d in doubles[:312]:
        words += [_untemper((d >> 26) << 5), _untemper((d & 0x3ffffff) << 6)]
    np.random.seed(seed)
    st = np.random.get_state(legacy=False)
    rest = st['state']['key']
    # the rest of the block: output of an ordinary generator
    key = np.array(words + [_untemper(int(x)) for x in np.random.randint(
        0, 1 << 32, size=624 - len(words), dtype=np.uint64)],
        dtype=np.uint32) if len(words) < 624 else np.array(
            words, dtype=np.uint32)
    assert len(key) == len(rest) == 624
    np.random.set_state(('MT19937', key, 0, 0, 0.0))


def gen_stream(rng, n=312):
    """Stream spec (JSON): ordinary draws with extreme ones among them."""
    kind = rng.choice(['seed', 'extreme', 'extreme', 'run', 'all'])
    s = dict(seed=rng.randrange(1 << 32), kind=kind)
    if kind == 'seed':
        return s
    if kind == 'all':
        s['forced'] = [[0, n, rng.choice(['zero', 'top', 'one', 'low',
                                          'half'])]]
    elif kind == 'run':
        a = rng.randrange(40)
        s['forced'] = [[a, rng.choice([2, 5, 20, 100]),
                        rng.choice(['zero', 'top', 'same', 'low'])]]
    else:
        s['forced'] = [[rng.randrange(rng.choice([4, 20, 100])), 1,
                        rng.choice(['zero', 'top', 'one', 'low', 'high',
                                    'tiny'])]
                       for _ in range(rng.randint(1, 8))]
    return s


def load(s):
    """Load a stream; returns the number of forced draws."""
    r = random.Random(s['seed'])
    if not s.get('forced'):
        np.random.seed(s['seed'] % (1 << 32))
        return 0
    ds = [r.getrandbits(53) for _ in range(312)]
    same = r.getrandbits(53)
    n = 0
    for a, k, what in s['forced']:
        for j in range(max(0, a), min(312, a + k)):
            n += 1
            ds[j] = {'zero': 0, 'top': TOP, 'one': 1, 'half': 1 << 52,
                     'same': same, 'low': r.getrandbits(12),
                     'high': TOP - r.getrandbits(12),
                     'tiny': 1 << r.randrange(20)}.get(what, 0)
    force(ds, s['seed'] % (1 << 32))
    return n


def state():
    """Digest of the global generator's state."""
    name, key, pos, hg, cg = np.random.get_state()
    return hashlib.blake2b(key.tobytes() + repr(
        (name, pos, hg, cg if hg else 0)).encode(), digest_size=8).hexdigest()


class Entropy:
    """Stands for the entropy of the operating system."""

    def __init__(self, seed):
        self.seed = str(seed)
        self.count = 0

    def urandom(self, n):
        self.count += 1
        out = b''
        k = 0
        while len(out) < n:
            out += hashlib.blake2b(
                f'{self.seed}/{self.count}/{k}'.encode()).digest()
            k += 1
        return out[:n]

    def __enter__(self):
        self._saved = (os.urandom, random._urandom)
        os.urandom = random._urandom = self.urandom
        return self

    def __exit__(self, *_):
        os.urandom, random._urandom = self._saved


def ambient(seed):
    """Put all global generators into a state that depends on seed only."""
    np.random.seed(int(hashlib.blake2b(str(seed).encode(),
                                       digest_size=4).hexdigest(), 16))
    random.seed(str(seed))
