"""Choice sequences: the single source of randomness of every generator.

A case is generated by a function of a ``Source``; every decision is one
bounded integer.  A recorded sequence replays the case exactly, and shrinking
works on the sequence (delete chunks, zero, halve, decrement), so every shrunk
case is still something the generator can make.
"""
from __future__ import annotations

import random


class Source:
    __slots__ = ('_limit', '_prefix', '_random', 'choices')

    def __init__(self, rng=None, prefix=None, limit=4000):
        self._random = rng
        self._prefix = prefix
        self.choices = []
        self._limit = limit

    def below(self, n):
        """Integer in [0, n)."""
        if n <= 1:
            return 0
        index = len(self.choices)
        if index > self._limit:
            value = 0
        elif self._prefix is not None and index < len(self._prefix):
            value = self._prefix[index] % n
        elif self._random is None:
            value = 0
        else:
            value = self._random.randrange(n)
        self.choices.append(value)
        return value

    def int(self, lo, hi):
        return lo + self.below(hi - lo + 1)

    def zigzag(self, hi):
        """Integer in [-hi, hi], simplest (0) first."""
        value = self.below(2 * hi + 1)
        return (value + 1) // 2 * (1 if value & 1 else -1)

    def bool(self):
        return bool(self.below(2))

    def chance(self, num, den):
        """True with probability num/den; shrinks to False."""
        return self.below(den) >= den - num

    def choice(self, options):
        return options[self.below(len(options))]

    def weighted(self, options):
        """options: [(weight, value)]; shrinks to the first."""
        total = sum(w for w, _ in options)
        index = self.below(total)
        for weight, value in options:
            if index < weight:
                return value
            index -= weight
        raise AssertionError

    def shuffled(self, values):
        values = list(values)
        for i in range(len(values) - 1):
            j = i + self.below(len(values) - i)
            values[i], values[j] = values[j], values[i]
        return values

    def sample(self, values, k):
        values = list(values)
        for i in range(k):
            j = i + self.below(len(values) - i)
            values[i], values[j] = values[j], values[i]
        return values[:k]


def fresh(seed):
    return Source(random.Random(seed))


def replaying(choices):
    return Source(prefix=list(choices))


def shrink(choices, fails, budget):
    """Greedy choice-sequence shrinker.

    ``fails(choices)`` -> the choices actually consumed if the case made from
    them still fails in the same way, else None.  ``budget()`` -> True while
    there is time left.
    """
    best = list(choices)

    def attempt(candidate):
        nonlocal best
        if candidate == best:
            return False
        used = fails(candidate)
        if used is None:
            return False
        key_used, key_best = (len(used), used), (len(best), best)
        if key_used < key_best:
            best = list(used)
            return True
        return False

    improved = True
    while improved and budget():
        improved = False
        size = max(1, len(best) // 2)
        while size and budget():
            i = 0
            while i < len(best) and budget():
                if attempt(best[:i] + best[i + size:]):
                    improved = True
                else:
                    i += size
            size //= 2
        for i in range(len(best)):
            if i >= len(best) or not budget():
                break
            value = best[i]
            if not value:
                continue
            if attempt(best[:i] + [0] + best[i + 1:]):
                improved = True
                continue
            lo, hi = 0, value
            while hi - lo > 1 and budget():
                mid = (lo + hi) // 2
                if i < len(best) and attempt(
                    best[:i] + [mid] + best[i + 1:]
                ):
                    hi = mid
                    improved = True
                else:
                    lo = mid
    return best
