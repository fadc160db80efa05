"""Choice sequences: every random decision of a generator is one recorded integer, so that any generated
case can be replayed from the list of its choices and shrunk by making that list shorter and smaller."""
import random


class Overrun(Exception):
    pass


class Src:
    """Draws bounded integers, either from a seeded PRNG or from a recorded list (then zeros)."""

    def __init__(self, seed=None, choices=None, limit=200000):
        self.rng = random.Random(seed) if choices is None else None
        self.given = choices
        self.rec = []
        self.limit = limit

    def n(self, k):
        """0 <= result < k; 0 is the simplest"""
        if k <= 1:
            return 0
        if len(self.rec) >= self.limit:
            raise Overrun()
        if self.rng is not None:
            v = self.rng.randrange(k)
        else:
            i = len(self.rec)
            v = self.given[i] if i < len(self.given) else 0
            if v >= k:
                v = v % k
        self.rec.append(v)
        return v

    def rng_range(self, lo, hi):
        return lo + self.n(hi - lo + 1)

    def bool(self, num=1, den=2):
        """true with probability num/den; false is the simplest"""
        return self.n(den) >= den - num

    def pick(self, seq):
        return seq[self.n(len(seq))]

    def wpick(self, pairs):
        """pairs: [(weight, value)]"""
        tot = sum(w for w, _ in pairs)
        r = self.n(tot)
        for w, v in pairs:
            if r < w:
                return v
            r -= w
        raise AssertionError

    def shuffle(self, seq):
        seq = list(seq)
        for i in range(len(seq) - 1, 0, -1):
            j = i - self.n(i + 1)
            seq[i], seq[j] = seq[j], seq[i]
        return seq


def shrink(choices, fails, budget=250):
    """Greedy reduction of a choice list. fails(list) -> canonical (consumed) choice list when the case
    made from it still shows the failure, else None."""
    best = list(choices)
    used = 0

    def attempt(c):
        nonlocal best, used
        if used >= budget:
            return False
        used += 1
        got = fails(c)
        if got is not None and (len(got), got) < (len(best), best):
            best = list(got)
            return True
        return False

    improved = True
    while improved and used < budget:
        improved = False
        size = max(1, len(best) // 2)
        while size >= 1 and used < budget:
            i = 0
            while i < len(best) and used < budget:
                if attempt(best[:i] + best[i + size:]):
                    improved = True
                else:
                    i += size
            if size == 1:
                break
            size //= 2
        i = 0
        while i < len(best) and used < budget:
            if best[i] > 0:
                if attempt(best[:i] + [0] + best[i + 1:]):
                    improved = True
                elif best[i] > 1 and attempt(best[:i] + [best[i] // 2] + best[i + 1:]):
                    improved = True
            i += 1
    return best
