"""Choice-sequence generation and shrinking.

A generator is a function of a Source; every random decision is one bounded
integer drawn from it.  The list of decisions is recorded, so a failing case
can be replayed and shrunk by simplifying the list (shorter, then smaller):
whatever the shrinker produces is again something the generator can produce,
so it never leaves the domain.
"""
import random
import time


class Source:
    def __init__(self, rng=None, prefix=None):
        self.rng = rng
        self.prefix = prefix
        self.pos = 0
        self.choices = []

    def below(self, n):
        "An integer in [0, n); 0 is the simplest."
        if n <= 1:
            return 0
        if self.prefix is not None:
            v = self.prefix[self.pos] if self.pos < len(self.prefix) else 0
            if v >= n:
                v = n - 1
        else:
            v = int(self.rng.random() * n) if n < 1 << 40 else self.rng.randrange(n)
        self.pos += 1
        self.choices.append(v)
        return v

    def int(self, lo, hi):
        "An integer in [lo, hi]; 0 (or the bound nearest to it) is the simplest."
        if lo >= 0 or hi <= 0:
            return lo + self.below(hi - lo + 1) if lo >= 0 else hi - self.below(hi - lo + 1)
        v = self.below(hi - lo + 1)
        return v if v <= hi else hi - v

    def choice(self, seq):
        "One of a sequence; the first is the simplest."
        return seq[self.below(len(seq))]

    def maybe(self, p=0.5):
        "True with probability p; False is simpler."
        return self.below(1000) >= 1000 - int(p * 1000)

    def one(self, *gens):
        "One of several generators (functions of a source, or plain values)"
        g = gens[self.below(len(gens))]
        return g(self) if callable(g) else g

    def weighted(self, *pairs):
        "One of (weight, generator or value); the first is the simplest."
        v = self.below(sum(w for w, _ in pairs))
        for w, g in pairs:
            if v < w:
                return g(self) if callable(g) else g
            v -= w
        raise AssertionError

    def many(self, lo, hi, p=0.6):
        "Iterate between lo and hi times; after lo, go on with probability p."
        n = 0
        while n < hi:
            if n >= lo and not self.maybe(p):
                return
            yield n
            n += 1

    def list(self, gen, lo, hi, p=0.6):
        return [gen(self) for _ in self.many(lo, hi, p)]

    def sample(self, seq, p):
        "A subset, in order"
        return [x for x in seq if self.maybe(p)]

    def shuffled(self, seq):
        seq = list(seq)
        for i in range(len(seq) - 1):
            j = i + self.below(len(seq) - i)
            seq[i], seq[j] = seq[j], seq[i]
        return seq


def shrink(gen, choices, fails, budget=40.0):
    """Shrink a failing choice sequence. fails(case) -> bool. Returns (case, choices)."""
    deadline = time.monotonic() + budget
    best = list(choices)
    seen = set()

    def attempt(candidate):
        nonlocal best
        key = tuple(candidate)
        if key in seen:
            return False
        seen.add(key)
        src = Source(prefix=candidate)
        case = gen(src)
        used = src.choices
        while used and used[-1] == 0:
            used = used[:-1]
        if (len(used), used) >= (len(best), best):
            return False
        if fails(case):
            best = used
            return True
        return False

    improved = True
    while improved and time.monotonic() < deadline:
        improved = False
        # delete runs of choices
        for size in (32, 16, 8, 4, 3, 2, 1):
            i = len(best) - size
            while i >= 0 and time.monotonic() < deadline:
                if attempt(best[:i] + best[i + size:]):
                    improved = True
                    i = min(i, len(best) - size)
                    continue
                # maybe an earlier choice decided that these are needed
                if i > 0 and best[i - 1] > 0 and attempt(best[:i - 1] + [0] + best[i + size:]):
                    improved = True
                    i = min(i, len(best) - size)
                    continue
                i -= 1
        # zero runs
        for size in (8, 4, 2, 1):
            i = 0
            while i + size <= len(best) and time.monotonic() < deadline:
                if any(best[i:i + size]) and attempt(best[:i] + [0] * size + best[i + size:]):
                    improved = True
                i += 1
        # minimise single choices
        i = 0
        while i < len(best) and time.monotonic() < deadline:
            lo, hi = 0, best[i]
            while lo < hi and i < len(best) and time.monotonic() < deadline:
                mid = (lo + hi) // 2
                if attempt(best[:i] + [mid] + best[i + 1:]):
                    improved = True
                    if i >= len(best):
                        break
                    hi = min(mid, best[i])
                else:
                    lo = mid + 1
            i += 1
    return gen(Source(prefix=best)), best


def make(gen, seed):
    src = Source(rng=random.Random(seed))
    case = gen(src)
    return case, src.choices
