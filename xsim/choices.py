"""Every decision of a run, drawn from one seed and recorded.

`gen` is a dense sequence (workload generation); `sched`, `fault` and `env` are
sparse maps from decision points to the non-default decision taken there.
A recorded set of decisions replays the run exactly; deleting entries gives a
smaller run (used by the shrinker).
"""
import hashlib
import random

STREAMS = ('sched', 'fault', 'env')


def prf(seed, stream, key):
    h = hashlib.blake2b(('%s|%s|%s' % (seed, stream, key)).encode(), digest_size=8)
    return int.from_bytes(h.digest(), 'little')


def unit(seed, stream, key):
    return prf(seed, stream, key) / 2.0 ** 64


class Choices(object):
    def __init__(self, seed, replay=None):
        self.seed = seed
        self.replay = replay
        self.rec = {'gen': [], 'sched': {}, 'fault': {}, 'env': {}}
        self._pos = 0
        self._rng = random.Random('gen|%s' % seed)

    # ---- dense stream
    def int(self, n):
        """Integer in [0, n); 0 is the simplest."""
        if n <= 1:
            return 0
        if self.replay is not None:
            g = self.replay['gen']
            v = g[self._pos] % n if self._pos < len(g) else 0
            self._pos += 1
        else:
            v = self._rng.randrange(n)
        self.rec['gen'].append(v)
        return v

    def range(self, lo, hi):
        return lo + self.int(hi - lo + 1)

    def choice(self, seq):
        return seq[self.int(len(seq))]

    def chance(self, permille):
        """True with the given probability; False is the simplest."""
        return self.int(1000) >= 1000 - permille

    def weighted(self, pairs):
        """pairs: [(value, integer weight)]; the first is the simplest."""
        total = sum(w for _, w in pairs)
        v = self.int(total)
        for value, w in pairs:
            if v < w:
                return value
            v -= w

    def subset(self, seq, permille=500):
        return [x for x in seq if self.chance(permille)]

    def shuffle(self, seq):
        seq = list(seq)
        out = []
        while seq:
            out.append(seq.pop(self.int(len(seq))))
        return out

    # ---- sparse streams
    def keyed(self, stream, key, options, allowed=True):
        """options: [(value, probability)]; None if nothing is drawn."""
        if self.replay is not None:
            v = self.replay[stream].get(key)
        elif not allowed:
            v = None
        else:
            u = unit(self.seed, stream, key)
            v = None
            for value, p in options:
                if u < p:
                    v = value
                    break
                u -= p
        if v is not None:
            self.rec[stream][key] = v
        return v

    def number(self, stream, key):
        """Uniform number in [0, 1), recorded if used."""
        if self.replay is not None:
            v = self.replay[stream].get(key, 0.0)
        else:
            v = round(unit(self.seed, stream, key), 6)
        if v:
            self.rec[stream][key] = v
        return v
