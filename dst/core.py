"""Core of the simulator: one choice tape decides a whole run.

Every nondeterministic decision of a simulated run (generated operations, which
thread runs next, message fate, where a fault strikes, seeds of the global
random generators) is a `draw` from a Tape.  In search mode the tape is fed by a
PRNG seeded from (VERIF_SEED, property, run index); in replay mode it is fed by
a recorded list of integers, zeros when exhausted.  Logging never draws.
"""
import hashlib
import random as _random
from collections import Counter


class Violation(Exception):
    """A property of the code under test does not hold on this run."""

    def __init__(self, cls, msg):
        Exception.__init__(self, '%s: %s' % (cls, msg))
        self.cls = cls
        self.msg = msg


class HarnessError(Exception):
    """The machinery itself is at fault (never reported as a violation)."""


class StopRun(Exception):
    """End this run early without a verdict (e.g. the step cap was reached)."""


def derive_seed(*parts):
    h = hashlib.sha256('|'.join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:8], 'big')


class Tape(object):
    LIMIT = 400000

    def __init__(self, seed=None, rec=None):
        self.rec = rec
        self.pos = 0
        self.out = []
        self.spans = []
        self.rng = _random.Random(seed) if rec is None else None

    def draw(self, n):
        if n <= 1:
            return 0
        if self.rec is None:
            v = self.rng.randrange(n)
        else:
            v = self.rec[self.pos] if self.pos < len(self.rec) else 0
            if v >= n:
                v %= n
        self.pos += 1
        if self.pos > self.LIMIT:
            raise StopRun('tape limit')
        self.out.append(v)
        return v


class _Span(object):
    def __init__(self, tape):
        self.tape = tape

    def __enter__(self):
        self.start = self.tape.pos

    def __exit__(self, *a):
        if self.tape.pos > self.start:
            self.tape.spans.append((self.start, self.tape.pos))


class Sim(object):
    """The context handed to a property's run()."""

    def __init__(self, tape, keep_log=True, known=()):
        self.tape = tape
        self.events = []
        self.faults = Counter()
        self.probes = Counter()
        self.states = set()
        self.simtime = 0.0
        self.steps = 0
        self.notes = []
        self.known_hits = Counter()
        self._digest = hashlib.sha256()
        self._nlog = 0

    # --- choices -----------------------------------------------------------
    def draw(self, n):
        return self.tape.draw(n)

    def int(self, lo, hi):
        """uniform integer in [lo, hi]; shrinks towards lo."""
        return lo + self.tape.draw(hi - lo + 1)

    def choice(self, seq):
        return seq[self.tape.draw(len(seq))]

    def weighted(self, pairs):
        """pairs: [(weight, value)], shrinks to the first."""
        tot = sum(w for w, _ in pairs)
        x = self.tape.draw(tot)
        for w, v in pairs:
            if x < w:
                return v
            x -= w
        raise HarnessError('weighted')

    def chance(self, p):
        """True with probability p; shrinks to False."""
        if p <= 0:
            return False
        return self.tape.draw(1 << 16) >= (1 << 16) * (1 - p)

    def float(self, lo=0.0, hi=1.0):
        return lo + (hi - lo) * (self.tape.draw(1 << 20) / float(1 << 20))

    def value(self):
        """a 'nice' float: mostly small dyadic numbers, exactly representable."""
        k = self.tape.draw(8)
        if k < 4:
            return float(self.tape.draw(17) - 8) / 4
        if k < 7:
            return (self.tape.draw(4001) - 2000) / 1000.0
        return (self.tape.draw(2000001) - 1000000) / 7.0

    def vec(self, n):
        return [self.value() for _ in range(n)]

    def shuffled(self, seq):
        seq = list(seq)
        out = []
        while seq:
            out.append(seq.pop(self.tape.draw(len(seq))))
        return out

    def subset(self, seq, p=0.5):
        return [x for x in seq if self.chance(p)]

    def ops(self, avg, cap):
        """iterate over operation slots: geometric with mean avg, at most cap.
        Each slot is one span of the tape, so a shrinker can delete it whole."""
        p = 1.0 - 1.0 / max(avg, 1.0001)
        for i in range(cap):
            start = self.tape.pos
            go = self.chance(p) if i else self.chance(0.995)
            if not go:
                return
            self.steps += 1
            try:
                yield i
            finally:
                if self.tape.pos > start:
                    self.tape.spans.append((start, self.tape.pos))

    def span(self):
        return _Span(self.tape)

    def seed_globals(self):
        """seed the process-wide generators the library draws from."""
        s = self.tape.draw(1 << 30)
        _random.seed(s)
        import numpy
        numpy.random.seed(s)
        return s

    # --- observation --------------------------------------------------------
    def log(self, *parts):
        line = ' '.join(str(p) for p in parts)
        self._digest.update(line.encode('utf-8', 'replace'))
        self._digest.update(b'\n')
        self._nlog += 1
        if len(self.events) < 4000:
            self.events.append(line)

    @property
    def nlog(self):
        return self._nlog

    def digest(self):
        return self._digest.hexdigest()[:24]

    def fault(self, kind, n=1):
        self.faults[kind] += n

    def probe(self, name, n=1):
        self.probes[name] += n

    def state(self, *key):
        self.states.add(hashlib.md5(repr(key).encode()).hexdigest()[:12])

    def violate(self, cls, msg=''):
        raise Violation(cls, msg)

    def check(self, cond, cls, msg=''):
        if not cond:
            raise Violation(cls, msg() if callable(msg) else msg)


def short(x, n=200):
    s = repr(x)
    return s if len(s) <= n else s[:n] + '...'
