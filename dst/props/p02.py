"""P02: a dataset saved to a file is loaded back whole, or the failure is reported."""
import errno
import os

import numpy as np

from dst import gen_data as D
from dst import seams
from dst.simfs import SimCrash
from dst.core import short


def setup():
    import pybrain.datasets  # noqa


class Flaky(object):
    """a file-like stream that fails at the n-th call"""

    def __init__(self, sim, f, at):
        self.sim, self.f, self.at, self.n = sim, f, at, 0

    def _tick(self):
        self.n += 1
        if self.n == self.at:
            self.sim.fault('stream-fails')
            raise OSError(errno.EIO, 'stream failed')

    def write(self, b):
        self._tick()
        return self.f.write(b)

    def read(self, *a):
        self._tick()
        return self.f.read(*a)

    def readline(self, *a):
        self._tick()
        return self.f.readline(*a)


def grow(sim, ds, m, n):
    for _ in range(n):
        if m.sequential and m.rows and m.starts[-1] != len(m.rows) and sim.chance(0.3):
            ds.newSequence()
            m.starts.append(len(m.rows))
        r = D.row(sim, m)
        D.add(ds, m, r, sim.draw(4))
        m.rows.append(r)


def run(sim):
    import io
    sim.seed_globals()
    fs = seams.use_fs(sim)
    fs.bufsize = sim.choice((16, 64, 512, 4096))
    faulty = sim.chance(0.75)
    pool = []
    for _ in range(1 + sim.draw(2)):
        ds, m = D.build(sim)
        if sim.chance(0.25):
            D.extend(sim, ds, m)
            sim.probe('linked-field-added')
        grow(sim, ds, m, sim.draw(8))
        pool.append((ds, m))
    names = ['d.pkl', 'e', 'f.data', 'g.txt'][:1 + sim.draw(4)]
    held = {}                    # name -> (class, model) the file must hold, absent: no file
    for k in sim.ops(8, 20):
        op = sim.weighted([(6, 'save'), (4, 'load'), (3, 'grow'), (2, 'truncate'), (2, 'stream'), (1, 'copy'), (1, 'badformat')])
        ds, m = pool[sim.draw(len(pool))]
        name = names[sim.draw(len(names))]
        path = fs.path(name)
        fmt = 'pickle' if name.endswith('.txt') or sim.chance(0.2) else None
        sim.log(op, name, m.kind, len(m.rows), sorted(held))
        if op == 'grow':
            grow(sim, ds, m, 1 + sim.draw(4))
        elif op == 'copy':
            pool.append((ds.copy(), m.clone()))
        elif op == 'save':
            kw = {}
            if sim.chance(0.5):
                kw['protocol'] = sim.draw(4)
            if sim.chance(0.3):
                kw['compact'] = True
            armed = None
            if faulty and sim.chance(0.5):
                armed = sim.choice(('crash', 'error'))
                at = 1 + sim.draw(sim.choice((3, 8, 30)))
                if armed == 'crash':
                    fs.arm(crash_at=at, torn=sim.chance(0.5))
                else:
                    fs.arm(fail_at=at, err=sim.choice((errno.ENOSPC, errno.EIO, errno.EMFILE)), sticky=sim.chance(0.5),
                           torn=sim.chance(0.3))
            outcome = 'ok'
            try:
                ds.saveToFile(path, fmt, **kw)
            except SimCrash:
                outcome = 'crash'
            except OSError:
                if fs.fired != 'error':
                    raise
                outcome = 'raised'
            fs.disarm()
            fs.fired = None
            sim.log('->', outcome)
            old = held.get(name)
            new = (type(ds), m.clone())
            if outcome == 'ok':
                held[name] = new
                D.same(sim, ds, m, 'the dataset that was saved')
                if sim.chance(0.4):
                    verify(sim, path, [new], fmt)
            else:
                fs.reboot()
                sim.probe(outcome + '-during-save')
                got = verify(sim, path, [old, new], fmt)
                if got is None:
                    held.pop(name, None)
                else:
                    held[name] = got
                if outcome == 'raised':
                    D.same(sim, ds, m, 'the dataset whose save failed')
        elif op == 'load' and name in held:
            if faulty and sim.chance(0.3):
                fs.arm(fail_at=1 + sim.draw(4), err=errno.EIO)
            try:
                got = held[name][0].loadFromFile(path, fmt)
            except OSError:
                if fs.fired != 'error':
                    raise
                sim.probe('read-error-reported')
            else:
                fs.disarm()
                sim.check(type(got) is held[name][0], 'wrong-kind', lambda: 'loaded a %s' % type(got).__name__)
                D.same(sim, got, held[name][1], 'loaded from ' + name)
                if sim.chance(0.5):
                    mm = held[name][1].clone()
                    mm.index = 0
                    pool.append((got, mm))           # it must go on working
                    grow(sim, got, mm, sim.draw(4))
                    D.same(sim, got, mm, 'loaded and extended')
            fs.disarm()
            fs.fired = None
        elif op == 'truncate' and name in held:
            n = os.path.getsize(path)
            keep = sim.draw(n)
            with open(path, 'rb') as f:
                data = f.read()
            with open(path, 'wb') as f:
                f.write(data[:keep])
            sim.fault('file-truncated')
            try:
                got = held[name][0].loadFromFile(path, fmt)
            except Exception:
                sim.probe('truncation-reported')
            else:
                # nothing but trailing bytes may be missing
                D.same(sim, got, held[name][1], 'loaded from a file cut to %d of %d bytes' % (keep, n))
            os.remove(path)
            del held[name]
        elif op == 'stream':
            f = io.BytesIO()
            bad = faulty and sim.chance(0.5)
            try:
                ds.saveToFileLike(Flaky(sim, f, 1 + sim.draw(6) if bad else 0), protocol=sim.draw(3))
            except OSError:
                sim.check(bad, 'unexpected-error', 'saving to a healthy stream failed')
                part = io.BytesIO(f.getvalue())
                try:
                    got = type(ds).loadFromFileLike(part)
                except Exception:
                    sim.probe('partial-stream-reported')
                else:
                    D.same(sim, got, m, 'partial stream')
            else:
                f.seek(0)
                bad = faulty and sim.chance(0.4)
                try:
                    got = type(ds).loadFromFileLike(Flaky(sim, f, 1 + sim.draw(6) if bad else 0))
                except OSError:
                    sim.check(bad, 'unexpected-error', 'loading from a healthy stream failed')
                else:
                    D.same(sim, got, m, 'from a stream')
        elif op == 'badformat':
            fmt2 = sim.choice(('ascii', 'nonsense'))
            try:
                ds.saveToFile(path, fmt2)
            except ValueError:
                pass
            else:
                sim.violate('unknown-format-accepted', fmt2)
            got = verify(sim, path, [held.get(name)], fmt)
            if got is None:
                held.pop(name, None)
        sim.state(op, name, m.kind, min(len(m.rows), 6), len(held), faulty)
    for d, mm in pool:
        D.same(sim, d, mm, 'at the end')
    for n in sorted(held):
        verify(sim, fs.path(n), [held[n]], 'pickle')


def verify(sim, path, cands, fmt):
    """what the file holds is one of the candidates -> that candidate"""
    from dst.core import Violation
    if not os.path.exists(path):
        sim.check(None in cands, 'lost-file', 'the file is gone')
        return None
    cands = [c for c in cands if c is not None]
    if not cands:
        # a first save that failed: nothing promised, but it must not be read as data
        sim.violate('phantom-file', 'a save that was refused left a file behind')
    try:
        got = cands[-1][0].loadFromFile(path, fmt or 'pickle')
    except Exception as e:
        sim.violate('unreadable-file', 'after a completed or interrupted save: %s (%s)' % (type(e).__name__, e))
    last = None
    for c in cands:
        try:
            sim.check(type(got) is c[0], 'wrong-kind', lambda: 'loaded a %s' % type(got).__name__)
            D.same(sim, got, c[1], 'file ' + os.path.basename(path))
            return c
        except (Violation, KeyError) as e:
            last = e
    raise last
