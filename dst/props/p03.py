"""P03: an addition to a dictionary file is kept once acknowledged, whatever happens later."""
import errno
import os
import pickle

from dst import seams
from dst.simfs import SimCrash
from dst.core import short


def setup():
    import pybrain.tools.filehandling  # noqa


def data(sim):
    return sim.choice((sim.int(0, 99), sim.value(), [sim.value() for _ in range(sim.draw(4))], 'text-%d' % sim.draw(9),
                       (sim.draw(5), None), {'a': sim.draw(7)}))


def run(sim):
    from pybrain.tools.filehandling import (addToDictFile, pickleReadDict, pickleDumpDict, getAllFilesIn, selectSome)
    sim.seed_globals()
    fs = seams.use_fs(sim)
    fs.bufsize = sim.choice((8, 64, 4096))
    faulty = sim.chance(0.8)
    stems = ['run1', 'run2', 'other'][:1 + sim.draw(3)]
    held = {}                         # stem -> dict
    for k in sim.ops(12, 40):
        op = sim.weighted([(8, 'add'), (4, 'read'), (2, 'dump'), (1, 'list'), (1, 'corrupt')])
        stem = stems[sim.draw(len(stems))]
        name = fs.path(stem)
        old = held.get(stem)
        key = sim.choice(('k', 'x', 3, ('t', 1)))
        fired = None
        sim.log(op, stem, key, sorted((s, len(d)) for s, d in held.items()))
        if op in ('add', 'dump'):
            v = data(sim)
            if op == 'add':
                new = dict((a, list(b)) for a, b in (old or {}).items())
                new.setdefault(key, []).append(v)
            else:
                new = dict((sim.choice('abcdef'), [data(sim)]) for _ in range(sim.draw(4)))
            if faulty and sim.chance(0.45):
                at = 1 + sim.draw(sim.choice((4, 10, 24)))
                if sim.chance(0.5):
                    fs.arm(crash_at=at, torn=sim.chance(0.5))
                else:
                    fs.arm(fail_at=at, err=sim.choice((errno.ENOSPC, errno.EIO, errno.EMFILE)), sticky=sim.chance(0.5),
                           torn=sim.chance(0.3))
            try:
                if op == 'add':
                    r = addToDictFile(name, key, v, verbose=sim.chance(0.2))
                else:
                    r = pickleDumpDict(name, new)
                outcome = 'ok' if r is not False else 'reported'
            except SimCrash:
                outcome = 'crash'
            except OSError:
                if fs.fired != 'error':
                    raise
                outcome = 'raised'
            fired = fs.fired
            fs.disarm()
            fs.fired = None
            sim.log('->', outcome)
            if outcome == 'ok':
                held[stem] = new
            else:
                sim.check(fired, 'unexpected-error', lambda: '%s reported a failure on a healthy disk' % op)
                sim.probe(outcome + '-during-' + op)
                fs.reboot()
                got = pickleReadDict(name)
                ok = [c for c in (old, new) if (c or {}) == got]
                sim.check(ok, 'lost-entries', lambda: 'after a failed %s the file holds %s; before: %s, complete: %s' %
                          (op, short(got), short(old), short(new)))
                if ok[0] is None and not os.path.exists(name + '.pickle'):
                    held.pop(stem, None)
                else:
                    held[stem] = ok[0] or {}
        elif op == 'read':
            if faulty and sim.chance(0.4):
                fs.arm(fail_at=1 + sim.draw(3), err=sim.choice((errno.EIO, errno.EMFILE)))
            got = pickleReadDict(name)
            fired = fs.fired
            fs.disarm()
            fs.fired = None
            if fired:
                sim.probe('read-failed')
                sim.check(got in ({}, old), 'wrong-entries', lambda: 'a failing read gave %s' % short(got))
            else:
                sim.check(got == (old or {}), 'wrong-entries', lambda: 'read %s, expected %s' % (short(got), short(old)))
        elif op == 'list':
            got = getAllFilesIn(fs.root)
            sim.check(sorted(got) == sorted(held), 'wrong-listing', lambda: 'files %s, expected %s' % (got, sorted(held)))
            got = getAllFilesIn(fs.root, tag='run')
            sim.check(sorted(got) == sorted(s for s in held if s.startswith('run')), 'wrong-listing', lambda: 'tagged files %s' % got)
            sub = [x for x in ('run', '1', 'o') if sim.chance(0.5)]
            a = selectSome(sorted(held), sub)
            sim.check(a == [s for s in sorted(held) if all(x in s for x in sub)], 'wrong-listing', lambda: 'selected %s for %s' % (a, sub))
            b = selectSome(sorted(held), sub, requireAll=False)
            sim.check(b == [s for s in sorted(held) if not sub or any(x in s for x in sub)], 'wrong-listing', lambda: 'selected %s for any of %s' % (b, sub))
        elif op == 'corrupt' and faulty and stem in held:
            # somebody cut the file: adding must not quietly replace it
            with open(name + '.pickle', 'rb') as f:
                b = f.read()
            with open(name + '.pickle', 'wb') as f:
                f.write(b[:sim.draw(len(b))])
            sim.fault('file-truncated')
            before = os.path.getsize(name + '.pickle')
            try:
                r = addToDictFile(name, key, 1)
            except Exception:
                sim.probe('damaged-file-reported')
                sim.check(os.path.getsize(name + '.pickle') == before, 'damaged-file-replaced', 'a file that could not be read was changed')
            else:
                sim.check(r is False, 'damaged-file-replaced', 'an addition to a file that cannot be read was acknowledged')
            os.remove(name + '.pickle')
            held.pop(stem)
        sim.state(op, bool(fired), tuple(sorted((len(d), sum(len(x) for x in d.values())) for d in held.values())))
    for s in sorted(held):
        got = pickleReadDict(fs.path(s))
        sim.check(got == held[s], 'lost-entries', lambda: 'at the end %s holds %s, expected %s' % (s, short(got), short(held[s])))
