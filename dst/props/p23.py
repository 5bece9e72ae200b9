"""P23: data in foreign formats is read and prepared whole, or the failure is reported."""
import errno
import os
import struct

import numpy as np

from dst import fakeplot, seams
from dst.core import short
from dst.simfs import SimCrash

drawn = []


def setup():
    fakeplot.install()
    import sys
    sys.modules['pylab'].errorbar = lambda *a, **k: drawn.append([np.array(v, float) for v in a])
    import pybrain.tools.svmdata, pybrain.tools.datasettools, pybrain.tools.example_tools  # noqa
    import pybrain.tools.datasets.mnist  # noqa


def close(a, b, tol=1e-9):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (1 + np.abs(b))))


class Disk(object):
    """operations on a disk that may fail or whose process may die"""

    def __init__(self, sim):
        self.sim = sim
        self.fs = seams.use_fs(sim)
        self.fs.bufsize = sim.choice((8, 64, 4096))
        self.faulty = sim.chance(0.6)

    def attempt(self, f, writing=False):
        """('ok', result) | ('failed', what): 'failed' only for a fault that was injected"""
        fs, sim = self.fs, self.sim
        if self.faulty and sim.chance(0.4):
            at = 1 + sim.draw(sim.choice((3, 8, 20)))
            if writing and sim.chance(0.4):
                fs.arm(crash_at=at, torn=sim.chance(0.5))
            else:
                fs.arm(fail_at=at, err=sim.choice((errno.EIO, errno.ENOSPC, errno.EMFILE) if writing else (errno.EIO, errno.EMFILE)),
                       sticky=sim.chance(0.5), torn=writing and sim.chance(0.3))
        try:
            res = 'ok', f()
        except SimCrash:
            res = 'failed', 'crash'
        except OSError as e:
            if fs.fired != 'error':
                raise
            res = 'failed', type(e).__name__
        fired, fs.fired = fs.fired, None
        fs.disarm()
        if res[0] == 'failed':
            fs.reboot()
            sim.probe('failure-reported')
        elif fired:
            sim.probe('fault-without-effect')
        self.fired = fired
        sim.log('->', res[0], fired)
        return res


def put(path, b):
    with open(path, 'wb') as f:
        f.write(b if isinstance(b, bytes) else b.encode('ascii'))


def number(sim):
    return sim.choice((0.0, 1.0, -1.0, 0.5, sim.float(-100, 100), sim.float(-1, 1), 1e-7, -12345.678))


# --- LIBSVM and raw column files -----------------------------------------------------
def svmdata(sim):
    from pybrain.tools.svmdata import SVMData
    disk = Disk(sim)
    ds = SVMData()
    for k in range(sim.int(1, 4)):
        n, dim = sim.int(1, 6), sim.int(1, 5)
        kind = sim.choice(('svm', 'svm', 'raw'))
        place = sim.choice(('', '', '', 'data/', 'x.svm/', 'in.mat/'))
        if place:
            os.makedirs(disk.fs.path(place), exist_ok=True)
        x = [[number(sim) if sim.chance(0.6) else 0.0 for _ in range(dim)] for _ in range(n)]
        y = [float(sim.choice((-1, 1, 2, 3, 0, 0.5, -2.25))) if kind == 'svm' else float(sim.draw(3)) for _ in range(n)]
        end = sim.choice(('\n', '', '\r\n'))
        sep = sim.choice((' ', '  ', '\t'))
        broken = None
        if kind == 'svm':
            dense = sim.chance(0.3)
            lines = []
            for xi, yi in zip(x, y):
                f = ['%d:%r' % (j + 1, v) for j, v in enumerate(xi) if v or dense]
                lines.append(sep.join([(sim.choice(('%d', '%r', '+%d')) if yi >= 0 and yi == int(yi) else '%r') % yi] + f))
            used = max([max([j + 1 for j, v in enumerate(xi) if v or dense] or [0]) for xi in x])
            if not used:
                continue
            want = [xi[:used] for xi in x]
            name = disk.fs.path(place + 'd%d.svm' % k)
            text = ('\r\n' if end == '\r\n' else '\n').join(lines) + end
            if sim.chance(0.15) and n > 1:
                # a damaged entry
                i = sim.draw(n)
                bad = sim.choice(('x:1', '2', '1:', ':', 'nonsense', '0:1', 'again', 'label'))
                if bad == 'again':
                    # an index that does not ascend
                    bad = '%d:7' % max([1] + [j + 1 for j, v in enumerate(x[i]) if v or dense])
                    lines[i] = lines[i] + (sep + bad if ':' in lines[i] else sep + bad + sep + bad)
                elif bad == 'label':
                    lines[i] = 'x' + lines[i]
                else:
                    lines[i] = lines[i] + sep + bad
                text = '\n'.join(lines) + '\n'
                broken = 'entry %r' % bad
            elif sim.chance(0.1):
                # empty lines: nothing says what they mean, but no sample gets lost
                for _ in range(sim.int(1, 2)):
                    lines.insert(sim.int(0, len(lines)), sim.choice(('', '', ' ', '\t')))
                text = '\n'.join(lines) + '\n'
                broken = 'gap'
            put(name, text)
        else:
            want = x
            name = disk.fs.path(place + 'data%d.txt' % k)
            tars = ['%s' % ' '.join('1' if c == int(yi) else '0' for c in range(3)) for yi in y]
            if sim.chance(0.2):
                i = sim.draw(n)
                how = sim.choice(('cut', 'zeros'))
                if how == 'cut':
                    tars = tars[:i]
                else:
                    tars[i] = '0 0 0'
                broken = 'targets ' + how
            rows = [sep.join('%r' % v for v in xi) for xi in x]
            if not broken and sim.chance(0.1):
                i = sim.int(0, n)
                rows.insert(i, sim.choice(('', ' ')))
                if sim.chance(0.5):
                    tars.insert(i, '')
                broken = 'gap'
            put(name, '\n'.join(rows) + ('\n' if sim.chance(0.7) else ''))
            put(disk.fs.path(place + 'targets%d.txt' % k), '\n'.join(tars) + '\n')
        if broken:
            sim.fault('damaged-file')
        sim.log(kind, n, dim, broken)
        if sim.chance(0.5):
            how, got = disk.attempt(lambda: load(SVMData, name))
        else:
            before = ds.getNbSamples(), dict(ds.getClassHistogram()), np.array(ds['input']), np.array(ds['target'])
            how, got = disk.attempt(lambda: load(ds.loadData, name) or ds)
            if how != 'ok' or isinstance(got, Exception):
                after = ds.getNbSamples(), dict(ds.getClassHistogram()), np.array(ds['input']), np.array(ds['target'])
                sim.check(after[:2] == before[:2] and close(after[2], before[2]) and close(after[3], before[3]), 'failed-load-changed-data',
                          lambda: 'a failed load changed the data: %s became %s' % (short(before), short(after)))
        sim.state('svmdata', kind, n, broken, how)
        if how != 'ok':
            continue
        if isinstance(got, Exception):
            sim.check(broken, 'exception:%s' % type(got).__name__, lambda: 'a file in good order is refused: %r' % got)
            sim.probe('damage-reported')
            continue
        sim.check(not broken or broken == 'gap', 'damage-not-reported', lambda: 'a file with damaged %s was read as %s' %
                  (broken, short(list(zip(got['input'], got['target'])))))
        sim.check(close(got['input'], want), 'wrong-data', lambda: 'read %s from a file of %s' % (short(got['input'].tolist()), short(want)))
        sim.check(close(got['target'], [[v] for v in y]), 'wrong-data', lambda: 'read targets %s, the file has %s' % (got['target'].tolist(), y))
        sim.check(len(got) == n and got.indim == len(want[0]) and got.outdim == 1, 'wrong-data', 'wrong dimensions')
        sim.check(got.getNbSamples() == n, 'wrong-count', lambda: '%d samples reported of %d' % (got.getNbSamples(), n))
        hist = dict((c, y.count(c)) for c in set(y))
        sim.check(dict(got.getClassHistogram()) == hist, 'wrong-count', lambda: 'histogram %s, expected %s' % (got.getClassHistogram(), hist))
        sim.check(sorted(got.getClass(i) for i in range(len(hist))) == sorted(hist), 'wrong-count', 'classes')
        sim.check(got.getFileName() == name, 'wrong-data', 'file name')
        sim.check([float(np.ravel(t)[0]) for t in got.getTargets()] == y, 'wrong-data', lambda: 'targets %s of %s' % (short(got.getTargets()), y))
        if sim.chance(0.3):
            got.addSample([0.0] * got.indim, [0.0])
            sim.check(len(got) == n + 1, 'wrong-data', 'a sample added to the data is missing')


def load(f, *args):
    """f(*args), where problems with the content of the file are results"""
    try:
        return f(*args)
    except OSError:
        raise
    except Exception as e:
        return e


# --- MNIST -------------------------------------------------------------------------
def mnist(sim):
    from pybrain.tools.datasets import mnist as M
    disk = Disk(sim)
    side = 28 if sim.chance(0.3) else sim.int(1, 4)
    whole = side == 28
    parts = {}
    for part in ('t10k', 'train'):
        n = sim.int(1, 3 if whole else 5)
        images = [[sim.draw(256) if not whole or j < 5 else 0 for j in range(side * side)] for _ in range(n)]
        labels = [sim.draw(10) for _ in range(n)]
        parts[part] = images, labels
        put(disk.fs.path(part + '-images-idx3-ubyte'),
            struct.pack('>iiii', 2051, n, side, side) + b''.join(bytes(bytearray(i)) for i in images))
        put(disk.fs.path(part + '-labels-idx1-ubyte'), struct.pack('>ii', 2049, n) + bytes(bytearray(labels)))
    damage = None
    if sim.chance(0.3):
        victim = sim.choice(('t10k', 'train')) + sim.choice(('-images-idx3-ubyte', '-labels-idx1-ubyte'))
        p = disk.fs.path(victim)
        with open(p, 'rb') as f:
            b = f.read()
        damage = sim.choice(('cut', 'magic'))
        put(p, b[:sim.draw(len(b))] if damage == 'cut' else b'\0\0\1\1' + b[4:])
        sim.fault('damaged-file')
        damage = damage, victim
    sim.log('mnist', side, [len(parts[p][1]) for p in sorted(parts)], damage)
    for _ in range(sim.int(1, 2)):
        if whole and sim.chance(0.8):
            how, got = disk.attempt(lambda: load(M.makeMnistDataSets, disk.fs.root))
            sim.state('mnist', how, damage)
            if how != 'ok':
                continue
            if damage:
                sim.check(isinstance(got, Exception), 'damage-not-reported', lambda: 'damage %s was not reported' % (damage,))
                sim.probe('damage-reported')
                continue
            sim.check(not isinstance(got, Exception), 'exception:%s' % type(got).__name__, lambda: 'files in good order are refused: %r' % got)
            train, test = got
            for ds, part in ((train, 'train'), (test, 't10k')):
                images, labels = parts[part]
                sim.check(close(ds['input'], images), 'wrong-data', 'images of %s' % part)
                sim.check(close(ds['target'], [[float(c == l) for c in range(10)] for l in labels]), 'wrong-data', 'labels of %s' % part)
        else:
            part = sim.choice(('t10k', 'train'))
            kind = sim.choice(('images-idx3', 'labels-idx1'))
            name = '%s-%s-ubyte' % (part, kind)
            how, got = disk.attempt(lambda: load(lambda: list((M.images if kind[0] == 'i' else M.labels)(disk.fs.path(name)))))
            sim.state('mnist', kind, how, damage)
            if how != 'ok':
                continue
            if damage and damage[1] == name:
                sim.check(isinstance(got, Exception), 'damage-not-reported', lambda: 'damage %s was not reported' % (damage,))
                sim.probe('damage-reported')
                continue
            sim.check(not isinstance(got, Exception), 'exception:%s' % type(got).__name__, lambda: 'a file in good order is refused: %r' % got)
            want = parts[part][0 if kind[0] == 'i' else 1]
            sim.check(close(got, want), 'wrong-data', lambda: 'read %s from %s' % (short(got), short(want)))


# --- normalization -----------------------------------------------------------------
def normalizer(sim):
    from pybrain.tools.datasettools import DataSetNormalizer
    from pybrain.datasets import SupervisedDataSet
    disk = Disk(sim)
    dim = sim.int(1, 4)

    def data(n):
        ds = SupervisedDataSet(dim, 1)
        for _ in range(n):
            ds.addSample([number(sim) if j or sim.chance(0.8) else 2.5 for j in range(dim)], [sim.float(-1, 1)])
        return ds
    meanstd = sim.chance(0.4)
    base = data(sim.int(1, 6))
    bounds = sim.choice(([-1, 1], [0, 1], [-0.5, 2]))
    raw = np.array(base['input'])
    norm = DataSetNormalizer(meanstd=meanstd)
    sim.log('normalizer', dim, meanstd, bounds, len(raw))
    try:
        norm.normalize(base)
    except IndexError:
        pass
    else:
        sim.violate('unready-accepted', 'normalization without parameters was accepted')
    norm.calculate(base, bounds)
    sim.check(close(base['input'], raw), 'data-changed', 'calculating the parameters changed the data')

    def expected(x):
        x = np.array(x, float)
        if meanstd:
            sd = raw.std(axis=0)
            # rounding leaves an arbitrary tiny deviation of a constant column
            return (x - raw.mean(axis=0)) / np.where(sd > 0, sd, 1.0)
        lo, hi = raw.min(axis=0), raw.max(axis=0)
        with np.errstate(all='ignore'):
            scale = (bounds[1] - bounds[0]) / (hi - lo)
        return (x - lo) * np.where(np.isfinite(scale), scale, 1.0) + bounds[0]
    shaky = meanstd and bool(np.any(raw.std(axis=0) < 1e-6 * (1 + np.abs(raw).max(axis=0))))
    name = disk.fs.path('norm')
    saved = False
    for _ in range(sim.int(2, 6)):
        op = sim.choice(('normalize', 'normalize', 'pattern', 'save', 'load', 'mismatch'))
        how = 'ok'
        if op == 'normalize':
            ds = data(sim.int(1, 4)) if sim.chance(0.7) else None
            if ds is None:
                ds = SupervisedDataSet(dim, 1)
                for r in raw:
                    ds.addSample(r, [0.0])
            x, t = np.array(ds['input']), np.array(ds['target'])
            norm.normalize(ds)
            sim.check(shaky or close(ds['input'], expected(x), 1e-6), 'wrong-normalization',
                      lambda: '%s became %s, expected %s' % (x.tolist(), ds['input'].tolist(), expected(x).tolist()))
            sim.check(close(ds['target'], t) and len(ds) == len(x), 'data-changed', 'normalizing the inputs changed other data')
        elif op == 'pattern':
            x = np.array([number(sim) for _ in range(dim)])
            y = norm.normalizePattern(x.copy())
            sim.check(shaky or close(y, expected(x), 1e-6), 'wrong-normalization',
                      lambda: 'pattern %s became %s, expected %s' % (x, y, expected(x)))
        elif op == 'mismatch':
            ds = SupervisedDataSet(dim + 1, 1)
            ds.addSample([1.0] * (dim + 1), [0.0])
            try:
                norm.normalize(ds)
            except IndexError:
                sim.check(close(ds['input'], [[1.0] * (dim + 1)]), 'data-changed', 'a refused normalization changed the data')
            else:
                sim.violate('mismatch-accepted', 'data of another dimension was normalized')
        elif op == 'save':
            how, _ = disk.attempt(lambda: norm.save(name), True)
            saved = how == 'ok'
        elif op == 'load' and saved:
            other = DataSetNormalizer()
            how, got = disk.attempt(lambda: load(other.load, name))
            if how == 'ok':
                sim.check(not isinstance(got, Exception), 'not-loadable', lambda: 'saved parameters cannot be loaded: %r' % got)
                norm = other
        sim.log(op, how)
        sim.state('normalizer', op, how, meanstd, saved)


def windows(sim):
    from pybrain.tools.datasettools import convertSequenceToTimeWindows
    from pybrain.datasets import SequentialDataSet, SupervisedDataSet
    indim, outdim, win = sim.int(1, 3), sim.int(1, 2), sim.int(1, 4)
    ds = SequentialDataSet(indim, outdim)
    want = []
    lengths = []
    for _ in range(sim.int(1, 4)):
        ds.newSequence()
        n = sim.int(1, 9)
        lengths.append(n)
        seq = [([sim.float(-1, 1) for _ in range(indim)], [sim.float(-1, 1) for _ in range(outdim)]) for _ in range(n)]
        for x, y in seq:
            ds.addSample(x, y)
        for k in range(0, n - win + 1, win):
            want.append((sum([x for x, _ in seq[k:k + win]], []), seq[k + win - 1][1]))
    sim.log('windows', lengths, win)
    before = np.array(ds['input'])
    res = convertSequenceToTimeWindows(ds, SupervisedDataSet, win)
    sim.log('->', len(res))
    sim.check(res.indim == indim * win and res.outdim == outdim, 'wrong-data', 'dimensions of the windows')
    sim.check(len(res) == len(want), 'windows-missing', lambda: '%d windows of size %d from sequences of lengths %s, expected %d' %
              (len(res), win, lengths, len(want)))
    for (x, y), (a, b) in zip(res, want):
        sim.check(close(x, a) and close(y, b), 'wrong-data', lambda: 'window %s %s, expected %s %s' % (x, y, a, b))
    sim.check(close(ds['input'], before) and ds.getNumSequences() == len(lengths), 'data-changed', 'the sequences changed')
    sim.log('done')
    sim.state('windows', tuple(lengths), win)


# --- example tools ------------------------------------------------------------------
class Learner(object):
    """the parts of a parameter-exploring learner that the tools use"""

    class Descent(object):
        def __init__(self):
            self.got = None

        def init(self, values):
            self.got = np.array(values)

    def __init__(self):
        self.current = np.zeros(2)
        self.gd = Learner.Descent()
        self.epsilon = 1.0
        self.bestEvaluation = 3
        self.sigmas = 0

    def initSigmas(self):
        self.sigmas += 1

    def _bestFound(self):
        return self.current, self.bestEvaluation


class Agent(object):
    def __init__(self):
        self.learner = Learner()


def extools(sim):
    from pybrain.tools.example_tools import ExTools
    disk = Disk(sim)
    tools = [ExTools(sim.int(1, 3), sim.int(1, 3), kind=sim.choice(('optimizer', 'learner'))) for _ in range(sim.int(1, 2))]
    for t in tools:
        t.agent = Agent()
    results = [[[]] for _ in tools]             # per tool: experiments, the last one is not finished
    files = {}
    for _ in range(sim.int(3, 12)):
        i = sim.draw(len(tools))
        t, mine = tools[i], results[i]
        op = sim.choice(('print', 'print', 'print', 'add', 'show', 'save', 'load', 'results'))
        how = 'ok'
        if op == 'print':
            rs = [sim.int(-5, 5) for _ in range(sim.int(1, 3))]
            if t.kind == 'optimizer':
                t.printResults(rs, 0, 1)
                mine[-1].append(sum(rs) / float(len(rs)))
            else:
                t.printResults(float(rs[0]), 0, 1)
                mine[-1].append(float(rs[0]))
        elif op == 'add':
            t.addExps()
            mine.append([])
        elif op == 'show':
            done = mine[:-1]
            if not done or not done[0] or len(set(len(d) for d in done)) != 1:
                continue
            del drawn[:]
            t.showExps()
            a = np.array(done)
            step = t.prnts * t.batch
            want = [np.arange(len(done[0])) * step + step, a.mean(axis=0), a.std(axis=0)]
            sim.check(len(drawn) == 1 and all(close(x, y) for x, y in zip(drawn[0], want)), 'wrong-figure',
                      lambda: 'drawn %s, expected %s' % (short(drawn), short(want)))
        elif op in ('save', 'results'):
            name = disk.fs.path(op + str(sim.draw(2)))
            v = np.array([number(sim) for _ in range(sim.int(1, 4))]) if op == 'save' else [list(r) for r in mine]
            how, _ = disk.attempt(lambda: (t.saveWeights if op == 'save' else t.saveResults)(name, v), True)
            files[name] = v if how == 'ok' else None
        elif op == 'load':
            name = sim.choice(sorted(n for n in files if 'save' in n)) if any('save' in n for n in files) else None
            if name is None or files[name] is None:
                continue
            ln = t.agent.learner
            before, sig = np.array(ln.current), ln.sigmas
            how, got = disk.attempt(lambda: load(t.loadWeights, name))
            if how == 'ok':
                sim.check(not isinstance(got, Exception), 'not-loadable', lambda: 'saved weights cannot be loaded: %r' % got)
                sim.check(close(ln.current, files[name]) and close(ln.gd.got, files[name]) and ln.sigmas == sig + 1, 'wrong-data',
                          lambda: 'loaded %s, saved %s' % (ln.current, files[name]))
            else:
                sim.check(close(ln.current, before) and ln.sigmas == sig, 'wrong-data', 'a failed load changed the learner')
        sim.log(op, how, len(mine))
        sim.state('extools', op, how, len(tools), len(mine))
    import pickle
    for name, v in sorted(files.items()):
        if v is not None:
            with open(name, 'rb') as f:
                got = pickle.load(f)
            sim.check(close(got, v) if 'save' in name else got == v, 'wrong-data', lambda: 'the file holds %s, saved %s' % (got, v))


def run(sim):
    sim.seed_globals()
    kind = sim.weighted([(4, svmdata), (3, mnist), (4, normalizer), (2, windows), (3, extools)])
    sim.probe('variant-' + kind.__name__)
    kind(sim)
