"""P04: datasets behave like plain lists of samples over any history, faulty calls included."""
import pickle
import io
from collections import Counter

import numpy as np

from dst import gen_data as D
from dst.core import short


class UserFault(Exception):
    pass


def setup():
    import pybrain.datasets  # noqa


class BadRow(object):
    """a row whose source fails while it is being read"""

    def __init__(self, n, at):
        self.n, self.at = n, at

    def __len__(self):
        return self.n

    def __getitem__(self, i):
        if i >= self.at:
            raise UserFault('row source failed')
        if i >= self.n:
            raise IndexError(i)
        return 1.0


def key(r):
    return repr([[float(x) for x in v] for v in r])


def vec(x):
    return np.asarray(x, dtype=float).ravel().tolist()


def run(sim):
    from pybrain.datasets.sequential import EmptySequenceError
    from pybrain.datasets.dataset import OutOfSyncError
    sim.seed_globals()
    if sim.chance(0.15):
        return plain(sim)
    only = sim.choice(D.KINDS + (None,) * 3)
    ds, m = D.build(sim, only)
    pool = [(ds, m)]
    faulty = sim.chance(0.7)
    for k in sim.ops(22, 60):
        j = sim.draw(len(pool))
        ds, m = pool[j]
        ops = [(12, 'add'), (3, 'get'), (3, 'next'), (1, 'reset'), (2, 'iter'), (1, 'clear'), (2, 'copy'), (2, 'split'),
               (2, 'batches'), (1, 'format'), (2, 'mse'), (1, 'pickle'), (1, 'compact'), (1, 'append-linked-field')]
        if faulty:
            ops.append((5, 'bad'))
        if m.sequential:
            ops += [(7, 'newseq'), (4, 'remseq'), (3, 'goto'), (2, 'endofseq'), (2, 'badseq'), (1, 'sums')]
        if m.classes and m.vf != 'list':
            ops += [(2, 'stats'), (2, 'oneofk')]
            if m.kind == 'classification':
                ops += [(2, 'byclass'), (1, 'plus'), (1, 'regression')]
            else:
                ops += [(2, 'seqclass'), (1, 'stratified')]
        op = sim.weighted(ops)
        fields = D.FIELDS[m.kind]
        sim.log(op, j, m.kind, len(m.rows), len(m.starts))
        if op == 'add':
            n = sim.choice((1, 1, 1, 3, 7))
            for _ in range(n):
                r = D.row(sim, m)
                D.add(ds, m, r, sim.draw(4))
                m.rows.append(r)
        elif op == 'bad':
            r = D.row(sim, m)
            i = sim.draw(len(r))
            d = m.dims[i]
            how = sim.draw(4)
            if how == 0:
                r[i] = r[i] + [1.0]
            elif how == 1:
                r[i] = ['not a number'] * d
            elif how == 2:
                r[i] = BadRow(d, sim.draw(d))
            else:
                r[i] = [r[i] + [2.0]]
            sim.fault(('row-too-long', 'row-not-numeric', 'row-source-raises', 'row-wrong-shape')[how])
            try:
                if sim.chance(0.5) and m.kind != 'importance':
                    ds.appendLinked(*r)
                else:
                    ds.addSample(*r)
            except Exception:
                sim.probe('append-rejected')
            else:
                sim.violate('bad-row-accepted', 'a row of the wrong shape was accepted: %s for dimensions %s' % (short(r), m.dims))
            D.same(sim, ds, m, 'after a rejected sample')
        elif op == 'get' and m.rows:
            i = sim.draw(len(m.rows))
            s = ds.getSample(i) if sim.chance(0.5) else ds.getLinked(i)
            sim.check([vec(x) for x in s] == [vec(x) for x in m.rows[i]], 'wrong-sample',
                      lambda: 'sample %d is %s, expected %s' % (i, short(s), m.rows[i]))
            shape(sim, s, m)
            m.index = i + 1
        elif op == 'next':
            sim.check(bool(ds.endOfData()) == (m.index == len(m.rows)), 'wrong-marker',
                      lambda: 'end of data is %s with the marker at %d of %d' % (ds.endOfData(), m.index, len(m.rows)))
            if m.index < len(m.rows):
                s = ds.getLinked()
                sim.check([vec(x) for x in s] == [vec(x) for x in m.rows[m.index]], 'wrong-sample',
                          lambda: 'sample at marker %d is %s, expected %s' % (m.index, short(s), m.rows[m.index]))
                m.index += 1
            else:
                try:
                    ds.getLinked()
                except IndexError:
                    pass
                else:
                    sim.violate('read-past-end', 'reading past the last sample did not raise')
                ds.reset()
                m.index = 0
        elif op == 'reset':
            ds.reset()
            m.index = 0
        elif op == 'iter':
            got = []
            stop = sim.draw(len(m.rows) + 2) if sim.chance(0.5) else None
            if m.sequential:
                for s in ds:
                    got.append([[vec(x) for x in r] for r in s])
                    if stop is not None and len(got) >= stop:
                        break
                exp = [[[vec(x) for x in r] for r in s] for s in m.seqs()]
            else:
                for s in ds:
                    got.append([vec(x) for x in s])
                    if stop is not None and len(got) >= stop:
                        break
                exp = [[vec(x) for x in r] for r in m.rows]
                m.index = len(got) if got else 0
            if stop is None:
                sim.check(got == exp, 'wrong-iteration', lambda: 'iterating gave %s, expected %s' % (short(got), short(exp)))
            else:
                sim.check(got == exp[:len(got)], 'wrong-iteration', lambda: 'iterating gave %s, expected %s' % (short(got), short(exp)))
            ds.reset()
            m.index = 0
        elif op == 'clear':
            ds.clear()
            m.rows, m.starts, m.index = [], [0], 0
        elif op == 'copy' and len(pool) < 4:
            m.vf  # copies keep content; both go on living
            pool.append((ds.copy(), m.clone()))
            pool[-1][0].reset()
            pool[-1][1].index = 0
        elif op == 'pickle' or op == 'compact':
            if m.vf == 'list':
                continue
            f = io.BytesIO()
            if op == 'compact':
                ds.saveToFileLike(f, 'pickle', protocol=sim.draw(3), compact=True)
            else:
                ds.saveToFileLike(f, protocol=sim.draw(3))
            f.seek(0)
            c = type(ds).loadFromFileLike(f)
            D.same(sim, c, m, 'loaded copy')
            if sim.chance(0.3):
                c.reset()
                mm = m.clone()
                mm.index = 0
                pool[j] = (c, mm)
        elif op == 'split' and m.rows and m.vf != 'list' and m.kind != 'unsupervised':
            p = sim.choice((0.0, 0.25, 0.5, 0.75, 1.0))
            a, b = ds.splitWithProportion(p)
            if m.sequential:
                live = [s for s in m.seqs()]
                if any(not s for s in live):
                    continue                       # an open, still empty sequence
                na = int(len(live) * p)
                ga, gb = [[[vec(x) for x in r] for r in s] for s in a], [[[vec(x) for x in r] for r in s] for s in b]
                ga, gb = [s for s in ga if s], [s for s in gb if s]
                exp = Counter(repr([[vec(x) for x in r] for r in s]) for s in live)
                got = Counter(repr(s) for s in ga + gb)
                sim.check(len(ga) == na, 'wrong-split', lambda: '%d sequences on the left, expected %d' % (len(ga), na))
            else:
                na = int(len(m.rows) * p)
                sim.check(len(a) == na, 'wrong-split', lambda: '%d samples on the left, expected %d' % (len(a), na))
                exp = Counter(key(r) for r in m.rows)
                got = Counter(key(r) for part in (a, b) for r in D.rows_of(part, fields))
            sim.check(got == exp, 'wrong-split', lambda: 'the two parts are not a partition: %s vs %s' % (short(got), short(exp)))
            D.same(sim, ds, m, 'after a split')
            if len(m.rows) and sim.chance(0.3) and m.kind in ('supervised', 'sequential', 'reinforcement', 'importance'):
                part = (a, b)[sim.draw(2)]
                if len(part):
                    r = D.row(sim, m)
                    D.add(part, m, r, 0)           # a part must be usable and independent
                    D.same(sim, ds, m, 'after appending to one part of a split')
            ds.reset()
            m.index = 0
        elif op == 'batches' and m.vf != 'list':
            f = sim.draw(len(fields))
            n = sim.int(1, 6)
            exp = [[vec(r[f]) for r in m.rows[i:i + n]] for i in range(0, len(m.rows), n)]
            if sim.chance(0.5):
                got = [np.asarray(b, dtype=float).tolist() for b in ds.batches(fields[f], n)]
                sim.check(got == exp, 'wrong-batches', lambda: 'batches of %d: %s, expected %s' % (n, short(got), short(exp)))
            else:
                got = [np.asarray(b, dtype=float).tolist() for b in ds.randomBatches(fields[f], n)]
                sim.check(sorted(map(repr, got)) == sorted(map(repr, exp)), 'wrong-batches',
                          lambda: 'random batches of %d: %s, expected %s' % (n, short(got), short(exp)))
        elif op == 'format' and not m.sequential:
            m.vf = sim.choice(('1d', '2d', 'list', 'none'))
            ds.vectorformat = m.vf
        elif op == 'mse' and m.rows and m.vf in ('none', '1d') and m.kind in ('supervised', 'sequential', 'importance',
                                                                             'classification', 'seqclass'):
            out = np.array(sim.vec(m.dims[1]))
            boom = sim.draw(len(m.rows)) if faulty and sim.chance(0.3) else None
            n = [0]

            def f(x, boom=boom, n=n, out=out):
                if boom is not None and n[0] >= boom:
                    raise UserFault('function under evaluation failed')
                n[0] += 1
                return out + sum(x)
            try:
                got = ds.evaluateMSE(f)
            except UserFault:
                sim.fault('evaluated-function-raises')
                ds.reset()
                m.index = 0
            else:
                e = w = 0.0
                for r in m.rows:
                    d = np.array(r[1]) - (out + sum(r[0]))
                    imp = np.array(r[2]) if m.kind == 'importance' else np.ones(len(r[1]))
                    e += 0.5 * float(np.dot(imp, d ** 2))
                    w += float(imp.sum())
                sim.check(np.isclose(got, e / w, rtol=1e-9, atol=1e-12), 'wrong-mse', lambda: 'MSE %r, expected %r' % (got, e / w))
                ds.reset()
                m.index = 0
        elif op == 'append-linked-field':
            try:
                ds.append(fields[0], m.rows[0][0] if m.rows else [0.0] * m.dims[0])
            except OutOfSyncError:
                pass
            else:
                sim.violate('out-of-sync', 'appending to one linked field alone was accepted')
        elif op == 'newseq':
            if m.rows and m.starts[-1] == len(m.rows):
                try:
                    ds.newSequence()
                except EmptySequenceError:
                    sim.probe('empty-sequence-refused')
                else:
                    sim.violate('empty-sequence', 'an empty sequence was accepted')
            else:
                ds.newSequence()
                if m.rows:
                    m.starts.append(len(m.rows))
        elif op == 'remseq':
            i = sim.draw(len(m.starts))
            a, b = m.seq_bounds(i)
            last = i == len(m.starts) - 1
            ds.removeSequence(i)
            del m.rows[a:b]
            m.starts = m.starts[:i] + [s - (b - a) for s in m.starts[i + 1:]]
            m.index = len(m.rows) if last else a
            if not m.rows and last:
                m.starts, m.index = [0], 0
            D.same(sim, ds, m, 'after removing sequence %d' % i)
        elif op == 'goto':
            i = sim.draw(len(m.starts))
            ds.gotoSequence(i)
            m.index = m.starts[i]
            if m.index < len(m.rows):
                sim.check(ds.getCurrentSequence() == i, 'wrong-marker',
                          lambda: 'current sequence %s after going to %d' % (ds.getCurrentSequence(), i))
                s = ds.getLinked()
                sim.check([vec(x) for x in s] == [vec(x) for x in m.rows[m.index]], 'wrong-sample',
                          lambda: 'first sample of sequence %d is %s, expected %s' % (i, short(s), m.rows[m.index]))
                m.index += 1
        elif op == 'endofseq':
            i = sim.draw(len(m.starts))
            if m.index <= len(m.rows):
                got = bool(ds.endOfSequence(i))
                a, b = m.seq_bounds(i)
                exp = m.index >= b if i < len(m.starts) - 1 else m.index == len(m.rows)
                sim.check(got == exp, 'wrong-marker', lambda: 'end of sequence %d [%d,%d) is %s with the marker at %d' % (i, a, b, got, m.index))
        elif op == 'badseq':
            i = len(m.starts) + sim.draw(3)
            for fn in (ds.getSequence, ds.getSequenceLength, ds.gotoSequence, ds.removeSequence):
                try:
                    fn(i)
                except IndexError:
                    pass
                else:
                    sim.violate('missing-sequence-accepted', 'sequence %d of %d was accepted' % (i, len(m.starts)))
        elif op == 'sums' and m.kind == 'reinforcement':
            got = ds.getSumOverSequences('reward')
            exp = [sum(r[2][0] for r in s) for s in m.seqs()]
            sim.check(np.allclose(np.ravel(got), exp), 'wrong-sums', lambda: 'sums %s, expected %s' % (got, exp))
        elif op == 'stats' and m.rows:
            h = ds.calculateStatistics()
            exp = dict((c, sum(1 for r in m.rows if r[1][0] == c)) for c in range(m.classes))
            sim.check({int(a): int(b) for a, b in h.items()} == exp, 'wrong-histogram', lambda: 'class histogram %s, expected %s' % (h, exp))
        elif op == 'oneofk' and m.rows:
            lo, hi = sim.choice(((0, 1), (-1, 1), (0.1, 0.9)))
            ds._convertToOneOfMany(bounds=(lo, hi))
            exp = [[hi if c == r[1][0] else lo for c in range(m.classes)] for r in m.rows]
            got = np.asarray(ds['target'], dtype=float)
            sim.check(got.shape == (len(m.rows), m.classes) and np.allclose(got, exp), 'wrong-one-of-k',
                      lambda: 'one-of-k targets %s, expected %s' % (got.tolist(), exp))
            sim.check(ds.outdim == m.classes, 'wrong-one-of-k', lambda: 'output dimension %s' % ds.outdim)
            ds._convertToClassNb()
            D.same(sim, ds, m, 'converted to one-of-k and back')
        elif op == 'byclass' and m.rows:
            ds.calculateStatistics()
            c = sim.draw(m.classes)
            a, b = ds.splitByClass(c)
            for part, sel in ((a, lambda r: r[1][0] == c), (b, lambda r: r[1][0] != c)):
                mm = m.clone()
                mm.rows = [r for r in m.rows if sel(r)]
                D.same(sim, part, mm, 'part of a split by class')
        elif op == 'plus' and len(pool) > 1:
            ds2, m2 = pool[sim.draw(len(pool))]
            if type(ds2) is type(ds) and m2.dims == m.dims and m2.classes == m.classes and ds2 is not ds and m.vf != 'list' \
                    and m2.vf != 'list':
                s = ds + ds2
                mm = m.clone()
                mm.rows = m.rows + m2.rows
                D.same(sim, s, mm, 'sum of two datasets')
                ds2.reset()
                m2.index = 0
        elif op == 'regression' and m.rows and m.vf == 'none':
            ds.calculateStatistics()
            vals = np.array(sim.vec(m.classes))
            r = ds.castToRegression(vals)
            sim.check(np.allclose(np.ravel(r['target']), [vals[int(x[1][0])] for x in m.rows]), 'wrong-regression', 'regression targets differ')
        elif op == 'seqclass' and m.rows and all(m.seqs()):
            ds.calculateStatistics()
            exp = [s[-1][1][0] for s in m.seqs()]
            got = [float(x) for x in np.ravel(ds.getSequenceClass())]
            sim.check(got == exp, 'wrong-sequence-class', lambda: 'sequence classes %s, expected %s' % (got, exp))
            i = sim.draw(len(exp))
            sim.check(float(ds.getSequenceClass(i)) == exp[i], 'wrong-sequence-class', 'sequence %d' % i)
        elif op == 'stratified' and m.rows and all(m.seqs()):
            ds.calculateStatistics()
            tf, ef = sim.choice(((0.5, 0), (0.25, 0.25), (0.34, 0.34), (0.15, 0)))
            parts = ds.stratifiedSplit(tf, ef)
            exp = Counter(repr((s[-1][1][0], [vec(r[0]) for r in s])) for s in m.seqs())
            got = Counter()
            for i, p in enumerate(parts):
                if len(p):
                    cl = [float(x) for x in np.ravel(p.getSequenceClass())]
                    for c, s in zip(cl, p):
                        got[repr((c, [vec(r[0]) for r in s]))] += 1
                    if i:
                        for c in range(m.classes):
                            n = sum(1 for s in m.seqs() if s[-1][1][0] == c)
                            sim.check(cl.count(c) == int((tf, ef)[i - 1] * n), 'wrong-split',
                                      lambda: 'part %d has %d sequences of class %d out of %d' % (i, cl.count(c), c, n))
            sim.check(got == exp, 'wrong-split', lambda: 'a stratified split is not a partition: %s vs %s' % (short(got), short(exp)))
            D.same(sim, ds, m, 'after a stratified split')
        sim.state(m.kind, op, min(len(m.rows), 6), min(len(m.starts), 5), m.vf, faulty)
        if sim.chance(0.25):
            for d, mm in pool:
                if mm.vf != 'list':
                    D.same(sim, d, mm, 'after ' + op)
    for d, mm in pool:
        if mm.vf != 'list':
            D.same(sim, d, mm, 'at the end')


def shape(sim, s, m):
    for x, d in zip(s, m.dims):
        if m.vf == '1d':
            ok = isinstance(x, np.ndarray) and x.shape == (d,)
        elif m.vf == '2d':
            ok = isinstance(x, np.ndarray) and x.shape == (1, d)
        elif m.vf == 'list':
            ok = isinstance(x, list) and len(x) == d
        else:
            ok = True
        sim.check(ok, 'wrong-format', lambda: 'format %s: %r' % (m.vf, x))


def plain(sim):
    """a bare DataSet: free fields, linking and unlinking"""
    from pybrain.datasets.dataset import DataSet, OutOfSyncError, NoLinkedFieldsError
    ds = DataSet()
    cols = {}
    dims = {}
    link = []
    for k in sim.ops(20, 50):
        op = sim.weighted([(3, 'field'), (8, 'append'), (2, 'link'), (2, 'unlink'), (5, 'linked'), (2, 'bad'), (2, 'convert'),
                           (2, 'set'), (1, 'clear'), (1, 'copy'), (1, 'badlinked')])
        names = sorted(cols)
        sim.log('plain', op, {n: len(cols[n]) for n in names}, link)
        if op == 'field' and len(cols) < 4:
            n = 'abcdefgh'[sim.draw(8)]
            if n not in cols:
                dims[n] = sim.int(1, 3)
                ds.addField(n, dims[n])
                cols[n] = []
        elif not names:
            continue
        elif op == 'append':
            n = names[sim.draw(len(names))]
            v = sim.vec(dims[n])
            try:
                ds.append(n, v)
                sim.check(n not in link, 'out-of-sync', 'appending to one linked field alone was accepted')
                cols[n].append(v)
            except OutOfSyncError:
                sim.check(n in link, 'append-refused', 'appending to the unlinked field %s was refused' % n)
        elif op == 'bad':
            n = names[sim.draw(len(names))]
            if n not in link:
                sim.fault('row-too-long')
                try:
                    ds.append(n, [0.5] * (dims[n] + 1))
                except ValueError:
                    pass
                else:
                    sim.violate('bad-row-accepted', 'a row that is too long was accepted')
        elif op == 'link':
            sel = sim.subset(names, 0.6)
            if sel:
                try:
                    ds.linkFields(list(sel))
                    sim.check(len(set(len(cols[n]) for n in sel)) == 1, 'out-of-sync', 'fields of different lengths were linked')
                    link = list(sel)
                except OutOfSyncError:
                    sim.check(len(set(len(cols[n]) for n in sel)) > 1, 'link-refused', 'fields of equal length were refused')
        elif op == 'unlink':
            if sim.chance(0.5):
                ds.unlinkFields()
                link = []
            elif link:
                x = link[sim.draw(len(link))]
                ds.unlinkFields([x])
                link = [l for l in link if l != x]
        elif op in ('linked', 'badlinked') and link:
            rows = [sim.vec(dims[n]) for n in link]
            if op == 'badlinked':
                i = sim.draw(len(rows))
                rows[i] = rows[i] + [1.0]
                sim.fault('row-too-long')
                try:
                    ds.appendLinked(*rows)
                except Exception:
                    sim.probe('append-rejected')
                else:
                    sim.violate('bad-row-accepted', 'a row that is too long was accepted')
            else:
                ds.appendLinked(*rows)
                for n, r in zip(link, rows):
                    cols[n].append(r)
        elif op == 'convert':
            n = names[sim.draw(len(names))]
            ds.convertField(n, float)
        elif op == 'set':
            n = names[sim.draw(len(names))]
            if n not in link:
                rows = [sim.vec(dims[n]) for _ in range(sim.draw(5))]
                ds.setField(n, np.array(rows).reshape(len(rows), dims[n]))
                cols[n] = rows
        elif op == 'clear':
            ds.clear()
            for n in (link or names):
                cols[n] = []
        elif op == 'copy':
            ds = pickle.loads(pickle.dumps(ds, sim.draw(3))) if sim.chance(0.5) else ds.copy()
        for n in sorted(cols):
            got = np.asarray(ds[n], dtype=float)
            sim.check(got.shape == (len(cols[n]), dims[n]) and np.array_equal(got, np.array(cols[n]).reshape(got.shape)),
                      'wrong-data', lambda: 'field %s holds %s, expected %s' % (n, got.tolist(), cols[n]))
        if cols:
            exp = len(cols[link[0]]) if link else max(len(c) for c in cols.values())
            sim.check(len(ds) == exp, 'wrong-length', lambda: 'length %d, expected %d' % (len(ds), exp))
        if link:
            if len(ds):
                i = sim.draw(len(ds))
                got = [vec(x) for x in ds.getLinked(i)]
                sim.check(got == [cols[n][i] for n in link], 'wrong-sample', lambda: 'linked row %d is %s' % (i, got))
        elif cols:
            try:
                ds.getLinked(0)
            except NoLinkedFieldsError:
                pass
            else:
                sim.violate('unlinked-read', 'reading a sample without linked fields did not raise')
        sim.state('plain', op, tuple(min(len(cols[n]), 4) for n in sorted(cols)), len(link))
