"""Random datasets together with a plain-list model of what they must contain."""
import numpy as np

KINDS = ('supervised', 'sequential', 'unsupervised', 'importance', 'reinforcement', 'classification', 'seqclass')
SEQ = ('sequential', 'importance', 'reinforcement', 'seqclass')


class Model(object):
    """what a dataset must look like: rows of vectors, sequence starts, marker"""

    def __init__(self, kind, dims):
        self.kind = kind
        self.dims = list(dims)
        self.rows = []
        self.starts = [0]
        self.index = 0
        self.classes = None
        self.oneofk = False
        self.vf = 'none'
        self.more = ()           # linked fields the user added

    @property
    def fields(self):
        return FIELDS[self.kind] + self.more

    @property
    def sequential(self):
        return self.kind in SEQ

    def clone(self):
        m = Model(self.kind, self.dims)
        m.rows = list(self.rows)
        m.starts = list(self.starts)
        m.index = self.index
        m.classes = self.classes
        m.vf = self.vf
        m.more = self.more
        return m

    def seq_bounds(self, i):
        end = self.starts[i + 1] if i + 1 < len(self.starts) else len(self.rows)
        return self.starts[i], end

    def seq(self, i):
        a, b = self.seq_bounds(i)
        return self.rows[a:b]

    def seqs(self):
        return [self.seq(i) for i in range(len(self.starts))]


FIELDS = dict(supervised=('input', 'target'), sequential=('input', 'target'), unsupervised=('sample',),
              importance=('input', 'target', 'importance'), reinforcement=('state', 'action', 'reward'),
              classification=('input', 'target'), seqclass=('input', 'target'))


def build(sim, kind=None, maxdim=3):
    from pybrain.datasets import (SupervisedDataSet, SequentialDataSet, UnsupervisedDataSet, ImportanceDataSet,
                                  ReinforcementDataSet, ClassificationDataSet, SequenceClassificationDataSet)
    kind = kind or sim.choice(KINDS)
    a = sim.int(1, maxdim)
    b = sim.int(1, maxdim)
    if kind == 'supervised':
        return SupervisedDataSet(a, b), Model(kind, (a, b))
    if kind == 'sequential':
        return SequentialDataSet(a, b), Model(kind, (a, b))
    if kind == 'unsupervised':
        return UnsupervisedDataSet(a), Model(kind, (a,))
    if kind == 'importance':
        return ImportanceDataSet(a, b), Model(kind, (a, b, b))
    if kind == 'reinforcement':
        return ReinforcementDataSet(a, b), Model(kind, (a, b, 1))
    k = sim.int(2, 4)
    if kind == 'classification':
        ds = ClassificationDataSet(a, 1, nb_classes=k)
    else:
        ds = SequenceClassificationDataSet(a, 1, nb_classes=k)
    m = Model(kind, (a, 1))
    m.classes = k
    return ds, m


def row(sim, m):
    r = [sim.vec(d) for d in m.dims]
    if m.classes:
        r[1] = [float(sim.draw(m.classes))]
    if m.kind == 'importance':
        r[2] = [abs(x) + 0.25 for x in r[2]]
    return r


def add(ds, m, r, how=0):
    """through the documented call for this kind"""
    conv = (lambda v: np.array(v)) if how % 2 else list
    if m.classes:
        r = [r[0], [int(x) for x in r[1]]] + r[2:]
    if m.more or how >= 2 and m.kind != 'importance':
        ds.appendLinked(*[conv(v) for v in r])
    else:
        ds.addSample(*[conv(v) for v in r])


def rows_of(ds, fields):
    cols = [np.asarray(ds[f], dtype=float) for f in fields]
    return [[c[i].tolist() for c in cols] for i in range(len(cols[0]))] if cols else []


def same(sim, ds, m, what):
    """the dataset's observable content is that of the model"""
    fields = m.fields
    sim.check(len(ds) == len(m.rows), 'wrong-length', lambda: '%s: %d samples, expected %d' % (what, len(ds), len(m.rows)))
    for j, f in enumerate(fields):
        col = np.asarray(ds[f], dtype=float)
        exp = np.array([r[j] for r in m.rows], dtype=float).reshape(len(m.rows), m.dims[j])
        sim.check(col.shape == exp.shape or (col.size == 0 and exp.size == 0), 'out-of-sync',
                  lambda: '%s: field %s has shape %s, expected %s' % (what, f, col.shape, exp.shape))
        sim.check(col.size == 0 or np.array_equal(col, exp), 'wrong-data',
                  lambda: '%s: field %s holds %s, expected %s' % (what, f, col.tolist(), exp.tolist()))
    if m.sequential:
        n = ds.getNumSequences()
        sim.check(n == len(m.starts), 'wrong-sequences', lambda: '%s: %d sequences, expected %d' % (what, n, len(m.starts)))
        for i in range(n):
            a, b = m.seq_bounds(i)
            sim.check(ds.getSequenceLength(i) == b - a, 'wrong-sequences',
                      lambda: '%s: sequence %d has length %s, expected %d' % (what, i, ds.getSequenceLength(i), b - a))
            got = ds.getSequence(i)
            sim.check(len(got) == len(fields), 'wrong-sequences', lambda: '%s: %d fields per sequence' % (what, len(got)))
            for j in range(len(fields)):
                g = np.asarray(got[j], dtype=float)
                e = np.array([r[j] for r in m.rows[a:b]], dtype=float)
                sim.check(g.size == e.size and np.array_equal(g.ravel(), e.ravel()), 'wrong-sequences',
                          lambda: '%s: sequence %d field %d is %s, expected %s' % (what, i, j, g.tolist(), e.tolist()))


def extend(sim, ds, m):
    """the user adds fields of his own to an empty dataset, linked to the others"""
    assert not m.rows
    for k in range(1 + sim.draw(2)):
        f = 'weight' if k == 0 else 'id'
        d = sim.int(1, 2)
        ds.addField(f, d)
        m.more += (f,)
        m.dims.append(d)
    ds.linkFields(list(FIELDS[m.kind] + m.more))
