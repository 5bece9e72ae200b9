"""P22: validation tests every sample once on a model that has not seen it; searches return the best they validated."""
import copy
import csv
import itertools
import logging

import numpy as np

from dst import fakeplot, gen_nets, seams
from dst.core import short
from dst.props import p13


def setup():
    p13.setup()
    fakeplot.install()
    import pybrain.tools.validation, pybrain.tools.gridsearch, pybrain.tools.neuralnets  # noqa
    import pybrain.supervised.trainers  # noqa


class Broken(Exception):
    pass


def close(a, b, tol=1e-9):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (1 + np.abs(b))))


# --- the parts under the control of the simulator -----------------------------------
class Book(object):
    """what trainers and modules were asked to do; shared by all copies of a trainer"""

    def __init__(self, sim, fails=None):
        self.sim = sim
        self.events = []
        self.fails = fails

    def note(self, *event):
        self.events.append(event)
        if self.fails is not None and len(self.events) == self.fails:
            self.sim.fault('callback-raises')
            raise Broken('event %d' % self.fails)

    def __deepcopy__(self, memo):
        return self

    __copy__ = __deepcopy__


def rows(ds):
    return [(tuple(map(float, i)), tuple(map(float, t))) for i, t in zip(ds['input'], ds['target'])]


def trainer_class():
    from pybrain.supervised.trainers.trainer import Trainer

    class Recording(Trainer):
        def __init__(self, module, dataset=None, book=None, **kw):
            Trainer.__init__(self, module)
            self.book = book
            self.given = kw
            self.settings = None
            self.done = 0
            if dataset is not None:
                self.setData(dataset)

        def setArgs(self, **kw):
            self.settings = dict(kw)

        def train(self):
            self.book.note('train', rows(self.ds), tuple(self.module.params), self.done, self.settings)
            self.done += 1
            if hasattr(self.module, 'learn'):
                self.module.learn(self.settings)
            self.module.params[:] = self.module.params * 0.5 + sum(r[0][0] for r in rows(self.ds))
            return 0.0
    return Recording


def interrupted(sim, f, n):
    """call f, maybe broken off at a line of the library: ('ok', result) or ('broken', exception type)"""
    try:
        with seams.Interrupter(sim, n):
            return 'ok', f()
    except (Broken, KeyboardInterrupt) as e:
        return 'broken', type(e).__name__


# --- cross validation --------------------------------------------------------------
def samples(sim, n, outdim=1, classes=0):
    from pybrain.datasets import SupervisedDataSet, ClassificationDataSet, SequentialDataSet
    indim = sim.int(1, 3)
    if classes:
        ds = ClassificationDataSet(indim, 1, nb_classes=classes)
    else:
        ds = SupervisedDataSet(indim, outdim)
    for i in range(n):
        x = [i / 8.0 + 1] + [sim.float(-1, 1) for _ in range(indim - 1)]
        y = [i % classes] if classes else [sim.float(-1, 1) for _ in range(outdim)]
        ds.addSample(x, y)
    return ds


def crossvalidation(sim):
    from pybrain.tools.validation import CrossValidator
    from pybrain.tools.shortcuts import buildNetwork
    n = sim.choice((3, 4, 5, 7, 10, 16, 23))
    ds = samples(sim, n, classes=sim.choice((0, 0, 2, 3)))
    net = buildNetwork(ds.indim, ds.outdim)
    book = Book(sim)
    trainer = trainer_class()(net, ds if sim.chance(0.5) else None, book)
    held = trainer.ds
    folds = sim.int(2, min(n - 1, sim.choice((3, 6, 22))))
    table = {}

    def performance(module, testset):
        r = rows(testset)
        if len(r) not in table:
            table[len(r)] = sim.float(-2, 2)
        v = table[len(r)] + sum(x[0][0] for x in r)
        book.note('test', r, tuple(module.params), v)
        return v
    epochs = sim.choice((None, None, 1, 2, 5))
    kw = {} if epochs is None else dict(max_epochs=epochs)
    sim.log('crossvalidation', n, folds, epochs)
    cv = CrossValidator(trainer, ds, folds, valfunc=performance, **kw)
    for k in range(sim.int(1, 3)):
        params, content, seen = tuple(net.params), rows(ds), trainer.done
        book.events = []
        book.fails = sim.int(1, folds * ((epochs or 1) + 1)) if sim.chance(0.25) else None
        how, got = interrupted(sim, cv.validate, sim.int(1, 400) if sim.chance(0.2) else 0)
        sim.log(how, got if how == 'broken' else round(got, 6), len(book.events))
        sim.check(tuple(net.params) == params and trainer.done == seen, 'original-trained',
                  'cross validation changed the module or the trainer it was given')
        sim.check(trainer.ds is held, 'original-trained', 'cross validation left the trainer with another dataset')
        sim.check(rows(ds) == content, 'dataset-changed', 'cross validation changed the dataset')
        check_folds(sim, book.events, content, folds, epochs or 1, params, how == 'ok')
        if how == 'ok':
            perfs = [e[3] for e in book.events if e[0] == 'test']
            sim.check(close(got, np.mean(perfs)), 'wrong-performance',
                      lambda: 'the mean of %s was reported as %s' % (perfs, got))
            if n >= 16 and folds >= 4:
                order = [r[0][0] for e in book.events if e[0] == 'test' for r in e[1]]
                sim.check(order != sorted(order), 'not-shuffled', 'the dataset was not shuffled')
        else:
            sim.probe('crossvalidation-broken-off')
        if sim.chance(0.3):
            epochs = sim.int(1, 3)
            cv.setArgs(max_epochs=epochs)
        if sim.chance(0.3):
            trainer.module.params[:] = [sim.float(-1, 1) for _ in range(net.paramdim)]
        sim.state('crossvalidation', n, folds, epochs, how)


def check_folds(sim, events, content, folds, epochs, params, complete):
    """the recorded events of one cross validation"""
    fold = 0
    tested = []
    i = 0
    sizes = []
    while i < len(events):
        trains = []
        while i < len(events) and events[i][0] == 'train':
            trains.append(events[i])
            i += 1
        for t in trains:
            sim.check(t[1] and sorted(t[1]) == sorted(trains[0][1]), 'wrong-training-set',
                      lambda: 'the training set changed during fold %d' % fold)
            sim.check(set(t[1]) <= set(content) and len(set(t[1])) == len(t[1]), 'wrong-training-set',
                      lambda: 'fold %d trains on %s' % (fold, short(t[1])))
        if trains:
            sim.check(trains[0][2] == params and trains[0][3] == 0, 'not-a-fresh-clone',
                      lambda: 'fold %d starts with parameters %s, not %s' % (fold, short(trains[0][2]), short(params)))
        if i == len(events):
            sim.check(not complete, 'fold-not-tested', lambda: 'fold %d was trained but not tested' % fold)
            return
        t = events[i]
        i += 1
        sim.check(len(trains) == epochs, 'wrong-number-of-epochs', lambda: 'fold %d: %d epochs, not %d' % (fold, len(trains), epochs))
        sim.check(sorted(t[1] + trains[0][1]) == sorted(content), 'wrong-test-set',
                  lambda: 'fold %d trains on %s and tests on %s of %s' % (fold, short(trains[0][1]), short(t[1]), short(content)))
        after = tuple(np.array(trains[-1][2]) * 0.5 + sum(r[0][0] for r in trains[-1][1]))
        sim.check(close(t[2], after), 'wrong-model-tested', lambda: 'fold %d tests parameters %s, trained %s' % (fold, t[2], after))
        tested += t[1]
        sizes.append(len(t[1]))
        fold += 1
    if complete:
        sim.check(fold == folds, 'wrong-number-of-folds', lambda: '%d folds, not %d' % (fold, folds))
        sim.check(sorted(tested) == sorted(content), 'not-all-tested', lambda: 'tested %s of %s' % (short(tested), short(content)))
        sim.check(max(sizes) - min(sizes) <= 1, 'unequal-folds', lambda: 'folds of sizes %s' % sizes)


# --- grid search -------------------------------------------------------------------
def a_range(sim):
    lo = [sim.choice((-5.0, -1.0, 0.0, 2.0, sim.float(-3, 3))) for _ in range(2)]
    hi = [v + sim.choice((1.0, 4.0, 0.5, sim.float(0.1, 20))) for v in lo]
    return lo, hi


class Landscape(object):
    def __init__(self, sim):
        self.sim = sim
        self.kind = sim.choice(('random', 'random', 'ties', 'peak', 'integers', 'rate'))
        self.peak = (sim.float(-5, 15), sim.float(-5, 15))
        self.table = {}

    def __call__(self, p):
        p = tuple(float(v) for v in p)
        if p not in self.table:
            if self.kind == 'peak':
                v = -abs(p[0] - self.peak[0]) - abs(p[1] - self.peak[1])
            elif self.kind == 'ties':
                v = float(self.sim.draw(3))
            elif self.kind == 'integers':
                v = self.sim.int(-5, 5)
            elif self.kind == 'rate':
                # all or nothing counted as integers, everything else as a ratio
                v = self.sim.choice((0, 1, 0.25, 0.5, 0.75, 0.9))
            else:
                v = self.sim.float(-10, 10)
            self.table[p] = v
        return self.table[p]


def gridsearch(sim):
    from pybrain.tools.gridsearch import GridSearch2D
    lo, hi = a_range(sim)
    steps = sim.choice((1, 2, 3, 4, 5, 7)) if sim.chance(0.5) else [sim.int(1, 6), sim.int(1, 6)]
    book = Book(sim)
    land = Landscape(sim)

    class Search(GridSearch2D):
        def _validate(self, params):
            book.note('validate', tuple(float(v) for v in params))
            return land(params)

        def _onStep(self):
            book.note('step', dict(self.getPerformances()))
    bounds = (list(lo), list(hi))
    s = Search(lo, hi, steps, verbosity=0)
    sim.log('gridsearch', lo, hi, steps)
    n = [steps, steps] if isinstance(steps, int) else steps
    grid = [np.linspace(lo[i], hi[i], n[i]) for i in range(2)]
    allpoints = sorted(itertools.product(*[map(float, g) for g in grid]))
    for k in range(sim.int(1, 2)):
        book.events = []
        book.fails = sim.int(1, len(allpoints) + 4) if sim.chance(0.3) else None
        earlier = s.getPerformances()
        how, got = interrupted(sim, s.search, sim.int(1, 600) if sim.chance(0.2) else 0)
        sim.log(how, str(got), len(book.events))
        done = [e[1] for e in book.events if e[0] == 'validate']
        perfs = s.getPerformances()
        sim.check(len(set(done)) == len(done), 'validated-twice', lambda: 'points validated more than once: %s' % short(done))
        sim.check(all(any(close(d, p) for p in allpoints) for d in done), 'not-on-the-grid', lambda: 'validated %s' % short(done))
        for p, v in perfs.items():
            sim.check(tuple(map(float, p)) in land.table and v == land.table[tuple(map(float, p))], 'wrong-performance',
                      lambda: '%s has performance %s' % (p, v))
        # the last validation of an aborted search may be lost, nothing else
        lost = [d for d in done if d not in perfs]
        sim.check(len(lost) <= (how != 'ok'), 'lost-performance', lambda: 'validated %s, kept %s' % (short(done), short(perfs)))
        for e in book.events:
            if e[0] == 'step':
                have = set(e[1])
                a, b = set(p[0] for p in have), set(p[1] for p in have)
                sim.check(k or have == set(itertools.product(a, b)), 'not-a-grid',
                          lambda: 'at a step the validated points are no grid: %s' % short(sorted(have)))
        if how == 'ok':
            sim.check(len(done) == len(allpoints), 'grid-not-covered', lambda: 'validated %d of %d points' % (len(done), len(allpoints)))
            sim.check(sorted(map(tuple, perfs)) == sorted(set(done) | set(map(tuple, earlier))), 'lost-performance',
                      lambda: 'kept %s' % short(perfs))
            best = max(land.table[p] for p in done)
            sim.check(land.table.get(tuple(map(float, got))) == best, 'not-the-best',
                      lambda: 'search returned %s of performance %s, the best is %s' % (got, land.table.get(tuple(got)), best))
        else:
            sim.probe('gridsearch-broken-off')
        perfs.clear()
        sim.check(len(s.getPerformances()) >= len(done) - 1, 'performances-shared', 'emptying the returned dictionary emptied the search')
        sim.state('gridsearch', tuple(n), how, land.kind)
    sim.check((lo, hi) == bounds, 'arguments-changed', 'the search changed the ranges it was given')


def doe(sim):
    from pybrain.tools.gridsearch import GridSearchDOE
    lo, hi = a_range(sim)
    levels = sim.int(1, 5)
    book = Book(sim)
    land = Landscape(sim)

    class Search(GridSearchDOE):
        def _validate(self, params):
            book.note('validate', tuple(float(v) for v in params))
            return land(params)
    s = Search(lo, hi, levels)
    sim.log('doe', lo, hi, levels)
    width = np.array(hi) - np.array(lo)
    for k in range(sim.int(1, 2)):
        book.events = []
        book.fails = sim.int(1, 13 * levels) if sim.chance(0.3) else None
        how, got = interrupted(sim, s.search, sim.int(1, 500) if sim.chance(0.2) else 0)
        sim.log(how, str(got), len(book.events))
        done = [e[1] for e in book.events]
        for p in done:
            sim.check(all(lo[i] - 1e-9 * (1 + width[i]) <= p[i] <= hi[i] + 1e-9 * (1 + width[i]) for i in range(2)), 'out-of-bounds',
                      lambda: '%s is not between %s and %s' % (p, lo, hi))
        for j in range(0, len(done), 13):
            part = np.array(done[j:j + 13])
            level = j // 13
            if len(part) < 13:
                break
            span = part.max(axis=0) - part.min(axis=0)
            sim.check(close(span, width / 2.0 ** level, 1e-6), 'wrong-refinement',
                      lambda: 'level %d spans %s, not %s' % (level, span, width / 2.0 ** level))
            if level:
                prev = done[j - 13:j]
                top = max(land.table[p] for p in prev)
                eps = 1e-9 * (1 + width)
                sim.check(any(np.all(np.array(p) >= part.min(axis=0) - eps) and np.all(np.array(p) <= part.max(axis=0) + eps)
                              for p in prev if land.table[p] == top), 'best-abandoned',
                          lambda: 'level %d does not surround a best point of the level before' % level)
        if how == 'ok':
            sim.check(len(done) == 13 * levels, 'wrong-number-of-points', lambda: '%d points in %d levels' % (len(done), levels))
            last = done[-13:]
            best = max(land.table[p] for p in last)
            mine = [land.table[p] for p in last if close(p, got)]
            sim.check(best in mine, 'not-the-best', lambda: 'the search returned %s of performance %s, the best of the last level is %s' %
                      (got, mine, best))
            if k == 0:
                perfs = s._performances
        else:
            sim.probe('doe-broken-off')
        sim.state('doe', levels, how, land.kind)


def costgamma(sim):
    """searches for cost and gamma with a trainer and a module of the simulator"""
    from pybrain.tools.gridsearch import GridSearchCostGamma, GridSearchDOECostGamma
    from pybrain.structure.parametercontainer import ParameterContainer
    n = sim.int(6, 9)
    classes = 2
    ds = samples(sim, n, classes=classes)
    book = Book(sim)
    salt = sim.draw(1000)

    class Unit(ParameterContainer):
        indim, outdim = ds.indim, 1
        settings = None

        def __init__(self):
            ParameterContainer.__init__(self, 1)

        def reset(self):
            pass

        def learn(self, settings):
            self.settings = settings

        def activate(self, x):
            c, g = (self.settings or {}).get('cost', 0), (self.settings or {}).get('gamma', 0)
            h = (salt + int(round(8 * x[0])) * 7 + int(round(1000 * np.log2(c or 1))) * 31 + int(round(1000 * np.log2(g or 1))) * 17) % 5
            out = float(int(round(8 * x[0])) % 2 if h < 3 else 1 - int(round(8 * x[0])) % 2)
            book.note('activate', float(x[0]), out, c, g)
            return np.array([out])
    unit = Unit()
    unit.params[0] = 0.5
    trainer = trainer_class()(unit, None, book)
    folds = sim.int(2, 5)
    epochs = sim.choice((None, 1, 2))
    kw = {sim.choice(('nfolds', 'folds')): folds}
    if epochs:
        kw['max_epochs'] = epochs
    lo, hi = [-3, -2], [sim.int(-2, 3), sim.int(-1, 4)]
    use_doe = sim.chance(0.5)
    if use_doe:
        levels = sim.int(1, 2)
        s = GridSearchDOECostGamma(trainer, ds, lo, hi, levels, **kw)
    else:
        steps = sim.int(1, 3)
        s = GridSearchCostGamma(trainer, ds, lo, hi, steps, **kw)
    sim.log('costgamma', use_doe, folds, epochs, lo, hi)
    book.fails = sim.int(1, 300) if sim.chance(0.2) else None
    how, got = interrupted(sim, s.search, 0)
    sim.log(how, str(got), len(book.events))
    sim.check(trainer.done == 0 and trainer.settings is None and unit.settings is None and unit.params[0] == 0.5, 'original-trained',
              'the search changed the trainer it was given')
    # the folds of each setting
    per = {}
    order = []
    i = 0
    ev = book.events
    while i < len(ev):
        t = []
        while i < len(ev) and ev[i][0] == 'train':
            t.append(ev[i])
            i += 1
        a = []
        while i < len(ev) and ev[i][0] == 'activate':
            a.append(ev[i])
            i += 1
        if not t:
            sim.violate('tested-without-training', 'a fold was tested without training')
        c, g = t[0][4]['cost'], t[0][4]['gamma']
        if (c, g) not in per:
            per[(c, g)] = []
            order.append((c, g))
        per[(c, g)].append((len(t), a, t[0][1]))
    truth = dict((r[0][0], r[1][0]) for r in rows(ds))
    perf = {}
    for key in order:
        fs = per[key]
        if how != 'ok' and key == order[-1]:
            continue
        if len(fs) == 2 * folds and use_doe:
            # the same setting in other words (rounding of the grid) is not an error
            sim.probe('setting-met-again')
            continue
        sim.check(len(fs) == folds, 'wrong-number-of-folds', lambda: 'setting %s: %d folds, not %d' % (key, len(fs), folds))
        sim.check(all(f[0] == (epochs or 1) for f in fs), 'wrong-number-of-epochs', lambda: 'setting %s: %s epochs' % (key, [f[0] for f in fs]))
        seen = sorted(a[1] for f in fs for a in f[1])
        sim.check(seen == sorted(truth), 'not-all-tested', lambda: 'setting %s tested on %s' % (key, seen))
        perf[key] = np.mean([np.mean([float(a[2] == truth[a[1]]) for a in f[1]]) for f in fs])
    if how == 'ok':
        mine = (2.0 ** got[0], 2.0 ** got[1])
        near = [k for k in perf if close(k, mine, 1e-6)]
        if near:
            scope = list(perf) if not use_doe or levels == 1 else None
            if scope:
                sim.check(close(perf[near[0]], max(perf[k] for k in scope)), 'not-the-best',
                          lambda: 'the search returned %s of performance %s, best %s' % (got, perf[near[0]], max(perf.values())))
        else:
            sim.check(mine in per or any(close(k, mine, 1e-6) for k in per), 'not-validated', lambda: '%s was never validated' % (got,))
        if not use_doe:
            sim.check(len(per) == steps * steps, 'grid-not-covered', lambda: '%d settings of %d' % (len(per), steps * steps))
        want = [2.0 ** (lo[0] - 1e-9), 2.0 ** (hi[0] + 1e-9), 2.0 ** (lo[1] - 1e-9), 2.0 ** (hi[1] + 1e-9)]
        sim.check(all(want[0] <= c <= want[1] and want[2] <= g <= want[3] for c, g in per), 'out-of-bounds', lambda: short(list(per)))
    else:
        sim.probe('costgamma-broken-off')
    sim.state('costgamma', use_doe, folds, how)


# --- validation of modules -----------------------------------------------------------
def evaluation(sim):
    from pybrain.datasets import SupervisedDataSet, SequentialDataSet, ImportanceDataSet
    from pybrain.tools.validation import ModuleValidator, Validator, SequenceHelper, testOnSequenceData, ClassificationHelper
    from pybrain.tools.shortcuts import buildNetwork
    from pybrain.structure import TanhLayer, LSTMLayer, SoftmaxLayer, LinearLayer
    indim, outdim = sim.int(1, 3), sim.int(1, 3)
    recurrent = sim.chance(0.5)
    net = buildNetwork(indim, sim.int(1, 3), outdim, recurrent=recurrent,
                       hiddenclass=sim.choice((TanhLayer, LSTMLayer)) if recurrent else TanhLayer,
                       outclass=sim.choice((LinearLayer, SoftmaxLayer)) if outdim > 1 else LinearLayer)
    net.params[:] = [sim.float(-2, 2) for _ in range(net.paramdim)]
    kind = sim.choice(('supervised', 'sequential', 'importance'))
    ds = dict(supervised=SupervisedDataSet, sequential=SequentialDataSet, importance=ImportanceDataSet)[kind](indim, outdim)
    lengths = [sim.int(1, 4) for _ in range(sim.int(1, 4))]
    seqs = []
    for n in lengths:
        if kind != 'supervised':
            ds.newSequence()
        seq = []
        for _ in range(n):
            x, y = [sim.float(-1, 1) for _ in range(indim)], [sim.choice((0.0, 1.0, 0.5)) for _ in range(outdim)]
            w = [sim.choice((1.0, 0.5, 2.0)) for _ in range(outdim)]
            if kind == 'importance':
                ds.addSample(x, y, w)
            else:
                ds.addSample(x, y)
            seq.append((x, y, w))
        seqs.append(seq)
    if kind == 'supervised':
        seqs = [sum(seqs, [])]
    sim.log('evaluation', kind, lengths, recurrent)
    # a network of its own computes what is to be expected
    twin = net.copy()
    outs, tars, ws = [], [], []
    for seq in seqs:
        twin.reset()
        for x, y, w in seq:
            outs.append(np.array(twin.activate(x)))
            tars.append(y)
            ws.append(w)
    outs, tars = np.array(outs), np.array(tars)
    ws = np.array(ws) if kind == 'importance' else np.ones_like(tars)
    for _ in range(sim.int(2, 5)):
        op = sim.choice(('outputs', 'mse', 'validate', 'sequence', 'ends', 'dirty', 'broken'))
        how, got = 'ok', None
        if op == 'dirty':
            # the network is in the middle of something
            for _ in range(sim.int(1, 3)):
                net.activate([sim.float(-1, 1) for _ in range(indim)])
        elif op == 'broken':
            how, got = interrupted(sim, lambda: ModuleValidator.MSE(net, ds), sim.int(1, 200))
        elif op == 'outputs':
            got = ModuleValidator.calculateModuleOutput(net, ds)
            sim.check(close(got, outs), 'wrong-output', lambda: 'outputs %s, expected %s' % (got, outs))
        elif op == 'mse':
            got = ModuleValidator.MSE(net, ds)
            want = np.sum(ws * (outs - tars) ** 2) / np.sum(ws)
            sim.check(close(got, want), 'wrong-error', lambda: 'MSE %s, expected %s' % (got, want))
        elif op == 'validate':
            calls = []
            got = ModuleValidator.validate(lambda *a: calls.append([np.array(v) for v in a]) or 7.5, net, ds)
            sim.check(got == 7.5 and len(calls) == 1 and len(calls[0]) == 2 + (kind == 'importance'), 'wrong-validation', lambda: short(calls))
            sim.check(close(calls[0][0], outs) and close(calls[0][1], tars), 'wrong-validation',
                      lambda: 'the validation function got %s, expected %s' % (calls[0], (outs, tars)))
            if kind == 'importance':
                sim.check(close(calls[0][2], ws), 'wrong-validation', 'wrong importances')
        elif op == 'ends' and kind != 'supervised':
            starts = [int(np.ravel(v)[0]) for v in SequenceHelper.getSequenceStarts(ds)]
            ends = [int(v) for v in np.ravel(SequenceHelper.getSequenceEnds(ds))]
            want = list(np.cumsum(lengths))
            sim.check(starts == [0] + want[:-1] and ends == [v - 1 for v in want], 'wrong-sequence-bounds',
                      lambda: 'starts %s ends %s of lengths %s' % (starts, ends, lengths))
            imp = SequenceHelper.getSequenceEndsImportance(ds)
            sim.check([i for i, v in enumerate(imp) if v] == ends and len(imp) == sum(lengths), 'wrong-sequence-bounds', lambda: str(imp))
        elif op == 'sequence' and kind != 'supervised':
            got = testOnSequenceData(net, ds)
            hits, i, tie = 0, 0, False
            for n in lengths:
                v = np.sort(outs[i:i + n].sum(axis=0))
                tie = tie or (len(v) > 1 and v[-1] - v[-2] < 1e-9)
                hits += int(np.argmax(outs[i:i + n].sum(axis=0)) == np.argmax(tars[i + n - 1]))
                i += n
            sim.check(tie or close(got, hits / float(len(lengths))), 'wrong-performance',
                      lambda: '%s of the sequences are correct, reported %s' % (hits / float(len(lengths)), got))
        sim.log(op, how)
        sim.state('evaluation', kind, op, how, len(lengths))
    t = rows(ds) if kind == 'supervised' else None
    cls = ClassificationHelper.oneOfManyToClasses(outs)
    sim.check([int(c) for c in cls] == [int(np.argmax(o)) for o in outs], 'wrong-classes', lambda: str(cls))
    sim.check(close(Validator.ESS(outs, tars), ((outs - tars) ** 2).sum(axis=0)), 'wrong-error', 'explained sum of squares')
    del t


# --- the training tool -----------------------------------------------------------------
def tool(sim):
    """NNregression and NNclassifier with a trainer that leads the network along a scripted path"""
    from pybrain.tools.neuralnets import NNregression, NNclassifier
    from pybrain.tools.validation import ModuleValidator, Validator, testOnSequenceData
    from pybrain.datasets import SupervisedDataSet, ClassificationDataSet
    from pybrain.supervised.trainers import BackpropTrainer
    classify = sim.chance(0.5)
    classes = sim.int(2, 3)

    def ds(n):
        if classify:
            d = ClassificationDataSet(1, 1, nb_classes=classes)
            for i in range(n):
                d.addSample([sim.float(-1, 1)], [i % classes])
            return d
        d = SupervisedDataSet(1, 1)
        for i in range(n):
            d.addSample([sim.float(-1, 1)], [sim.float(-1, 1)])
        return d
    sets = dict(DS=ds(sim.int(classes, 6)))
    if sim.chance(0.7):
        sets['TDS'] = ds(sim.int(classes, 5))
    if sim.chance(0.5):
        sets['VDS'] = ds(sim.int(classes, 5))
    epoinc, maxepochs = sim.int(1, 3), sim.choice((1, 4, 6, 9))
    book = Book(sim)
    path = []

    class Scripted(BackpropTrainer):
        def train(self):
            book.note('train', len(path))
            for i in range(len(self.module.params)):
                self.module.params[i] = sim.float(-2, 2)
            path.append(self.module.params.copy())
            return 0.0
    t = (NNclassifier if classify else NNregression)(sets['DS'], epoinc=epoinc, maxepochs=maxepochs,
                                                     **dict((k, v) for k, v in sets.items() if k != 'DS'))
    t.setupNN(trainer=Scripted, hidden=sim.int(1, 3))
    net = t.Trainer.module
    conv = sim.choice((0, 0, 1, 2, 5))
    sim.log('tool', classify, sorted(sets), epoinc, maxepochs, conv)

    def error(params, name):
        twin = net.copy()
        twin.params[:] = params
        d = sets[name]
        out = np.array([np.array(twin.activate(x)) for x in d['input']])
        if classify:
            return 100.0 * (1 - np.mean([float(np.argmax(o) == np.argmax(y)) for o, y in zip(out, d['target'])]))
        return float(np.mean((out - d['target']) ** 2))
    messages = []
    handler = logging.Handler()
    handler.emit = lambda r: messages.append(r.getMessage())
    log = logging.getLogger()
    level, off = log.level, logging.root.manager.disable
    log.addHandler(handler)
    log.setLevel(logging.INFO)
    logging.disable(logging.NOTSET)
    book.fails = sim.int(1, 12) if sim.chance(0.15) else None
    try:
        how, got = interrupted(sim, lambda: t.runTraining(convergence=conv), 0)
    finally:
        log.removeHandler(handler)
        log.setLevel(level)
        logging.disable(off)
    sim.log(how, len(path))
    sim.state('tool', classify, tuple(sorted(sets)), epoinc, maxepochs, conv, how)
    if how != 'ok':
        sim.probe('training-broken-off')
        return
    n = len(path)
    sim.check(n % epoinc == 0 and n, 'wrong-number-of-epochs', lambda: '%d epochs in steps of %d' % (n, epoinc))
    marks = [path[i - 1] for i in range(epoinc, n + 1, epoinc)]
    trn = [error(p, 'DS') for p in marks]
    tst = [error(p, 'TDS') for p in marks] if 'TDS' in sets else None
    # when to stop
    stop = None
    if conv and tst:
        best, wait = float('inf'), 0
        for i, e in enumerate(tst):
            if e < best:
                best, wait = e, 0
            else:
                wait += 1
            if wait >= conv:
                stop = i + 1
                break
    if stop is not None and stop * epoinc < n:
        sim.violate('training-goes-on', 'no improvement for %d checks after %d epochs, but training goes on to %d: %s' % (conv, stop * epoinc, n, tst))
    if stop is None or stop * epoinc > n:
        sim.check(n >= maxepochs, 'stopped-early', lambda: 'stopped after %d of %d epochs without convergence (criterion %d): %s' %
                  (n, maxepochs, conv, tst))
    sim.check(n < maxepochs + 2 * epoinc, 'training-goes-on', lambda: '%d epochs of %d' % (n, maxepochs))
    curve = t.trainCurve
    sim.check(list(curve[0][1:]) == [epoinc * (i + 1) for i in range(len(marks))], 'wrong-curve', lambda: 'epochs %s' % (curve[0],))
    sim.check(close(curve[1][1:], trn), 'wrong-curve', lambda: 'training errors %s, expected %s' % (curve[1][1:], trn))
    if tst:
        sim.check(close(curve[2][1:], tst), 'wrong-curve', lambda: 'test errors %s, expected %s' % (curve[2][1:], tst))
    if 'VDS' in sets:
        if tst:
            top = [p for p, e in zip(marks, tst) if e <= min(tst) * (1 + 1e-9) + 1e-12]
            sim.check(any(close(net.params, p) for p in top), 'best-not-kept', lambda: 'the weights are not those of the best test error %s' % tst)
        said = [m for m in messages if m.startswith('Result on evaluation data')]
        want = error(net.params, 'VDS')
        sim.check(len(said) == 1, 'no-result', lambda: 'the result on evaluation data was not reported: %s' % messages[-2:])
        v = float(said[0].split(':')[1].strip().rstrip('%'))
        sim.check(abs(v - want) <= 1e-2 * (1 + abs(want)) if classify else abs(v - want) <= 1e-4 * (1 + abs(want)), 'wrong-result',
                  lambda: 'reported %s on the evaluation data, it is %s' % (v, want))
    # the curve is saved
    fs = seams.use_fs(sim)
    name = fs.path('curve.csv')
    t.saveTrainingCurve(name)
    with open(name) as f:
        saved = [[float(v) for v in r] for r in csv.reader(f) if r]
    want = [list(r) for r in zip(*([curve[0][1:], trn] + ([tst] if tst else [])))]
    k = len(want[0])
    sim.check(len(saved) == len(want) and all(close(a[:k], b, 1e-6) for a, b in zip(saved, want)), 'wrong-curve-file',
              lambda: 'the file holds %s, the curve is %s' % (short(saved), short(want)))


def run(sim):
    sim.seed_globals()
    kind = sim.weighted([(4, crossvalidation), (3, gridsearch), (3, doe), (2, costgamma), (4, evaluation), (3, tool)])
    sim.probe('variant-' + kind.__name__)
    kind(sim)
