"""P15: training moves the parameters as prescribed, and keeps the best ones."""
import logging
import random

import numpy as np

from dst import seams, gen_nets
from dst.core import short
from dst.props import p13


def setup():
    p13.setup()
    import pybrain.supervised.trainers  # noqa
    import pybrain.supervised.trainers.mixturedensity  # noqa


def close(a, b, tol=1e-7):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (1 + np.abs(b))))


def sequences(ds):
    """the content of a dataset: [[(input, target[, importance])]]"""
    out = []
    for seq in ds._provideSequences():
        out.append([tuple(tuple(float(t) for t in np.ravel(f)) for f in s) for s in seq])
    return out


def dataset(sim, indim, outdim, recurrent, serial, classes=False):
    from pybrain.datasets import SupervisedDataSet, SequentialDataSet, ImportanceDataSet
    kind = sim.choice(('supervised', 'sequential', 'importance') if recurrent else ('supervised', 'supervised', 'importance'))
    ds = dict(supervised=SupervisedDataSet, sequential=SequentialDataSet, importance=ImportanceDataSet)[kind](indim, outdim)
    n = sim.int(2, 7)
    for i in range(n):
        if kind != 'supervised' and (not recurrent or sim.chance(0.5)) and i:
            ds.newSequence()
        serial[0] += 1
        # inputs are unique: they identify their sequence
        x = [sim.float(-1, 1) for _ in range(indim)]
        x[0] = serial[0] / 64.0 - 1
        y = [sim.float(-1, 1) for _ in range(outdim)]
        if kind == 'importance':
            ds.addSample(x, y, [sim.choice((1.0, 0.5, 2.0)) for _ in range(outdim)])
        else:
            ds.addSample(x, y)
    return ds, kind


class Model(object):
    """gradient descent by its definition"""

    def __init__(self, net, kind, kw):
        self.shadow = net.copy()       # the gradients come from a network of its own
        self.kind = kind
        self.kw = kw
        n = net.paramdim
        self.momentum = np.zeros(n)
        self.alpha = kw.get('learningrate', 0.01)
        self.delta = np.zeros(n) + kw.get('delta0', 0.1)
        self.last = np.zeros(n)
        self.small = False

    def derivs(self, params, seq):
        s = self.shadow
        s._setParameters(np.array(params))
        s.resetDerivatives()
        s.reset()
        outs = [np.array(s.activate(np.array(x[0]))) for x in seq]
        err, pond = 0.0, 0.0
        for y, smp in reversed(list(zip(outs, seq))):
            e = np.array(smp[1]) - y
            if len(smp) > 2:
                imp = np.array(smp[2])
                err += 0.5 * float(sum(imp * e ** 2))
                pond += float(sum(imp))
                s.backActivate(e * imp)
            else:
                err += 0.5 * float(sum(e ** 2))
                pond += len(e)
                s.backActivate(e)
        return np.array(s.derivs), err, pond

    def mse(self, params, seqs):
        s = self.shadow
        s._setParameters(np.array(params))
        err, pond = 0.0, 0.0
        for seq in seqs:
            s.reset()
            for smp in seq:
                e = np.array(smp[1]) - s.activate(np.array(smp[0]))
                imp = np.array(smp[2]) if len(smp) > 2 else np.ones(len(e))
                err += 0.5 * float(sum(imp * e ** 2))
                pond += float(sum(imp))
        return err / pond

    def step(self, params, g):
        kw = self.kw
        g = g - kw.get('weightdecay', 0.0) * params
        if self.kind == 'rprop':
            if np.any((np.abs(g) < 1e-9) & (g != 0)):
                self.small = True       # the sign is a matter of rounding
            new = params + np.sign(g) * self.delta
            sw = self.last * g
            up, down = kw.get('etaplus', 1.2), kw.get('etaminus', 0.5)
            self.delta = np.where(sw > 0, self.delta * up, np.where(sw < 0, self.delta * down, self.delta))
            self.delta = np.minimum(np.maximum(self.delta, kw.get('deltamin', 1e-6)), kw.get('deltamax', 5.0))
            self.last = np.where(sw < 0, 0.0, g)
            return new
        self.momentum = self.momentum * kw.get('momentum', 0.0) + self.alpha * g
        self.alpha *= kw.get('lrdecay', 1.0)
        return params + self.momentum

    def epoch(self, params, order, complete=True):
        """-> (params, error); order: the sequences in the order they were used"""
        total = np.zeros(len(params))
        err, pond = 0.0, 0.0
        for seq in order:
            g, e, p = self.derivs(params, seq)
            err += e
            pond += p
            if self.kind == 'backprop' and not self.kw.get('batchlearning'):
                params = self.step(params, g)
            else:
                total += g
        if complete and (self.kind == 'rprop' or self.kw.get('batchlearning')):
            params = self.step(params, total)
        return params, (err / pond if pond else None)


def run(sim):
    sim.seed_globals()
    np.seterr(all='ignore')
    logging.disable(logging.CRITICAL)
    p13.ARM.update(left=None, kind=None, fired=False)
    if sim.chance(0.1):
        mixture(sim)
        sim.probe('mixture')
        return
    history(sim)
    sim.probe('history')


def history(sim):
    from pybrain.supervised.trainers import BackpropTrainer, RPropMinusTrainer
    recurrent = sim.chance(0.5)
    orig = gen_nets.layer

    def layer(sim_, k, dim, name, peepholes=False):
        if k == 'Linear' and sim_.chance(0.7):
            return p13.Faulty(dim, name=name)
        return orig(sim_, k, dim, name, peepholes)
    gen_nets.layer = layer
    try:
        b = gen_nets.network(sim, 'net', recurrent=recurrent, forget=False, maxdim=2, layers=('Linear', 'Sigmoid', 'Tanh'),
                             conns=('full', 'full', 'identity', 'shared'))
    finally:
        gen_nets.layer = orig
    net = b.net
    if not net.paramdim:
        return
    serial = [0]
    sets = [dataset(sim, net.indim, net.outdim, recurrent, serial) for _ in range(sim.int(1, 2))]
    kind = sim.choice(('backprop', 'backprop', 'rprop'))
    kw = {}
    for k, p, opts in (('learningrate', 0.5, (0.1, 0.5)), ('lrdecay', 0.3, (0.9, 0.5)), ('momentum', 0.3, (0.5, 0.9)),
                       ('weightdecay', 0.3, (0.01, 0.1)), ('batchlearning', 0.4, (True,))):
        if sim.chance(p) and (kind == 'backprop' or k == 'weightdecay'):
            kw[k] = sim.choice(opts)
    if kind == 'rprop':
        for k, p, opts in (('etaminus', 0.3, (0.3,)), ('etaplus', 0.3, (1.5,)), ('deltamin', 0.3, (0.01,)), ('deltamax', 0.3, (0.2,)),
                           ('delta0', 0.3, (0.01,))):
            if sim.chance(p):
                kw[k] = sim.choice(opts)
    T = BackpropTrainer if kind == 'backprop' else RPropMinusTrainer
    cur = sets[0][0] if sim.chance(0.8) else None
    trainer = T(net, dataset=cur, **kw)
    sim.log(kind, sorted(kw.items()), b.desc, [(k, len(d)) for d, k in sets])
    w = dict(model=Model(net, kind, kw), params=np.array(net.params), epochs=0, cur=cur)
    content = [sequences(d) for d, _ in sets]
    seen = []
    act = net.activate

    def activate(x):
        seen.append(tuple(float(t) for t in x))
        return act(x)
    net.activate = activate

    def find(ds):
        return [c for (d, _), c in zip(sets, content) if d is ds][0]

    def orders(seqs, inputs):
        """the sequences the inputs stem from, the last one possibly incomplete"""
        out, rest = [], list(inputs)
        while rest:
            c = [s for s in seqs if s[0][0] == rest[0]]
            sim.check(len(c) == 1, 'unknown-sample', lambda: 'trained on %s, which does not begin a sequence of the dataset' % (rest[0],))
            s = c[0]
            k = min(len(s), len(rest))
            sim.check([x[0] for x in s[:k]] == rest[:k], 'wrong-order', lambda: 'the samples of a sequence were not presented in order')
            out.append(s)
            rest = rest[k:]
        return out

    def follow(seqs, inputs, complete, err=None):
        o = orders(seqs, inputs)
        if complete:
            sim.check(sorted(o) == sorted(seqs), 'not-an-epoch', lambda: 'an epoch used %d of %d sequences' % (len(o), len(seqs)))
        else:
            o = o[:-1]      # the update of a failing sequence is not done
        w['params'], e = w['model'].epoch(w['params'], o, complete)
        if complete and err is not None and np.isfinite(e):
            sim.check(close(err, e), 'wrong-error', lambda: 'an epoch reports %r instead of %r' % (err, e))
        return e

    def agree(what):
        if not np.all(np.isfinite(w['params'])) or np.abs(w['params']).max() > 1e4 or w['model'].small:
            w['params'] = np.array(net.params)
            return False
        sim.check(close(net.params, w['params'], 1e-6), 'wrong-params', lambda: '%s: %s instead of %s' % (what, short(list(net.params)), short(list(w['params']))))
        w['params'] = np.array(net.params)       # no accumulation of rounding
        return True

    bad = False
    for _ in sim.ops(6, 14):
        op = sim.weighted([(5, 'train'), (2, 'epochs'), (2, 'on'), (2, 'params'), (1, 'refused'), (2, 'test'), (1, 'classes'),
                           (3, 'converge'), (3, 'fail'), (2, 'interrupt'), (1, 'empty')])
        del seen[:]
        sim.log(op)
        if w['cur'] is None and op not in ('on', 'refused', 'params', 'empty'):
            op = 'on'
        if op in ('train', 'epochs', 'on', 'fail'):
            if op == 'fail':
                if not any(isinstance(m, p13.Faulty) for m in net.modules):
                    continue
                p13.ARM.update(left=sim.int(1, 8), kind=sim.choice(('forward', 'backward')), fired=False)
            n = 1
            err = None
            marks = []
            trained = trainer.train

            def train(*a, **k):
                marks.append(len(seen))
                return trained(*a, **k)
            trainer.train = train
            before = w['cur']
            try:
                if op in ('train', 'fail'):
                    err = trainer.train()
                elif op == 'epochs':
                    n = sim.int(0, 3)
                    trainer.trainEpochs(n)
                else:
                    n = sim.int(1, 2)
                    ds = sets[sim.draw(len(sets))][0]
                    w['cur'] = ds
                    trainer.trainOnDataset(ds, n)
                sim.check(not p13.ARM['fired'], 'failure-hidden', 'the failure of a module was not reported')
                failed = False
            except p13.ModuleFailure:
                failed = True
                sim.fault('module-fails-during-training')
            finally:
                del trainer.train
                p13.ARM.update(left=None, fired=False)
            seqs = find(w['cur'])
            bounds = marks + [len(seen)]
            sim.check(len(marks) == n, 'wrong-epochs', lambda: '%d epochs instead of %d' % (len(marks), n))
            for i in range(n):
                part = seen[bounds[i]:bounds[i + 1]]
                done = not (failed and i == n - 1)
                follow(seqs, part, done, err if n == 1 else None)
                if done:
                    w['epochs'] += 1
            bad |= not agree(op)
            sim.state(kind, op, failed, kw.get('batchlearning'), recurrent)
        elif op == 'params':
            v = np.array([sim.float(-1, 1) for _ in range(net.paramdim)])
            if sim.chance(0.5):
                net._setParameters(v.copy())
            else:
                net.params[:] = v
            w['params'] = v
        elif op == 'refused':
            from pybrain.datasets import SupervisedDataSet
            other = SupervisedDataSet(net.indim + 1, net.outdim)
            other.addSample([0.0] * (net.indim + 1), [0.0] * net.outdim)
            try:
                trainer.setData(other)
            except AssertionError:
                pass
            else:
                sim.violate('wrong-dataset-accepted', 'a dataset with other dimensions')
            sim.check(trainer.ds is w['cur'], 'wrong-dataset', 'the trainer kept a dataset that it refused')
        elif op == 'empty':
            from pybrain.datasets import SupervisedDataSet
            trainer.setData(SupervisedDataSet(net.indim, net.outdim))
            try:
                trainer.train()
            except (AssertionError, ZeroDivisionError):
                pass
            else:
                sim.violate('empty-dataset-accepted', '')
            trainer.setData(w['cur'])
        elif op == 'test':
            ds = sets[sim.draw(len(sets))][0]
            got = trainer.testOnData(ds) if ds is not w['cur'] or sim.chance(0.5) else trainer.testOnData()
            want = w['model'].mse(w['params'], find(ds))
            sim.check(not np.isfinite(want) or close(got, want, 1e-6), 'wrong-error', lambda: 'testOnData reports %r instead of %r' % (got, want))
        elif op == 'classes':
            ds = sets[sim.draw(len(sets))][0]
            got, targ = trainer.testOnClassData(ds, return_targets=True)
            s = w['model'].shadow
            s._setParameters(np.array(w['params']))
            want, wt = [], []
            clear = True
            for seq in find(ds):
                s.reset()
                for smp in seq:
                    y = [float(t) for t in s.activate(np.array(smp[0]))]
                    z = sorted(y)
                    clear = clear and np.all(np.isfinite(y)) and (len(z) < 2 or z[-1] - z[-2] > 1e-9)
                    want.append(y.index(max(y)) if np.all(np.isfinite(y)) else 0)
                    wt.append(max(range(len(smp[1])), key=lambda i: (smp[1][i], -i)))
            sim.check(not clear or [int(t) for t in got] == want, 'wrong-class', lambda: '%s instead of %s' % (list(got), want))
            sim.check([int(t) for t in targ] == wt, 'wrong-class', lambda: 'targets %s instead of %s' % (list(targ), wt))
        elif op == 'converge':
            bad |= converge(sim, trainer, net, w, sets, find, seen, orders, agree, kind)
        elif op == 'interrupt':
            try:
                with seams.Interrupter(sim, sim.int(1, sim.choice((30, 300, 2000))), sim.choice((KeyboardInterrupt, MemoryError))):
                    if sim.chance(0.5):
                        trainer.train()
                    else:
                        trainer.trainUntilConvergence(maxEpochs=2, validationProportion=0.5)
            except (KeyboardInterrupt, MemoryError):
                pass
            except ValueError:
                pass
            # what was learned until then is kept, the rest starts afresh
            w['params'] = np.array(net.params)
            w['epochs'] = None
            sim.check(trainer.ds is w['cur'], 'wrong-dataset', 'an interrupted trainer has another dataset')
            trainer = T(net, dataset=w['cur'], **kw)
            w['model'] = Model(net_plain(net), kind, kw)
            w['epochs'] = 0
        if bad:
            # diverged: start again from small parameters with a new trainer
            net._setParameters(np.array([sim.float(-1, 1) for _ in range(net.paramdim)]))
            trainer = T(net, dataset=w['cur'], **kw)
            w['model'] = Model(net_plain(net), kind, kw)
            w['params'] = np.array(net.params)
            w['epochs'] = 0
            bad = False
            sim.probe('diverged')
        sim.check(trainer.ds is w['cur'], 'wrong-dataset', lambda: '%s: the trainer has another dataset' % op)
        sim.check(trainer.totalepochs == w['epochs'], 'wrong-epochs', lambda: '%s: counts %r epochs, %r were completed' % (op, trainer.totalepochs, w['epochs']))
        for (d, k), c in zip(sets, content):
            sim.check(sequences(d) == c, 'dataset-modified', lambda: '%s changed a %s dataset' % (op, k))


def net_plain(net):
    """a copy of the network without the recording"""
    rec = net.__dict__.pop('activate')
    try:
        return net.copy()
    finally:
        net.activate = rec


def converge(sim, trainer, net, w, sets, find, seen, orders, agree, kind):
    ds, dkind = sets[sim.draw(len(sets))]
    args = dict(maxEpochs=sim.int(1, 6), continueEpochs=sim.choice((10, 1, 2)))
    explicit = len(sets) > 1 and sim.chance(0.4)
    tests, epochs = [], []
    fail = sim.chance(0.2) and any(isinstance(m, p13.Faulty) for m in net.modules)
    before = w['cur']
    if explicit:
        args['trainingData'], args['validationData'] = sets[0][0], sets[1][0]
        want = before
    else:
        args['validationProportion'] = sim.choice((0.25, 0.5))
        if sim.chance(0.5):
            args['dataset'] = ds
        else:
            ds = before
        want = ds
    if fail:
        p13.ARM.update(left=sim.int(1, 40), kind=sim.choice(('forward', 'backward')), fired=False)
    train, test = trainer.train, trainer.testOnData

    def train_(*a, **k):
        i = len(seen)
        rec = dict(ds=trainer.ds, params=np.array(net.params), start=i)
        epochs.append(rec)
        rec['error'] = train(*a, **k)
        rec['seen'] = list(seen[i:])
        rec['after'] = np.array(net.params)
        return rec['error']

    def test_(dataset=None, *a, **k):
        rec = dict(ds=dataset if dataset is not None else trainer.ds, params=np.array(net.params))
        tests.append(rec)
        rec['error'] = test(dataset, *a, **k)
        return rec['error']
    trainer.train, trainer.testOnData = train_, test_
    failed = None
    try:
        terr, verr = trainer.trainUntilConvergence(**args)
        sim.check(not p13.ARM['fired'], 'failure-hidden', 'the failure of a module was not reported')
    except p13.ModuleFailure as e:
        failed = e
        sim.fault('module-fails-during-training')
    except ValueError as e:
        failed = e      # too few samples to split
    except Exception as e:
        if 'NaN' not in str(e):
            raise
        failed = e
    finally:
        del trainer.train
        del trainer.testOnData
        p13.ARM.update(left=None, fired=False)
    w['epochs'] += len([e for e in epochs if 'after' in e])
    w['cur'] = want if failed is None else trainer.ds
    sim.check(trainer.ds is want or (failed is not None and trainer.ds is before), 'wrong-dataset', 'trainUntilConvergence left the trainer with another dataset')
    # every epoch is one, on the training data
    diverged = False
    for i, e in enumerate(epochs):
        w['params'] = e['params']
        seqs = sequences(e['ds'])
        if explicit:
            sim.check(e['ds'] is args['trainingData'], 'wrong-dataset', 'trained on other data than the training data')
        done = 'after' in e
        o = orders(seqs, e['seen'] if done else seen[e['start']:])
        if done:
            sim.check(sorted(o) == sorted(seqs), 'not-an-epoch', lambda: 'epoch %d used %d of %d sequences' % (i + 1, len(o), len(seqs)))
            w['params'], err = w['model'].epoch(w['params'], o)
            if np.all(np.isfinite(w['params'])) and np.abs(w['params']).max() < 1e4 and not w['model'].small:
                sim.check(not np.isfinite(err) or close(e['error'], err, 1e-6), 'wrong-error', lambda: 'an epoch reports %r instead of %r' % (e['error'], err))
                sim.check(close(e['after'], w['params'], 1e-6), 'wrong-params', lambda: 'epoch %d: %s instead of %s' % (i + 1, short(list(e['after'])), short(list(w['params']))))
            else:
                diverged = True
        elif isinstance(failed, p13.ModuleFailure):
            if o:
                w['params'], _ = w['model'].epoch(w['params'], o[:-1], False)
    if not explicit and epochs and tests:
        # training and validation data are a partition of the dataset
        flat = lambda d: sorted(s for q in sequences(d) for s in q)
        t, v = flat(epochs[0]['ds']), flat(tests[0]['ds'])
        sim.check(sorted(t + v) == sorted(s for q in find(ds) for s in q), 'wrong-split', 'training and validation data are not a partition')
    if failed is not None:
        if isinstance(failed, ValueError):
            sim.check(explicit or (not epochs and len(find(ds)) < 7), 'refused-without-reason', lambda: str(failed))
        w['params'] = np.array(net.params)
        return diverged or not np.all(np.isfinite(w['params'])) or np.abs(w['params']).max() > 1e4
    n = len(epochs)
    sim.check(1 <= n <= args['maxEpochs'], 'wrong-epochs', lambda: '%d epochs, at most %d' % (n, args['maxEpochs']))
    vs = [w['model'].mse(e['params'], sequences(tests[0]['ds'])) for e in epochs[:1]]
    vs += [w['model'].mse(e['after'], sequences(tests[0]['ds'])) for e in epochs]
    if not np.all(np.isfinite(vs)) or diverged:
        w['params'] = np.array(net.params)
        return True
    best = min(range(1, n + 1), key=lambda i: vs[i])
    sim.check(any(np.array_equal(net.params, e['after']) and close(vs[i + 1], vs[best], 1e-7) for i, e in enumerate(epochs)), 'not-the-best',
              lambda: 'after %d epochs with validation errors %s the parameters are not those of epoch %d' % (n, short(vs), best))
    i = len(terr)
    sim.check(1 <= i <= n and close(vs[i], vs[best], 1e-7) and close(terr, [e['error'] for e in epochs[:i]]) and close(verr, vs[:i + 1], 1e-6), 'wrong-errors',
              lambda: 'returned %d training and %d validation errors, the best epoch is %d' % (len(terr), len(verr), best))
    # why it stopped
    k = args['continueEpochs']
    if n < args['maxEpochs']:
        old, new = vs[-2 * k:-k], vs[-k:]
        sim.check(len(vs) >= 2 * k and (min(new) > max(old) - 1e-9 or max(new) - min(new) < 1e-9), 'stops-without-reason', lambda: 'after %d epochs: %s' % (n, short(vs)))
    w['params'] = np.array(net.params)
    sim.state('converge', kind, explicit, n, best == n)
    return False


# --- mixture density networks ------------------------------------------------------

def nll(par, K, D, target):
    import math
    tot = 0.0
    for k in range(K):
        s = par[K + k]
        q = sum((par[2 * K + k * D + d] - target[d]) ** 2 for d in range(D))
        tot += par[k] * math.exp(-0.5 * q / s ** 2) / ((2 * math.pi) ** (D / 2.0) * s ** D)
    return -math.log(tot)


def mixture(sim):
    """one batch step of the mixture trainers follows the gradient of the negative log-likelihood"""
    from pybrain.supervised.trainers.mixturedensity import BackpropTrainerMix, RPropMinusTrainerMix
    from pybrain.structure.modules.mixturedensity import MixtureDensityLayer
    from pybrain.structure import LinearLayer, TanhLayer, FullConnection, BiasUnit, FeedForwardNetwork
    from pybrain.datasets import SupervisedDataSet
    D, K = sim.int(1, 2), sim.int(1, 2)
    n = FeedForwardNetwork()
    a, h, o, bias = LinearLayer(1, name='in'), TanhLayer(1, name='h'), MixtureDensityLayer(dim=D, name='z', mix=K), BiasUnit(name='b')
    n.addInputModule(a)
    n.addModule(h)
    n.addModule(bias)
    n.addOutputModule(o)
    for i, c in enumerate((FullConnection(a, h), FullConnection(bias, h), FullConnection(h, o), FullConnection(bias, o))):
        n.addConnection(c)
    n.sortModules()
    n._setParameters(np.array([sim.float(-1, 1) for _ in range(n.paramdim)]))
    sim.check(n.outdim == K * (D + 2), 'wrong-dimension', 'mixture density layer')
    ds = SupervisedDataSet(1, D)
    for _ in range(sim.int(1, 3)):
        ds.addSample([sim.float(-1, 1)], [sim.float(-1, 1) for _ in range(D)])
    data = [(np.array(s[0]), [float(t) for t in s[1]]) for s in ds]

    def E(p):
        n._setParameters(np.array(p))
        return sum(nll([float(t) for t in n.activate(x)], K, D, y) for x, y in data)
    p0 = np.array(n.params)
    g = np.zeros(len(p0))
    for i in range(len(p0)):
        d = np.zeros(len(p0))
        d[i] = 1e-5
        g[i] = -(E(p0 + d) - E(p0 - d)) / 2e-5
    e0 = E(p0)
    n._setParameters(p0.copy())
    rprop = sim.chance(0.4)
    if rprop:
        t = RPropMinusTrainerMix(n, dataset=ds, delta0=0.01)
    else:
        t = BackpropTrainerMix(n, dataset=ds, learningrate=0.01, batchlearning=True)
    sim.log('mixture', D, K, len(data), rprop)
    err = t.train()
    sim.check(close(err, e0 / len(data), 1e-6), 'wrong-error', lambda: 'mixture: %r instead of %r' % (err, e0 / len(data)))
    move = np.array(n.params) - p0
    if rprop:
        want = np.sign(g) * 0.01
        ok = np.abs(g) > 1e-6
        sim.check(close(move[ok], want[ok], 1e-6), 'wrong-gradient', lambda: 'mixture moves by %s, gradient %s' % (short(list(move)), short(list(g))))
    else:
        sim.check(close(move / 0.01, g, 1e-4), 'wrong-gradient', lambda: 'mixture moves by %s, gradient %s' % (short(list(move / 0.01)), short(list(g))))
    sim.state('mixture', D, K, rprop)
