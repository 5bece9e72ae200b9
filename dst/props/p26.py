"""P26: Boltzmann machines and deep networks are trained by the contrastive divergence of exactly the given samples."""
import numpy as np

from dst import seams
from dst.core import short


def setup():
    import pybrain.structure.networks.rbm, pybrain.unsupervised.trainers.rbm  # noqa
    import pybrain.unsupervised.trainers.deepbelief  # noqa
    import pybrain.datasets  # noqa


class Injected(Exception):
    pass


def close(a, b, tol=1e-8):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (1 + np.abs(b))))


def sigmoid(x):
    return 1. / (1. + np.exp(-np.asarray(x, float)))


class Machine(object):
    """model of a restricted Boltzmann machine"""

    def __init__(self, W, b, c):
        self.W, self.b, self.c = np.array(W, float), np.array(b, float), np.array(c, float)

    def up(self, v):
        return sigmoid(np.dot(self.W, v) + self.b)

    def down(self, h):
        return sigmoid(np.dot(self.W.T, h) + self.c)

    def batch(self, rows, cfg, sample, stop=None):
        """contrastive divergence on one batch; stop: calls of sample left before it fails"""
        H, V = self.W.shape
        dW, db, dc = np.zeros((H, V)), np.zeros(H), np.zeros(V)
        for t in range(cfg.maxIter):
            mm = cfg.iniMm if t < cfg.mmSwitchIter else cfg.finMm
            gW, gb, gc = np.zeros((H, V)), np.zeros(H), np.zeros(V)
            for v in rows:
                if stop is not None:
                    if stop[0] == 0:
                        return False
                    stop[0] -= 1
                h = self.up(v)
                r = self.down(sample(h))
                h2 = self.up(r)
                gW += np.outer(h, v) - np.outer(h2, r)
                gb += h - h2
                gc += v - r
            n = float(len(rows))
            dW = mm * dW + cfg.rWeights * (gW / n - cfg.weightCost * self.W)
            db = mm * db + cfg.rHidBias * gb / n
            dc = mm * dc + cfg.rVisBias * gc / n
            self.W += dW
            self.b += db
            self.c += dc
        return True


SAMPLERS = [('threshold', lambda p: (np.asarray(p) > 0.5).astype(int)), ('mean', lambda p: np.array(p)), ('half', lambda p: np.round(np.asarray(p) * 4) / 4)]


def make_rbm(sim, V, H):
    from pybrain.structure.networks.rbm import Rbm
    W = np.array([[sim.float(-1, 1) for _ in range(V)] for _ in range(H)])
    b = np.array([sim.float(-1, 1) for _ in range(H)])
    if sim.chance(0.5):
        rbm = Rbm.fromDims(V, H, W.flatten(), b.copy())
    else:
        rbm = Rbm.fromDims(V, H)
        rbm.params[:] = W.flatten()
        rbm.biasParams[:] = b
    return rbm, Machine(W, b, np.zeros(V))


def config(sim):
    from pybrain.unsupervised.trainers.rbm import RbmGibbsTrainerConfig
    cfg = RbmGibbsTrainerConfig()
    cfg.batchSize = sim.int(1, 6)
    cfg.rWeights, cfg.rHidBias, cfg.rVisBias = sim.choice((0.1, 0.5)), sim.choice((0.1, 0.3)), sim.choice((0.1, 0.2))
    cfg.weightCost = sim.choice((0.0, 0.0002, 0.1))
    cfg.iniMm, cfg.finMm = sim.choice((0.5, 0.0)), sim.choice((0.9, 0.4))
    cfg.mmSwitchIter, cfg.maxIter = sim.draw(5), sim.int(1, 6)
    return cfg


def make_ds(sim, V, n):
    from pybrain.datasets import SupervisedDataSet, UnsupervisedDataSet
    rows = [[float(sim.draw(2)) if sim.chance(0.7) else sim.float(0, 1) for _ in range(V)] for _ in range(n)]
    if sim.chance(0.5):
        ds, field = UnsupervisedDataSet(V), 'sample'
        for r in rows:
            ds.addSample(r)
    else:
        ds, field = SupervisedDataSet(V, 2), 'input'
        for r in rows:
            ds.addSample(r, [7.0, -7.0])
    return ds, field, rows


class Batches(object):
    """notes the batches a dataset gives out"""

    def __init__(self, ds):
        self.ds, self.given, self.orig = ds, [], ds.randomBatches
        ds.randomBatches = self

    def __call__(self, *args, **kwargs):
        for rows in self.orig(*args, **kwargs):
            self.given.append(np.array(rows))
            yield rows


# --- the machine ------------------------------------------------------------------------
def machine(sim):
    V, H = sim.int(1, 4), sim.int(1, 4)
    rbm, m = make_rbm(sim, V, H)
    sim.log('rbm', V, H)
    inv = None
    for _ in sim.ops(5, 12):
        op = sim.weighted([(4, 'up'), (4, 'down'), (2, 'set'), (2, 'twice'), (1, 'independent')])
        if op == 'up':
            v = [sim.float(-1, 1) for _ in range(V)]
            sim.check(close(rbm.activate(v), m.up(v)), 'machine:up', lambda: 'hidden units %s, expected %s' % (short(rbm.activate(v).tolist()), short(m.up(v).tolist())))
        elif op == 'down':
            inv = rbm.invert()
            h = [float(sim.draw(2)) for _ in range(H)]
            c = np.array([sim.float(-1, 1) for _ in range(V)])
            inv.biasParams[:] = c
            want = Machine(m.W, m.b, c).down(h)
            sim.check(close(inv.activate(h), want), 'machine:down', lambda: 'visible units %s, expected %s' % (short(inv.activate(h).tolist()), short(want.tolist())))
            sim.check(inv.visibleDim == H and inv.hiddenDim == V, 'machine:dims', 'dimensions of the inverse')
        elif op == 'set':
            i, j = sim.draw(H), sim.draw(V)
            w = sim.float(-1, 1)
            rbm.params[i * V + j] = w
            m.W[i, j] = w
        elif op == 'twice':
            again = rbm.invert().invert()
            v = [sim.float(-1, 1) for _ in range(V)]
            again.biasParams[:] = m.b
            sim.check(close(again.activate(v), m.up(v)) and close(again.params, rbm.params), 'machine:inverse', lambda: 'inverted twice: %s, not %s' % (short(again.params.tolist()), short(rbm.params.tolist())))
        else:
            inv = rbm.invert()
            inv.params[:] = 5.0
            inv.biasParams[:] = 5.0
            sim.check(close(rbm.params, m.W.flatten()) and close(rbm.biasParams, m.b), 'machine:shared', 'changing the inverse changes the machine')
        sim.log(op)
        sim.state('rbm', op, V, H)


# --- training -----------------------------------------------------------------------------
def training(sim):
    from pybrain.unsupervised.trainers.rbm import RbmBernoulliTrainer, RbmGaussTrainer
    V, H = sim.int(1, 4), sim.int(1, 4)
    rbm, m = make_rbm(sim, V, H)
    ds, field, rows = make_ds(sim, V, sim.int(1, 7))
    base = sim.choice((RbmBernoulliTrainer, RbmGaussTrainer))
    sname, sample = sim.choice(SAMPLERS)
    left = [None]

    class Trainer(base):
        def sampler(self, probabilities):
            if left[0] is not None:
                if left[0] == 0:
                    raise Injected('sampler')
                left[0] -= 1
            return sample(probabilities)

    default = sim.chance(0.2)
    if default:
        trainer = Trainer(rbm, ds)
        cfg = trainer.cfg
        sim.check((cfg.batchSize, cfg.rWeights, cfg.rHidBias, cfg.rVisBias, cfg.weightCost, cfg.iniMm, cfg.finMm, cfg.mmSwitchIter, cfg.maxIter)
                  == (10, 0.1, 0.1, 0.1, 0.0002, 0.5, 0.9, 5, 9), 'training:defaults', 'default settings changed')
    else:
        cfg = config(sim)
        trainer = Trainer(rbm, ds, cfg)
    m.c = np.array(trainer.invRbm.biasParams)   # the visible units start with a random bias
    spy = Batches(ds)
    sim.log('training', V, H, len(rows), base.__name__, sname, cfg.batchSize, cfg.maxIter)

    def audit(where):
        for name, got, want in (('weights', rbm.params, m.W.flatten()), ('hidden bias', rbm.biasParams, m.b), ('visible bias', trainer.invRbm.biasParams, m.c),
                                ('weights of the inverse', trainer.invRbm.params, m.W.T.flatten())):
            sim.check(close(got, want, 1e-7), 'training:' + name.replace(' ', '-'), lambda: '%s: %s are %s, expected %s' % (where, name, short(np.asarray(got).tolist()), short(want.tolist())))

    for _ in sim.ops(4, 8):
        op = sim.weighted([(5, 'train'), (2, 'other'), (2, 'fail'), (1, 'config'), (1, 'add')])
        if op == 'config':
            if not default:
                cfg = trainer.cfg = config(sim)
            continue
        if op == 'add':
            r = [float(sim.draw(2)) for _ in range(V)]
            ds.addSample(*([r] if field == 'sample' else [r, [7.0, -7.0]]))
            rows.append(r)
            sim.log('add')
            continue
        use, urows, uspy = ds, rows, spy
        uspy.given = []
        if op == 'other':
            while True:
                use, f, urows = make_ds(sim, V, sim.int(1, 5))
                if f == field:
                    break
            uspy = Batches(use)
        if op == 'fail':
            left[0] = sim.draw(len(rows) * cfg.maxIter + 2)
        stop = [left[0]] if left[0] is not None else None
        try:
            trainer.train() if use is ds else trainer.trainOnDataset(use)
            failed = False
        except Injected:
            failed = True
            sim.fault('sampler-raises')
        left[0] = None
        given = uspy.given
        if not failed:
            sim.check(sorted(tuple(r) for b in given for r in np.asarray(b, float)) == sorted(map(tuple, urows)), 'training:samples',
                      lambda: 'trained on %s of the samples %s' % (short([np.asarray(b).tolist() for b in given]), short(urows)))
            sim.check(all(len(b) <= cfg.batchSize for b in given) and len(given) == -(-len(urows) // cfg.batchSize), 'training:batch-size', lambda: 'batches of %s, asked for %d' % ([len(b) for b in given], cfg.batchSize))
        for b in given:
            if not m.batch(np.asarray(b, float), cfg, sample, stop):
                break
        sim.log(op, len(given), failed)
        audit(op + (' aborted' if failed else ''))
        sim.state('training', op, cfg.batchSize, cfg.maxIter, failed)


def sampling(sim):
    """the random states of hidden units have the given distribution"""
    from pybrain.unsupervised.trainers.rbm import RbmBernoulliTrainer, RbmGaussTrainer
    V, H = sim.int(1, 3), sim.int(1, 4)
    rbm, _ = make_rbm(sim, V, H)
    ds, _, _ = make_ds(sim, V, 2)
    cls = sim.choice((RbmBernoulliTrainer, RbmGaussTrainer))
    trainer = cls(rbm, ds)
    p = np.array([sim.choice((0.0, 1.0, 0.5, sim.float(0, 1))) for _ in range(H)])
    n = 400
    keep = p.copy()
    got = np.array([trainer.sampler(p) for _ in range(n)], float)
    sim.log('sampling', cls.__name__, H)
    sim.check(got.shape == (n, H) and bool(np.all(p == keep)), 'sampling:shape', lambda: 'states of shape %s' % (got.shape,))
    mean = got.mean(axis=0)
    sim.log(mean)
    if cls is RbmBernoulliTrainer:
        sim.check(bool(np.all((got == 0) | (got == 1))), 'sampling:binary', 'a state is neither 0 nor 1')
        dev = 6 * np.sqrt(p * (1 - p) / n) + 1e-9
        both = [(got[:, i] * got[:, j]).mean() - p[i] * p[j] for i in range(H) for j in range(i)]
    else:
        dev = 6 / np.sqrt(n) * np.ones(H)
        sd = got.std(axis=0)
        sim.check(bool(np.all(np.abs(sd - 1) < 0.25)), 'sampling:deviation', lambda: 'deviations %s of states of variance one' % short(sd.tolist()))
        both = [((got[:, i] - p[i]) * (got[:, j] - p[j])).mean() for i in range(H) for j in range(i)]
    sim.check(bool(np.all(np.abs(mean - p) <= dev)), 'sampling:mean', lambda: 'states of mean %s for probabilities %s' % (short(mean.tolist()), short(p.tolist())))
    sim.check(all(abs(x) < 6.5 / np.sqrt(n) for x in both), 'sampling:independent', lambda: 'states of different units depend on each other: %s' % short(both))
    sim.log('done')
    sim.state('sampling', cls.__name__, H)


# --- deep networks -----------------------------------------------------------------------------
def deep(sim):
    from pybrain.structure import FeedForwardNetwork, LinearLayer, SigmoidLayer, BiasUnit, FullConnection
    from pybrain.tools.shortcuts import buildNetwork
    from pybrain.unsupervised.trainers.deepbelief import DeepBeliefTrainer
    dims = [sim.int(1, 4) for _ in range(sim.int(2, 4))]
    if sim.chance(0.5):
        net = buildNetwork(*dims, bias=True, hiddenclass=SigmoidLayer, outclass=SigmoidLayer)
    else:
        net = FeedForwardNetwork()
        names = sim.shuffled(['a', 'b', 'c', 'd', 'e'])
        layers = [(LinearLayer if i == 0 else SigmoidLayer)(d, name=names[i]) for i, d in enumerate(dims)]
        bias = BiasUnit(name=names[4])
        net.addInputModule(layers[0])
        net.addOutputModule(layers[-1])
        for x in sim.shuffled([bias] + layers[1:-1]):
            net.addModule(x)
        cons = [('w%d' % i, layers[i], layers[i + 1]) for i in range(len(dims) - 1)] + [('b%d' % i, bias, layers[i + 1]) for i in range(len(dims) - 1)]
        labels = sim.shuffled(['k%d' % i for i in range(len(cons))])
        for (_, a, b), l in zip(sim.shuffled(cons), labels):
            net.addConnection(FullConnection(a, b, name=l))
        net.sortModules()
    net.randomize()
    inmod = net.inmodules[0]
    bias = [x for x in net.modules if isinstance(x, BiasUnit)][0]
    chain, x = [], inmod
    while net.connections[x]:
        con = net.connections[x][0]
        bcon = [c for c in net.connections[bias] if c.outmod is con.outmod][0]
        chain.append((con, bcon))
        x = con.outmod
    model = [Machine(c.params.reshape(c.outdim, c.indim), b.params, np.zeros(c.indim)) for c, b in chain]
    n = sim.int(1, 5)
    ds, field, rows = make_ds(sim, dims[0], n)
    cfg = config(sim)
    cfg.batchSize = n + sim.draw(3)   # one batch: the order of the samples does not matter
    epochs = sim.int(1, 3)
    sname, sample = sim.choice(SAMPLERS)
    kind = sim.choice(('bernoulli', 'gauss'))
    sim.log('deep', dims, n, kind, sname, epochs)
    trainer = DeepBeliefTrainer(net, ds, epochs=epochs, cfg=cfg, distribution=kind)
    base = trainer.trainerKlass
    left = [None]

    class Klass(base):
        starts = []

        def __init__(self, *args, **kwargs):
            base.__init__(self, *args, **kwargs)
            self.starts.append(np.array(self.invRbm.biasParams))

        def sampler(self, probabilities):
            if left[0] is not None:
                if left[0] == 0:
                    raise Injected('sampler')
                left[0] -= 1
            return sample(probabilities)

    trainer.trainerKlass = Klass

    def forward(v):
        for mm in model:
            v = mm.up(v)
        return v

    def audit(where):
        for i, ((c, b), mm) in enumerate(zip(chain, model)):
            sim.check(close(c.params, mm.W.flatten(), 1e-7) and close(b.params, mm.b, 1e-7), 'deep:weights',
                      lambda: '%s: layer %d has weights %s %s, expected %s %s' % (where, i, short(c.params.tolist()), short(b.params.tolist()), short(mm.W.tolist()), short(mm.b.tolist())))
        v = [sim.float(-1, 1) for _ in range(dims[0])]
        for name, nn in (('network', net), ('copy of the network', net.copy())):
            got = nn.activate(v)
            sim.check(close(got, forward(v), 1e-6), 'deep:output', lambda: '%s: the %s gives %s, expected %s' % (where, name, short(got.tolist()), short(forward(v).tolist())))
        sim.check(close(np.sort(net.params), np.sort(np.concatenate([np.concatenate([mm.W.flatten(), mm.b]) for mm in model])), 1e-7), 'deep:params', lambda: '%s: the parameters of the network are not those of its layers' % where)
        sim.check(close(ds[field], rows), 'deep:data', 'the data was changed')

    audit('before')
    for _ in sim.ops(2, 4):
        op = sim.weighted([(5, 'train'), (1, 'fail'), (1, 'params')])
        if op == 'params':
            p = np.array([sim.float(-1, 1) for _ in range(len(net.params))])
            net.params[:] = p
            model = [Machine(c.params.reshape(c.outdim, c.indim), b.params, np.zeros(c.indim)) for c, b in chain]
            sim.log(op)
            continue
        if op == 'fail':
            left[0] = sim.draw(n * cfg.maxIter * epochs * len(model) + 1)
        Klass.starts = []
        try:
            trainer.train()
            failed = False
        except Injected:
            failed = True
            sim.fault('sampler-raises')
        left[0] = None
        sim.log(op, failed)
        if failed:
            # layers that were not finished are not specified: read them
            model = [Machine(c.params.reshape(c.outdim, c.indim), b.params, np.zeros(c.indim)) for c, b in chain]
            audit('after a failure')
            continue
        data = [np.array(r) for r in rows]
        sim.check(len(Klass.starts) == len(model), 'deep:layers', lambda: '%d machines trained for %d layers' % (len(Klass.starts), len(model)))
        for i, mm in enumerate(model):
            mm.c = Klass.starts[i].copy()
            for _ in range(epochs):
                mm.batch(data, cfg, sample)
            data = [mm.up(v) for v in data]
        audit('after training')
        sim.check(len(trainer.rbms) == len(model) and len(trainer.invRbms) == len(model), 'deep:machines', lambda: '%d machines for %d layers' % (len(trainer.rbms), len(model)))
        for r, inv, mm in zip(trainer.rbms, trainer.invRbms, model):
            sim.check(close(r.params, mm.W.flatten(), 1e-7) and close(inv.biasParams, mm.c, 1e-7) and close(inv.params, mm.W.T.flatten(), 1e-7), 'deep:inverse', 'a machine kept is not the trained one')
        sim.probe('deep')
        sim.state('deep', len(dims), kind, epochs)


def refused(sim):
    from pybrain.datasets.dataset import DataSet
    from pybrain.tools.shortcuts import buildNetwork
    from pybrain.unsupervised.trainers.deepbelief import DeepBeliefTrainer
    for i in range(3):
        ds = DataSet()
        ds.addField('input', 2)
        try:
            DeepBeliefTrainer(buildNetwork(2, 1, bias=True), ds)
            sim.violate('deep:dataset-accepted', 'a dataset of the wrong kind is accepted')
        except ValueError:
            sim.log('refused')
    sim.fault('wrong-dataset')


def run(sim):
    sim.seed_globals()
    kind = sim.weighted([(4, 'machine'), (8, 'training'), (2, 'sampling'), (8, 'deep'), (1, 'refused')])
    {'machine': machine, 'training': training, 'sampling': sampling, 'deep': deep, 'refused': refused}[kind](sim)
