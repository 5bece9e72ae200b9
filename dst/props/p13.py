"""P13: networks compute their definition over any history of activations."""
import copy
import logging
import pickle

import numpy as np

from dst import seams, gen_nets, refnet
from dst.core import short

Faulty = None
ARM = dict(left=None, kind=None, fired=False)


class ModuleFailure(Exception):
    pass


class FaultyLayerBase(object):
    pass


def setup():
    global Faulty, FaultyLayer
    from pybrain.structure.modules.linearlayer import LinearLayer
    import pybrain.structure.networks.bidirectional  # noqa
    import pybrain.structure.networks.multidimensional  # noqa
    import pybrain.structure.networks.custom.capturegame  # noqa
    import pybrain.datasets  # noqa
    import pybrain.tools.shortcuts  # noqa

    class FaultyLayer(LinearLayer):
        """a user-defined module that fails when it is told to"""

        def _forwardImplementation(self, inbuf, outbuf):
            self._strike('forward')
            LinearLayer._forwardImplementation(self, inbuf, outbuf)

        def _backwardImplementation(self, outerr, inerr, outbuf, inbuf):
            self._strike('backward')
            LinearLayer._backwardImplementation(self, outerr, inerr, outbuf, inbuf)

        def _strike(self, what):
            if ARM['left'] is not None and ARM['kind'] == what:
                ARM['left'] -= 1
                if ARM['left'] <= 0:
                    ARM['left'] = None
                    ARM['fired'] = True
                    raise ModuleFailure(what)
    FaultyLayer.__module__ = __name__
    FaultyLayer.__qualname__ = 'FaultyLayer'
    Faulty = FaultyLayer


def layers(grad):
    out = ['Linear', 'Sigmoid', 'Tanh', 'SoftSign', 'Gate', 'DoubleGate', 'Multiplication', 'Switch', 'Relu']
    if not grad:
        out.append('Softmax')
    return out


def architecture(sim, grad):
    """-> (network, description)"""
    kind = sim.weighted([(10, 'random'), (2, 'shortcut'), (1, 'bidirectional'), (1, 'multidimensional'), (1, 'capture')])
    if kind == 'random':
        orig = gen_nets.layer

        def layer(sim_, k, dim, name, peepholes=False):
            if k == 'Linear' and sim_.chance(0.6):
                return Faulty(dim, name=name)
            return orig(sim_, k, dim, name, peepholes)
        gen_nets.layer = layer
        try:
            conns = ('full', 'identity', 'linear', 'fullnotself', 'perm', 'shared', 'sliced')
            b = gen_nets.network(sim, 'net', recurrent=sim.chance(0.8), depth=sim.choice((0, 0, 1)), layers=layers(grad), conns=conns)
        finally:
            gen_nets.layer = orig
        return b.net, b.desc
    if kind == 'shortcut':
        from pybrain.tools.shortcuts import buildNetwork
        from pybrain.structure import modules as M
        dims = [sim.int(1, 3) for _ in range(sim.int(2, 4))]
        kw = dict(bias=sim.chance(0.6), outputbias=sim.chance(0.6), recurrent=sim.chance(0.6),
                  hiddenclass=sim.choice((M.SigmoidLayer, M.TanhLayer, M.LSTMLayer)),
                  outclass=sim.choice((M.LinearLayer, M.SigmoidLayer)))
        if kw['hiddenclass'] is M.LSTMLayer:
            dims = dims[:3]         # more hidden LSTM layers are not supported
            kw['peepholes'] = sim.chance(0.5)
        net = buildNetwork(*dims, **kw)
        ARCH['shortcut'] = (dims, kw)
        return net, 'buildNetwork%s %s' % (dims, sorted((k, getattr(v, '__name__', v)) for k, v in kw.items()))
    if kind == 'bidirectional':
        from pybrain.structure.networks.bidirectional import BidirectionalNetwork
        kw = dict(seqlen=sim.int(2, 3), inputsize=sim.int(1, 2), outputsize=sim.int(1, 2), hiddensize=sim.int(1, 2), symmetric=sim.chance(0.5))
        return BidirectionalNetwork(**kw), 'Bidirectional %s' % sorted(kw.items())
    if kind == 'multidimensional':
        from pybrain.structure.networks.multidimensional import MultiDimensionalRNN, MultiDimensionalLSTM
        c = sim.choice((MultiDimensionalRNN, MultiDimensionalLSTM))
        kw = dict(hsize=sim.int(1, 2), symmetricdirections=sim.chance(0.5), symmetricdimensions=sim.chance(0.5))
        if c is MultiDimensionalLSTM:
            kw['peepholes'] = sim.chance(0.5)
        return c((2, 2), **kw), '%s %s' % (c.__name__, sorted(kw.items()))
    from pybrain.structure.networks.custom.capturegame import CaptureGameNetwork
    kw = dict(size=2, hsize=1, simpleborders=sim.chance(0.5))
    return CaptureGameNetwork(**kw), 'CaptureGame %s' % sorted(kw.items())


ARCH = {}


def give(sim, x):
    """an input in one of the forms users pass"""
    k = sim.draw(4)
    if k == 0:
        return np.array(x)
    if k == 1:
        return list(x)
    if k == 2:
        return tuple(x)
    return np.array(x + [0.0])[:len(x)]


def close(a, b, tol=1e-8):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (1 + np.abs(b))))


class Model(object):
    """what a network should do next"""

    def __init__(self, net):
        self.net = net
        self.ref = refnet.RefNet(net)
        self.forget = bool(getattr(net, 'forget', False))
        self.seq = hasattr(net, 'recurrentConns')
        self.xs = []         # inputs since the last reset
        self.P = []          # parameters at each of these steps: only usable for gradients if constant
        self.pending = 0
        self.broken = False


def run(sim):
    sim.seed_globals()
    np.seterr(all='ignore')
    logging.disable(logging.CRITICAL)
    ARM.update(left=None, kind=None, fired=False)
    ARCH.clear()
    grad = sim.chance(0.6)
    net, desc = architecture(sim, grad)
    if sim.chance(0.1):
        net.name = 'n'
    if not desc.startswith(('R', 'F')) and net.paramdim:
        net._setParameters(np.array([sim.float(-1.5, 1.5) for _ in range(net.paramdim)]))
    sim.log('net', desc)
    sim.check(net.indim == sum(m.indim for m in net.inmodules) and net.outdim == sum(m.outdim for m in net.outmodules),
              'wrong-dimension', lambda: '%d -> %d' % (net.indim, net.outdim))
    if 'shortcut' in ARCH:
        dims, kw = ARCH['shortcut']
        sim.check((net.indim, net.outdim) == (dims[0], dims[-1]), 'wrong-dimension', 'buildNetwork dimensions')
        shortcut_structure(sim, net, dims, kw)
    m = Model(net)
    models = [m]
    for _ in sim.ops(8, 24):
        m = models[sim.draw(len(models))] if len(models) > 1 else models[0]
        step(sim, m, models, grad)
        if sim.chance(0.08):
            step_long(sim, m)
    # every network still does what it should, from a fresh start
    for m in models:
        m.net.reset()
        m.ref.reset()
        m.xs, m.pending, m.broken = [], 0, False
        for _ in range(2):
            activate(sim, m)
    sim.probe('runs')


def shortcut_structure(sim, net, dims, kw):
    """buildNetwork: chain of layers of the given sizes and classes with the requested biases"""
    from pybrain.structure.modules.biasunit import BiasUnit
    lay = [x for x in net.modules if not isinstance(x, BiasUnit)]
    sim.check(sorted(x.outdim for x in lay) == sorted(dims), 'wrong-structure', lambda: 'layers %s' % [x.outdim for x in lay])
    sim.check(len(net.modules) - len(lay) == (1 if kw['bias'] else 0), 'wrong-structure', 'bias unit')
    hidden = [x for x in lay if x not in net.inmodules and x not in net.outmodules]
    sim.check(all(type(x) is kw['hiddenclass'] for x in hidden), 'wrong-structure', 'hidden layer class')
    sim.check(all(type(x) is kw['outclass'] for x in net.outmodules), 'wrong-structure', 'output layer class')
    cons = [(c.inmod, c.outmod) for cs in net.connections.values() for c in cs]
    chain = [(a.name, b.name) for a, b in cons if not isinstance(a, BiasUnit)]
    sim.check(len(chain) == len(dims) - 1 and len(set(a for a, _ in chain)) == len(chain), 'wrong-structure', lambda: 'connections %s' % chain)
    biased = [b.name for a, b in cons if isinstance(a, BiasUnit)]
    want = []
    if kw['bias']:
        want = [h.name for h in hidden]
        if kw['outputbias']:
            want += [o.name for o in net.outmodules]
    sim.check(sorted(biased) == sorted(want), 'wrong-structure', lambda: 'bias connections to %s, expected %s' % (biased, want))


def activate(sim, m, x=None):
    x = x or [sim.float(-2, 2) for _ in range(m.ref.indim)]
    given = give(sim, x)
    P = m.ref.read()
    if not m.seq:
        m.ref.reset()
    y = m.net.activate(given)
    want = m.ref.step(x, P)
    sim.log('activate', ' '.join('%.6g' % t for t in x), '->', ' '.join('%.6g' % t for t in y))
    top = max([0.0] + [abs(t) for v in m.ref.prev.values() for t in v])
    if not top < 1e6:
        sim.log('diverged')
        reset(m)
        return
    sim.check(close(y, want), 'wrong-output', lambda: 'step %d since reset: %s instead of %s' % (len(m.xs) + 1, short(list(y)), short(want)))
    sim.check(list(np.asarray(given, float)) == x, 'input-modified', lambda: '%s became %s' % (x, list(given)))
    # neither the result nor the input are the network's own memory
    y[:] = 77.0
    if not isinstance(given, tuple):
        for i in range(len(given)):
            given[i] = -33.0
    if m.seq:
        m.xs.append(x)
    else:
        m.xs = [x]
    m.P.append(P)
    m.pending = len(m.xs)


def reset(m):
    m.net.reset()
    m.ref.reset()
    m.xs, m.P, m.pending, m.broken = [], [], 0, False


def step_long(sim, m):
    if not m.seq or m.broken:
        return
    if m.pending != len(m.xs):
        reset(m)
    for _ in range(sim.int(3, 20)):
        activate(sim, m)
    sim.probe('long')


def step(sim, m, models, grad):
    net, ref = m.net, m.ref
    op = sim.weighted([(12, 'activate'), (4, 'reset'), (4, 'bptt'), (4, 'fail'), (2, 'interrupt'), (2, 'params'),
                       (2, 'pickle'), (1, 'copy'), (2, 'dataset'), (1, 'extend'), (1, 'wronginput'), (1, 'outofmemory')])
    if m.broken and op not in ('reset', 'dataset', 'pickle'):
        # after a failure: reset (or a dataset, or for feed-forward networks nothing)
        if m.seq or op not in ('activate',):
            op = 'reset'
    if m.pending != len(m.xs) and op in ('activate', 'fail', 'interrupt', 'outofmemory', 'wronginput') and m.seq:
        # a sequence that was propagated back is over
        reset(m)
    if op == 'activate':
        m.broken = False
        activate(sim, m)
        sim.state('a', m.seq, m.forget, min(len(m.xs), 9))
    elif op == 'reset':
        reset(m)
        sim.log('reset')
    elif op == 'params':
        if net.paramdim:
            how = sim.draw(3)
            new = [sim.float(-1.5, 1.5) for _ in range(net.paramdim)]
            if how == 0:
                net._setParameters(np.array(new))
            elif how == 1:
                net.params[:] = new
            else:
                net.mutate()
                new = None
            m.P.append(None)
            sim.log('params')
            if new is not None:
                sim.check(close(net.params, new), 'wrong-params', 'parameters are not those that were set')
    elif op == 'bptt':
        bptt(sim, m, grad)
    elif op == 'fail':
        fail(sim, m)
    elif op in ('interrupt', 'outofmemory'):
        interrupt(sim, m, op)
    elif op == 'pickle' and len(models) < 3:
        n2 = pickle.loads(pickle.dumps(net))
        m2 = clone(m, n2)
        sim.log('pickle')
        sim.check(list(n2.params) == list(net.params) if net.paramdim else True, 'wrong-params', 'unpickled parameters differ')
        models.append(m2)
    elif op == 'copy' and len(models) < 3:
        if m.broken:
            reset(m)
        if sim.chance(0.5):
            n2 = net.copy(keepBuffers=True)
            m2 = clone(m, n2)
        else:
            n2 = net.copy()
            # the copy has no history, and neither has the original
            m2 = Model(n2)
            reset(m)
            n2.reset()
        sim.log('copy')
        sim.check(list(n2.params) == list(net.params) if net.paramdim else True, 'wrong-params', 'copied parameters differ')
        models.append(m2)
    elif op == 'dataset':
        from pybrain.datasets import SequentialDataSet, SupervisedDataSet
        ds = SupervisedDataSet(ref.indim, ref.outdim)
        xs = [[sim.float(-2, 2) for _ in range(ref.indim)] for _ in range(sim.int(1, 6))]
        for x in xs:
            ds.addSample(x, [0.0] * ref.outdim)
        P = ref.read()
        out = net.activateOnDataset(ds)
        ref.reset()
        want = []
        top = 0.0
        for x in xs:
            if not m.seq:
                ref.reset()
            want.append(ref.step(x, P))
            top = max([top] + [abs(t) for v in ref.prev.values() for t in v])
        sim.log('dataset', len(xs))
        sim.check(top > 1e6 or close(out, np.array(want).reshape(len(xs), ref.outdim)), 'wrong-output', lambda: 'activateOnDataset %s instead of %s' % (short(out), short(want)))
        ref.reset()
        m.xs, m.P, m.pending, m.broken = [], [], 0, False
    elif op == 'extend' and len(models) == 1 and not net.motherconnections:
        extend(sim, m)
    elif op == 'wronginput':
        x = [sim.float(-1, 1) for _ in range(ref.indim + sim.int(1, 2))]
        try:
            net.activate(x)
        except (ValueError, AssertionError, IndexError, TypeError):
            sim.log('refused')
            if not m.seq:
                m.xs, m.pending = [], 0
        else:
            sim.violate('wrong-input-accepted', '%d values for %d inputs' % (len(x), ref.indim))


def clone(m, n2):
    m2 = Model(n2)
    m2.xs, m2.P, m2.pending, m2.broken = list(m.xs), list(m.P), m.pending, m.broken
    by = {a.name: a for a in n2.modules}
    prev, state = m.ref.snapshot()
    m2.ref.restore((None if prev is None else {by[k.name]: list(v) for k, v in prev.items()},
                    {by[k.name]: list(v) for k, v in state.items()}))
    return m2


def bptt(sim, m, grad):
    net, ref = m.net, m.ref
    if not grad or m.forget or m.broken:
        return
    if m.pending != len(m.xs) or len(m.xs) > 6 or any(p is None for p in m.P) or not m.xs:
        reset(m)
        for _ in range(sim.int(1, 4) if m.seq else 1):
            activate(sim, m)
    if 'CaptureGame' in str(type(net)) or 'MultiDim' in str(type(net)):
        if not sim.chance(0.3):
            return
    errs = [[sim.float(-1, 1) for _ in range(ref.outdim)] for _ in m.xs]
    if sim.chance(0.3) and len(errs) > 1:
        errs[sim.draw(len(errs))] = [0.0] * ref.outdim
    fresh = sim.chance(0.7) or not net.paramdim
    before = {}
    if net.paramdim:
        if fresh:
            net.resetDerivatives()
        before = {id(h): [float(t) for t in h.derivs] for h in ref.holders()}
        if fresh:
            sim.check(all(t == 0 for b in before.values() for t in b), 'wrong-gradient', 'derivatives after resetDerivatives are not zero')
    got = [None] * len(errs)
    for t in reversed(range(len(errs))):
        e = np.array(errs[t])
        got[t] = np.array(net.backActivate(e))
    m.pending = 0
    saved = ref.snapshot()
    ref.kinks = float('inf')
    P = ref.read()
    G, X = refnet.gradient(ref, m.xs, errs, P)
    ref.restore(saved)
    sim.log('bptt', len(errs), 'steps')
    if ref.kinks < 1e-3:
        sim.probe('kink')
        return
    sim.probe('gradients')
    for t in range(len(errs)):
        sim.check(close(got[t], X[t], 1e-5), 'wrong-input-error', lambda: 'step %d of %d: %s instead of %s' % (t + 1, len(errs), short(list(got[t])), short(X[t])))
    for h in ref.holders():
        d = [float(a) - b for a, b in zip(h.derivs, before[id(h)])]
        sim.check(close(d, G[id(h)], 1e-5), 'wrong-gradient', lambda: '%s: %s instead of %s' % (h, short(d), short(G[id(h)])))
    # the array of the network holds the same derivatives as its parts
    if net.paramdim:
        sim.check(abs(sum(net.derivs) - sum(sum(h.derivs) for h in ref.holders())) < 1e-6 * (1 + abs(sum(net.derivs))), 'wrong-gradient',
                  'derivatives of the network are not those of its parts')
    sim.state('g', m.seq, len(errs), fresh)


def fail(sim, m):
    """a module fails in the middle of an activation (or back-propagation)"""
    net, ref = m.net, m.ref
    if not any(isinstance(x, Faulty) for x in net.modules):
        return
    back = sim.chance(0.3) and not m.forget and m.xs and m.pending == len(m.xs)
    ARM.update(left=sim.int(1, 2), kind='backward' if back else 'forward', fired=False)
    try:
        if back:
            for t in range(len(m.xs)):
                net.backActivate([sim.float(-1, 1) for _ in range(ref.outdim)])
            m.pending = 0
        else:
            x = [sim.float(-2, 2) for _ in range(ref.indim)]
            if not m.seq:
                ref.reset()
            net.activate(x)
            ref.step(x, ref.read())
            m.xs.append(x)
            if not m.seq:
                m.xs = [x]
            m.P.append(ref.read())
            m.pending = len(m.xs)
        sim.check(not ARM['fired'], 'failure-hidden', 'the failure of a module was not reported')
    except ModuleFailure:
        sim.fault('module-fails-in-' + ('backward' if back else 'forward'))
        sim.log('failed')
        m.broken = True
    finally:
        ARM.update(left=None)


def interrupt(sim, m, op):
    net, ref = m.net, m.ref
    x = [sim.float(-2, 2) for _ in range(ref.indim)]
    exc = KeyboardInterrupt if op == 'interrupt' else MemoryError
    it = seams.Interrupter(sim, sim.int(1, sim.choice((20, 60, 250, 800))), exc)
    what = sim.choice(('activate', 'activate', 'reset', 'activate'))
    try:
        with it:
            if what == 'reset':
                net.reset()
            else:
                net.activate(np.array(x))
    except (KeyboardInterrupt, MemoryError):
        sim.log('interrupted', what)
        m.broken = True
        return
    if what == 'reset':
        ref.reset()
        m.xs, m.P, m.pending = [], [], 0
    else:
        if not m.seq:
            ref.reset()
            m.xs = []
        P = ref.read()
        ref.step(x, P)
        m.xs.append(x)
        m.P.append(P)
        m.pending = len(m.xs)


def extend(sim, m):
    """a network is changed after it was used: the rest keeps its parameters"""
    from pybrain.structure import FullConnection
    net = m.net
    old = {id(h): list(h.params) for h in m.ref.holders()}
    mods = [x for x in net.modules if x.indim and x not in net.inmodules and not hasattr(x, 'modulesSorted')]
    src = sim.choice(sorted(net.inmodules, key=lambda x: x.name))
    dst = sim.choice(sorted(mods, key=lambda x: x.name))
    c = FullConnection(src, dst, name='extra%d' % sim.draw(100))
    if m.seq and sim.chance(0.5):
        c = FullConnection(dst, dst, name='rextra%d' % sim.draw(100))
        net.addRecurrentConnection(c)
    else:
        net.addConnection(c)
    own = list(c.params)
    if sim.chance(0.3):
        try:
            with seams.Interrupter(sim, sim.int(1, sim.choice((30, 200, 600))), sim.choice((KeyboardInterrupt, MemoryError))):
                net.sortModules()
        except (KeyboardInterrupt, MemoryError):
            sim.log('interrupted sorting')
    net.sortModules()
    sim.log('extend', src.name, dst.name)
    m.ref = refnet.RefNet(net)
    for h in m.ref.holders():
        want = old.get(id(h), own)
        sim.check(list(h.params) == list(want), 'wrong-params', lambda: 'parameters of %s changed when the network was extended' % h)
    reset(m)
