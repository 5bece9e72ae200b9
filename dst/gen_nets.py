"""Random networks, drawn from the tape, built through the public API."""
import numpy as np

FF_LAYERS = ('Linear', 'Sigmoid', 'Tanh', 'Softmax', 'Relu', 'SoftSign', 'Gate', 'DoubleGate', 'Multiplication',
             'Switch')


def layer(sim, kind, dim, name, peepholes=False):
    from pybrain.structure import modules as M
    from pybrain.structure.modules.relulayer import ReluLayer
    from pybrain.structure.modules.softsign import SoftSignLayer
    if kind == 'Linear':
        return M.LinearLayer(dim, name=name)
    if kind == 'Sigmoid':
        return M.SigmoidLayer(dim, name=name)
    if kind == 'Tanh':
        return M.TanhLayer(dim, name=name)
    if kind == 'Softmax':
        return M.SoftmaxLayer(dim, name=name)
    if kind == 'Relu':
        return ReluLayer(dim, name=name)
    if kind == 'SoftSign':
        return SoftSignLayer(dim, name=name)
    if kind == 'Gate':
        return M.GateLayer(dim, name=name)
    if kind == 'DoubleGate':
        return M.DoubleGateLayer(dim, name=name)
    if kind == 'Multiplication':
        return M.MultiplicationLayer(dim, name=name)
    if kind == 'Switch':
        return M.SwitchLayer(dim, name=name)
    if kind == 'LSTM':
        return M.LSTMLayer(dim, peepholes=peepholes, name=name)
    raise ValueError(kind)


class Built(object):
    def __init__(self, net, desc, sequential):
        self.net = net
        self.desc = desc
        self.sequential = sequential


def connect(sim, a, b, name, mothers, allow=('full', 'identity', 'linear', 'fullnotself', 'perm', 'shared', 'sliced'),
            cid=0):
    """a connection from a to b; -> (connection, description)"""
    from pybrain.structure import (FullConnection, IdentityConnection, LinearConnection)
    from pybrain.structure.connections import FullNotSelfConnection, MotherConnection, SharedFullConnection
    from pybrain.structure.connections.permutation import PermutationConnection
    kinds = ['full']
    same = a.outdim == b.indim
    if 'sliced' in allow and (a.outdim > 1 or b.indim > 1):
        kinds.append('sliced')
    if 'shared' in allow:
        kinds.append('shared')
    if same:
        for k in ('identity', 'linear', 'fullnotself'):
            if k in allow:
                kinds.append(k)
        if 'perm' in allow and a.outdim > 1:
            kinds.append('perm')
    kind = sim.choice(kinds)
    if kind == 'full':
        return FullConnection(a, b, name=name), 'full'
    if kind == 'identity':
        return IdentityConnection(a, b, name=name), 'identity'
    if kind == 'linear':
        return LinearConnection(a, b, name=name), 'linear'
    if kind == 'fullnotself':
        return FullNotSelfConnection(a, b, name=name), 'fullnotself'
    if kind == 'perm':
        d = a.outdim
        blocks = [x for x in range(1, d + 1) if d % x == 0]
        bs = sim.choice(blocks)
        perm = sim.shuffled(range(d // bs))
        return PermutationConnection(a, b, perm, bs, name=name), 'perm%s/%d' % (perm, bs)
    if kind == 'shared':
        n = a.outdim * b.indim
        cands = [m for m in mothers if m.paramdim == n]
        if cands and sim.chance(0.7):
            m = cands[sim.draw(len(cands))]
        else:
            m = MotherConnection(n, name='mother%d' % len(mothers))
            mothers.append(m)
        return SharedFullConnection(m, a, b, name=name), 'shared:' + m.name
    # sliced
    i0 = sim.draw(a.outdim)
    i1 = i0 + 1 + sim.draw(a.outdim - i0)
    o0 = sim.draw(b.indim)
    o1 = o0 + 1 + sim.draw(b.indim - o0)
    return FullConnection(a, b, name=name, inSliceFrom=i0, inSliceTo=i1, outSliceFrom=o0, outSliceTo=o1), \
        'sliced[%d:%d>%d:%d]' % (i0, i1, o0, o1)


def network(sim, name, recurrent=None, depth=0, indim=None, outdim=None, conns=None, layers=None, lstm=True,
            forget=None, maxdim=3, prefix='', linear_derivs=True):
    """build a random sorted network"""
    from pybrain.structure import FeedForwardNetwork, RecurrentNetwork, LinearLayer, BiasUnit
    if recurrent is None:
        recurrent = sim.chance(0.5)
    args = {}
    if recurrent:
        if forget is None:
            forget = sim.chance(0.4)
        if forget:
            args['forget'] = True
    net = RecurrentNetwork(name=name, **args) if recurrent else FeedForwardNetwork(name=name)
    conns = conns or ('full', 'identity', 'linear', 'fullnotself', 'perm', 'shared', 'sliced')
    layers = layers or FF_LAYERS
    nin = indim or sim.int(1, maxdim)
    nout = outdim or sim.int(1, maxdim)
    mods = []
    a = LinearLayer(nin, name=prefix + 'in')
    net.addInputModule(a)
    mods.append(a)
    if indim is None and sim.chance(0.15):
        a2 = LinearLayer(sim.int(1, maxdim), name=prefix + 'in2')
        net.addInputModule(a2)
        mods.append(a2)
    desc = []
    nh = sim.draw(4)
    hidden = []
    for h in range(nh):
        nm = '%s%s%d' % (prefix, sim.choice(('h', 'a', 'z')), h)
        opts = ['plain']
        if recurrent and lstm:
            opts.append('lstm')
        if depth > 0:
            opts.append('net')
        o = sim.choice(opts)
        if o == 'plain':
            k = sim.choice(layers)
            m = layer(sim, k, sim.int(1, maxdim), nm)
            desc.append('%s:%s%d' % (nm, k, m.outdim))
        elif o == 'lstm':
            pe = sim.chance(0.5)
            m = layer(sim, 'LSTM', sim.int(1, 2), nm, pe)
            desc.append('%s:LSTM%d%s' % (nm, m.outdim, 'p' if pe else ''))
        else:
            sub = network(sim, nm, recurrent=False, depth=depth - 1, conns=conns, layers=layers, maxdim=maxdim,
                          prefix=nm + '.', linear_derivs=linear_derivs)
            m = sub.net
            desc.append('%s:(%s)' % (nm, sub.desc))
        net.addModule(m)
        hidden.append(m)
    out = layer(sim, sim.choice(('Linear', 'Sigmoid', 'Tanh')), nout, prefix + 'out')
    net.addOutputModule(out)
    if outdim is None and sim.chance(0.12):
        out2 = layer(sim, 'Linear', sim.int(1, maxdim), prefix + 'out2')
        net.addOutputModule(out2)
        outs = [out, out2]
    else:
        outs = [out]
    bias = None
    if sim.chance(0.6):
        bias = BiasUnit(name=prefix + 'bias')
        net.addModule(bias)
    mothers = []
    n = [0]

    def nm():
        n[0] += 1
        return '%sc%d' % (prefix, n[0])

    def link(x, y, rec=False):
        c, d = connect(sim, x, y, nm(), mothers, conns)
        (net.addRecurrentConnection if rec else net.addConnection)(c)
        desc.append('%s%s>%s:%s' % ('R ' if rec else '', x.name, y.name, d))
    chain = mods + hidden + outs
    for i, m in enumerate(hidden):
        srcs = mods + hidden[:i]
        link(sim.choice(srcs), m)
        if sim.chance(0.3):
            link(sim.choice(srcs), m)
    for o in outs:
        srcs = hidden + mods
        link(sim.choice(srcs), o)
        if sim.chance(0.4):
            link(sim.choice(srcs), o)
    if bias is not None:
        for m in hidden + outs:
            if sim.chance(0.6):
                link(bias, m)
    if recurrent:
        for _ in range(sim.draw(3) + (0 if hidden else 0)):
            pool = hidden + outs
            link(sim.choice(pool), sim.choice(pool), True)
    if sim.chance(0.2):
        mods = list(reversed(chain))
    net.sortModules()
    if net.paramdim:
        net._setParameters(np.array([sim.value() if abs(sim.tape.out[-1]) < 0 else sim.float(-1.5, 1.5)
                                     for _ in range(net.paramdim)]))
    return Built(net, ('R' if recurrent else 'F') + ('f' if forget and recurrent else '') + ' ' + ','.join(desc),
                 recurrent)


def sequence(sim, dim, length=None):
    length = length or sim.int(1, 6)
    return [[sim.float(-2, 2) for _ in range(dim)] for _ in range(length)]


def run_sequence(net, seq):
    net.reset()
    return [np.array(net.activate(np.array(x))) for x in seq]


def same_outputs(a, b, tol=1e-9):
    return len(a) == len(b) and all(x.shape == y.shape and np.allclose(x, y, rtol=tol, atol=tol, equal_nan=True)
                                    for x, y in zip(a, b))
