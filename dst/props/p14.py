"""P14: parameters of a network and of its parts are one, those of copies are their own."""
import copy
import logging
import pickle

import numpy as np

from dst import seams, gen_nets, refnet
from dst.core import short


def setup():
    import pybrain.structure.evolvables.cheaplycopiable  # noqa
    import pybrain.structure.evolvables.maskedmodule  # noqa
    import pybrain.structure.networks.neurondecomposable  # noqa
    import pybrain.structure.networks.bidirectional  # noqa
    import pybrain.structure.networks.multidimensional  # noqa
    import pybrain.tools.shortcuts  # noqa


def layout(net, ref):
    """[(holder, [index in the vector of the network])], read by writing distinguishable values"""
    old = np.array(net.params)
    net.params[:] = np.arange(len(old))
    out = [(h, [int(round(float(t))) for t in h.params]) for h in ref.holders()]
    net.params[:] = old
    return out


class World(object):
    """one network and what its parameters and derivatives should be"""

    def __init__(self, net):
        self.net = net
        self.ref = refnet.RefNet(net)
        self.n = net.paramdim
        self.values = [float(t) for t in net.params] if self.n else []
        self.derivs = [float(t) for t in net.derivs] if self.n else []
        self.layout = layout(net, self.ref) if self.n else []

    def P(self, values=None):
        v = self.values if values is None else values
        return {id(h): [v[i] for i in idx] for h, idx in self.layout}

    def verify(self, sim, what):
        net = self.net
        sim.check(net.paramdim == self.n and len(net) == self.n, 'wrong-dimension', lambda: '%s: %s parameters instead of %d' % (what, net.paramdim, self.n))
        if not self.n:
            return
        sim.check(list(map(float, net.params)) == self.values, 'wrong-params',
                  lambda: '%s: network has %s instead of %s' % (what, short(list(net.params)), short(self.values)))
        sim.check(list(map(float, net.derivs)) == self.derivs, 'wrong-derivs',
                  lambda: '%s: network has derivatives %s instead of %s' % (what, short(list(net.derivs)), short(self.derivs)))
        for h, idx in self.layout:
            sim.check(list(map(float, h.params)) == [self.values[i] for i in idx], 'part-differs',
                      lambda: '%s: %s has %s instead of %s' % (what, h, short(list(h.params)), short([self.values[i] for i in idx])))
            sim.check(list(map(float, h.derivs)) == [self.derivs[i] for i in idx], 'part-derivs-differ',
                      lambda: '%s: %s has derivatives %s instead of %s' % (what, h, short(list(h.derivs)), short([self.derivs[i] for i in idx])))
        # nested networks show the parameters of their parts
        for m, sub in self.ref.subs.items():
            own = sorted(i for h, idx in self.layout if any(h is x for x in sub.holders()) for i in idx)
            if own:
                sim.check(sorted(map(float, m.params)) == sorted(self.values[i] for i in own), 'part-differs',
                          lambda: '%s: nested network %s has %s' % (what, m.name, short(list(m.params))))

    def outputs(self, sim, what):
        self.net.reset()
        self.ref.reset()
        for _ in range(2):
            x = [sim.float(-2, 2) for _ in range(self.ref.indim)]
            if not hasattr(self.net, 'recurrentConns'):
                self.ref.reset()
            y = self.net.activate(np.array(x))
            want = self.ref.step(x, self.P())
            sim.check(close(y, want), 'wrong-output', lambda: '%s: %s instead of %s' % (what, short(list(y)), short(want)))
        self.net.reset()


def close(a, b, tol=1e-7):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape == b.shape and not np.all(np.abs(b) < 1e6):
        return True
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (1 + np.abs(b))))


def vector(sim, n):
    return [sim.float(-1.5, 1.5) for _ in range(n)]


def build(sim):
    kind = sim.weighted([(8, 'random'), (1, 'bidirectional'), (1, 'multidimensional')])
    if kind == 'bidirectional':
        from pybrain.structure.networks.bidirectional import BidirectionalNetwork
        kw = dict(seqlen=2, hiddensize=2, symmetric=sim.chance(0.5))
        return BidirectionalNetwork(**kw), 'Bidirectional %s' % sorted(kw.items())
    if kind == 'multidimensional':
        from pybrain.structure.networks.multidimensional import MultiDimensionalRNN, MultiDimensionalLSTM
        c = sim.choice((MultiDimensionalRNN, MultiDimensionalLSTM))
        kw = dict(hsize=1, symmetricdirections=sim.chance(0.5), symmetricdimensions=sim.chance(0.5))
        if c is MultiDimensionalLSTM:
            kw['peepholes'] = sim.chance(0.5)
        return c((2, 2), **kw), '%s %s' % (c.__name__, sorted(kw.items()))
    b = gen_nets.network(sim, 'net', depth=sim.choice((0, 1, 2)))
    return b.net, b.desc


def networks(sim):
    net, desc = build(sim)
    sim.log('net', desc)
    worlds = [World(net)]
    if not worlds[0].n:
        return
    for _ in sim.ops(9, 24):
        w = worlds[sim.draw(len(worlds))] if len(worlds) > 1 else worlds[0]
        op = sim.weighted([(4, 'set'), (4, 'item'), (4, 'partitem'), (2, 'mutate'), (2, 'randomize'), (2, 'refused'), (2, 'derivs'),
                           (3, 'copy'), (2, 'wrongsize'), (2, 'interrupted'), (2, 'sort'), (1, 'similar'), (1, 'drop')])
        act(sim, op, w, worlds)
        sim.log(op)
        sim.state(op, desc[0], len(worlds))
        for x in worlds:
            x.verify(sim, op)
        if sim.chance(0.15):
            w.outputs(sim, op)
    for w in worlds:
        w.outputs(sim, 'at the end')
        w.verify(sim, 'at the end')


def readback(sim, w):
    """accept the values the network reports (they were drawn by the library)"""
    w.values = [float(t) for t in w.net.params]


def act(sim, op, w, worlds):
    net = w.net
    if op == 'set':
        v = vector(sim, w.n)
        net._setParameters(np.array(v) if sim.chance(0.7) else list(v))
        w.values = v
    elif op == 'item':
        i, t = sim.draw(w.n), sim.float(-1, 1)
        net.params[i] = t
        w.values[i] = t
    elif op == 'partitem':
        h, idx = sim.choice(w.layout)
        i, t = sim.draw(len(idx)), sim.float(-1, 1)
        how = sim.draw(2)
        if how:
            h.params[i] = t
            w.values[idx[i]] = t
        else:
            h.params[:] = [t] * len(idx)
            for j in idx:
                w.values[j] = t
    elif op == 'mutate':
        if sim.chance(0.3):
            h, idx = sim.choice(w.layout)
            h.mutate()
            new = [float(t) for t in h.params]
            for j, t in zip(idx, new):
                w.values[j] = t
        else:
            net.mutate()
            new = [float(t) for t in net.params]
            sim.check(new != w.values, 'nothing-mutated', 'mutate changed no parameter')
            w.values = new
    elif op == 'randomize':
        net.randomize()
        w.derivs = [0.0] * w.n
        readback(sim, w)
    elif op == 'refused':
        # only the owner may replace the parameter array of a part
        h, idx = sim.choice(w.layout)
        if h is net:
            return
        try:
            h._setParameters(np.array(vector(sim, len(idx))))
        except Exception:
            sim.probe('refused')
        else:
            sim.violate('ownership', 'the parameters of %s were replaced without its network' % h)
    elif op == 'wrongsize':
        k = sim.choice([x for x in (0, 1, w.n - 1, w.n + 1, w.n + 3) if x >= 0 and x != w.n])
        try:
            net._setParameters(np.array(vector(sim, k)))
        except Exception:
            sim.probe('refused')
        else:
            sim.violate('wrong-size-accepted', '%d values for %d parameters' % (k, w.n))
    elif op == 'derivs':
        how = sim.draw(3)
        if how == 0:
            net.resetDerivatives()
            w.derivs = [0.0] * w.n
        elif how == 1:
            i, t = sim.draw(w.n), sim.float(-1, 1)
            net.derivs[i] = t
            w.derivs[i] = t
        else:
            h, idx = sim.choice(w.layout)
            i, t = sim.draw(len(idx)), sim.float(-1, 1)
            h.derivs[i] = t
            w.derivs[idx[i]] = t
    elif op == 'copy' and len(worlds) < 4:
        how = sim.choice(('copy', 'keep', 'deepcopy', 'pickle'))
        if how == 'copy':
            n2 = net.copy()
        elif how == 'keep':
            n2 = net.copy(keepBuffers=True)
        elif how == 'deepcopy':
            n2 = copy.deepcopy(net)
        else:
            n2 = pickle.loads(pickle.dumps(net, sim.choice((0, 2, 4))))
        w2 = World(n2)
        sim.check(w2.values == w.values, 'copy-differs', lambda: '%s has %s instead of %s' % (how, short(w2.values), short(w.values)))
        sim.check(w2.derivs == w.derivs, 'copy-derivs-differ', lambda: '%s has derivatives %s instead of %s' % (how, short(w2.derivs), short(w.derivs)))
        sim.probe(how)
        worlds.append(w2)
    elif op == 'similar' and len(worlds) < 4:
        n2 = net.newSimilarInstance()
        worlds.append(World(n2))
    elif op == 'interrupted':
        # setting parameters is cut off: setting them again brings everything in order
        v = vector(sim, w.n)
        what = sim.choice(('set', 'copy', 'pickle'))
        try:
            with seams.Interrupter(sim, sim.int(1, sim.choice((10, 60, 300))), sim.choice((KeyboardInterrupt, MemoryError))):
                if what == 'set':
                    net._setParameters(np.array(v))
                elif what == 'copy':
                    net.copy()
                else:
                    pickle.loads(pickle.dumps(net))
        except (KeyboardInterrupt, MemoryError):
            pass
        if what == 'set':
            net._setParameters(np.array(v))
            w.values = v
    elif op == 'sort':
        net.sorted = False
        if sim.chance(0.3):
            try:
                with seams.Interrupter(sim, sim.int(1, sim.choice((30, 200, 600))), sim.choice((KeyboardInterrupt, MemoryError))):
                    net.sortModules()
            except (KeyboardInterrupt, MemoryError):
                pass
        net.sortModules()
        sim.check(net.paramdim == w.n, 'wrong-dimension', 'after sorting again')
        # the order of the parts may change, derivatives may be kept or cleared; the values of every part are kept
        new = layout(net, w.ref)
        values = [None] * w.n
        for h, idx in new:
            was = [old for g, old in w.layout if g is h][0]
            for i, j in zip(was, idx):
                values[j] = w.values[i]
        w.layout, w.values = new, values
        w.derivs = [float(t) for t in net.derivs]
    elif op == 'drop' and len(worlds) > 1:
        worlds.remove(w)


# --- containers that share the structure of a module ---------------------------

class Ind(object):
    def __init__(self, ev, values, mask=None):
        self.ev = ev
        self.values = list(values)       # all parameters, enabled or not
        self.mask = None if mask is None else list(mask)

    def effective(self):
        if self.mask is None:
            return self.values
        return [v if m else 0.0 for v, m in zip(self.values, self.mask)]

    def shown(self):
        if self.mask is None:
            return self.values
        if self.ev.returnZeros:
            return self.effective()
        return [v for v, m in zip(self.values, self.mask) if m]


def evolvables(sim):
    from pybrain.structure.evolvables.cheaplycopiable import CheaplyCopiable
    from pybrain.structure.evolvables.maskedmodule import MaskedModule
    b = gen_nets.network(sim, 'net', recurrent=False, maxdim=2)
    net = b.net
    if not net.paramdim:
        return
    w = World(net)
    kind = sim.choice(('cheap', 'masked'))
    sim.log(kind, b.desc)
    maxc = None
    if kind == 'cheap':
        ev = CheaplyCopiable(net)
        pop = [Ind(ev, [float(t) for t in ev.params])]
        sim.check(pop[0].values == w.values, 'wrong-params', 'a cheaply copiable module starts with other parameters')
    else:
        kw = {}
        if sim.chance(0.4):
            kw['returnZeros'] = True
        if sim.chance(0.4):
            maxc = sim.int(1, w.n)
            kw['maxComplexity'] = maxc
        if sim.chance(0.3):
            kw['maskOnProbability'] = sim.choice((0.0, 1.0))
        ev = MaskedModule(net, **kw)
        ev.maskFlipProbability = sim.choice((0.05, 0.5))
        pop = [Ind(ev, [float(t) for t in ev.maskableParams], [bool(t) for t in ev.mask])]
        sim.check(pop[0].values == w.values, 'wrong-params', 'a masked module starts with other parameters')
    for _ in sim.ops(10, 26):
        d = pop[sim.draw(len(pop))] if len(pop) > 1 else pop[0]
        op = sim.weighted([(4, 'activate'), (3, 'mutate'), (3, 'copy'), (3, 'set'), (2, 'randomize'), (2, 'roundtrip'), (2, 'topology'),
                           (1, 'interrupted-copy'), (1, 'similar'), (1, 'base'), (1, 'derivs')])
        ev = d.ev
        sim.log(op)
        if op == 'activate':
            x = [sim.float(-2, 2) for _ in range(w.ref.indim)]
            how = sim.draw(2)
            w.ref.reset()
            want = w.ref.step(x, w.P(d.effective()))
            if how and kind == 'masked':
                from pybrain.datasets import SupervisedDataSet
                ds = SupervisedDataSet(w.ref.indim, w.ref.outdim)
                ds.addSample(x, [0.0] * w.ref.outdim)
                y = ev.activateOnDataset(ds)[0]
            else:
                ev.reset()
                y = ev.activate(np.array(x))
            sim.check(close(y, want), 'wrong-output', lambda: '%s instead of %s' % (short(list(y)), short(want)))
        elif op == 'derivs':
            x = [sim.float(-2, 2) for _ in range(w.ref.indim)]
            e = [sim.float(-1, 1) for _ in range(w.ref.outdim)]
            if any(type(m).__name__ in ('SoftmaxLayer', 'ReluLayer') for s in [w.ref] + list(w.ref.subs.values()) for m in s.mods):
                continue
            ev.reset()
            ev.activate(np.array(x))
            net.resetDerivatives()
            got = np.array(ev.backActivate(np.array(e)))
            G, X = refnet.gradient(w.ref, [x], [e], w.P(d.effective()))
            sim.check(close(got, X[0], 1e-5), 'wrong-input-error', lambda: '%s instead of %s' % (short(list(got)), short(X[0])))
        elif op == 'mutate':
            ev.mutate()
            new = [float(t) for t in (ev.params if kind == 'cheap' else ev.maskableParams)]
            sim.check(new != d.values, 'nothing-mutated', 'mutate changed no parameter')
            d.values = new
        elif op == 'randomize':
            ev.randomize()
            d.values = [float(t) for t in (ev.params if kind == 'cheap' else ev.maskableParams)]
            if kind == 'masked':
                d.mask = [bool(t) for t in ev.mask]
        elif op in ('copy', 'similar') and len(pop) < 4:
            e2 = ev.copy() if op == 'copy' else ev.newSimilarInstance()
            d2 = Ind(e2, [float(t) for t in (e2.params if kind == 'cheap' else e2.maskableParams)],
                     None if kind == 'cheap' else [bool(t) for t in e2.mask])
            if op == 'copy':
                sim.check((d2.values, d2.mask) == (d.values, d.mask), 'copy-differs', lambda: '%s instead of %s' % (short(d2.values), short(d.values)))
            pop.append(d2)
        elif op == 'interrupted-copy':
            try:
                with seams.Interrupter(sim, sim.int(1, 12), sim.choice((KeyboardInterrupt, MemoryError))):
                    ev.copy()
            except (KeyboardInterrupt, MemoryError):
                pass
        elif op == 'set':
            n = len(d.shown())
            v = vector(sim, n)
            ev._setParameters(np.array(v))
            if d.mask is None:
                d.values = v
            elif ev.returnZeros:
                d.values = [t if m else o for t, m, o in zip(v, d.mask, d.values)]
            else:
                it = iter(v)
                d.values = [next(it) if m else o for m, o in zip(d.mask, d.values)]
        elif op == 'roundtrip':
            before = [float(t) for t in ev.params]
            ev._setParameters(np.array(before))
        elif op == 'topology' and kind == 'masked':
            ev.topologyMutate()
            d.mask = [bool(t) for t in ev.mask]
            sim.check(1 <= sum(d.mask) <= (maxc or w.n), 'wrong-mask', lambda: '%d of at most %s parameters are enabled' % (sum(d.mask), maxc))
        elif op == 'base' and kind == 'cheap':
            got = [float(t) for t in ev.getBase().params]
            sim.check(got == d.values, 'wrong-params', 'the base module has other parameters')
        for i, x in enumerate(pop):
            got = [float(t) for t in x.ev.params]
            sim.check(got == x.shown(), 'wrong-params', lambda: '%s of individual %d: %s instead of %s' % (op, i, short(got), short(x.shown())))
            sim.check(x.ev.paramdim == len(x.shown()), 'wrong-dimension', lambda: '%d parameters instead of %d' % (x.ev.paramdim, len(x.shown())))
            if x.mask is not None:
                sim.check([float(t) for t in x.ev.maskableParams] == x.values and [bool(t) for t in x.ev.mask] == x.mask, 'wrong-mask',
                          lambda: 'mask or hidden values of individual %d changed' % i)
                sim.check(1 <= sum(x.mask) and (op in ('copy', 'set') or sum(x.mask) <= (maxc or w.n)), 'wrong-mask', lambda: '%d enabled' % sum(x.mask))
                sim.check(x.ev.pcontainer is net, 'wrong-container', 'the container of a masked module is lost')
        sim.state(kind, op, len(pop))


# --- decomposition by neuron ------------------------------------------------------

def decomposable(sim):
    from pybrain.structure.networks.neurondecomposable import NeuronDecomposableNetwork
    b = gen_nets.network(sim, 'net', conns=('full', 'sliced'), layers=('Linear', 'Sigmoid', 'Tanh'), depth=0)
    if not b.net.paramdim:
        return
    NeuronDecomposableNetwork.espStyleDecomposition = True
    sim.log('decomposable', b.desc)
    old = World(b.net)
    net = NeuronDecomposableNetwork.convertNormalNetwork(b.net)
    net.espStyleDecomposition = True
    w = World(net)
    sim.check(sorted(w.values) == sorted(old.values), 'wrong-params', 'converted network has other parameters')
    for h, idx in w.layout:
        o = [i for g, i in old.layout if g is h]
        sim.check([old.values[i] for i in o[0]] == [w.values[i] for i in idx], 'wrong-params', lambda: 'parameters of %s' % h)
    owner = belongs(w, net)
    for _ in sim.ops(5, 10):
        op = sim.choice(('get', 'set', 'item', 'roundtrip'))
        sim.log(op)
        d = net.getDecomposition()
        flat = sorted(float(t) for a in d for t in a)
        sim.check(flat == sorted(w.values), 'wrong-decomposition', lambda: 'decomposed %s, parameters %s' % (short(flat), short(sorted(w.values))))
        sim.check(sorted(sorted(float(t) for t in a) for a in d) == sorted(sorted(w.values[i] for i in g) for g in owner), 'wrong-decomposition',
                  lambda: 'groups %s' % short([list(a) for a in d]))
        if op == 'set':
            new = [np.array(vector(sim, len(a))) for a in d]
            net.setDecomposition(new)
            d2 = net.getDecomposition()
            sim.check(all(list(a) == list(c) for a, c in zip(new, d2)) and len(new) == len(d2), 'wrong-decomposition', 'read back differs')
            w.values = [float(t) for t in net.params]
        elif op == 'roundtrip':
            net.setDecomposition(d)
        elif op == 'item':
            i, t = sim.draw(w.n), sim.float(-1, 1)
            net.params[i] = t
            w.values[i] = t
        w.verify(sim, op)
    w.outputs(sim, 'decomposable')
    sim.state('dec', w.n)


def belongs(w, net):
    """which parameters belong to the same neuron: to the one they lead to, or, if that is an output, come from"""
    groups = {}
    conns = [c for cs in net.connections.values() for c in cs] + list(getattr(net, 'recurrentConns', []))
    for h, idx in w.layout:
        c = [x for x in conns if x is h]
        if c:
            c = c[0]
            for j, i in enumerate(idx):
                src = (id(c.inmod), c.inSliceFrom + j % c.indim)
                dst = (id(c.outmod), c.outSliceFrom + j // c.indim)
                lstm = type(c.outmod).__name__ == 'LSTMLayer'
                if lstm:
                    dst = (dst[0], dst[1] % c.outmod.dim)
                key = src if any(c.outmod is o for o in net.outmodules) else dst
                groups.setdefault(key, []).append(i)
        else:
            # peephole weights of the cells
            for j, i in enumerate(idx):
                groups.setdefault((id(h), j % h.dim), []).append(i)
    return list(groups.values())


def run(sim):
    sim.seed_globals()
    np.seterr(all='ignore')
    logging.disable(logging.CRITICAL)
    k = sim.weighted([(6, networks), (3, evolvables), (1, decomposable)])
    k(sim)
    sim.probe(k.__name__)
