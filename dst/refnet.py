"""An independent interpreter of pybrain networks, in plain Python floats.

It reads the structure of a network (modules, connections, their slices) once and computes
outputs from the definition of the modules and connections, one time step after the other,
without the buffers, offsets, sorting or parameter arrays of the library.
"""
import math


def sigmoid(x):
    if x >= 0:
        return 1.0 / (1.0 + math.exp(-min(x, 500.0)))
    e = math.exp(max(x, -500.0))
    return e / (1.0 + e)


def dotmat(p, nout, nin, x):
    return [sum(p[o * nin + i] * x[i] for i in range(nin)) for o in range(nout)]


class Conn(object):
    def __init__(self, c):
        from pybrain.structure.connections import shared, full, linear, identity, permutation, fullnotself, subsampling
        self.src, self.dst = c.inmod, c.outmod
        self.i0, self.i1 = c.inSliceFrom, c.inSliceTo
        self.o0, self.o1 = c.outSliceFrom, c.outSliceTo
        self.nin, self.nout = self.i1 - self.i0, self.o1 - self.o0
        self.holder = c.mother if isinstance(c, shared.SharedConnection) else (c if c.paramdim else None)
        if isinstance(c, fullnotself.FullNotSelfConnection):
            self.kind = 'notself'
        elif isinstance(c, full.FullConnection):
            self.kind = 'full'
        elif isinstance(c, linear.LinearConnection):
            self.kind = 'linear'
        elif isinstance(c, permutation.PermutationConnection):
            self.kind = 'perm'
            self.perm = [int(t) for t in c.argdict['permutation']]
            self.block = int(c.argdict['blocksize'])
        elif isinstance(c, subsampling.SubsamplingConnection):
            self.kind = 'subsampling'
        elif isinstance(c, identity.IdentityConnection):
            self.kind = 'identity'
        else:
            raise ValueError(c)

    def apply(self, x, p):
        x = x[self.i0:self.i1]
        k = self.kind
        if k == 'full':
            return dotmat(p, self.nout, self.nin, x)
        if k == 'notself':
            return [sum(p[o * self.nin + i] * x[i] for i in range(self.nin) if i != o) for o in range(self.nout)]
        if k == 'linear':
            return [a * b for a, b in zip(x, p)]
        if k == 'identity':
            return list(x)
        if k == 'perm':
            out = []
            for b in self.perm:
                out.extend(x[b * self.block:(b + 1) * self.block])
            return out
        if k == 'subsampling':
            m = sum(x) / len(x)
            return [m * w for w in p]


class RefNet(object):
    def __init__(self, net):
        self.net = net
        self.mods = list(net.modules)
        self.inmods = list(net.inmodules)
        self.outmods = list(net.outmodules)
        self.conns = [Conn(c) for cs in net.connections.values() for c in cs]
        self.rconns = [Conn(c) for c in getattr(net, 'recurrentConns', [])]
        self.indim = sum(m.indim for m in self.inmods)
        self.outdim = sum(m.outdim for m in self.outmods)
        # evaluation order
        left = {m: 0 for m in self.mods}
        for c in self.conns:
            left[c.dst] += 1
        self.order = []
        ready = [m for m in self.mods if not left[m]]
        while ready:
            m = ready.pop()
            self.order.append(m)
            for c in self.conns:
                if c.src is m:
                    left[c.dst] -= 1
                    if not left[c.dst]:
                        ready.append(c.dst)
        assert len(self.order) == len(self.mods)
        self.into = {m: [c for c in self.conns if c.dst is m] for m in self.mods}
        self.rinto = {m: [c for c in self.rconns if c.dst is m] for m in self.mods}
        self.subs = {m: RefNet(m) for m in self.mods if hasattr(m, 'modulesSorted')}
        self.kinks = float('inf')
        self.reset()

    # -- parameters ----------------------------------------------------------
    def holders(self):
        """the parts of the network with parameters of their own, shared ones once"""
        out = []
        for m in self.mods:
            if m in self.subs:
                out.extend(self.subs[m].holders())
            elif m.paramdim:
                out.append(m)
        for c in self.conns + self.rconns:
            if c.holder is not None and not any(c.holder is h for h in out):
                out.append(c.holder)
        return out

    def read(self):
        """current parameter values: {id of holder: list}"""
        return {id(h): [float(t) for t in h.params] for h in self.holders()}

    # -- forward ---------------------------------------------------------------
    def reset(self):
        self.prev = None
        self.state = {}

    def snapshot(self):
        return (self.prev, dict(self.state))

    def restore(self, s):
        self.prev, self.state = s[0], dict(s[1])

    def step(self, x, P):
        x = [float(t) for t in x]
        out = {}
        ins = {}
        i = 0
        first = {}
        for m in self.inmods:
            first[m] = x[i:i + m.indim]
            i += m.indim
        assert i == len(x)
        state = {}
        for m in self.order:
            v = list(first.get(m) or [0.0] * m.indim)
            for c in self.rinto[m]:
                if self.prev is not None:
                    for j, t in enumerate(c.apply(self.prev[c.src], P.get(id(c.holder)))):
                        v[c.o0 + j] += t
            for c in self.into[m]:
                for j, t in enumerate(c.apply(out[c.src], P.get(id(c.holder)))):
                    v[c.o0 + j] += t
            ins[m] = v
            out[m] = self.module(m, v, P, state)
        self.prev = out
        self.state = state
        res = []
        for m in self.outmods:
            res.extend(out[m])
        return res

    def module(self, m, v, P, state):
        n = m.outdim
        if m in self.subs:
            s = self.subs[m]
            s.reset()
            r = s.step(v, P)
            self.kinks = min(self.kinks, s.kinks)
            return r
        k = type(m).__name__
        if k in ('LinearLayer', 'FaultyLayer'):
            return list(v)
        if k == 'BiasUnit':
            return [1.0]
        if k == 'SigmoidLayer':
            return [sigmoid(t) for t in v]
        if k == 'TanhLayer':
            return [math.tanh(t) for t in v]
        if k == 'ReluLayer':
            self.kinks = min([self.kinks] + [abs(t) for t in v])
            return [max(t, 0.0) for t in v]
        if k == 'SoftSignLayer':
            return [t / (1 + abs(t)) for t in v]
        if k == 'SoftmaxLayer':
            top = max(v)
            e = [math.exp(t - top) for t in v]
            return [t / sum(e) for t in e]
        if k == 'GateLayer':
            return [sigmoid(v[i]) * v[n + i] for i in range(n)]
        if k == 'MultiplicationLayer':
            return [v[i] * v[n + i] for i in range(n)]
        if k == 'DoubleGateLayer':
            h = n // 2
            return [sigmoid(v[i]) * v[h + i] for i in range(h)] + [(1 - sigmoid(v[i])) * v[h + i] for i in range(h)]
        if k == 'SwitchLayer':
            return [sigmoid(t) for t in v] + [1 - sigmoid(t) for t in v]
        if k == 'LSTMLayer':
            old = self.state.get(m, [0.0] * n)
            w = P[id(m)] if m.paramdim else [0.0] * (3 * n)
            out, new = [], []
            for i in range(n):
                ig = sigmoid(v[i] + w[i] * old[i])
                fg = sigmoid(v[n + i] + w[n + i] * old[i])
                s = ig * math.tanh(v[2 * n + i]) + fg * old[i]
                og = sigmoid(v[3 * n + i] + w[2 * n + i] * s)
                new.append(s)
                out.append(og * math.tanh(s))
            state[m] = new
            return out
        if k == 'MDLSTMLayer':
            d, D = m.dim, m.dimensions
            w = P[id(m)] if m.paramdim else [0.0] * (d * (2 + D))
            last = v[d * (3 + D):]
            out, new = [], []
            for i in range(d):
                ig = sigmoid(v[i] + sum(w[i] * last[d * j + i] for j in range(D)))
                s = ig * math.tanh(v[d * (1 + D) + i])
                for j in range(D):
                    s += sigmoid(v[d * (1 + j) + i] + w[d * (1 + j) + i] * last[d * j + i]) * last[d * j + i]
                og = sigmoid(v[d * (2 + D) + i] + w[d * (1 + D) + i] * s)
                new.append(s)
                out.append(og * math.tanh(s))
            return out + new
        raise ValueError(k)


def cost(ref, xs, errs, P):
    ref.reset()
    total = 0.0
    for x, e in zip(xs, errs):
        y = ref.step(x, P)
        total += sum(a * b for a, b in zip(y, e))
    return total


def gradient(ref, xs, errs, P, h=1e-5):
    """numerical derivatives of sum_t errs_t . y_t: ({holder id: list}, [per step input errors])"""
    G = {}
    for k, p in P.items():
        g = []
        for i in range(len(p)):
            o = p[i]
            p[i] = o + h
            a = cost(ref, xs, errs, P)
            p[i] = o - h
            b = cost(ref, xs, errs, P)
            p[i] = o
            g.append((a - b) / (2 * h))
        G[k] = g
    X = []
    for t in range(len(xs)):
        g = []
        for i in range(len(xs[t])):
            ys = [list(x) for x in xs]
            ys[t][i] = xs[t][i] + h
            a = cost(ref, ys, errs, P)
            ys[t][i] = xs[t][i] - h
            b = cost(ref, ys, errs, P)
            g.append((a - b) / (2 * h))
        X.append(g)
    return G, X
