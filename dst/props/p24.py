"""P24: Evolino keeps its subpopulations whole, the best chromosomes in them, and the best network found."""
import numpy as np

from dst import seams
from dst.core import short

INF = float('inf')
NAN = float('nan')


def setup():
    import pybrain.supervised.trainers.evolino  # noqa
    import pybrain.structure.modules.evolinonetwork  # noqa
    import pybrain.datasets  # noqa


class Injected(Exception):
    pass


def key(chromosome):
    return tuple(float(v) for v in chromosome)


def same(a, b, tol=1e-9):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all((np.abs(a - b) <= tol * (1 + np.abs(b))) | (a == b) | (np.isnan(a) & np.isnan(b))))


# --- the containers ---------------------------------------------------------------
def population(sim):
    """SimplePopulation and EvolinoSubPopulation as a dictionary of fitness values"""
    from pybrain.supervised.evolino.gpopulation import SimplePopulation
    from pybrain.supervised.evolino.population import EvolinoSubPopulation
    from pybrain.supervised.evolino.individual import EvolinoSubIndividual
    from pybrain.supervised.evolino.gfilter import Randomization
    model = {}
    if sim.chance(0.5):
        pop, name = SimplePopulation(), 'simple'
    else:
        n = sim.draw(6)
        lo = sim.float(-1, 1)
        chromosome = [0.5] * (1 + sim.draw(3))
        pop, name = EvolinoSubPopulation(chromosome, n, Randomization(lo, lo + 0.5)), 'sub'
        sim.check(pop.getMaxNIndividuals() == n and pop.getIndividualsN() == n, 'population:size',
                  lambda: '%d individuals asked for, %d there' % (n, pop.getIndividualsN()))
        for ind in pop.getIndividuals():
            model[ind] = -INF
            sim.check(len(ind.getGenome()) == len(chromosome) and all(lo <= v <= lo + 0.5 for v in ind.getGenome()), 'population:initial-range',
                      lambda: 'chromosome %s outside of the range %r..%r' % (short(ind.getGenome()), lo, lo + 0.5))
        sim.check(chromosome == [0.5] * len(chromosome), 'population:prototype-changed', lambda: 'the prototype became %s' % short(chromosome))
    sim.log('population', name, len(model))

    def label(inds):
        return sorted(model[i] for i in inds)

    def audit(where):
        got = pop.getIndividuals()
        sim.check(set(got) == set(model) and pop.getIndividualsN() == len(model), 'population:members',
                  lambda: '%s: %d individuals, expected %d' % (where, len(got), len(model)))
        fit = pop.getFitnessMap()
        sim.check(fit == model, 'population:fitness', lambda: '%s: fitness %s, expected %s' % (where, short(sorted(fit.values())), short(sorted(model.values()))))
        srt = [model.get(i) for i in pop.getSortedIndividualList()]
        sim.check(srt == sorted(model.values(), reverse=True), 'population:order', lambda: '%s: sorted list is %s' % (where, short(srt)))
        got.clear()   # a copy: changing it must not change the population
        fit.clear()

    audit('start')
    for _ in sim.ops(6, 25):
        op = sim.weighted([(3, 'add'), (2, 'adds'), (5, 'set'), (1, 'remove'), (1, 'removes'), (2, 'best'), (2, 'worst'), (3, 'drop'), (1, 'max'), (1, 'avg'), (1, 'clear'),
                           (1, 'plus')])
        inds = list(model)
        if op == 'add':
            i = EvolinoSubIndividual([sim.value()])
            pop.addIndividual(i)
            model[i] = -INF
        elif op == 'adds':
            new = [EvolinoSubIndividual([sim.value()]) for _ in range(sim.draw(4))]
            pop.addIndividuals(set(new))
            model.update((i, -INF) for i in new)
        elif op in ('set', 'plus') and inds:
            i = sim.choice(inds)
            f = sim.choice((0.0, 1.0, 2.0, sim.float(-5, 5)))
            if op == 'plus' and name == 'sub':
                pop.addIndividualFitness(i, f)
                model[i] += f
            else:
                pop.setIndividualFitness(i, f)
                model[i] = f
            sim.check(pop.getIndividualFitness(i) == model[i], 'population:fitness', lambda: 'fitness of one is %r, expected %r' % (pop.getIndividualFitness(i), model[i]))
        elif op == 'remove' and inds:
            i = sim.choice(inds)
            pop.removeIndividual(i)
            del model[i]
        elif op == 'removes' and inds:
            some = sim.subset(inds)
            pop.removeIndividuals(some)
            for i in some:
                del model[i]
        elif op in ('best', 'worst'):
            n = sim.draw(len(model) + 3)
            got = pop.getBestIndividuals(n) if op == 'best' else pop.getWorstIndividuals(n)
            want = sorted(model.values(), reverse=op == 'best')[:n]
            sim.check(label(got) == sorted(want), 'population:%s' % op, lambda: '%s %d of %s are %s' % (op, n, short(sorted(model.values())), short(label(got))))
        elif op == 'drop':
            n = sim.draw(len(model) + 3)
            before = sorted(model.values(), reverse=True)
            pop.removeWorstIndividuals(n)
            left = pop.getIndividuals()
            sim.check(left <= set(model) and sorted((model[i] for i in left), reverse=True) == before[:max(0, len(before) - n)], 'population:remove-worst',
                      lambda: 'without the worst %d of %s there are %s' % (n, short(before), short([model.get(i) for i in left])))
            for i in list(model):
                if i not in left:
                    del model[i]
        elif op == 'max' and model:
            sim.check(pop.getMaxFitness() == max(model.values()), 'population:max-fitness', lambda: 'best fitness is %r' % pop.getMaxFitness())
        elif op == 'avg' and model and -INF not in model.values():
            avg = pop.getAverageFitness()
            sim.check(abs(avg - sum(model.values()) / len(model)) < 1e-9, 'population:average', lambda: 'average fitness is %r' % avg)
        elif op == 'clear':
            pop.clearFitness()
            for i in model:
                model[i] = -INF
        else:
            continue
        sim.log(op, len(model))
        audit(op)
        sim.state(name, op, len(model))


# --- the network ---------------------------------------------------------------------
def make_net(sim):
    from pybrain.structure.modules.evolinonetwork import EvolinoNetwork
    return EvolinoNetwork(1 + sim.draw(2), 1 + sim.draw(4))


def seq_of(sim, net, n):
    return np.array([[sim.float(-1, 1) for _ in range(net.outdim)] for _ in range(n)])


def network(sim):
    net = make_net(sim)
    net.backprojectionFactor = sim.choice((1.0, 0.5, 0.01, 0.0))
    hid = len(net.getGenome())
    sim.log('network', net.outdim, hid)
    probe = seq_of(sim, net, 1 + sim.draw(sim.choice((5, 5, 25))))
    length = 1 + sim.draw(sim.choice((6, 6, 25)))

    def params():
        return net._network.params.copy()

    want = None   # what extrapolating the probe gives with the present weights
    for _ in sim.ops(6, 20):
        op = sim.weighted([(3, 'genome'), (2, 'cell'), (3, 'out'), (4, 'use'), (3, 'split'), (3, 'forced'), (2, 'round'), (1, 'activate')])
        sim.log(op)
        if op == 'genome':
            g = [[sim.float(-2, 2) for _ in c] for c in net.getGenome()]
            given = [list(c) for c in g]
            net.setGenome(g)
            sim.check(g == given, 'network:genome-consumed', lambda: 'the genome given to setGenome was changed')
            sim.check([key(c) for c in net.getGenome()] == [key(c) for c in g], 'network:genome', lambda: 'genome %s read back as %s' % (short(g), short(net.getGenome())))
            want = None
        elif op == 'cell':
            # a chromosome holds the weights of one cell: the others' inputs do not depend on it
            g = [list(c) for c in net.getGenome()]
            c = sim.draw(hid)
            before = params()
            g[c] = [v + 1.0 for v in g[c]]
            net.setGenome(g)
            changed = int(np.sum(params() != before))
            sim.check(changed == len(g[c]), 'network:genome-size', lambda: 'a chromosome of %d weights changed %d' % (len(g[c]), changed))
            again = net.getGenome()
            sim.check([key(x) for x in again] == [key(x) for x in g], 'network:genome', lambda: 'a changed chromosome reads back different')
            want = None
        elif op == 'out':
            W = np.array([[sim.float(-1, 1) for _ in range(hid)] for _ in range(net.outdim)])
            net.setOutputWeightMatrix(W)
            sim.check(same(net.getOutputWeightMatrix(), W), 'network:output-matrix', lambda: 'output weights read back different')
            want = None
        elif op == 'use':
            out = net.extrapolate(probe, length)
            sim.check(out.shape == (length, net.outdim), 'network:shape', lambda: 'extrapolated %s' % (out.shape,))
            if want is not None:
                sim.check(same(out, want), 'network:history', lambda: 'the same extrapolation gives %s, then %s' % (short(want.tolist()), short(out.tolist())))
                sim.probe('repeated')
            want = out
        elif op == 'split':
            out = net.extrapolate(probe, length)
            net.reset()
            cut, cut2 = sim.draw(length + 1), sim.draw(len(probe))
            if cut2:
                net.washout(probe[:cut2])
            net.washout(probe[cut2:])
            parts = [p for p in (net.generate(cut), net.generate(length - cut)) if len(p)]
            sim.check(same(np.concatenate(parts), out), 'network:split', lambda: 'steps cut at %d/%d give %s, at once %s' % (cut2, cut, short(np.concatenate(parts).tolist()), short(out.tolist())))
        elif op == 'forced':
            # forcing the network to its own outputs changes nothing
            out = net.extrapolate(probe, length)
            net.reset()
            raw0 = net.washout(probe)
            raw = net.washout(out)
            sim.check(raw0.shape == (len(probe), hid) and raw.shape == (length, hid), 'network:raw-shape', lambda: 'raw outputs %s %s' % (raw0.shape, raw.shape))
            W = net.getOutputWeightMatrix()
            sim.check(same(np.dot(raw, W.T), out, 1e-7), 'network:forced', lambda: 'forced to its own outputs it gives %s, not %s' % (short(np.dot(raw, W.T).tolist()), short(out.tolist())))
        elif op == 'round':
            before = params()
            net.setGenome(net.getGenome())
            net.setOutputWeightMatrix(net.getOutputWeightMatrix())
            sim.check(bool(np.all(params() == before)), 'network:round-trip', lambda: 'setting the genome and matrix read from the network changed its weights')
        elif op == 'activate':
            try:
                net.activate([])
            except NotImplementedError:
                pass
        sim.state('net', op, net.outdim, hid)


# --- training --------------------------------------------------------------------------
class Recorder(object):
    """fitness function of the simulator"""

    def __init__(self, sim):
        self.sim = sim
        self.mode = sim.choice(('mse', 'mse', 'ties', 'same', 'random', 'wild'))
        self.calls = []
        self.fail_at = None

    def __call__(self, output, target):
        sim = self.sim
        if self.fail_at is not None and len(self.calls) >= self.fail_at:
            self.fail_at = None
            raise Injected('fitness')
        mse = -float(np.mean((np.asarray(output) - np.asarray(target)) ** 2))
        f = {'mse': lambda: mse, 'ties': lambda: float(sim.draw(3)), 'same': lambda: 0.5, 'random': lambda: sim.float(-3, 3),
             'wild': lambda: sim.choice((-INF, NAN, -1e300, 0.0, 1.0, mse))}[self.mode]()
        self.calls.append((np.array(output), np.array(target), f))
        return f


class Variate(object):
    """mutation of the simulator: notes where each gene came from"""
    x0 = None
    alpha = None

    def __init__(self, sim):
        self.sim, self.n, self.origin = sim, 0, {}

    def getSample(self, x0=None, alpha=None):
        self.n += 1
        v = self.sim.float(-1, 1) + 1e-9 * self.n
        self.origin[v] = self.x0 if x0 is None else x0
        return v


def make_ds(sim, net):
    from pybrain.datasets import SequentialDataSet
    ds = SequentialDataSet(0, net.outdim)
    seqs = []
    for _ in range(1 + sim.draw(2)):
        s = seq_of(sim, net, 4 + sim.draw(9))
        ds.newSequence()
        for v in s:
            ds.addSample([], v)
        seqs.append(s)
    return ds, seqs


def training(sim):
    from pybrain.supervised.trainers.evolino import EvolinoTrainer
    from pybrain.structure.modules.evolinonetwork import EvolinoNetwork

    class Net(EvolinoNetwork):
        loaded = []

        def setGenome(self, weights):
            EvolinoNetwork.setGenome(self, weights)
            self.loaded.append([key(c) for c in weights])

    net = Net(1 + sim.draw(2), 1 + sim.draw(3))
    net.loaded = []
    net.backprojectionFactor = sim.choice((1.0, 0.1, 0.01))
    given_factor = net.backprojectionFactor
    ds, seqs = make_ds(sim, net)
    rec = Recorder(sim)
    kw = {'evalfunc': rec}
    size = 8
    if sim.chance(0.85):
        size = kw['subPopulationSize'] = 1 + sim.draw(6)
    combos = 4
    if sim.chance(0.85):
        combos = kw['nCombinations'] = 1 + sim.draw(3)
    parents = None
    if sim.chance(0.6):
        parents = kw['nParents'] = 1 + sim.draw(size)
    ratio = 1. / 3
    if sim.chance(0.85):
        ratio = kw['wtRatio'] = sim.choice((0.25, 1. / 3, 0.5, 0.7))
    lo, hi = -0.1, 0.1
    if sim.chance(0.5):
        lo = sim.float(-0.5, 0.5)
        hi = lo + 0.25
        kw['initialWeightRange'] = (lo, hi)
    burst = INF
    if sim.chance(0.5):
        burst = kw['nBurstMutationEpochs'] = 1 + sim.draw(3)
    if sim.chance(0.3):
        given_factor = kw['backprojectionFactor'] = sim.choice((0.5, 0.02))
    variate = None
    if sim.chance(0.6):
        variate = kw['mutationVariate'] = Variate(sim)
    elif sim.chance(0.5):
        kw['mutationAlpha'] = sim.choice((0.0, 1e-3, 1.0))
    sim.log('trainer', net.outdim, len(net.getGenome()), size, combos, parents, burst, rec.mode)
    trainer = EvolinoTrainer(net, ds, **kw)
    sim.check(net.backprojectionFactor == given_factor, 'training:factor', lambda: 'backprojection factor is %r, not %r' % (net.backprojectionFactor, given_factor))
    keep = parents if parents is not None else max(1, size // 4)
    cells = len(net.getGenome())
    subs = trainer._population.getSubPopulations()
    data = seqs

    def chromosomes():
        return [sorted(key(i.getGenome()) for i in sp.getIndividuals()) for sp in subs]

    def sizes(where):
        ns = [sp.getIndividualsN() for sp in subs]
        sim.check(ns == [size] * cells, 'training:size', lambda: '%s: subpopulations of %s, %d asked for' % (where, ns, size))

    sizes('start')
    for cs in chromosomes():
        sim.check(all(lo <= v <= hi for c in cs for v in c), 'training:initial-range', lambda: 'initial chromosomes %s outside of %r..%r' % (short(cs), lo, hi))
    pop = chromosomes()
    best_seen = -INF          # highest fitness at the end of an epoch
    best_epoch = 0
    epoch = 0
    fitness = [None] * cells  # per subpopulation: chromosome -> fitness, of those evaluated last
    valid = True              # the last epoch was not aborted
    for _ in sim.ops(3, 9):
        op = sim.weighted([(8, 'train'), (1, 'burst'), (1, 'data'), (2, 'use'), (1, 'fail'), (1, 'interrupt')])
        if op == 'train' and not valid:
            sim.probe('after-failure')
        if op in ('train', 'fail', 'interrupt'):
            net.loaded, rec.calls = [], []
            if op == 'fail':
                rec.fail_at = sim.draw(size * combos + 1)
            due = epoch + 1 - best_epoch >= burst
            previous = fitness
            try:
                if op == 'interrupt':
                    with seams.Interrupter(sim, 1 + sim.draw(sim.choice((50, 500, 4000)))):
                        trainer.train()
                else:
                    trainer.train()
            except (Injected, KeyboardInterrupt):
                rec.fail_at = None
                sim.fault('aborted-epoch')
                sim.log(op, 'aborted', len(rec.calls))
                if op == 'fail':
                    # evaluation comes before selection: nothing was lost
                    sizes('after a failed evaluation')
                    if not due:
                        sim.check(chromosomes() == pop, 'training:failed-epoch', lambda: 'a failed evaluation changed the subpopulations')
                    pop = chromosomes()
                    epoch += 1
                    if due:
                        best_epoch = epoch
                    valid = False
                    fitness = [None] * cells
                    sim.state('abort', op, len(rec.calls))
                    continue
                return            # an interrupt inside selection leaves it half done: the run ends
            rec.fail_at = None
            epoch += 1
            n = size * combos
            sim.log('train', epoch, len(rec.calls), 'burst' if due else '')
            fs = [-INF if f != f else f for _, _, f in rec.calls]
            sim.check(len(fs) == n, 'training:evaluations', lambda: '%d evaluations for %d individuals in %d combinations' % (len(fs), size, combos))
            target = np.concatenate([s[int(ratio * len(s)):] for s in data])
            for out, tgt, _ in rec.calls:
                sim.check(same(tgt, target), 'training:target', lambda: 'evaluated against %s, not the training part of the sequences %s' % (short(tgt.tolist()), short(target.tolist())))
                sim.check(np.shape(out) == np.shape(target), 'training:output-shape', lambda: 'outputs of shape %s for targets of shape %s' % (np.shape(out), np.shape(target)))
            loaded = net.loaded[:n]
            evaluated = [{} for _ in range(cells)]
            counts = [{} for _ in range(cells)]
            for g, f in zip(loaded, fs):
                for j, c in enumerate(g):
                    counts[j][c] = counts[j].get(c, 0) + 1
                    evaluated[j][c] = max(evaluated[j].get(c, -INF), f)
            # every chromosome took part in nCombinations networks (identical chromosomes share their count)
            present = [{} for _ in range(cells)]
            burst_now = [sorted(c for c, k in cn.items() for _ in range(k // combos)) for cn in counts] != pop
            for j in range(cells):
                sim.check(all(k % combos == 0 for k in counts[j].values()) and sum(counts[j].values()) == n, 'training:combinations',
                          lambda: 'chromosomes took part in %s networks, %d combinations asked for' % (sorted(counts[j].values()), combos))
            sim.check(burst_now == due or (due and (size == 1 or kw.get('mutationAlpha') == 0.0)), 'training:burst',
                      lambda: 'epoch %d, last gain in %d, burst after %s: burst mutation %s' % (epoch, best_epoch, burst, 'ran' if burst_now else 'did not run'))
            if due:
                sim.probe('burst')
                best_epoch = epoch
                if previous[0] is not None:
                    for j in range(cells):
                        top = max(previous[j].values())
                        sim.check(any(previous[j].get(c) == top for c in counts[j]), 'training:burst-best', lambda: 'burst mutation lost the best chromosome of subpopulation %d' % j)
            # selection: the best of each subpopulation stay
            now = chromosomes()
            sizes('after epoch %d' % epoch)
            for j in range(cells):
                multi = {}
                for c, k in counts[j].items():
                    multi[c] = k // combos
                order = sorted((f for c, f in evaluated[j].items() for _ in range(multi[c])), reverse=True)
                left = {}
                for c in now[j]:
                    left[c] = left.get(c, 0) + 1
                stay = sorted((evaluated[j][c] for c in multi for _ in range(min(multi[c], left.get(c, 0)))), reverse=True)
                exact = variate is not None
                # copies of one chromosome may have different fitness: their fitness is not known here
                copies = any(k > 1 for k in multi.values())
                sim.check(copies or stay[:keep] == order[:keep] and (not exact or len(stay) == keep), 'training:selection',
                          lambda: 'fitness %s in subpopulation %d, %d parents kept: those left have %s' % (short(order), j, keep, short(stay)))
                if exact:
                    kept = {c: evaluated[j][c] for c in left if c in evaluated[j]}
                    for c in left:
                        if c not in evaluated[j]:
                            src = tuple(float(variate.origin[v]) for v in c)
                            sim.check(src in kept, 'training:child', lambda: 'a child %s was made from %s, which is none of the parents' % (short(c), short(src)))
                    made = {}
                    for c in left:
                        if c not in evaluated[j]:
                            src = tuple(float(variate.origin[v]) for v in c)
                            made[src] = made.get(src, 0) + left[c]
                    if made:
                        worst = min(kept[s] for s in made)
                        skipped = [f for c, f in kept.items() if c not in made]
                        sim.check(not skipped or max(skipped) <= worst, 'training:fittest', lambda: 'parents of fitness %s had no child, one of %r had' % (short(skipped), worst))
                fitness = list(fitness)
                fitness[j] = {c: evaluated[j].get(c, -INF) for c in left}
            pop = now
            valid = True
            # the network is the best one evaluated
            top = max(fs)
            sim.check(trainer.evaluation.max_fitness == top, 'training:max-fitness', lambda: 'reports fitness %r of %s' % (trainer.evaluation.max_fitness, short(fs)))
            tops = [(g, o) for g, (o, _, _), f in zip(loaded, rec.calls, fs) if f == top]
            mine = [key(c) for c in net.getGenome()]
            outs = np.concatenate([net.extrapolate(s[:int(ratio * len(s))], len(s) - int(ratio * len(s))) for s in data])
            sim.check(any(g == mine for g, _ in tops), 'training:best-genome', lambda: 'the network left is not one of the best of the epoch')
            sim.check(any(g == mine and same(o, outs, 1e-6) for g, o in tops), 'training:best-output',
                      lambda: 'the network left gives %s, when it was evaluated %s' % (short(outs.tolist()), short([o.tolist() for g, o in tops if g == mine])))
            # its output weights are the least squares fit of the training part
            phis = []
            for s in data:
                net.reset()
                net.washout(s[:int(ratio * len(s))])
                phis.append(net.washout(s[int(ratio * len(s)):]))
            phi, W = np.concatenate(phis), net.getOutputWeightMatrix()
            slope = np.dot((target - np.dot(phi, W.T)).T, phi)
            sim.check(float(np.max(np.abs(slope))) <= 1e-6 * (1 + float(np.max(np.abs(phi)))), 'training:regression',
                      lambda: 'the output weights %s are not the best fit: the squared error falls by %s' % (short(W.tolist()), short(slope.tolist())))
            if top > best_seen:
                best_seen, best_epoch = top, epoch
            sim.state('train', size, combos, parents, bool(due), rec.mode)
        elif op == 'burst':
            trainer.burstMutate()
            sizes('after burst mutation')
            now = chromosomes()
            for j in range(cells):
                if fitness[j] is not None:
                    top = max(fitness[j].values())
                    sim.check(any(fitness[j].get(c) == top for c in now[j]), 'training:burst-best', lambda: 'burst mutation lost the best chromosome of subpopulation %d' % j)
                    fitness[j] = {c: fitness[j].get(c, -INF) for c in now[j]}
            sim.log('burst')
            pop = now
        elif op == 'data':
            ds, data = make_ds(sim, net)
            trainer.setDataset(ds) if sim.chance(0.5) else trainer.setData(ds)
            sim.log('data', len(data))
        elif op == 'use':
            before = net._network.params.copy()
            net.extrapolate(seq_of(sim, net, 1 + sim.draw(4)), 1 + sim.draw(4))
            sim.check(bool(np.all(net._network.params == before)) and chromosomes() == pop, 'training:use', lambda: 'using the network changed it')
            sim.log('use')


def run(sim):
    sim.seed_globals()
    kind = sim.weighted([(3, 'population'), (3, 'network'), (6, 'training')])
    {'population': population, 'network': network, 'training': training}[kind](sim)
