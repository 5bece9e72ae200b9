"""P21: a seeded program gives the same results whatever else the process does."""
import hashlib
import itertools
import random

import numpy as np

from dst import seams
from dst.core import Sim, short


FORK = True          # what an earlier run left behind in the process must not hide anything


def setup():
    seams.no_jit()
    import pybrain.optimization  # noqa
    import pybrain.optimization.distributionbased.rank1  # noqa
    import pybrain.tools.shortcuts  # noqa
    import pybrain.supervised.trainers  # noqa
    import pybrain.supervised.trainers.evolino  # noqa
    import pybrain.structure  # noqa
    import pybrain.rl.learners  # noqa
    import pybrain.rl.agents  # noqa
    import pybrain.rl.experiments  # noqa
    import pybrain.structure.networks.rbm  # noqa
    import pybrain.unsupervised.trainers.deepbelief  # noqa
    import pybrain.supervised.knn.lsh.nearoptimal  # noqa
    import pybrain.supervised.knn.lsh.minhash  # noqa
    import pybrain.tools.validation  # noqa
    from dst.props import p11, p08, p20
    p11.setup()
    p08.setup()
    p20.setup()


class SubTape(object):
    """draws of a program: the first execution records them, later ones are dealt the same"""

    def __init__(self, tape=None, rec=None, prefix=()):
        self.tape, self.rec, self.prefix = tape, rec, prefix
        self.pos = 0
        self.out = []
        self.spans = []

    def draw(self, n):
        if n <= 1:
            return 0
        if self.rec is None:
            v = self.prefix[self.pos] % n if self.pos < len(self.prefix) else self.tape.draw(n)
        else:
            v = self.rec[self.pos] if self.pos < len(self.rec) else 0
            v %= n
        self.pos += 1
        self.out.append(v)
        return v


class Prog(Sim):
    """the context of one program: its own choices, its own state of the random generators, its trace"""

    def __init__(self, tape, gen, seed):
        Sim.__init__(self, tape)
        self.trace = []
        self.seed = seed
        self.kind = gen
        self.gen = gen(self)
        self.rng = None
        self.done = False
        self.raised = None

    def put(self, *values):
        self.trace.append(canon(values))

    def step(self):
        """execute up to the next yield with the program's own random state"""
        saved = random.getstate(), np.random.get_state()
        if self.rng is None:
            random.seed(self.seed)
            np.random.seed(self.seed)
        else:
            random.setstate(self.rng[0])
            np.random.set_state(self.rng[1])
        try:
            next(self.gen)
        except StopIteration:
            self.done = True
        except Exception as e:
            self.done = True
            self.raised = type(e).__name__
            self.put('raised', type(e).__name__)
        finally:
            # the position in both random sequences is part of the result
            self.rng = random.getstate(), np.random.get_state()
            self.put('rng', random.random(), np.random.rand())
            random.setstate(saved[0])
            np.random.set_state(saved[1])


def canon(x):
    if isinstance(x, (list, tuple)):
        return '(' + ','.join(canon(v) for v in x) + ')'
    if isinstance(x, dict):
        return '{' + ','.join('%s:%s' % (canon(k), canon(x[k])) for k in sorted(x, key=repr)) + '}'
    if isinstance(x, np.ndarray) and x.dtype == object:
        return canon(list(x))
    if isinstance(x, np.ndarray):
        x = np.asarray(x, float)
        if x.size > 6:
            return '%s#%s' % (x.shape, hashlib.sha256(np.ascontiguousarray(x + 0.0).tobytes()).hexdigest()[:12])
        return '%s%s' % (x.shape, canon([float(v) for v in x.ravel()]))
    if isinstance(x, (float, np.floating)):
        return repr(float(x) + 0.0)
    if isinstance(x, (int, np.integer)) and not isinstance(x, bool):
        return repr(int(x))
    return repr(x)


def numbers(obj, depth=2):
    """the public numeric attributes of an object: its results and its settings"""
    out = {}
    for k, v in sorted(getattr(obj, '__dict__', {}).items()):
        if k.startswith('_') or k == 'name':
            continue
        if isinstance(v, (bool, np.bool_)):
            out[k] = bool(v)
        elif isinstance(v, (int, float, np.integer, np.floating)):
            out[k] = v
        elif isinstance(v, np.ndarray) and v.dtype.kind in 'fiu':
            out[k] = v
    for k in ('explorer', 'ds', 'descent', 'gd'):
        v = getattr(obj, k, None)
        if v is not None and depth:
            out[k] = sorted(numbers(v, depth - 1).items())
    return out


# --- the programs -------------------------------------------------------------
def optimizer(s):
    from dst.props import p11
    algs = p11.algorithms()
    name = s.choice(sorted(algs))
    dim = s.int(2, 3)
    kw = p11.configuration(s, name, dim)
    fun = p11.functions()[s.choice(sorted(p11.functions()))]
    kind = s.choice(('array', 'module', 'random'))
    from pybrain.tools.shortcuts import buildNetwork
    if kind == 'array':
        x0 = np.array([s.float(-2, 2) for _ in range(dim)])
    elif kind == 'module' and name != 'Rank1NES':
        x0 = buildNetwork(2, 1, 1)
    else:
        x0 = None
        kw['numParameters'] = dim
    kw.pop('boundaries', None)
    if kind == 'module' and x0 is not None and s.chance(0.4) and name in p11.MEMETIC + ('HillClimber', 'ES'):
        from pybrain.structure.evolvables.maskedparameters import MaskedParameters
        x0 = MaskedParameters(x0)
    s.put(name, kind)
    yield

    def f(e):
        if hasattr(e, 'activate') or hasattr(e, 'pcontainer'):
            m = getattr(e, 'pcontainer', e)
            return fun(np.array(m.activate([1.0, -0.5])))
        return fun(np.array(getattr(e, 'params', e), float))
    fails = s.int(1, 40) if s.chance(0.25) else None
    calls = [0]

    def g(e):
        calls[0] += 1
        if calls[0] == fails:
            s.fault('evaluator-raises')
            raise ArithmeticError('evaluator')
        return f(e)
    opt = algs[name](g, x0, minimize=True, maxEvaluations=s.int(20, 80), storeAllEvaluations=True, **kw)
    yield
    for _ in range(s.int(1, 4)):
        best, fit = opt.learn(s.int(1, 2))
        s.put(np.array(getattr(best, 'params', best), float), fit, opt.numEvaluations, opt.numLearningSteps)
        yield
    s.put(opt._allEvaluations, numbers(opt))


def multiobjective(s):
    from pybrain.optimization import MultiObjectiveGA
    from pybrain.optimization.populationbased.multiobjective.constnsga2 import ConstMultiObjectiveGA
    from pybrain.rl.environments.functions.multiobjective import Deb, Pol, ConstDeb
    const = s.chance(0.3)
    f = ConstDeb() if const else s.choice((Deb, Pol))()
    cls = ConstMultiObjectiveGA if const else MultiObjectiveGA
    kw = {} if const or s.chance(0.5) else dict(elitism=s.chance(0.5))
    opt = cls(f, np.array([s.float(0, 1), s.float(0, 1)]), populationSize=s.int(2, 10), storeAllEvaluations=True, **kw)
    yield
    for _ in range(s.int(1, 3)):
        front = opt.learn(s.int(1, 3))
        s.put([np.array(x, float) for x in front[0]] if isinstance(front, tuple) else [np.array(x, float) for x in front])
        yield
    attrs = numbers(opt)
    if not const:
        # of a function without constraints, these say nothing
        attrs.pop('feasible', None)
        attrs.pop('violation', None)
    s.put(list(opt._allEvaluations), attrs)


def networks(s):
    """a network built from parts without names: its parameters come in the order of the program"""
    from pybrain.structure import (FeedForwardNetwork, RecurrentNetwork, LinearLayer, SigmoidLayer, TanhLayer, BiasUnit,
                                   FullConnection, LSTMLayer, GaussianLayer, SoftmaxLayer, MotherConnection,
                                   SharedFullConnection)
    rec = s.chance(0.4)
    net = RecurrentNetwork() if rec else FeedForwardNetwork()
    a = LinearLayer(s.int(1, 3))
    net.addInputModule(a)
    mods = [a]
    if s.chance(0.3):
        b = LinearLayer(s.int(1, 2))
        net.addInputModule(b)
        mods.append(b)
    for _ in range(s.int(0, 4)):
        cls = s.choice((SigmoidLayer, TanhLayer, LinearLayer, GaussianLayer) + ((LSTMLayer,) if rec else ()))
        m = cls(s.int(1, 3))
        net.addModule(m)
        net.addConnection(FullConnection(s.choice(mods), m))
        mods.append(m)
    out = s.choice((LinearLayer, SoftmaxLayer))(s.int(1, 2))
    net.addOutputModule(out)
    for m in mods:
        if m is mods[-1] or s.chance(0.5):
            net.addConnection(FullConnection(m, out))
    if s.chance(0.6):
        bias = BiasUnit()
        net.addModule(bias)
        for m in mods[1:] + [out]:
            if s.chance(0.6):
                net.addConnection(FullConnection(bias, m))
    if s.chance(0.3):
        mo = MotherConnection(a.outdim * out.indim)
        net.addConnection(SharedFullConnection(mo, a, out))
    if rec:
        for _ in range(s.int(0, 3)):
            net.addRecurrentConnection(FullConnection(s.choice(mods[1:] or [out]), s.choice(mods[1:] or [out])))
    yield
    net.sortModules()
    s.put(net.paramdim, net.params)
    if s.chance(0.5):
        net.randomize()
        s.put(net.params)
    if s.chance(0.5):
        net.mutate()
    if s.chance(0.5) and net.paramdim:
        net._setParameters(np.arange(net.paramdim) * 0.1)
    yield
    if s.chance(0.3):
        net = net.copy()
    for _ in range(s.int(1, 3)):
        s.put(net.activate([s.float(-1, 1) for _ in range(net.indim)]))
    if s.chance(0.5):
        net.reset()
        net.activate([0.5] * net.indim)
        s.put(net.backActivate([1.0] * net.outdim), net.derivs)
    from pybrain.structure.networks.neurondecomposable import NeuronDecomposableNetwork
    if not rec and s.chance(0.3):
        yield
        d = NeuronDecomposableNetwork.convertNormalNetwork(net) if hasattr(
            NeuronDecomposableNetwork, 'convertNormalNetwork') else None
        if d is not None:
            s.put(d.getDecomposition())


def shortcuts(s):
    from pybrain.tools.shortcuts import buildNetwork
    from pybrain.structure import LSTMLayer, TanhLayer, SigmoidLayer
    dims = [s.int(1, 3) for _ in range(s.int(2, 5))]
    kw = {}
    if s.chance(0.4):
        kw['recurrent'] = True
        if s.chance(0.5) and len(dims) == 3:
            kw['hiddenclass'] = LSTMLayer
            kw['peepholes'] = s.chance(0.5)
    elif s.chance(0.5):
        kw['hiddenclass'] = TanhLayer
    kw['bias'] = s.chance(0.7)
    kw['outputbias'] = s.chance(0.7)
    net = buildNetwork(*dims, **kw)
    s.put(dims, net.params)
    yield
    other = net.copy()
    other.mutate()
    s.put(other.params)
    other.randomize()
    s.put(other.params)
    yield
    for _ in range(2):
        x = [s.float(-1, 1) for _ in range(dims[0])]
        s.put(net.activate(x), other.activate(x))
    if net.paramdim:
        net.params[:] = np.linspace(-1, 1, net.paramdim)
        net.reset()
        s.put(net.activate([0.3] * dims[0]))


def custom(s):
    """the structured networks"""
    from pybrain.structure.networks.custom.capturegame import CaptureGameNetwork
    from pybrain.structure.networks.convolutional import SimpleConvolutionalNetwork
    from pybrain.structure.networks.bidirectional import BidirectionalNetwork
    from pybrain.structure.networks.borderswiping import BorderSwipingNetwork
    from pybrain.structure import LinearLayer, TanhLayer
    k = s.draw(4)
    if k == 0:
        size = s.int(2, 4)
        net = CaptureGameNetwork(size=size, hsize=s.int(1, 2), simpleborders=s.chance(0.5))
    elif k == 1:
        size = s.choice((4, 6))
        net = SimpleConvolutionalNetwork(1, size, convSize=2, numFeatureMaps=s.int(1, 2))
    elif k == 2:
        net = BidirectionalNetwork(seqlen=s.int(2, 4), inputsize=s.int(1, 2), hiddensize=s.int(1, 2),
                                   symmetric=s.chance(0.5))
    else:
        dims = (s.int(2, 4), s.int(2, 3))
        inmesh = None
        from pybrain.structure.modulemesh import ModuleMesh
        inmesh = ModuleMesh.constructWithLayers(LinearLayer, 1, dims, 'i')
        outmesh = ModuleMesh.constructWithLayers(LinearLayer, 1, dims, 'o')
        hiddenmesh = ModuleMesh.constructWithLayers(TanhLayer, 1, tuple(list(dims) + [4]), 'h')
        net = BorderSwipingNetwork(inmesh, hiddenmesh, outmesh)
    yield
    s.put(k, net.paramdim, net.params)
    net.randomize()
    s.put(net.params)
    s.put(net.activate(np.sin(np.arange(net.indim))))
    yield
    net.backActivate(np.ones(net.outdim))
    s.put(net.derivs)


def dataset(s, dim=2, out=1):
    from pybrain.datasets import SupervisedDataSet, SequentialDataSet
    seq = s.chance(0.3)
    ds = (SequentialDataSet if seq else SupervisedDataSet)(dim, out)
    for i in range(s.int(4, 9)):
        if seq and (i == 0 or s.chance(0.3)):
            ds.newSequence()
        ds.addSample([s.float(-1, 1) for _ in range(dim)], [s.float(-1, 1) for _ in range(out)])
    return ds


def training(s):
    from pybrain.tools.shortcuts import buildNetwork
    from pybrain.supervised.trainers import BackpropTrainer, RPropMinusTrainer
    ds = dataset(s)
    net = buildNetwork(2, s.int(1, 3), 1, recurrent=s.chance(0.3))
    if s.chance(0.6):
        t = BackpropTrainer(net, ds, learningrate=s.choice((0.01, 0.1)), momentum=s.choice((0., 0.5)),
                            batchlearning=s.chance(0.3), weightdecay=s.choice((0., 0.01)))
    else:
        t = RPropMinusTrainer(net, dataset=ds)
    yield
    for _ in range(s.int(1, 3)):
        k = s.draw(3)
        if k == 0:
            s.put(t.train())
        elif k == 1:
            t.trainEpochs(s.int(1, 2))
        else:
            s.put(t.trainUntilConvergence(maxEpochs=s.int(1, 3), continueEpochs=1, verbose=False,
                                          validationProportion=0.4))
        s.put(net.params)
        yield
    s.put(t.testOnData(ds), numbers(t))


def data(s):
    from pybrain.datasets import ClassificationDataSet, SupervisedDataSet
    ds = SupervisedDataSet(1, 1)
    n = s.int(3, 12)
    for i in range(n):
        ds.addSample([i], [i % 3])
    yield
    a, b = ds.splitWithProportion(s.choice((0.3, 0.5, 0.8)))
    s.put(a['input'], b['input'])
    yield
    for rows in ds.randomBatches('input', s.int(1, 4)):
        s.put(rows)
    c = ClassificationDataSet(1, class_labels=['x', 'y', 'z'], nb_classes=3)
    for i in range(n):
        c.appendLinked([i], [s.draw(3)])
    yield
    s.put(c.calculateStatistics(), c.splitWithProportion(0.5)[0]['input'])
    c._convertToOneOfMany()
    s.put(c['target'])
    x, y = c.splitByClass(0) if s.chance(0.5) else (c, c)
    s.put(x['input'], y['input'])


def valuebased(s):
    from pybrain.rl.environments.mazes import Maze, MDPMazeTask
    from pybrain.rl.learners.valuebased import ActionValueTable, ActionValueNetwork
    from pybrain.rl.learners import Q, SARSA, QLambda, NFQ
    from pybrain.rl.explorers import EpsilonGreedyExplorer, BoltzmannExplorer
    from pybrain.rl.agents import LearningAgent
    from pybrain.rl.experiments import Experiment, EpisodicExperiment
    from pybrain.rl.environments.mazes.tasks import TMaze, TrivialMaze, CheeseMaze
    from pybrain.rl.environments.mazes.tasks.tiger import TigerTask
    if s.chance(0.6):
        topo = np.array([[1, 1, 1, 1], [1, 0, 0, 1], [1, 0, 0, 1], [1, 1, 1, 1]])
        env = Maze(topo, (2, 2), initPos=[(1, 1), (1, 2)] if s.chance(0.5) else [(1, 1)],
                   stochAction=s.choice((0., 0.3)), stochObs=0.)
        task = MDPMazeTask(env)
        ns, na, ep = 16, 4, False
    else:
        task = TigerTask()
        task.reset()
        ns, na, ep = 0, 3, False
    cls = s.choice((Q, SARSA, QLambda, Q, SARSA, NFQ))
    if ns and cls is not NFQ:
        table = ActionValueTable(ns, na)
        table.initialize(s.choice((0., 1.)))
    else:
        table = ActionValueNetwork(task.outdim, na)
        if cls is not NFQ:
            cls = NFQ
    learner = cls() if cls is NFQ else cls(0.5, 0.9)
    if s.chance(0.5):
        learner.explorer = s.choice((EpsilonGreedyExplorer, BoltzmannExplorer))()
    agent = LearningAgent(table, learner)
    exp = (EpisodicExperiment if ep else Experiment)(task, agent)
    yield
    for _ in range(s.int(1, 3)):
        s.put(exp.doEpisodes(s.int(1, 2)) if ep else exp.doInteractions(s.int(1, 8)))
        yield
        agent.learn()
        s.put(getattr(table, "network", table).params, numbers(learner))
        agent.reset()
        yield


def policygradient(s):
    from pybrain.rl.environments.cartpole import CartPoleEnvironment, BalanceTask
    from pybrain.tools.shortcuts import buildNetwork
    from pybrain.rl.agents import LearningAgent, OptimizationAgent
    from pybrain.rl.learners import Reinforce, ENAC
    from pybrain.rl.experiments import EpisodicExperiment
    from pybrain.rl.explorers import NormalExplorer
    task = BalanceTask(CartPoleEnvironment(), maxsteps=s.int(2, 6))
    net = buildNetwork(4, 1, bias=False)
    if s.chance(0.3):
        import pybrain.optimization as O
        agent = OptimizationAgent(net, s.choice((O.HillClimber, O.CMAES, O.PGPE))(storeAllEvaluations=True,
                                                                                 maxEvaluations=30))
        exp = EpisodicExperiment(task, agent)
        yield
        for _ in range(3):
            exp.doEpisodes(s.int(1, 3))
            s.put(agent.learner._allEvaluations)
            yield
        return
    agent = LearningAgent(net, s.choice((Reinforce, ENAC))())
    exp = EpisodicExperiment(task, agent)
    yield
    for _ in range(s.int(1, 3)):
        s.put([list(r) for r in exp.doEpisodes(s.int(1, 3))])
        yield
        agent.learn()
        agent.reset()
        s.put(net.params, agent.learner.module.params, numbers(agent.learner), numbers(task))
        yield


def environments(s):
    env, act = an_environment(s)
    yield
    for _ in range(s.int(2, 8)):
        if s.chance(0.15):
            env.reset()
        obs = getattr(env, 'getSensors', None) or env.getObservation
        s.put(np.array(obs(), float))
        env.performAction(act())
        if hasattr(env, 'getReward'):
            s.put(env.getReward())
        if hasattr(env, 'isFinished'):
            s.put(env.isFinished())
        if s.chance(0.4):
            yield


def an_environment(s):
    from pybrain.rl.environments import cartpole as C
    from pybrain.rl.environments.cartpole import doublepole, nonmarkovpole
    from pybrain.rl.environments.cartpole.balancetask import BalanceTask, DiscreteBalanceTask
    from pybrain.rl.environments.shipsteer import ShipSteeringEnvironment, GoNorthwardTask
    from pybrain.rl.environments.classic.mountaincar import MountainCar
    from pybrain.rl.environments.classic.acrobot import AcrobotTask
    from pybrain.rl.environments.simple.environment import SimpleEnvironment
    from pybrain.rl.environments.mazes import Maze, PolarMaze
    from pybrain.rl.environments.mazes import tasks as T
    k = s.draw(9)
    if k == 0:
        env = s.choice((C.CartPoleEnvironment, doublepole.DoublePoleEnvironment,
                        nonmarkovpole.NonMarkovPoleEnvironment))()
        return env, lambda: np.array([s.float(-5, 5)])
    if k == 1:
        return BalanceTask(C.CartPoleEnvironment(), maxsteps=5), lambda: np.array([s.float(-1, 1)])
    if k == 2:
        return ShipSteeringEnvironment(False), lambda: np.array([s.float(-1, 1), s.float(-1, 1)])
    if k == 3:
        return GoNorthwardTask(maxsteps=5), lambda: np.array([s.float(-1, 1), s.float(-1, 1)])
    if k == 4:
        return s.choice((MountainCar, AcrobotTask))(), lambda: np.array([s.draw(3)])
    if k == 5:
        return SimpleEnvironment(s.int(1, 2)), lambda: np.array([s.float(-1, 1)])
    if k == 6:
        topo = np.array([[1, 1, 1, 1], [1, 0, 0, 1], [1, 0, 0, 1], [1, 1, 1, 1]])
        cls = s.choice((Maze, PolarMaze))
        env = cls(topo, (2, 2), initPos=[(1, 1), (1, 2), (2, 1)], stochAction=s.choice((0., 0.5)),
                  stochObs=s.choice((0., 0.5)))
        return env, lambda: s.draw(len(cls.allActions))
    if k == 7:
        t = s.choice((T.TMaze, T.CheeseMaze, T.FourByThreeMaze, T.ShuttleDocking, T.TrivialMaze, T.EasyMaze))()
        return t, lambda: s.draw(t.actions)
    t = T.TigerTask()
    t.reset()
    return t, lambda: s.draw(3)


def games(s):
    from pybrain.rl.environments.twoplayergames import CaptureGame, GomokuGame
    from pybrain.rl.environments.twoplayergames.pente import PenteGame
    from pybrain.rl.environments.twoplayergames.capturegameplayers import RandomCapturePlayer, KillingPlayer, NonSuicidePlayer
    from pybrain.rl.environments.twoplayergames.gomokuplayers import RandomGomokuPlayer, KillingGomokuPlayer
    from pybrain.rl.experiments.tournament import Tournament
    k = s.draw(3)
    if k == 0:
        g = CaptureGame(s.int(2, 4))
        ps = [s.choice((RandomCapturePlayer, KillingPlayer, NonSuicidePlayer))(g) for _ in range(2)]
    else:
        g = (GomokuGame, PenteGame)[k - 1]((5, 5))
        ps = [s.choice((RandomGomokuPlayer, KillingGomokuPlayer))(g) for _ in range(2)]
    for i, p in enumerate(ps):
        p.name = 'p%d' % i
        p.color = (g.BLACK, g.WHITE)[i]
    yield
    if s.chance(0.5):
        t = Tournament(g, ps)
        for _ in range(s.int(1, 2)):
            t.organize(1)
            yield
        s.put(sorted((a.name, b.name, r) for (a, b), r in t.results.items()), sorted(t.eloScore().items()) if False else '')
    else:
        g.playToTheEnd(ps[0], ps[1])
        s.put(g.getWinner(), g.movesDone, np.array(g.getBoardArray(), float))


def unsupervised(s):
    k = s.draw(4)
    if k == 0:
        from pybrain.structure.networks.rbm import Rbm
        from pybrain.unsupervised.trainers.rbm import RbmBernoulliTrainer, RbmGaussTrainer
        from pybrain.datasets import UnsupervisedDataSet
        ds = UnsupervisedDataSet(3)
        for _ in range(s.int(3, 6)):
            ds.addSample([s.draw(2) for _ in range(3)])
        rbm = Rbm.fromDims(3, 2)
        t = s.choice((RbmBernoulliTrainer, RbmGaussTrainer))(rbm, ds)
        t.cfg.maxIter = 2
        yield
        for _ in range(2):
            t.train()
            s.put(rbm.params, rbm.biasParams)
            yield
    elif k == 1:
        from pybrain.supervised.knn.lsh.nearoptimal import MultiDimHash
        h = MultiDimHash(2)
        yield
        for i in range(s.int(3, 8)):
            h.insert(np.array([s.float(), s.float()]), i)
        yield
        s.put([x[1] for x in h.knn(np.array([s.float(), s.float()]), 2)])
    elif k == 2:
        from pybrain.supervised.knn.lsh.minhash import MinHash
        h = MinHash(5, 3)
        yield
        for i in range(s.int(3, 8)):
            h.put(np.array([s.draw(2) for _ in range(5)]), i)
        yield
        s.put([x[1] for x in h.knn(np.array([s.draw(2) for _ in range(5)]), 2)])
    else:
        from pybrain.auxiliary.kmeans import kmeanspp
        X = np.array([[s.float(), s.float()] for _ in range(s.int(4, 8))])
        yield
        s.put(*kmeanspp(X, 2))


def evolino(s):
    from pybrain.datasets.sequential import SequentialDataSet
    from pybrain.structure.modules.evolinonetwork import EvolinoNetwork
    from pybrain.supervised.trainers.evolino import EvolinoTrainer
    ds = SequentialDataSet(0, 1)
    ds.newSequence()
    for i in range(s.int(8, 14)):
        ds.addSample([], [np.sin(i * 0.4)])
    net = EvolinoNetwork(ds.outdim, s.int(1, 2))
    t = EvolinoTrainer(net, dataset=ds, subPopulationSize=s.int(3, 4), nParents=s.int(1, 2), nCombinations=1,
                       initialWeightRange=(-0.1, 0.1), backprojectionFactor=0.01, mutationAlpha=0.01,
                       nBurstMutationEpochs=s.choice((np.inf, 1)), wtRatio=1. / 3., verbosity=0)
    yield
    for _ in range(s.int(1, 2)):
        t.trainEpochs(1)
        s.put(t.evaluation.max_fitness)
        yield
    s.put(net.extrapolate(ds['target'], 3))


def validation(s):
    from pybrain.tools.shortcuts import buildNetwork
    from pybrain.supervised.trainers import BackpropTrainer
    from pybrain.tools.validation import CrossValidator, ModuleValidator
    from pybrain.datasets import SupervisedDataSet
    ds = SupervisedDataSet(1, 1)
    for i in range(s.int(4, 8)):
        ds.addSample([i * 0.1], [s.float()])
    net = buildNetwork(1, 2, 1)
    cv = CrossValidator(BackpropTrainer(net, ds), ds, n_folds=s.int(2, 3), valfunc=ModuleValidator.MSE,
                        max_epochs=s.int(1, 2))
    yield
    s.put(cv.validate())
    yield
    s.put(net.params, cv.validate())


def evolvables(s):
    from pybrain.structure.evolvables.maskedparameters import MaskedParameters
    from pybrain.structure.evolvables.maskedmodule import MaskedModule
    from pybrain.structure.evolvables.cheaplycopiable import CheaplyCopiable
    from pybrain.tools.shortcuts import buildNetwork
    net = buildNetwork(2, 2, 1)
    m = s.choice((MaskedParameters, MaskedModule, CheaplyCopiable))(net)
    yield
    for _ in range(s.int(1, 4)):
        k = s.draw(3)
        if k == 0:
            m.mutate()
        elif k == 1:
            m.randomize()
        else:
            m = m.copy()
        if isinstance(m, MaskedParameters) and s.chance(0.3):
            m.topologyMutate()
        s.put(m.params, getattr(m, 'mask', None))
        yield


PROGRAMS = [optimizer, optimizer, optimizer, multiobjective, networks, networks, networks, shortcuts, custom, training,
            data, valuebased, policygradient, environments, environments, games, unsupervised, evolino, validation,
            evolvables]


# --- what else goes on in the process ---------------------------------------------
def names(sim):
    """other objects took names: as many as bring the counter close to a power of ten"""
    from pybrain.utilities import Named
    k = sim.choice((0, 10, 100, 1000, 10000)) + sim.draw(12)
    Named._nameIds = itertools.count(max(0, k - sim.draw(12)))
    sim.fault('names-taken')


def stranger(sim, whole, of=None):
    """another program of the process, from start to end or up to some point, maybe killed at any line"""
    gen = sim.choice(PROGRAMS)
    prefix = ()
    if of is not None and sim.chance(0.5):
        # one of the same kind, which begins with the same choices
        gen = of.kind
        prefix = of.tape.out[:1 + sim.draw(sim.choice((3, 8, 30)))]
        sim.probe('sibling')
    p = Prog(SubTape(sim.tape, prefix=prefix), gen, sim.draw(1000))
    kill = sim.int(1, 3000) if sim.chance(0.4) else 0
    try:
        with seams.Interrupter(sim, kill) as it:
            while not p.done:
                p.step()
                if not whole:
                    break
    except KeyboardInterrupt:
        sim.probe('stranger-killed')
        p.done = True
    sim.faults.update(p.faults)
    sim.fault('other-program-ran')
    return p


class AnyOrder(set):
    """a set whose order is that of arbitrary hashes, as on interpreters that do not keep the order of insertion"""
    salt = 0

    def __iter__(self):
        items = list(set.__iter__(self))
        if AnyOrder.salt:
            random.Random(AnyOrder.salt + len(items)).shuffle(items)
        return iter(items)

    def copy(self):
        return AnyOrder(set.__iter__(self))


def unordered(sim):
    import sys
    for m in ('structure.networks.network',
              'utilities'):
        if 'pybrain.' + m in sys.modules:
            sys.modules['pybrain.' + m].set = AnyOrder
    AnyOrder.salt = sim.draw(1000)


def execute(prog):
    while not prog.done:
        prog.step()
    return prog


def run(sim):
    gen = sim.choice(PROGRAMS)
    seed = sim.draw(1000)
    if sim.chance(0.3):
        names(sim)
    unordered(sim)
    first = execute(Prog(SubTape(sim.tape), gen, seed))
    sim.log('program', gen.__name__, 'seed', seed, 'steps', len(first.trace), 'raised', first.raised)
    sim.faults.update(first.faults)
    sim.probe('program-' + gen.__name__)
    if first.raised:
        sim.probe('raised-%s-%s' % (gen.__name__, first.raised))
    running = []
    if sim.chance(0.7):
        names(sim)
    for _ in range(sim.draw(3)):
        q = stranger(sim, True, first)
        sim.log('before', q.gen.__name__ if hasattr(q.gen, '__name__') else '', len(q.trace))
    unordered(sim)
    again = Prog(SubTape(rec=first.tape.out), gen, seed)
    while not again.done:
        again.step()
        k = sim.draw(4)
        if k == 1 and not again.done:
            q = stranger(sim, False, first)
            sim.log('meanwhile', getattr(q.gen, '__name__', ''), len(q.trace))
            if not q.done:
                running.append(q)
        elif k == 2 and running:
            q = sim.choice(running)
            q.step()
            if q.done:
                running.remove(q)
        elif k == 3 and sim.chance(0.3):
            names(sim)
    sim.steps += len(first.trace)
    sim.state((gen.__name__, len(first.trace), first.raised))
    a, b = first.trace, again.trace
    sim.log('results', len(a), a[-1][:80] if a else '')
    if a != b:
        k = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
        sim.violate('not-repeatable:' + gen.__name__,
                    'the same seeded program (%s, seed %d) gives %s the first time and %s the second time at point %d' % (
                        gen.__name__, seed, short(a[k] if k < len(a) else 'nothing', 300),
                        short(b[k] if k < len(b) else 'nothing', 300), k))
