"""P07: learners learn from exactly the recorded experience: value tables, linear value functions
and policy parameters follow a reference computed from what really happened."""
import numpy as np

from dst import gen_rl as R
from dst.core import short


def setup():
    import dst.props.p05 as p
    p.setup()


def near(a, b, tol=1e-7):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all((np.abs(a - b) <= tol * np.maximum(1.0, np.maximum(np.abs(a), np.abs(b)))) | (a == b)))


def run(sim):
    sim.seed_globals()
    sim.choice((table, table, linear, gradient, gradient, fitted))(sim)


def history_of(agent):
    h = agent.history
    return [[(np.array(s, float), np.array(a, float), float(np.ravel(r)[0])) for s, a, r in zip(*h.getSequence(i))]
            for i in range(h.getNumSequences())] if len(h) else []


# --- Q, SARSA, Q(lambda) on a table ------------------------------------------------------------

def table(sim):
    from pybrain.rl.agents import LearningAgent
    from pybrain.rl.learners import Q, SARSA, QLambda
    from pybrain.rl.learners.valuebased import ActionValueTable
    from pybrain.rl.explorers.discrete import BoltzmannExplorer, EpsilonGreedyExplorer
    from pybrain.rl.experiments import ContinuousExperiment, EpisodicExperiment
    kind = sim.choice(('q', 'sarsa', 'qlambda'))
    env = R.make_env(sim, True)
    env.scale = lambda v: max(-50.0, min(50.0, v))
    cont = kind == 'qlambda' or sim.chance(0.4)
    task = R.make_task(sim, env, not cont, sim.int(1, 5))
    alpha, gamma, lam = sim.choice((0.5, 0.1, 1.0)), sim.choice((0.99, 0.5, 0.0)), sim.choice((0.9, 0.3, 0.0))
    tab = ActionValueTable(env.nstates, env.numActions)
    init = sim.value()
    tab.initialize(init)
    learner = {'q': Q, 'sarsa': SARSA}[kind](alpha, gamma) if kind != 'qlambda' else QLambda(alpha, gamma, lam)
    e = sim.draw(3)
    if e:
        learner.explorer = (BoltzmannExplorer, EpsilonGreedyExplorer)[e - 1]()
    agent = LearningAgent(R.failing_module(sim, tab, env), learner)
    ref = np.full((env.nstates, env.numActions), init)
    exp = (ContinuousExperiment if cont else EpisodicExperiment)(task, agent)
    sim.log(kind, env.nstates, env.numActions, alpha, gamma, lam, 'continuous' if cont else 'episodic')
    for k in sim.ops(10, 25):
        op = sim.weighted([(6, 'go'), (4, 'learn'), (1, 'reset'), (1, 'off')])
        R.arm(sim, env)
        n = sim.int(1, 3)
        sim.log(op, n, sorted(env.faults.items()))
        if op == 'go':
            try:
                exp.doInteractions(n) if cont else exp.doEpisodes(n)
            except R.EnvFault:
                sim.probe('interaction-failed')
            env.faults.clear()
        elif op == 'learn':
            env.faults.clear()
            if not len(agent.history):
                continue
            before = history_of(agent)
            agent.learn(n)
            after = history_of(agent)
            sim.check(len(before) == len(after) and all(len(x) == len(y) for x, y in zip(before, after)) and
                      all(near(u, v) for x, y in zip(before, after) for p, q in zip(x, y) for u, v in zip(p, q)),
                      'learning-alters-history', 'learning changed the recorded history')
            if agent.learning:
                for _ in range(n):
                    td(kind, before, ref, alpha, gamma, lam)
                sim.probe('learned')
        elif op == 'reset':
            env.faults.clear()
            agent.reset()
        else:
            agent.learning = not agent.learning
        got = np.array([tab.getActionValues(s) for s in range(env.nstates)])
        sim.check(near(got, ref), 'wrong-values', lambda: '%s: after %s the table is %s, the update rule gives %s'
                  % (kind, op, short(got.tolist(), 300), short(ref.tolist(), 300)))
        for s in range(env.nstates):
            a = int(tab.getMaxAction(s))
            sim.check(got[s][a] == got[s].max(), 'not-greedy', lambda: 'greedy action %d in %s' % (a, got[s]))
        sim.state(kind, cont, op, min(len(agent.history), 8), agent.learning)


def td(kind, seqs, V, alpha, gamma, lam):
    if kind == 'qlambda':
        rows = [r for s in seqs for r in s]
        for i in range(len(rows) - 1, 0, -1):
            l = lam ** (len(rows) - 1 - i)
            if l < 0.0001:
                break
            s, a, r = int(rows[i - 1][0][0]), int(rows[i - 1][1][0]), rows[i - 1][2]
            V[s, a] += alpha * l * (r + gamma * V[int(rows[i][0][0])].max() - V[s, a])
        return
    for seq in seqs:
        for (s, a, r), (s2, a2, _) in zip(seq, seq[1:]):
            s, a, s2, a2 = int(s[0]), int(a[0]), int(s2[0]), int(a2[0])
            nxt = V[s2].max() if kind == 'q' else V[s2, a2]
            V[s, a] += alpha * (r + gamma * nxt - V[s, a])


# --- fitted Q iteration --------------------------------------------------------------------

def fitted(sim):
    import copy
    import random
    from pybrain.datasets import SupervisedDataSet
    from pybrain.rl.agents import LearningAgent
    from pybrain.rl.learners import NFQ
    from pybrain.rl.learners.valuebased import ActionValueNetwork
    from pybrain.rl.explorers.discrete import BoltzmannExplorer, EpsilonGreedyExplorer
    from pybrain.rl.experiments import EpisodicExperiment
    from pybrain.supervised.trainers import RPropMinusTrainer
    env = R.make_env(sim, True)
    env.scale = lambda v: max(-50.0, min(50.0, v))
    task = R.make_task(sim, env, True, sim.int(1, 6))
    net = ActionValueNetwork(env.outdim, env.numActions)
    maxEpochs = sim.int(1, 3)
    learner = NFQ(maxEpochs=maxEpochs)
    learner.gamma = gamma = sim.choice((0.9, 0.5, 0.0))
    if sim.chance(0.5):
        learner.explorer = sim.choice((BoltzmannExplorer, EpsilonGreedyExplorer))()
    agent = LearningAgent(R.failing_module(sim, net, env), learner)
    exp = EpisodicExperiment(task, agent)
    sim.log('NFQ', env.outdim, env.numActions, maxEpochs, gamma)

    def code(s, a):
        one = np.zeros(env.numActions)
        one[a] = 1.0
        return np.concatenate([s, one])
    for k in sim.ops(7, 15):
        op = sim.weighted([(6, 'go'), (4, 'learn'), (1, 'reset'), (1, 'off')])
        R.arm(sim, env)
        n = sim.int(1, 3)
        sim.log(op, n, sorted(env.faults.items()))
        before = np.array(net.network.params)
        if op == 'go':
            try:
                exp.doEpisodes(n)
            except R.EnvFault:
                sim.probe('interaction-failed')
            env.faults.clear()
        elif op == 'reset':
            env.faults.clear()
            agent.reset()
        elif op == 'off':
            agent.learning = not agent.learning
        else:
            env.faults.clear()
            if not len(agent.history):
                continue
            seqs = history_of(agent)
            states = random.getstate(), np.random.get_state()
            ref = copy.deepcopy(net.network)
            ref.reset()
            ds = SupervisedDataSet(ref.indim, 1)
            for seq in seqs:
                for (s, a, r), (s2, _, _) in zip(seq, seq[1:]):
                    q = float(ref.activate(code(s, int(a[0])))[0])
                    best = max(float(ref.activate(code(s2, b))[0]) for b in range(env.numActions))
                    ds.addSample(code(s, int(a[0])), [q + 0.5 * (r + gamma * best - q)])
            refused = None
            if agent.learning:
                try:
                    RPropMinusTrainer(ref, dataset=ds, batchlearning=True).trainUntilConvergence(maxEpochs=maxEpochs)
                except ValueError as e:
                    refused = e         # too few samples to split off a validation set
                random.setstate(states[0])
                np.random.set_state(states[1])
            try:
                agent.learn()
                sim.check(refused is None, 'learned-from-too-little', lambda: 'training is refused for %d samples' % len(ds))
                sim.probe('learned')
            except ValueError:
                sim.check(refused is not None, 'learning-refused', lambda: 'learn() raises for %d interactions in a row' % len(ds))
                sim.probe('refused')
            after = history_of(agent)
            sim.check(len(seqs) == len(after) and all(len(x) == len(y) for x, y in zip(seqs, after)) and
                      all(near(u, v) for x, y in zip(seqs, after) for p, q in zip(x, y) for u, v in zip(p, q)),
                      'learning-alters-history', 'learning changed the recorded history')
            before = np.array(ref.params)
        got = np.array(net.network.params)
        sim.check(near(got, before, 1e-6), 'wrong-values', lambda: 'NFQ: after %s the parameters are %s, expected %s'
                  % (op, short(got.tolist(), 200), short(before.tolist(), 200)))
        sim.state('NFQ', op, min(len(agent.history), 8), agent.learning)


# --- online learning with linear function approximation ----------------------------------------

def linear(sim):
    from pybrain.rl.agents.linearfa import LinearFA_Agent
    from pybrain.rl.learners.valuebased import linearfa as lf
    from pybrain.rl.experiments import Experiment
    kind = sim.choice(('Q_LinFA', 'QLambda_LinFA', 'SARSALambda_LinFA'))
    env = R.make_env(sim, False)
    env.indim = 1
    env.scale = lambda v: max(-1.0, min(1.0, v))
    na = sim.int(1, 3)
    task = R.make_task(sim, env, False)
    gamma = sim.choice((0.9, 0.5, 0.0))
    learner = getattr(lf, kind)(na, env.outdim, rewardDiscount=gamma, learningRate=sim.choice((0.1, 0.02)))
    agent = LinearFA_Agent(learner)
    exp = Experiment(task, agent)
    lam = getattr(learner, '_lambda', 0.0)
    theta = np.array(learner._theta)
    trace = np.zeros((na, env.outdim))
    last = None             # the last completed interaction, not yet learned from
    pos = 0
    lr = learner.learningRate
    sim.log(kind, na, env.outdim, gamma)
    for k in sim.ops(15, 40):
        R.arm(sim, env, 0.4, ('getSensors', 'performAction-before', 'performAction-after', 'getReward'), 2)
        sim.log(sorted(env.faults.items()))
        failed = False
        try:
            exp.doInteractions(1)
        except R.EnvFault:
            failed = True
            sim.probe('interaction-failed')
        env.faults.clear()
        log = env.log[pos:]
        pos = len(env.log)
        obs = [np.array(e[1]) for e in log if e[0] == 'obs']
        act = [int(e[1][0]) for e in log if e[0] == 'act']
        rew = [e[1] for e in log if e[0] == 'rew']
        if obs:
            o2 = obs[0]
            a2 = agent.lastaction if agent.lastaction is not None else None
            if last is not None:
                o, a, r = last
                if kind == 'SARSALambda_LinFA':
                    err = r + gamma * theta[a2].dot(o2) - theta[a].dot(o)
                else:
                    err = r + gamma * max(theta.dot(o2)) - theta[a].dot(o)
                if kind == 'Q_LinFA':
                    theta[a] += lr * err * o
                else:
                    trace *= gamma * lam
                    trace[a] += o
                    theta += lr * err * trace
                last = None
        if rew:
            last = (obs[0], act[0], rew[0])
        sim.check(near(learner._theta, theta), 'wrong-weights', lambda: '%s: weights %s, expected %s after %s'
                  % (kind, short(learner._theta.tolist(), 300), short(theta.tolist(), 300), 'a failed interaction' if failed else 'an interaction'))
        sim.state(kind, failed, len(log), last is None)


# --- policy gradients ----------------------------------------------------------------------------

def gradient(sim):
    from pybrain.rl.agents import LearningAgent
    from pybrain.rl.learners import Reinforce, ENAC
    from pybrain.rl.experiments import EpisodicExperiment
    from pybrain.rl.experiments.queued import QueuedExperiment
    from pybrain.tools.shortcuts import buildNetwork
    from pybrain.tools.functions import expln, explnPrime
    import io
    import contextlib
    kind = sim.choice(('reinforce', 'enac'))
    env = R.make_env(sim, False)
    env.scale = lambda v: 0.5 + max(-2.0, min(2.0, v))
    task = R.make_task(sim, env, True, sim.int(1, 4))
    net = buildNetwork(env.outdim, env.indim, bias=False)
    learner = Reinforce() if kind == 'reinforce' else ENAC()
    agent = LearningAgent(R.failing_module(sim, net, env), learner)
    learner.learningRate = alpha = sim.choice((0.001, 0.01))
    learner.explorer.sigma = [sim.choice((-2.0, -0.5, 0.0, 0.5))] * env.indim
    learner.gd.init(learner.network.params)
    queue = sim.chance(0.5)
    exp = (QueuedExperiment if queue else EpisodicExperiment)(task, agent)
    loglh = []                  # per completed interaction, computed at the time
    nw = env.indim * env.outdim
    real_act, real_rew = agent.getAction, agent.giveReward
    pend = [None]

    def getAction():
        p = np.array(learner.network.params)
        a = real_act()
        W, sg = p[:nw].reshape(env.indim, env.outdim), p[nw:]
        o = np.array(agent.lastobs, float)
        d = np.array(a, float) - W.dot(o)
        e = expln(sg)
        pend[0] = np.concatenate([np.outer(d, o).ravel(), (d ** 2 - e ** 2) / e * explnPrime(sg)])
        return a

    def giveReward(r):
        real_rew(r)
        loglh.append(pend[0])
    agent.getAction, agent.giveReward = getAction, giveReward

    def expected():
        h = history_of(agent)
        L, Rw, i = [], [], 0
        sim.check(sum(len(s) for s in h) == len(loglh), 'history-length', lambda: '%d interactions recorded, %d completed' % (sum(len(s) for s in h), len(loglh)))
        for s in h:
            if not s:
                continue            # an episode that was started only
            L.append(np.sum(loglh[i:i + len(s)], axis=0))
            Rw.append(sum(x[2] for x in s))
            i += len(s)
        L, Rw = np.array(L), np.array(Rw)
        if kind == 'reinforce':
            sq = (L ** 2).mean(0)
            if np.any((sq < 1e-12) & (sq > 0)):
                return None
            base = (L ** 2 * Rw[:, None]).mean(0) / np.where(sq > 0, sq, 1)
            g = -(L * (Rw[:, None] - base)).mean(0)
        else:
            from scipy.linalg import pinv
            X = np.hstack([L, np.ones((len(L), 1))])
            if np.linalg.cond(X) > 1e6:
                return None
            g = pinv(X).dot(Rw)[:-1]
        if max(g) > 1000:
            g = g / max(g) * 1000
        return g
    real_learn = agent.learn

    def learn(*a):
        p = np.array(learner.network.params)
        g = expected()
        real_learn(*a)
        q = np.array(learner.network.params)
        if g is not None:
            scale = max(1e-9, float(np.abs(alpha * g).max()))
            sim.check(np.allclose(q - p, alpha * g, 1e-5, 1e-7 * scale + 1e-12), 'wrong-gradient',
                      lambda: '%s: parameters moved by %s, the gradient of the recorded episodes is %s times %s'
                      % (kind, short((q - p).tolist(), 300), alpha, short(g.tolist(), 300)))
            sim.probe('gradient-checked')
        if np.abs(q).max() > 50:
            raise Wild()
    agent.learn = learn
    if queue:
        orig = agent.history.removeSequence

        def removeSequence(i):
            s = history_of(agent)
            k = sum(len(x) for x in s[:i])
            del loglh[k:k + len(s[i])]
            orig(i)
        agent.history.removeSequence = removeSequence
    sim.log(kind, env.indim, env.outdim, alpha, 'queue' if queue else 'episodes')
    try:
        for k in sim.ops(8, 20):
            op = sim.weighted([(6, 'go'), (3, 'learn'), (1, 'reset')])
            R.arm(sim, env)
            n = sim.int(1, 3)
            sim.log(op, n, sorted(env.faults.items()))
            failed = False
            with contextlib.redirect_stdout(io.StringIO()):
                if op == 'go':
                    try:
                        if queue and sim.chance(0.6):
                            del loglh[:]
                            exp.run(n, sim.int(1, 3))
                            sim.probe('queue-run')
                        else:
                            exp.doEpisodes(n)
                    except R.EnvFault:
                        failed = True
                        sim.probe('interaction-failed')
                    env.faults.clear()
                elif op == 'learn':
                    env.faults.clear()
                    if len(agent.history):
                        agent.learn()
                else:
                    env.faults.clear()
                    agent.reset()
                    del loglh[:]
            sim.state(kind, queue, op, failed, min(len(loglh), 9))
    except Wild:
        sim.probe('diverged')


class Wild(Exception):
    """parameters so large that the comparison would only compare rounding errors"""
