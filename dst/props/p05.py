"""P05: an agent's history is exactly the completed interactions, whatever fails in between."""
import io
import contextlib

import numpy as np

from dst import gen_rl as R
from dst.core import short


def setup():
    import pybrain.rl.agents, pybrain.rl.agents.linearfa, pybrain.rl.learners.valuebased.linearfa  # noqa
    import pybrain.rl.learners, pybrain.rl.experiments.queued, pybrain.tools.shortcuts  # noqa
    import pybrain.rl.explorers.discrete, pybrain.rl.explorers.continuous.sde  # noqa


KINDS = ('logging', 'plain', 'table', 'nfq', 'gradient', 'linfa', 'linfa')


def build(sim, kind, env):
    from pybrain.rl.agents import LearningAgent
    from pybrain.rl.agents.logging import LoggingAgent
    from pybrain.rl.agents.linearfa import LinearFA_Agent
    from pybrain.rl.learners import Q, SARSA, QLambda, NFQ, Reinforce, ENAC
    from pybrain.rl.learners.valuebased import ActionValueTable, ActionValueNetwork
    from pybrain.rl.learners.valuebased import linearfa as lf
    from pybrain.rl.explorers.discrete import BoltzmannExplorer, EpsilonGreedyExplorer, DiscreteStateDependentExplorer
    from pybrain.tools.shortcuts import buildNetwork
    if kind == 'logging':
        class User(LoggingAgent):
            def getAction(self):
                LoggingAgent.getAction(self)
                env.maybe('module')
                self.lastaction = np.array(sim.vec(self.outdim))
                return self.lastaction
        return User(env.outdim, env.indim)
    if kind == 'plain':
        net = R.failing_module(sim, buildNetwork(env.outdim, env.indim, bias=sim.chance(0.5)), env)
        return LearningAgent(net)
    if kind == 'table':
        t = ActionValueTable(env.nstates, env.numActions)
        t.initialize(sim.value())
        l = sim.choice((Q, SARSA, QLambda))()
        e = sim.draw(4)
        if e == 1:
            l.explorer = BoltzmannExplorer()
        elif e == 2:
            l.explorer = EpsilonGreedyExplorer(sim.float())
        elif e == 3:
            l.explorer = DiscreteStateDependentExplorer()
        if e == 3:
            return LearningAgent(t, l)
        return LearningAgent(R.failing_module(sim, t, env), l)
    if kind == 'nfq':
        l = NFQ(maxEpochs=1)
        return LearningAgent(R.failing_module(sim, ActionValueNetwork(env.outdim, env.numActions), env), l)
    if kind == 'gradient':
        net = buildNetwork(env.outdim, env.indim, bias=False)
        return LearningAgent(R.failing_module(sim, net, env), sim.choice((Reinforce, ENAC))())
    cls = sim.choice((lf.Q_LinFA, lf.QLambda_LinFA, lf.SARSALambda_LinFA, lf.GQLambda))
    na = env.numActions
    return LinearFA_Agent(cls(na, env.outdim, learningRate=sim.float(0.001, 0.01)))


class Model(object):
    def __init__(self):
        self.rows = []
        self.starts = []
        self.pending = True     # the next row opens a sequence
        self.pos = 0
        self.obs = None
        self.act = None

    def absorb(self, log, logging):
        """take in what the environment saw since last time"""
        for e in log[self.pos:]:
            if e[0] == 'obs':
                self.obs = e[1]
            elif e[0] == 'act':
                self.act = e[1]
            elif e[0] == 'reset':
                if logging:
                    self.pending = True
            elif e[0] == 'rew':
                if logging:
                    self.add(e[1])
        self.pos = len(log)

    def add(self, r):
        if self.pending:
            self.starts.append(len(self.rows))
            self.pending = False
        self.rows.append((self.obs, self.act, r))

    def clear(self):
        self.rows, self.starts, self.pending = [], [], True

    def drop_first(self):
        if not self.starts:
            return
        end = self.starts[1] if len(self.starts) > 1 else len(self.rows)
        self.rows = self.rows[end:]
        self.starts = [s - end for s in self.starts[1:]]
        if not self.rows:
            self.pending = True

    def seqs(self):
        b = self.starts + [len(self.rows)]
        return [self.rows[b[i]:b[i + 1]] for i in range(len(self.starts))]


def compare(sim, agent, m, what):
    h = agent.history
    n = len(m.rows)
    sim.check(len(h) == n, 'history-length', lambda: '%s: history holds %d interactions, %d were completed (last: %s)'
              % (what, len(h), n, short(m.rows[-2:])))
    got = [[(np.asarray(s, float).ravel().tolist(), np.asarray(a, float).ravel().tolist(), float(np.asarray(r).ravel()[0]))
            for s, a, r in zip(*h.getSequence(i))] for i in range(h.getNumSequences())]
    if got and not got[-1] and m.pending:
        got.pop()                   # the episode that was opened last has nothing in it yet
    exp = m.seqs()
    flat = [r for s in got for r in s]
    sim.check(flat == m.rows, 'history-content', lambda: '%s: history is %s, completed interactions were %s' % (what, short(flat, 400), short(m.rows, 400)))
    sim.check(got == exp, 'history-episodes', lambda: '%s: history has episodes of lengths %s, they were %s'
              % (what, [len(s) for s in got], [len(s) for s in exp]))


def run(sim):
    from pybrain.rl.experiments import Experiment, ContinuousExperiment, EpisodicExperiment
    from pybrain.rl.experiments.queued import QueuedExperiment
    from pybrain.rl.learners.valuebased.linearfa import LinearFALearner
    sim.seed_globals()
    kind = sim.choice(KINDS)
    discrete = kind == 'table'
    env = R.make_env(sim, discrete)
    if kind in ('nfq', 'linfa'):
        env.numActions = sim.int(1, 3)
        env.indim = 1
    if kind == 'linfa':
        env.scale = lambda v: max(-1.0, min(1.0, v))     # keeps the learner from diverging
    how = sim.choice(('steps', 'continuous', 'episodes', 'episodes', 'queued'))
    task = R.make_task(sim, env, how in ('episodes', 'queued'), sim.int(1, 5))
    agent = build(sim, kind, env)
    linfa = kind == 'linfa'
    can_learn = kind in ('table',) or (linfa and how != 'queued')
    exp = {'steps': Experiment, 'continuous': ContinuousExperiment, 'episodes': EpisodicExperiment,
           'queued': QueuedExperiment}[how](task, agent)
    m = Model()
    logging = True
    total_steps = 0
    sim.log('agent', kind, type(getattr(agent, 'learner', None)).__name__, 'experiment', how)
    for k in sim.ops(10, 30):
        op = sim.weighted([(10, 'go'), (2, 'newEpisode'), (1, 'reset'), (3, 'misuse'), (1, 'logging'), (1, 'learning'),
                           (2, 'learn')])
        R.arm(sim, env)
        failed = None
        n = sim.int(1, 4)
        before = len(m.rows)
        sim.log(op, n, sorted(env.faults.items()))
        if op == 'go':
            r = None
            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    if how == 'queued' and can_learn and sim.chance(0.5) and logging:
                        q, c = sim.int(1, 3), sim.int(0, 3)
                        queue_run(sim, env, exp, agent, m, q, c)
                    elif how in ('episodes', 'queued'):
                        r = exp.doEpisodes(n)
                    elif how == 'continuous' and can_learn and logging:
                        r = exp.doInteractionsAndLearn(n)
                    else:
                        r = exp.doInteractions(n)
            except R.EnvFault as e:
                failed = e
                sim.probe('interaction-failed-in-' + str(e))
            m.absorb(env.log, logging)
            if r is not None:
                if how in ('episodes', 'queued'):
                    sim.check(len(r) == n, 'rewards-returned', lambda: '%d episodes returned %d reward lists' % (n, len(r)))
                    if logging:
                        k0 = m.seqs()[-n:]
                        want = [[x[2] for x in s] for s in k0]
                        sim.check([[float(np.ravel(x)[0]) for x in s] for s in r] == want, 'rewards-returned',
                                  lambda: 'doEpisodes returned rewards %s, history says %s' % (r, want))
                else:
                    sim.check(r == exp.stepid, 'step-count', lambda: 'returned %s, stepid %s' % (r, exp.stepid))
        elif op == 'newEpisode':
            env.faults.clear()
            agent.newEpisode()
            if logging:
                m.pending = True
        elif op == 'reset':
            env.faults.clear()
            agent.reset()
            m.clear()
            sim.check(agent.lastobs is None and agent.lastaction is None and agent.lastreward is None,
                      'reset-incomplete', 'after reset() the agent still holds a half-finished interaction')
            # only LearningAgent and LinearFA_Agent document more than the history
        elif op == 'logging':
            logging = not logging
            agent.logging = logging
            env.faults.clear()
            agent.newEpisode()
            if logging:
                m.pending = True
        elif op == 'learning' and not linfa and getattr(agent, 'learner', None) is not None and kind != 'gradient':
            agent.learning = not agent.learning
        elif op == 'learn' and can_learn and logging and m.rows and not linfa:
            env.faults.clear()
            agent.learn()
            sim.probe('learned')
        elif op == 'misuse':
            misuse(sim, env, task, agent, m, logging, linfa)
        env.faults.clear()
        compare(sim, agent, m, '%s agent after %s%s' % (kind, op, ' (failed: %s)' % failed if failed else ''))
        sim.state(kind, how, op, str(failed), min(len(m.rows), 9), len(m.starts) > 1, logging)


def queue_run(sim, env, exp, agent, m, q, cycles):
    """QueuedExperiment: a queue of q episodes, each cycle drops the oldest and adds one"""
    m.absorb(env.log, True)
    start = len(env.log)
    drops = []
    old = agent.learn

    def learn(*a):
        m.absorb(env.log, True)
        compare(sim, agent, m, 'when the queue learns')
        sim.check(len(m.starts) == q, 'queue-length', lambda: 'the queue of %d episodes holds %d when learning' % (q, len(m.starts)))
        drops.append(1)
        old(*a)
        m.drop_first()
    agent.learn = learn
    m.clear()
    try:
        exp.run(q, cycles)
        sim.check(len(drops) == cycles, 'queue-cycles', lambda: '%d learning cycles for %d asked' % (len(drops), cycles))
        sim.probe('queue-completed')
    finally:
        del agent.learn


def misuse(sim, env, task, agent, m, logging, linfa):
    """calls in the wrong order are refused and change nothing"""
    env.faults.clear()
    seq = []
    state = 'start'
    agent.integrateObservation(task.getObservation())
    state = 'obs'
    for _ in range(sim.int(1, 5)):
        c = sim.choice(('obs', 'act', 'rew'))
        seq.append(c)
        if c == 'obs':
            agent.integrateObservation(task.getObservation())
            state = 'obs'
        elif c == 'act':
            if linfa and state != 'obs':
                continue
            try:
                a = agent.getAction()
                env.log.append(('act', np.asarray(a, float).ravel().tolist()))
                ok = True
            except AssertionError:
                ok = False
                sim.probe('misuse-refused')
            sim.check(ok == (state == 'obs'), 'call-order', lambda: 'getAction %s after calls %s'
                      % ('accepted' if ok else 'refused', seq))
            if ok:
                state = 'act'
        else:
            r = sim.value()
            try:
                agent.giveReward(r)
                ok = True
            except AssertionError:
                ok = False
                sim.probe('misuse-refused')
            sim.check(ok == (state == 'act'), 'call-order', lambda: 'giveReward %s after calls %s'
                      % ('accepted' if ok else 'refused', seq))
            if ok:
                env.log.append(('rew', r))
                state = 'rew'
    sim.log('misuse', seq)
    m.absorb(env.log, logging)
