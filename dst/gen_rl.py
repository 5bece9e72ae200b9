"""Environments, tasks and agents for the reinforcement-learning properties: the environment
records what it really did, and fails where the simulator says so."""
import numpy as np


class EnvFault(Exception):
    pass


def make_env(sim, discrete):
    from pybrain.rl.environments import Environment

    class SimEnv(Environment):
        def __init__(self):
            self.discrete = discrete
            if discrete:
                self.nstates = sim.int(2, 5)
                self.numActions = sim.int(1, 3)
                self.indim = 1
                self.outdim = 1
                self.discreteStates = self.discreteActions = True
            else:
                self.indim = sim.int(1, 3)
                self.outdim = sim.int(1, 3)
            self.scale = float
            self.log = []           # what happened, in order
            self.faults = {}
            self.steps = 0
            self.resets = 0
            self.reward = 0.0
            self.rewards = []

        def maybe(self, where):
            n = self.faults.get(where)
            if n is not None:
                if n == 0:
                    del self.faults[where]
                    sim.fault('fails-in-' + where)
                    raise EnvFault(where)
                self.faults[where] = n - 1

        def getSensors(self):
            self.maybe('getSensors')
            if self.discrete:
                obs = np.array([float(sim.draw(self.nstates))])
            else:
                obs = np.array([self.scale(sim.value()) for _ in range(self.outdim)])
            self.log.append(('obs', obs.tolist()))
            return obs

        def performAction(self, action):
            self.maybe('performAction-before')
            a = np.asarray(action, dtype=float).ravel()
            self.log.append(('act', a.tolist()))
            self.steps += 1
            self.reward = self.scale(sim.value())
            self.rewards.append(self.reward)
            self.maybe('performAction-after')

        def reset(self):
            self.log.append(('reset',))
            self.maybe('reset')
            self.resets += 1
            self.steps = 0
    return SimEnv()


FAULTS = ('getSensors', 'performAction-before', 'performAction-after', 'reset', 'getReward', 'isFinished', 'module')


def make_task(sim, env, episodic, maxlen=None):
    from pybrain.rl.environments import Task, EpisodicTask
    base = EpisodicTask if episodic else Task

    class SimTask(base):
        inside = False

        def performAction(self, action):
            self.inside = True
            try:
                base.performAction(self, action)
            finally:
                self.inside = False

        def getReward(self):
            self.env.maybe('getReward')
            if not self.inside:
                self.env.log.append(('rew', self.env.reward))
            return self.env.reward

        def isFinished(self):
            self.env.maybe('isFinished')
            return self.env.steps >= maxlen
    return SimTask(env)


def arm(sim, env, p=0.35, where=FAULTS, span=8):
    """maybe make one coming call fail"""
    env.faults.clear()
    if sim.chance(p):
        env.faults[sim.choice(where)] = sim.draw(span)


def failing_module(sim, module, env):
    """the module's computation may raise, as a user-defined one can"""
    cls = module.__class__

    class Failing(cls):
        def activate(self, inpt):
            env.maybe('module')
            return cls.activate(self, inpt)
    Failing.__name__ = cls.__name__
    module.__class__ = Failing
    return module


def memory_net(sim, indim, outdim, hidden=2, p=0.5, **kw):
    """a small network, maybe with memory"""
    from pybrain.tools.shortcuts import buildNetwork
    from pybrain.structure import FullConnection
    rec = sim.chance(p)
    net = buildNetwork(indim, hidden, outdim, recurrent=rec, **kw)
    if rec:
        net.addRecurrentConnection(FullConnection(net['hidden0'], net['hidden0'], name='memory'))
        net.sortModules()
    return net
