"""P06: an episodic evaluation depends on nothing that happened before it, and adds up exactly
the rewards the agent is shown."""
import numpy as np

from dst import gen_rl as R
from dst.core import short


def setup():
    import pybrain.rl.environments.simple, pybrain.rl.environments.mazes.tasks  # noqa
    import pybrain.rl.environments.simple.tasks, pybrain.rl.environments.simple.environment  # noqa
    import pybrain.rl.environments.classic.mountaincar, pybrain.rl.environments.classic.acrobot  # noqa
    import pybrain.rl.environments.classic.xor, pybrain.rl.environments.mazes.tasks.mdp  # noqa
    import pybrain.rl.environments.shipsteer, pybrain.tools.shortcuts, pybrain.structure  # noqa
    import pybrain.rl.experiments, pybrain.rl.agents  # noqa


def close(a, b):
    a, b = float(np.ravel(a)[0]), float(np.ravel(b)[0])
    return a == b or abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))


def run(sim):
    sim.seed_globals()
    (user_task if sim.chance(0.5) else builtin)(sim)


# --- a user-defined task on a simulated environment --------------------------------------------

def user_task(sim):
    from pybrain.rl.agents.agent import Agent
    from pybrain.rl.experiments import EpisodicExperiment
    env = R.make_env(sim, False)
    env.scale = lambda v: max(-50.0, min(50.0, v))
    maxlen = sim.int(1, 6)
    task = R.make_task(sim, env, True, maxlen)
    task.batchSize = sim.choice((1, 1, 2, 3))
    task.discount = sim.choice((None, None, 0.9, 0.5, 1.0))
    lim = lambda n: None if sim.chance(0.4) else [None if sim.chance(0.2) else sim.choice(((-1.0, 1.0), (0.0, 1.0), (-3.0, 5.0), (2.0, 2.5)))
                                                  for _ in range(n)]
    task.setScaling(lim(env.outdim), lim(env.indim))
    task.clipping = sim.chance(0.7)
    shown, done = [], []

    class User(Agent):
        def integrateObservation(self, obs):
            shown.append(np.array(obs, dtype=float).tolist())

        def getAction(self):
            env.maybe('module')
            a = sim.vec(env.indim)
            done.append(a)
            return np.array(a)

        def giveReward(self, r):
            got.append(r)
    got = []
    agent = User()
    net = R.memory_net(sim, env.outdim, env.indim)
    ref = net.copy()
    net = R.failing_module(sim, net, env)
    sim.log('task', env.outdim, env.indim, 'maxlen', maxlen, 'batch', task.batchSize, 'discount', task.discount,
            task.sensor_limits, task.actor_limits, task.clipping)
    for k in sim.ops(6, 15):
        R.arm(sim, env, 0.35, where=[w for w in R.FAULTS])
        op = sim.choice(('agent', 'module', 'episodes', 'steps'))
        sim.log(op, sorted(env.faults.items()))
        pos = len(env.log)
        del shown[:], done[:], got[:]
        val = None
        try:
            if op == 'agent':
                val = task.f(agent)
            elif op == 'module':
                val = task.f(net)
            elif op == 'episodes':
                EpisodicExperiment(task, agent).doEpisodes(1)
                val = task.getTotalReward()
            else:
                task.reset()
                sim.check(task.getTotalReward() == 0 and task.samples == 0, 'reset-incomplete',
                          'after reset() the task reports reward %s over %s samples' % (task.getTotalReward(), task.samples))
                for i in range(sim.int(0, maxlen)):
                    o = task.getObservation()
                    agent.integrateObservation(o)
                    task.performAction(agent.getAction())
                    agent.giveReward(task.getReward())
                val = task.getTotalReward()
        except R.EnvFault as e:
            sim.probe('evaluation-failed')
            sim.state('fault', op, str(e))
            continue
        env.faults.clear()
        log = env.log[pos:]
        # split into episodes at the resets
        eps, cur = [], None
        for e in log:
            if e[0] == 'reset':
                cur = []
                eps.append(cur)
            else:
                cur.append(e)
        n = 1 if op in ('episodes', 'steps') else task.batchSize
        sim.check(len(eps) == n, 'episode-count', lambda: '%d episodes played, %d expected' % (len(eps), n))
        tot = 0.0
        acts = [e[1] for e in log if e[0] == 'act']
        obs = [e[1] for e in log if e[0] == 'obs']
        if op != 'steps':
            for ep in eps:
                sim.check(len([e for e in ep if e[0] == 'act']) == maxlen, 'episode-length', lambda: 'episode %s' % short(ep))
        ri = 0
        rews = env.rewards[-len(acts):] if acts else []
        for ep in eps:
            c = 0.0
            for i in range(len([e for e in ep if e[0] == 'act'])):
                d = 1.0 if not task.discount else task.discount ** (i + 1)
                c += d * rews[ri]
                ri += 1
            tot += c
        sim.check(close(val, tot / n), 'total-reward', lambda: '%s: total reward %r, the rewards given add up to %r (%s, discount %s)'
                  % (op, val, tot / n, rews, task.discount))
        if op == 'module':
            sl, al = task.sensor_limits or [None] * env.outdim, task.actor_limits or [None] * env.indim
            for ep in eps:
                ref.reset()
                eo, ea = [e[1] for e in ep if e[0] == 'obs'], [e[1] for e in ep if e[0] == 'act']
                for i, (o, a) in enumerate(zip(eo, ea)):
                    out = ref.activate(np.array([scale(v, l, task.clipping) for v, l in zip(o, sl)]))
                    exp = [unscale(v, l, task.clipping) for v, l in zip(out, al)]
                    sim.check(np.allclose(a, exp, 1e-9, 1e-9), 'action-of-module', lambda: 'step %d of an episode: module shown %s executes %s, expected %s'
                              % (i, o, a, exp))
        if op != 'module':
            sim.check([float(x) for x in got] == rews, 'rewards-shown', lambda: 'agent was given %s, environment gave %s' % (got, rews))
            for s, o in zip(shown, obs):
                exp = [scale(v, l, task.clipping) for v, l in zip(o, task.sensor_limits or [None] * len(o))]
                sim.check(np.allclose(s, exp, 1e-9, 1e-9), 'observation-scaling', lambda: 'sensors %s with limits %s shown as %s' % (o, task.sensor_limits, s))
            for a, e in zip(done, acts):
                exp = [unscale(v, l, task.clipping) for v, l in zip(a, task.actor_limits or [None] * len(a))]
                sim.check(np.allclose(e, exp, 1e-9, 1e-9), 'action-scaling', lambda: 'action %s with limits %s executed as %s' % (a, task.actor_limits, e))
        sim.state(op, n, task.discount, task.sensor_limits is None, task.actor_limits is None, task.clipping, maxlen)


def scale(v, l, clipping):
    if not l:
        return v
    r = (v - l[0]) / (l[1] - l[0]) * 2 - 1.0
    return min(1.0, max(-1.0, r)) if clipping else r


def unscale(v, l, clipping):
    if not l:
        return v
    r = (v + 1.0) / 2 * (l[1] - l[0]) + l[0]
    return min(l[1], max(l[0], r)) if clipping else r


# --- the tasks that come with the library ------------------------------------------------------

class Stop(Exception):
    pass


def make_builtin(kind, par):
    from pybrain.rl.environments.simple.environment import SimpleEnvironment
    from pybrain.rl.environments.simple.tasks import MinimizeTask
    from pybrain.rl.environments.mazes.tasks import maze, tmaze, cheesemaze, maze4x3, maze89state, shuttle, tiger
    from pybrain.rl.environments.classic import mountaincar, acrobot
    from pybrain.rl.environments.shipsteer import ShipSteeringEnvironment, GoNorthwardTask
    if kind == 'minimize':
        e = SimpleEnvironment(1 + par % 3)
        if par % 2:
            e.setNoise(0.1)
        return MinimizeTask(e)
    if kind == 'ship':
        return GoNorthwardTask(ShipSteeringEnvironment(render=False), maxsteps=1 + par % 12)
    if kind in ('mountaincar', 'acrobot', 'acrobot1', 'acrobot2', 'swinger'):
        t = dict(mountaincar=mountaincar.MountainCar, acrobot=acrobot.AcrobotTask, acrobot1=acrobot.SimpleAcrobot,
                 acrobot2=acrobot.VerySimpleAcrobot, swinger=acrobot.SingleArmSwinger)[kind]()
        t.maxSteps = 5 + par % 40
        if kind == 'mountaincar':
            t.goalPos = -0.5 + 0.005 * (par % 7)
        return t
    cls = dict(trivial=maze.TrivialMaze, tmaze=tmaze.TMaze, cheese=cheesemaze.CheeseMaze, maze4x3=maze4x3.FourByThreeMaze,
               maze89=maze89state.EightyNineStateMaze, shuttle=shuttle.ShuttleDocking, tiger=tiger.TigerTask)[kind]
    kw = dict(maxSteps=3 + par % 25)
    if kind == 'tmaze':
        kw['length'] = 1 + par % 4
    if kind == 'tiger':
        t = cls(**kw)
        t.reset()
        return t
    return cls(**kw)


POMDP = ('trivial', 'tmaze', 'cheese', 'maze4x3', 'maze89', 'shuttle', 'tiger')
CLASSIC = ('mountaincar', 'acrobot', 'acrobot1', 'acrobot2', 'swinger')
KINDS = ('minimize', 'ship', 'mdp', 'xor') + POMDP + CLASSIC


def user_agent(base, sim, kind, task, table, fail):
    """a fixed policy, for which only its observations count; fails at its `fail`-th action"""
    class Fixed(base):
        n = 0
        rewards = None

        def integrateObservation(self, obs):
            self.obs = [round(float(x), 6) for x in np.ravel(obs)]

        def getAction(self):
            self.n += 1
            if self.n == fail[0]:
                fail[0] = 0
                sim.fault('agent-fails')
                raise Stop()
            h = int(sum((i + 1) * x * 7 for i, x in enumerate(self.obs))) + self.n
            if kind in POMDP:
                a = table[h % len(table)] % task.actions
                if table[-1] % 2:
                    return a
                v = np.zeros(task.actions)
                v[a] = 1.0
                return v
            if kind in CLASSIC:
                return table[h % len(table)] % 3
            return np.array([(table[(h + i) % len(table)] % 9 - 4) / 4.0 for i in range(task.indim)])

        def giveReward(self, r):
            if self.rewards is None:
                self.rewards = []
            self.rewards.append(float(np.ravel(r)[0]))

        def newEpisode(self):
            self.n = 0
            self.rewards = []
    return Fixed()


def builtin(sim):
    import random
    from pybrain.rl.agents.agent import Agent
    kind = sim.choice(KINDS)
    if kind == 'mdp':
        return mdp(sim)
    if kind == 'xor':
        return xor(sim)
    par = sim.draw(1000)
    task = make_builtin(kind, par)
    table = [sim.draw(360) for _ in range(5)]
    fail = [0]
    agent = user_agent(Agent, sim, kind, task, table, fail)
    net = module_for(sim, kind, task, fail)
    sim.log(kind, par, table)
    used = 0
    for k in sim.ops(5, 12):
        op = sim.choice(('agent', 'module', 'steps', 'compare', 'compare'))
        who = net if (op == 'module' and net is not None) else agent
        if op != 'compare' and sim.chance(0.6):
            fail[0] = sim.int(1, 12)
        sim.log(op, fail[0])
        task.batchSize = sim.choice((1, 1, 2))
        if op == 'compare':
            fail[0] = 0
            s = sim.draw(1 << 20)
            who = net if (net is not None and sim.chance(0.4)) else agent
            vals = []
            fresh = make_builtin(kind, par)
            fresh.batchSize = task.batchSize
            for t in (task, fresh):
                np.random.seed(s)
                random.seed(s)
                r = t.f(who)
                vals.append((float(np.ravel(r)[0]), getattr(t, 'samples', None), float(np.ravel(t.getTotalReward())[0])))
                if who is agent:
                    account(sim, kind, t, agent)
            sim.check(vals[0] == vals[1] or all(close(a, b) for a, b in zip(*vals) if a is not None), 'depends-on-history',
                      lambda: '%s: the same evaluation gave %s on a task that was used before and %s on a new one' % (kind, vals[0], vals[1]))
            sim.state(kind, 'compare', used, who is agent)
            if used:
                sim.probe('compared-after-abort' if used > 1 else 'compared-after-use')
        else:
            try:
                if op == 'steps':
                    task.reset()
                    agent.newEpisode()
                    for _ in range(sim.int(0, 6)):
                        if task.isFinished():
                            break
                        agent.integrateObservation(task.getObservation())
                        task.performAction(agent.getAction())
                        agent.giveReward(task.getReward())
                else:
                    task.f(who)
                used = max(used, 1)
            except Stop:
                used = 2
                sim.probe('evaluation-aborted')
            finally:
                fail[0] = 0


def account(sim, kind, t, agent):
    """the last episode's total is what its rewards add up to"""
    tot, rs = float(np.ravel(t.getTotalReward())[0]), agent.rewards
    if kind in CLASSIC:
        exp = 0.0
        for r in rs:
            exp += r
            if r:
                break
        sim.check(close(tot, exp), 'total-reward', lambda: '%s: total reward %r, first rewards %s' % (kind, tot, short(rs)))
        return
    d = getattr(t, 'discount', None)
    exp = sum((d ** (i + 1) if d else 1.0) * r for i, r in enumerate(rs))
    sim.check(close(tot, exp), 'total-reward', lambda: '%s: total reward %r, the rewards given (%s, discount %s) add up to %r'
              % (kind, tot, short(rs), d, exp))
    sim.check(t.samples == len(rs), 'sample-count', lambda: '%s: %d samples counted, %d actions taken' % (kind, t.samples, len(rs)))


def module_for(sim, kind, task, fail):
    from pybrain.tools.shortcuts import buildNetwork
    from pybrain.structure import SoftmaxLayer, LinearLayer
    if kind in CLASSIC:
        return None
    net = R.memory_net(sim, task.outdim, task.indim, outclass=SoftmaxLayer if kind in POMDP else LinearLayer)
    cls = net.__class__

    class Failing(cls):
        n = 0

        def reset(self):
            self.n = 0
            cls.reset(self)

        def activate(self, inpt):
            self.n += 1
            if fail[0] and self.n == fail[0]:
                fail[0] = 0
                sim.fault('module-fails')
                raise Stop()
            return cls.activate(self, inpt)
    net.__class__ = Failing
    return net


# --- tasks without an end ------------------------------------------------------------------------

def mdp(sim):
    """walk in a random maze: positions are told apart, walls hold, the goal pays and restarts"""
    from pybrain.rl.environments.mazes import Maze
    from pybrain.rl.environments.mazes.tasks.mdp import MDPMazeTask
    rows, cols = sim.int(1, 4), sim.int(1, 4)
    top = np.ones((rows + 2, cols + 2))
    free = [(i + 1, j + 1) for i in range(rows) for j in range(cols) if sim.chance(0.75)]
    if len(free) < 2:
        return
    for f in free:
        top[f] = 0
    goal = free[sim.draw(len(free))]
    env = Maze(top, goal)
    task = MDPMazeTask(env)
    seen = {}
    sim.log('mdp', free, goal)
    task_obs = lambda: int(task.getObservation()[0])
    for k in sim.ops(15, 40):
        p = env.perseus
        o = task_obs()
        sim.check(seen.setdefault(o, p) == p, 'states-confused', lambda: 'observation %d stands for %s and %s in a %dx%d maze'
                  % (o, seen[o], p, rows + 2, cols + 2))
        sim.check(0 <= o < (rows + 2) * (cols + 2), 'observation-range', lambda: 'observation %d' % o)
        s = env.getSensors()
        a = sim.draw(4)
        d = [(1, 0), (0, 1), (-1, 0), (0, -1)][a]
        nxt = (p[0] + d[0], p[1] + d[1])
        blocked = nxt not in free
        sim.check(bool(s[a]) == blocked, 'wall-sensor', lambda: 'at %s facing %s: sensor %s, wall %s' % (p, d, s, blocked))
        task.performAction(np.array([float(a)]))
        exp = p if blocked else nxt
        sim.check(env.perseus == exp, 'movement', lambda: 'moved from %s in direction %s to %s' % (p, d, env.perseus))
        sim.check(env.bang == blocked, 'bang', lambda: 'bang is %s' % env.bang)
        r = task.getReward()
        sim.check(r == (1.0 if exp == goal else 0.0), 'reward', lambda: 'reward %s at %s, goal %s' % (r, exp, goal))
        if exp == goal:
            sim.check(env.perseus in free and env.perseus != goal, 'restart', lambda: 'restarted at %s' % (env.perseus,))
            sim.probe('maze-goal')
        sim.state('mdp', rows, cols, blocked, exp == goal)


def xor(sim):
    from pybrain.rl.environments.classic.xor import XORTask, XORChainTask
    chain = sim.chance(0.5)
    t = (XORChainTask if chain else XORTask)()
    t.and_task = sim.chance(0.4)
    st, tot, n = 0, 0, 0
    for k in sim.ops(10, 30):
        o = [int(x) for x in t.getObservation()]
        e = [st % 2, (st // 2) % 2, 1] if chain else [n % 2, (n // 2) % 2, 1]
        sim.check(o == e, 'xor-observation', lambda: '%s, expected %s' % (o, e))
        n += 1
        a = sim.draw(2)
        good = a == ((o[0] & o[1]) if t.and_task else (o[0] ^ o[1]))
        t.performAction(a)
        if chain:
            st = min(st + 1, 3) if good else 0
        r = t.getReward()
        sim.check(r == (1 if good else -1), 'xor-reward', lambda: 'reward %s for action %d on %s' % (r, a, o))
        tot += r
        sim.check(t.getTotalReward() == tot, 'total-reward', lambda: 'xor total %s, rewards add up to %s' % (t.getTotalReward(), tot))
        sim.state('xor', chain, t.and_task, st, good)
