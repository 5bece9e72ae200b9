"""P20: environments follow their documented rules over any history of actions, queries, resets and interrupts."""
import math
import random

import numpy as np

from dst import fakeplot, seams
from dst.core import short


class Dice(object):
    """the random generators of the library: ordinary, or scripted by the simulator"""
    mode = None          # None | 'quiet' | 'loud' | 'mixed'
    sim = None
    c = 0.0              # every normal draw is loc + scale * c


dice = Dice()


def install():
    real_random, real_choice, real_normal = random.random, random.choice, np.random.normal

    def rnd():
        if dice.mode == 'quiet':
            return 0.9999999
        if dice.mode == 'loud':
            return 0.0
        if dice.mode == 'mixed':
            return dice.sim.choice((0.0, 0.9999999, 0.05, 0.5))
        return real_random()

    def choice(seq):
        if dice.mode is not None:
            return seq[dice.sim.draw(len(seq))]
        return real_choice(seq)

    def normal(loc=0.0, scale=1.0, size=None):
        if dice.mode is None:
            return real_normal(loc, scale, size)
        res = np.asarray(loc, dtype=float) + np.asarray(scale, dtype=float) * dice.c
        if size is not None:
            res = res + np.zeros(size)
        return res
    random.random, random.choice, np.random.normal = rnd, choice, normal


def setup():
    install()
    fakeplot.install()
    import pybrain.rl.environments.cartpole  # noqa
    import pybrain.rl.environments.cartpole.balancetask  # noqa
    import pybrain.rl.environments.shipsteer, pybrain.rl.environments.simple.environment  # noqa
    import pybrain.rl.environments.mazes.tasks, pybrain.rl.environments.mazes  # noqa
    import pybrain.rl.environments.classic.mountaincar, pybrain.rl.environments.classic.acrobot  # noqa


def run(sim):
    sim.seed_globals()
    dice.sim = sim
    dice.mode = None
    dice.c = 0.0
    try:
        kind = sim.weighted([(4, 'pole'), (2, 'ship'), (2, 'car'), (2, 'acrobot'), (1, 'simple'), (3, 'maze'), (3, 'pomdp'), (1, 'odds')])
        sim.log(kind)
        dict(pole=pole, ship=ship, car=car, acrobot=acrobot, simple=simple, maze=maze, pomdp=pomdp, odds=odds)[kind](sim)
    finally:
        dice.mode = None
        dice.sim = None


def near(a, b, tol=1e-9):
    a, b = np.ravel(np.asarray(a, dtype=float)), np.ravel(np.asarray(b, dtype=float))
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * np.maximum(1.0, np.abs(b))))


def hit(sim, fn, p=0.08):
    """run fn, perhaps interrupted at some line; -> whether it was"""
    if not sim.chance(p):
        fn()
        return False
    try:
        with seams.Interrupter(sim, sim.int(1, 30)):
            fn()
    except KeyboardInterrupt:
        sim.probe('interrupted')
        return True
    return False


# --- carts and poles ------------------------------------------------------------------------------

def pole_step(x, F, l, mp, mc=1.0, g=9.81, dt=0.02):
    """equations of motion of the cart-pole benchmark, classic Runge-Kutta"""
    def d(x):
        th, w, _, v = x
        s, c = math.sin(th), math.cos(th)
        u = (g * s * (mc + mp) - (F + mp * l * w * w * s) * c) / (4.0 / 3.0 * l * (mc + mp) - mp * l * c * c)
        a = (F - mp * l * (u * c - w * w * s)) / (mc + mp)
        return np.array((w, u, v, a))
    x = np.array(x, dtype=float)
    k1 = d(x)
    k2 = d(x + dt / 2 * k1)
    k3 = d(x + dt / 2 * k2)
    k4 = d(x + dt * k3)
    return x + dt / 6 * (k1 + 2 * k2 + 2 * k3 + k4)


class Bodies(object):
    """one or two poles, each with (angle, velocity, position, velocity)"""
    def __init__(self, kind, length):
        self.kind = kind
        self.par = [(length or 0.5, 0.1)]
        if 'double' in kind:
            self.par = [(0.5, 0.1), (0.05, 0.01)]
        self.x = None

    def act(self, F):
        self.x = [pole_step(x, F, l, m) for x, (l, m) in zip(self.x, self.par)]

    def full(self):
        if len(self.x) == 1:
            return list(self.x[0])
        a, b = self.x
        return [a[0], a[1], b[0], b[1], b[2], b[3]]

    def sensors(self):
        f = self.full()
        return f[::2] if 'nonmarkov' in self.kind else f

    def angles(self):
        return [x[0] for x in self.x]

    def pos(self):
        return self.x[-1][2]


def pole(sim):
    from pybrain.rl.environments.cartpole import cartpole as cp, doublepole, nonmarkovpole, nonmarkovdoublepole, balancetask as bt
    kind = sim.choice(('single', 'double', 'nonmarkov', 'nonmarkovdouble', 'lin'))
    length = sim.float(0.1, 1.0) if kind in ('single', 'nonmarkov') and sim.chance(0.4) else None
    rand_init = sim.chance(0.8)
    cls = dict(single=cp.CartPoleEnvironment, double=doublepole.DoublePoleEnvironment, nonmarkov=nonmarkovpole.NonMarkovPoleEnvironment,
               nonmarkovdouble=nonmarkovdoublepole.NonMarkovDoublePoleEnvironment, lin=cp.CartPoleLinEnvironment)[kind]
    env = cls(length) if length else cls()
    if kind == 'lin':
        return lin(sim, env)
    b = Bodies(kind, length)
    N = sim.choice((3, 10, 40, 1000))
    names = ['BalanceTask', 'JustBalanceTask', 'EasyBalanceTask', 'DiscreteBalanceTask', 'DiscreteNoHelpTask']
    if kind == 'single':
        names += ['DiscretePOMDPTask', 'DiscreteBalanceTaskRBF']
    if kind == 'double':
        names += ['DiscreteDoubleBalanceTaskRBF']
    name = sim.choice(names + [None, None])
    task = getattr(bt, name)(env, maxsteps=N) if name else None
    discrete = bool(name) and name.startswith('Discrete')
    dice.mode, dice.c = 'quiet', 0.0

    def sync():
        """start from where the environment has put the bodies"""
        if 'double' in kind:
            b.x = [np.array(env.p1.sensors, dtype=float), np.array(env.p2.sensors, dtype=float)]
        else:
            b.x = [np.array(env.sensors, dtype=float)]
        for x in b.x:
            sim.check(abs(x[0]) <= 0.2 + 1e-12 and abs(x[2]) <= 0.5 + 1e-12 and x[1] == x[3] == 0, 'start', lambda: 'the start is %s' % short(b.x))
        if len(b.x) == 2:
            sim.check(b.x[0][2] == b.x[1][2], 'start', 'the poles start on two carts')
    sync()
    t = 0
    sim.log(kind, length, name, N)

    def look():
        qs = ['sensors', 'angles', 'pos'] + (['obs', 'reward', 'finished'] if task else [])
        for q in sim.subset(qs):
            if q == 'sensors':
                got, exp = env.getSensors(), b.sensors()
            elif q == 'angles':
                got, exp = env.getPoleAngles(), b.angles()
            elif q == 'pos':
                got, exp = env.getCartPosition(), b.pos()
            elif q == 'obs':
                got, exp = task.getObservation(), observation(name, task, b)
            elif q == 'reward':
                got, exp = task.getReward(), reward(name, b, t, N)
            else:
                got, exp = task.isFinished(), finished(name, b, t, N)
            sim.check(near(got, exp), 'pole-' + q, lambda: '%s of %s after %d steps: %s, the bodies are %s, so it should be %s'
                      % (q, name or kind, t, short(got), short(b.full()), short(exp)))
    for k in sim.ops(14, 60):
        op = sim.weighted([(12, 'act'), (1, 'reset')])
        look()
        if op == 'reset':
            (task or env).reset()
            t = 0
            sync()
            continue
        if task is None:
            F = sim.float(-60, 60)
            fn = lambda: env.performAction(np.array([F]) if k % 2 else F)
        elif discrete:
            a = sim.draw(3)
            F = (a - 1) * 50.0
            fn = lambda: task.performAction(np.array([a]))
        else:
            a = sim.float(-1.3, 1.3)
            F = min(50.0, max(-50.0, a * 50.0))
            fn = lambda: task.performAction(np.array([a]))
        sim.log('act', F)
        if hit(sim, fn):
            (task or env).reset()
            t = 0
            sync()
            continue
        t += 1
        b.act(F)
        if not np.all(np.isfinite(b.full())) or max(map(abs, b.full())) > 1e3:
            return
        look()
        sim.state(kind, name, finished(name, b, t, N) if name else None, min(t, 6))
    sim.probe('pole-done')


def observation(name, task, b):
    if name == 'DiscretePOMDPTask':
        return [b.full()[0], b.full()[2]]
    if name.endswith('RBF'):
        s = b.full()[:-2]
        n = len(s) // 2
        cs = [[]]
        for _ in range(n):
            cs = [c + [p, q] for c in cs for p in (-math.pi / 4, 0.0, math.pi / 4) for q in (1.0, 0.0, -1.0)]
        return [1.0] + [math.exp(-sum((p - q) ** 2 for p, q in zip(c, s)) / 2) for c in cs]
    s = b.sensors()
    if name.startswith('Discrete'):
        return s
    lim = task.sensor_limits
    if len(lim) != len(s):
        return [None] * 99
    return [v if not l else min(1.0, max(-1.0, (v - l[0]) / (l[1] - l[0]) * 2 - 1.0)) for v, l in zip(s, lim)]


def finished(name, b, t, N):
    a, s = max(map(abs, b.angles())), abs(b.pos())
    if name.endswith('RBF'):
        return a > 1.6 or t >= N
    return a > 0.7 or s > 2.4 or t >= N


def reward(name, b, t, N):
    lo, hi, s = min(map(abs, b.angles())), max(map(abs, b.angles())), abs(b.pos())
    out = hi > 0.7 or s > 2.4
    if name.endswith('RBF'):
        return -1.0 if hi > 1.6 else 0.0
    if name == 'DiscreteNoHelpTask':
        return -1.0 * (N - t) if out else 0.0
    if name in ('DiscreteBalanceTask', 'DiscretePOMDPTask'):
        return 1.0 if lo < 0.05 else (-1.0 * (N - t) if out else 0.0)
    if name == 'JustBalanceTask':
        return 0 if lo < 0.05 else (-2 * (N - t) if out else -1)
    if lo < 0.05 and s < 0.05:
        return 0
    if out:
        return -2 * (N - t)
    return -s / 2 if name == 'EasyBalanceTask' else -1


def lin(sim, env):
    """the linearized cart-pole system of Peters et al., with its noise scripted"""
    from pybrain.rl.environments.cartpole.balancetask import LinearizedBalanceTask
    dice.mode = 'quiet'
    dice.c = sim.choice((0.0, 1.0, -2.5))
    N = sim.choice((4, 30))
    task = LinearizedBalanceTask(env, maxsteps=N) if sim.chance(0.6) else None
    sim.log('lin', dice.c, N, task is not None)
    (task or env).reset()
    tau, nu = 1.0 / 60.0, 13.2
    x = None
    t = 0
    u = 0.0
    for k in sim.ops(14, 60):
        if x is None:
            x = np.array(env.sensors, dtype=float).ravel()
            sim.check(near(x, [0.1 * dice.c] * 4), 'start', lambda: 'the start is %s' % short(x))
            t = 0
        if sim.chance(0.08):
            (task or env).reset()
            x = None
            continue
        u = sim.float(-3, 3)
        if task is not None:
            a = sim.float(-1.2, 1.2)
            u = min(50.0, max(-50.0, a * 50.0))
            fn = lambda: task.performAction(np.array([a]))
        else:
            fn = lambda: env.performAction(np.array([u]))
        sim.log('act', u)
        if hit(sim, fn):
            (task or env).reset()
            x = None
            continue
        t += 1
        x = np.array([x[0] + nu * tau * x[1] * 0 + nu * tau * 0, 0, 0, 0]) if False else np.array([
            x[0] + nu * tau * x[1], x[1] + tau * x[0], x[2], x[3] + tau * x[2]]) + u * np.array([0.0, nu * tau / 9.80665, 0.0, tau]) + 0.001 * dice.c
        if np.max(np.abs(x)) > 1e6:
            return
        sim.check(near(env.getSensors(), x), 'lin-sensors', lambda: 'after %d steps %s, by the linear model %s' % (t, short(env.getSensors()), short(x)))
        sim.check(near(env.getPoleAngles(), [x[0]]) and near(env.getCartPosition(), x[2]), 'lin-sensors', 'angle or position are not those of the state')
        if task is not None:
            f = abs(x[0]) > 0.5235988 or abs(x[2]) > 1.5 or t >= N
            sim.check(bool(task.isFinished()) == bool(f), 'lin-finished', lambda: 'finished: %s at %s, step %d of %d' % (task.isFinished(), short(x), t, N))
        sim.state('lin', dice.c, task is not None, min(t, 6))


# --- the ship -------------------------------------------------------------------------------------

def ship(sim):
    from pybrain.rl.environments.shipsteer import ShipSteeringEnvironment, GoNorthwardTask
    env = ShipSteeringEnvironment(render=False)
    N = sim.choice((3, 10, 1000))
    task = GoNorthwardTask(env, maxsteps=N) if sim.chance(0.6) else None
    dice.mode = 'quiet'
    c = dice.c = sim.choice((0.0, 0.0, 1.0, -2.0))
    sim.log('ship', c, N, task is not None)
    x = None
    t = 0
    hold, kept = sim.chance(0.5), None
    for k in sim.ops(150 if hold else 16, 250):
        if x is None:
            x = [float(v) for v in env.getSensors()]
            sim.check(abs(x[0]) <= 30 and x[1] == x[2] == 0, 'start', lambda: 'the ship starts at %s' % short(x))
            t = 0
        if sim.chance(0.01 if hold else 0.06):
            (task or env).reset()
            x = None
            continue
        if task is None:
            a = kept or [sim.float(-2, 3), sim.float(-120, 120)]
            thrust, rudder = a
            fn = lambda: env.performAction(np.array(a))
        else:
            a = kept or [sim.float(-1.2, 1.2), sim.float(-1.2, 1.2)]
            thrust, rudder = (min(1, max(-1, a[0])) + 1) / 2 * 3 - 1, min(1, max(-1, a[1])) * 90.0
            fn = lambda: task.performAction(np.array(a))
        sim.log('act', a)
        if hit(sim, fn, 0.01 if hold else 0.08):
            (task or env).reset()
            x = None
            continue
        t += 1
        # steering the same way for a while gets the ship to its limits
        kept = (kept or sim.choice((a, [a[0], 0.2], [-1.0, 0.3], [1.0, -0.3]))) if hold and not sim.chance(0.05) else None
        h, w, v = x
        thrust, rudder = min(2.0, max(-1.0, thrust)), min(90.0, max(-90.0, rudder))
        drag = 5 * h + rudder ** 2 + c
        v = min(40.0, max(-10.0, v + 4.0 * (30.0 * thrust - 2.0 * v - 0.02 * v * drag + 3.0 * c) / 1000.0))
        w2 = min(180.0, max(-180.0, w - v * (rudder + h + w + 10.0 * c) / 1000.0))
        h += (w2 + w) / 2.0
        h = h - 360.0 if h > 180.0 else h + 360.0 if h < -180.0 else h
        x = [h, w2, v]
        for q in sim.subset(['sensors', 'heading', 'speed'] + (['reward', 'finished', 'obs'] if task else [])):
            if q == 'sensors':
                got, exp = env.getSensors(), x
            elif q == 'heading':
                got, exp = env.getHeading(), h
            elif q == 'speed':
                got, exp = env.getSpeed(), v
            elif q == 'reward':
                if abs(abs(h) - 5.0) < 1e-6:
                    continue
                got, exp = task.getReward(), (v * 100.0 / N / 40.0 if abs(h) < 5.0 else 0.0)
            elif q == 'finished':
                got, exp = task.isFinished(), t >= N
            else:
                got = task.getObservation()
                exp = [min(1.0, max(-1.0, (s - l[0]) / (l[1] - l[0]) * 2 - 1.0)) for s, l in zip(x, ((-180., 180.), (-180., 180.), (-10., 40.)))]
            sim.check(near(got, exp, 1e-7), 'ship-' + q, lambda: '%s after %d steps: %s, should be %s' % (q, t, short(got), short(exp)))
        sim.state('ship', int(h // 30), v < 0, abs(w2) > 20, min(t, 5))


# --- car and acrobot --------------------------------------------------------------------------------

def car(sim):
    from pybrain.rl.environments.classic.mountaincar import MountainCar
    t = MountainCar()
    t.maxSteps = sim.choice((999, 5, 30))
    t.goalPos = sim.choice((0.45, 0.45, -0.45, -0.3, 2.0))
    x, n, over = [-0.5, 0.0], 0, False
    policy = sim.choice((None, 'pump', 'left', 0, 2))
    sim.log('car', t.maxSteps, t.goalPos, policy)
    for k in sim.ops(250 if t.goalPos == 2.0 else 60, 300):
        if sim.chance(0.005):
            t.reset()
            x, n, over = [-0.5, 0.0], 0, False
        a = sim.draw(3) if policy is None else (2 if x[1] >= 0 else 0) if policy == 'pump' else (1 if x[1] > 0 else 0) if policy == 'left' else policy
        sim.log('act', a)
        if hit(sim, lambda: t.performAction(a), 0.01):
            t.reset()
            x, n, over = [-0.5, 0.0], 0, False
            continue
        if not over:
            n += 1
            v = min(0.07, max(-0.07, x[1] + 0.001 * (a - 1) - 0.0025 * math.cos(3 * x[0])))
            p = x[0] + v
            if p <= -1.4:
                p, v = -1.4, 0.0
            x = [p, v]
            goal = p >= t.goalPos
            over = goal or n >= t.maxSteps
            sim.check(t.getReward() == (1 if goal else 0), 'car-reward', lambda: 'reward %s at %s' % (t.getReward(), short(x)))
        sim.check(near(t.getObservation(), [x[0], x[1] * 100, 1.0]), 'car-state', lambda: 'after %d steps %s, should be %s'
                  % (n, short(t.getObservation()), short(x)))
        if not over:
            sim.check(not t.isFinished(), 'car-finished', lambda: 'finished after %d steps at %s' % (n, short(x)))
        sim.state('car', int(x[0] * 10), x[1] > 0, over, t.isFinished())
        if over:
            # the end is noticed within three steps
            for _ in range(2):
                if t.isFinished():
                    break
                t.performAction(1)
            sim.check(t.isFinished(), 'car-finished', lambda: 'not finished after %d steps at %s' % (n, short(x)))
            t.reset()
            x, n, over = [-0.5, 0.0], 0, False


def acrobot(sim):
    from pybrain.rl.environments.classic import acrobot as ab
    cls = sim.choice((ab.AcrobotTask, ab.SimpleAcrobot, ab.VerySimpleAcrobot, ab.SingleArmSwinger))
    t = cls()
    t.maxSteps = sim.choice((999, 4, 30))
    t.easy_rewards = sim.chance(0.3)
    arm = cls is ab.SingleArmSwinger
    first = [math.pi, 0.0, 0.0, 0.0] if arm else [0.0] * 4
    x, n, over = list(first), 0, False
    policy = sim.choice((None, 'pump', 'pump', 0))
    sim.log(cls.__name__, t.maxSteps, t.easy_rewards, policy)
    for k in sim.ops(30, 120):
        if sim.chance(0.02):
            t.reset()
            x, n, over = list(first), 0, False
        a = sim.draw(3) if policy is None else (2 if x[3] >= 0 else 0) if policy == 'pump' else policy
        sim.log('act', a)
        if hit(sim, lambda: t.performAction(a)):
            t.reset()
            x, n, over = list(first), 0, False
            continue
        n += 1
        x = swing(x, a - 1.0)
        height = -math.cos(x[0]) - math.cos(x[1])
        goal = height >= t.target
        if abs(height - t.target) < 1e-9:
            return
        exp = (height * (10 if goal else 1)) if t.easy_rewards else (1 if goal else 0)
        sim.check(near(t.getReward(), exp, 1e-7), 'acrobot-reward', lambda: 'reward %s at %s, should be %s' % (t.getReward(), short(x), exp))
        if arm:
            x = [math.pi, x[1], 0.0, x[3]]
        obs = [v / math.pi for v in (x[2:] if arm else x)] + [1.0]
        sim.check(near(t.getObservation(), obs, 1e-7), 'acrobot-state', lambda: 'after %d steps %s, should be %s' % (n, short(t.getObservation()), short(obs)))
        over = goal or n >= t.maxSteps
        sim.state(cls.__name__, int(height * 2), over, t.easy_rewards, min(n, 4))
        if over:
            for _ in range(2):
                if t.isFinished():
                    break
                t.performAction(1)
            sim.check(t.isFinished(), 'acrobot-finished', lambda: 'not finished after %d steps, height %s' % (n, height))
            t.reset()
            x, n, over = list(first), 0, False
        else:
            sim.check(not t.isFinished(), 'acrobot-finished', lambda: 'finished after %d steps, height %s' % (n, height))


def swing(x, torque):
    th1, th2, w1, w2 = x
    g, dt = 9.8, 0.05
    for _ in range(4):
        d1 = 0.25 + (1.0 + 0.25 + math.cos(th2)) + 2.0
        d2 = 0.25 + 0.5 * math.cos(th2) + 1.0
        p2 = 0.5 * g * math.cos(th1 + th2 - math.pi / 2)
        p1 = -0.5 * w2 * math.sin(th2) * (w2 - 2 * w1) + 1.5 * g * math.cos(th1 - math.pi / 2) + p2
        a2 = (torque + p1 * d2 / d1 - 0.5 * w1 * w1 * math.sin(th2) - p2) / (1.25 - d2 * d2 / d1)
        a1 = -(d2 * a2 + p1) / d1
        w1 = min(4 * math.pi, max(-4 * math.pi, w1 + a1 * dt))
        th1 += w1 * dt
        w2 = min(9 * math.pi, max(-9 * math.pi, w2 + a2 * dt))
        th2 += w2 * dt
    wrap = lambda v: v + 2 * math.pi if v < -math.pi else v - 2 * math.pi if v > math.pi else v
    return [wrap(th1), wrap(th2), w1, w2]


def simple(sim):
    from pybrain.rl.environments.simple.environment import SimpleEnvironment
    n = sim.int(1, 3)
    e = SimpleEnvironment(n)
    noise = sim.choice((None, None, 0.5))
    e.setNoise(noise)
    dice.mode, dice.c = 'quiet', sim.choice((0.0, 1.0))
    x = [2.0] * n
    for k in sim.ops(8, 30):
        op = sim.weighted([(6, 'act'), (4, 'look'), (1, 'reset')])
        if op == 'act':
            a = sim.vec(n)
            sim.log('act', a)
            if hit(sim, lambda: e.performAction(a)):
                e.reset()
                x = [2.0] * n
                continue
            x = [s + 0.1 * v + (noise or 0) * dice.c for s, v in zip(x, a)]
        elif op == 'reset':
            e.reset()
            x = [2.0] * n
        else:
            sim.check(near(e.getSensors(), x), 'simple-state', lambda: 'state %s, should be %s' % (short(e.getSensors()), short(x)))
        sim.state('simple', n, noise, op)


# --- mazes ----------------------------------------------------------------------------------------

DIRS = ((1, 0), (0, 1), (-1, 0), (0, -1))     # N, E, S, W: one is a quarter turn from the next


def maze(sim):
    from pybrain.rl.environments.mazes import Maze, PolarMaze
    polar = sim.chance(0.5)
    h, w = sim.int(3, 6), sim.int(4, 7)
    table = np.ones((h, w), dtype=sim.choice((int, bool)))
    for i in range(1, h - 1):
        for j in range(1, w - 1):
            table[i, j] = sim.chance(0.3)
    free = [(i, j) for i in range(h) for j in range(w) if not table[i, j]]
    if len(free) < 2:
        return
    goal = sim.choice(free)
    kw = {}
    if sim.chance(0.3):
        kw['initPos'] = sim.subset([f for f in free if f != goal]) or [sim.choice(free)]
    if sim.chance(0.5):
        kw['stochAction'] = sim.choice((0.1, 0.5, 1.0))
    if sim.chance(0.4):
        kw['stochObs'] = sim.choice((0.1, 0.9))
    dice.mode = sim.choice(('quiet', 'quiet', 'loud', 'mixed'))
    keep = table.copy()
    m = (PolarMaze if polar else Maze)(table, goal, **kw)
    starts = kw.get('initPos') or [f for f in free if f != goal]
    sim.log('maze', polar, h, w, goal, sorted(kw), dice.mode)

    def begin():
        sim.check(m.perseus in starts, 'maze-start', lambda: 'started at %s, not one of %s' % (m.perseus, short(starts)))
        sim.check(m.bang is False, 'maze-start', 'started with a bang')
        return m.perseus, (m.perseusDir if polar else None)

    def after(p, d, a):
        """one action by the rules"""
        if polar:
            if a in (2, 3, 4):
                return p, (d + {2: 2, 3: 1, 4: 3}[a]) % 4, False
            if a == 0:
                return p, d, False
            q = (p[0] + DIRS[d][0], p[1] + DIRS[d][1])
        else:
            delta = ((1, 0), (0, 1), (-1, 0), (0, -1))
            # the actions of a maze are north, east, south and west
            q = (p[0] + delta[a][0], p[1] + delta[a][1])
        return (p, d, True) if keep[q] else (q, d, False)
    p, d = begin()
    acts = 5 if polar else 4
    for k in sim.ops(12, 60):
        op = sim.weighted([(10, 'act'), (4, 'look'), (1, 'reset')])
        if op == 'reset':
            m.reset()
            p, d = begin()
            continue
        if op == 'look':
            obs = [int(keep[p[0] + x, p[1] + y]) for x, y in DIRS]
            got = [int(v) for v in m.getSensors()]
            if polar:
                obs = obs[d:] + obs[:d]
            so = kw.get('stochObs', 0)
            if not so or dice.mode == 'quiet':
                sim.check(got == obs, 'maze-sensors', lambda: 'at %s%s the sensors are %s, the walls %s' % (p, d, got, obs))
            elif dice.mode == 'loud':
                sim.check(got == [1 - o for o in obs], 'maze-sensors', lambda: 'with noise everywhere the sensors are %s, the walls %s' % (got, obs))
            sim.check((m.perseus, getattr(m, 'perseusDir', None)) == (p, d), 'maze-moves', 'looking moves')
            continue
        a = sim.draw(acts)
        sim.log('act', a)
        if hit(sim, lambda: m.performAction(a)):
            sim.check(not keep[m.perseus], 'maze-moves', 'in a wall')
            m.reset()
            p, d = begin()
            continue
        got = (m.perseus, getattr(m, 'perseusDir', None), bool(m.bang))
        noisy = kw.get('stochAction', 0) and dice.mode != 'quiet' or kw.get('stochAction') == 1.0
        ok = [after(p, d, x) for x in (range(acts) if noisy else (a,))]
        sim.check(got in ok, 'maze-moves', lambda: 'action %d at %s%s leads to %s, by the rules %s (walls %s)' % (
            a, p, '' if d is None else ' facing %d' % d, got, ok, short(keep.tolist())))
        p, d = got[:2]
        sim.state('maze', polar, got[2], sorted(kw), dice.mode, p == goal)
    sim.check((table == keep).all(), 'maze-moves', 'the walls changed')


def onehot(sim, a, n):
    if sim.chance(0.4):
        v = np.zeros(n)
        v[a] = 1.0
        return v
    return a


def pomdp(sim):
    kind = sim.choice(('trivial', 'tmaze', 'cheese', 'maze4x3', 'maze89', 'shuttle', 'tiger', 'mdp'))
    dict(tiger=tiger, mdp=mdp).get(kind, lambda s: grid(s, kind))(sim)


def tiger(sim):
    from pybrain.rl.environments.mazes.tasks import TigerTask
    dice.mode = sim.choice(('quiet', 'loud', 'mixed'))
    t = TigerTask(**(dict(maxSteps=sim.int(1, 6)) if sim.chance(0.4) else {}))
    t.reset()
    left, n, done = t.tigerLeft, 0, False
    sim.log('tiger', dice.mode)
    for k in sim.ops(8, 30):
        if sim.chance(0.1) or done:
            t.reset()
            left, n, done = t.tigerLeft, 0, False
        if sim.chance(0.4):
            o = [int(v) for v in t.getObservation()]
            truth = [1, 0] if left else [0, 1]
            sim.check(sorted(o) == [0, 1] and (dice.mode != 'quiet' or o == truth) and (dice.mode != 'loud' or o != truth), 'tiger-heard',
                      lambda: 'heard %s, tiger is %s' % (o, truth))
        a = sim.choice((0, 0, 1, 2))
        sim.log('act', a)
        if hit(sim, lambda: t.performAction(onehot(sim, a, 3))):
            t.reset()
            left, n, done = t.tigerLeft, 0, False
            continue
        n += 1
        exp = -1 if a == 0 else -100 if (a == 1) == left else 10
        sim.check(t.getReward() == exp, 'tiger-reward', lambda: 'action %d, tiger left: %s, reward %s' % (a, left, t.getReward()))
        done = a != 0 or (t.maxSteps is not None and n >= t.maxSteps)
        sim.check(bool(t.isFinished()) == done, 'tiger-finished', lambda: 'finished: %s after action %d, step %d' % (t.isFinished(), a, n))
        sim.state('tiger', left, a, done, dice.mode)


def mdp(sim):
    from pybrain.rl.environments.mazes import Maze
    from pybrain.rl.environments.mazes.tasks import MDPMazeTask
    dice.mode = 'mixed'
    table = np.array([[1] * 5, [1, 0, 0, 0, 1], [1, 0, 1, 0, 1], [1] * 5])
    m = Maze(table, (2, 3))
    t = MDPMazeTask(m)
    p = m.perseus
    for k in sim.ops(12, 50):
        sim.check(int(t.getObservation()[0]) == p[0] * 5 + p[1], 'mdp-observation', lambda: 'at %s observes %s' % (p, t.getObservation()))
        a = sim.draw(4)
        sim.log('act', a)
        if hit(sim, lambda: t.performAction(np.array([float(a)]))):
            m.reset()
            p = m.perseus
            continue
        q = (p[0] + DIRS[a][0], p[1] + DIRS[a][1])
        p = p if table[q] else q
        sim.check(m.perseus == p, 'maze-moves', lambda: 'at %s instead of %s' % (m.perseus, p))
        r = t.getReward()
        sim.check(r == (1.0 if p == (2, 3) else 0.0), 'mdp-reward', lambda: 'reward %s at %s' % (r, p))
        if p == (2, 3):
            # reaching the goal starts the next trial
            sim.check(m.perseus != (2, 3), 'mdp-reward', 'still at the goal')
            p = m.perseus
        sim.state('mdp', p, a)


def grid(sim, kind):
    from pybrain.rl.environments.mazes import tasks as T
    kw = {}
    if sim.chance(0.4):
        kw['maxSteps'] = sim.int(1, 15)
    if kind == 'tmaze':
        kw['length'] = sim.int(1, 5)
    cls = dict(trivial=T.TrivialMaze, tmaze=T.TMaze, cheese=T.CheeseMaze, maze4x3=T.FourByThreeMaze, maze89=T.EightyNineStateMaze,
               shuttle=T.ShuttleDocking)[kind]
    dice.mode = sim.choice(('quiet', 'loud', 'mixed'))
    t = cls(**kw)
    e = t.env
    walls = np.array(e.mazeTable).astype(int)
    acts = dict(maze89=5, shuttle=3).get(kind, 4)
    sim.log('grid', kind, sorted(kw.items()), dice.mode)
    seen = {}
    st = {}

    def begin():
        st.update(p=e.perseus, d=getattr(e, 'perseusDir', None), n=0, goal=e.goal)
        starts = e.initPos
        sim.check(st['p'] in starts and not walls[st['p']] and st['p'] != e.goal, 'task-start', lambda: 'starts at %s' % (st['p'],))
        if kind == 'tmaze':
            L = kw['length']
            sim.check(st['p'] == (2, 1) and e.goal in ((3, L + 1), (1, L + 1)), 'task-start', lambda: 'starts at %s for %s' % (st['p'], e.goal))
            sim.check(not t.isFinished(), 'task-start', 'finished at the start')
        if kind == 'shuttle':
            sim.check(st['p'] == (1, 1) and st['d'] == 1, 'task-start', lambda: 'starts at %s facing %s' % (st['p'], st['d']))
    begin()

    def moves(p, a):
        q = (p[0] + DIRS[a][0], p[1] + DIRS[a][1])
        return (p, True) if walls[q] else (q, False)

    def look():
        p, d = e.perseus, getattr(e, 'perseusDir', None)
        raw = tuple(int(walls[p[0] + x, p[1] + y]) for x, y in DIRS)
        o = tuple(float(v) for v in t.getObservation())
        if kind == 'trivial':
            sim.check(o == raw, 'task-observation', lambda: 'walls %s observed as %s' % (raw, o))
            return
        if kind == 'maze89':
            if dice.mode == 'quiet':
                sim.check(o == raw[d:] + raw[:d], 'task-observation', lambda: 'walls %s facing %d observed as %s' % (raw, d, o))
            return
        sim.check(sorted(o) == [0.0] * (len(o) - 1) + [1.0] and len(o) == t.outdim, 'task-observation', lambda: 'not a 1-in-n encoding: %s' % (o,))
        i = o.index(1.0)
        if kind == 'tmaze':
            L = kw['length']
            exp = (0 if e.goal[0] == 3 else 1) if p == (2, 1) else 2 if p[1] == L + 1 else 3
            sim.check(i == exp, 'task-observation', lambda: 'at %s (goal %s) observes %d' % (p, e.goal, i))
        elif kind == 'cheese':
            key = 'goal' if p == e.goal else raw
            if seen.setdefault(key, i) != i or [k for k, v in seen.items() if v == i] != [key]:
                sim.violate('task-observation', 'the same observation %d for %s' % (i, [k for k, v in seen.items() if v == i] + [key]))
        elif kind == 'maze4x3':
            W, E = raw[3], raw[1]
            exp = (2,) if W and E else (0,) if W else (1,) if E else (3,)
            if W and E:
                exp = (0, 1, 2)
            sim.check(i in exp, 'task-observation', lambda: 'walls west %d, east %d observed as %d' % (W, E, i))
        elif kind == 'shuttle':
            exp = {4} if p == e.goal else {0} if p == (1, 1) else {(d + 2) % 4} if p[1] != 3 else {d, (d + 2) % 4}
            sim.check(i in exp and (p[1] != 3 or dice.mode == 'mixed' or True), 'task-observation', lambda: 'at %s facing %d observes %d' % (p, d, i))

    for k in sim.ops(12, 60):
        if sim.chance(0.05) or t.isFinished():
            t.reset()
            begin()
        if sim.chance(0.5) and kind != 'maze4x3' or sim.chance(0.2) and kind == 'maze4x3':
            look4(sim, t, e, walls) if kind == 'maze4x3' else look()
        a = sim.draw(acts)
        p, d = st['p'], st['d']
        sim.log('act', a)
        if hit(sim, lambda: t.performAction(onehot(sim, a, acts) if kind != 'maze89' else a)):
            t.reset()
            begin()
            continue
        st['n'] += 1
        q, d2 = e.perseus, getattr(e, 'perseusDir', None)
        r = t.getReward()
        sim.check(not walls[q], 'task-moves', lambda: 'in a wall at %s' % (q,))
        end = None
        if kind in ('trivial', 'cheese'):
            eq, bang = moves(p, a)
            sim.check(q == eq, 'task-moves', lambda: '%s from %s leads to %s' % (a, p, q))
            exp = 1 if q == e.goal else 0
            end = q == e.goal
        elif kind == 'tmaze':
            eq, bang = moves(p, a)
            L = kw['length']
            if eq[1] == L + 1 and eq[0] != 2:
                # a turn was taken: the episode ends
                good = eq == st['goal']
                exp, end = (4 if good else -0.1), True
            else:
                sim.check(q == eq, 'task-moves', lambda: '%s from %s leads to %s' % (a, p, q))
                exp, end = (-0.1 if bang else 0), False
        elif kind == 'maze4x3':
            ok = {moves(p, a)} if dice.mode == 'quiet' else {moves(p, x) for x in range(4) if (x - a) % 4 != 2}
            sim.check(q in [m for m, _ in ok], 'task-moves', lambda: 'action %d from %s leads to %s' % (a, p, q))
            exp = 1 if q == (3, 4) else -1 if q == (2, 4) else -0.04
            end = q in ((3, 4), (2, 4))
        elif kind == 'maze89':
            def polar(x):
                if x in (2, 3, 4):
                    return p, (d + {2: 2, 3: 1, 4: 3}[x]) % 4
                return (moves(p, d)[0] if x == 1 else p), d
            ok = [polar(x) for x in ((a,) if dice.mode == 'quiet' else range(5))]
            sim.check((q, d2) in ok, 'task-moves', lambda: 'action %d from %s facing %d leads to %s facing %d' % (a, p, d, q, d2))
            exp = 1 if q == e.goal else 0
            end = q == e.goal
        else:
            exp, end = shuttle(sim, p, d, a, q, d2)
        if kw.get('maxSteps') is not None and st['n'] >= kw['maxSteps']:
            end = True
        sim.check(near(r, exp), 'task-reward', lambda: '%s: action %d from %s%s to %s is rewarded with %s instead of %s' % (
            kind, a, p, '' if d is None else ' facing %d' % d, q, r, exp))
        sim.check(bool(t.isFinished()) == bool(end), 'task-finished', lambda: '%s: at %s after %d steps finished is %s' % (kind, q, st['n'], t.isFinished()))
        st.update(p=q, d=d2)
        sim.state(kind, q, d2, a, dice.mode)


def look4(sim, t, e, walls):
    """only walls in the west, the east, both or neither are observed"""
    p = e.perseus
    W, E = int(walls[p[0], p[1] - 1]), int(walls[p[0], p[1] + 1])
    o = [int(bool(v)) for v in t.getObservation()]
    sim.check(o == [W, E, int(W and E), int(not W and not E)], 'task-observation', lambda: 'walls west %d, east %d observed as %s' % (W, E, o))


def shuttle(sim, p, d, a, q, d2):
    """docking into a station goes backwards; running into one is a bang"""
    back = (p[0], p[1] + (-1 if d == 1 else 1))
    ahead = (p[0], p[1] + (1 if d == 1 else -1))
    stay = lambda c: 1 <= c[1] <= 5
    if a == 2:
        ok = [(p, (d + 2) % 4, False)]
    elif a == 1:
        ok = [(p, d, True)] if ahead[1] in (1, 5) or not stay(ahead) else [(ahead, d, False)]
    else:
        ok = [(p, d, False), (back if stay(back) else p, d, False)]
        if p[1] == 3 or (p[1] == 2 and d == 3) or (p[1] == 4 and d == 1):
            ok.append((p, (d + 2) % 4, False))
    got = [o for o in ok if o[:2] == (q, d2)]
    sim.check(got, 'task-moves', lambda: 'action %d from %s facing %d leads to %s facing %d' % (a, p, d, q, d2))
    if q[1] == 5:
        return 10, True
    return (-3 if got[0][2] else 0), False


def odds(sim):
    """how often the noise strikes: within six standard deviations of what is documented"""
    from pybrain.rl.environments.mazes import Maze
    from pybrain.rl.environments.mazes import tasks as T
    kind = sim.choice(('maze', 'sensors', 'maze4x3', 'tiger', 'start', 'shuttle', 'shuttle'))
    n = 600
    hits, p = 0, None
    if kind in ('maze', 'sensors', 'start'):
        table = np.ones((5, 5), int)
        table[1:4, 1:4] = 0
        s = sim.choice((0.1, 0.3, 0.7))
        if kind == 'maze':
            m = Maze(table, (3, 3), initPos=[(2, 2)], stochAction=s)
            a = sim.draw(4)
            for _ in range(n):
                m.reset()
                m.performAction(a)
                hits += m.perseus == (2 + DIRS[a][0], 2 + DIRS[a][1])
            p = 1 - s + s / 4.0
        elif kind == 'start':
            m = Maze(table, (3, 3))
            at = sim.choice([(i, j) for i in range(1, 4) for j in range(1, 4) if (i, j) != (3, 3)])
            for _ in range(n):
                m.reset()
                hits += m.perseus == at
            p = 1 / 8.0
        else:
            m = Maze(table, (3, 3), initPos=[(1, 1)], stochObs=s)
            i = sim.draw(4)
            truth = (0, 0, 1, 1)[i]
            for _ in range(n):
                hits += int(m.getSensors()[i]) != truth
            p = s
    elif kind == 'shuttle':
        # backing up succeeds, turns the ship, or does nothing
        t = T.ShuttleDocking()
        pos, d, odd = sim.choice((((1, 3), 1, (0.8, 0.1)), ((1, 3), 3, (0.8, 0.1)), ((1, 2), 3, (0.3, 0.3)), ((1, 4), 1, (0.3, 0.3)),
                                  ((1, 2), 1, (0.7, 0.0)), ((1, 4), 3, (0.7, 0.0))))
        turn = sim.chance(0.4)
        back = (1, pos[1] + (-1 if d == 1 else 1))
        for _ in range(n):
            t.reset()
            t.env.perseus, t.env.perseusDir = pos, d
            t.performAction(0)
            hits += (t.env.perseus, t.env.perseusDir) == ((pos, (d + 2) % 4) if turn else (back, d))
        p = odd[1 if turn else 0]
    elif kind == 'maze4x3':
        t = T.FourByThreeMaze(initPos=[(1, 1)])
        a, p = sim.choice(((0, 0.8), (1, 0.8), (2, 0.9), (3, 0.9)))
        for _ in range(n):
            t.reset()
            t.performAction(a)
            hits += t.env.perseus == ((2, 1) if a == 0 else (1, 2) if a == 1 else (1, 1))
    else:
        t = T.TigerTask()
        t.reset()
        for _ in range(n):
            hits += int(t.getObservation()[0]) != int(t.tigerLeft)
        p = 0.15
    sd = math.sqrt(n * p * (1 - p))
    sim.log(kind, hits)
    sim.log(p)
    sim.check(abs(hits - n * p) <= 6 * sd, 'odds', lambda: '%s: %d of %d, expected %s' % (kind, hits, n, n * p))
    sim.state('odds', kind)
