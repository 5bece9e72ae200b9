"""P17: rendering over the network never influences the environment, and viewers show what it did."""
import os
import re
import sys
import types

import numpy as np

from dst import seams
from dst.core import short
from dst.props.p16 import Quiet

CALLS = []


def fake_gl():
    """OpenGL that draws nothing"""
    names = set()
    base = os.path.join(os.environ.get('PYBRAIN_REPO', '/repo'), 'pybrain', 'rl', 'environments')
    for f in ('shipsteer/viewer.py', 'flexcube/viewer.py', 'flexcube/objects3d.py'):
        names |= set(re.findall(r'\b((?:glut|glu|gl|GLUT_|GL_)\w*)', open(os.path.join(base, f)).read()))
    pkg = types.ModuleType('OpenGL')
    pkg.__path__ = []
    sys.modules['OpenGL'] = pkg
    for sub in ('GLUT', 'GL', 'GLE', 'GLU'):
        m = types.ModuleType('OpenGL.' + sub)
        for n in names:
            setattr(m, n, 0 if n.isupper() or '_' in n else (lambda *a: None))
        m.sys = sys
        m.__all__ = sorted(names) + ['sys']
        sys.modules['OpenGL.' + sub] = m
        setattr(pkg, sub, m)


def setup():
    seams.no_jit()
    fake_gl()
    import pybrain.rl.environments.shipsteer.shipsteer  # noqa
    import pybrain.rl.environments.shipsteer.viewer  # noqa
    import pybrain.rl.environments.flexcube.environment  # noqa
    import pybrain.rl.environments.flexcube.viewer  # noqa


def run(sim):
    sched = seams.use_sched(sim, preempt=True, max_gap=sim.choice((5, 20, 60)), max_switches=30000)
    sched.stalls = sim.choice(((), (0.0, 0.02), (0.0, 0.0, 0.0, 0.05, 0.3)))
    net = seams.use_net(sim, sched)
    old = sys.stdout
    sys.stdout = Quiet()
    try:
        play(sim, sched, net)
    finally:
        sys.stdout = old


class Viewer(object):
    def __init__(self, ip):
        self.ip = ip
        self.frames = []         # (time, what is shown)
        self.task = None
        self.view = None
        self.alive = False
        self.idles = 0


def play(sim, sched, net):
    from pybrain.rl.environments.shipsteer.shipsteer import ShipSteeringEnvironment
    from pybrain.rl.environments.flexcube.environment import FlexCubeEnvironment
    from pybrain.rl.environments.shipsteer import viewer as sv
    from pybrain.rl.environments.flexcube import viewer as fv
    ship = sim.chance(0.6)
    port = sim.choice(('21580', '6000'))
    seed = sim.draw(1000)
    realtime = sim.chance(0.5)
    from pybrain.utilities import threaded  # noqa

    class Recording(object):
        pass
    np.random.seed(seed)
    if ship:
        env = ShipSteeringEnvironment(True, '127.0.0.1', port)
        n, hi = 2, 90
        step_time = 0.2
    else:
        env = FlexCubeEnvironment(True, realtime, '127.0.0.1', port)
        n, hi = 12, 40
        step_time = 0.02 if realtime else 0.0

    def state(e):
        if ship:
            return tuple(float(x) for x in e.sensors)
        return tuple(map(float, e.pos.ravel())) + tuple(map(float, np.ravel(e.centerOfGrav)))

    plan = []
    for _ in range(sim.int(4, 25)):
        plan.append(None if sim.chance(0.12) else [sim.float(-hi / 4.0, hi) for _ in range(n)])
    # the same environment without rendering
    np.random.seed(seed)
    ref = ShipSteeringEnvironment(False) if ship else FlexCubeEnvironment(False, realtime)
    want = [state(ref)]
    wobs = [np.ravel(ref.getSensors()) if ship else None]
    for a in plan:
        if a is None:
            ref.reset()
        else:
            ref.performAction(np.array(a))
        want.append(state(ref))
    np.random.seed(seed)
    # the rendered one has drawn its initial state already: the same one
    sim.check(state(env) == want[0], 'influenced', 'a rendered environment starts in another state')
    if ship:
        np.random.uniform(-30., 30.)
    allowed = {}
    t_of = []
    for i, w in enumerate(want):
        allowed.setdefault(w, i)
    # (numbers travel exactly, so frames can be compared exactly)
    viewers = [Viewer('127.0.0.%d' % (i + 1)) for i in range(sim.int(0, 2))]
    st = dict(done=False, stop=False, acting=False, i=0, closed=False, err=None)
    mainer = []
    busy = dict(n=0, max=0)
    raw_listen = env.server.listen
    raw_send = env.server.send

    def listen():
        busy['n'] += 1
        busy['max'] = max(busy['max'], busy['n'])
        try:
            return raw_listen()
        finally:
            busy['n'] -= 1
    env.server.listen = listen

    def main():
        for i, a in enumerate(plan):
            t = sched.now - sched.cur.stalled
            if a is None:
                env.reset()
            else:
                env.performAction(np.array(a))
            dt = sched.now - sched.cur.stalled - t
            if dt > step_time + 1e-6:
                sim.violate('blocks', '%s took %g s' % ('reset' if a is None else 'performAction', dt))
            s = state(env)
            if s != want[i + 1]:
                sim.violate('influenced', 'step %d: rendered %s, unrendered %s' % (i + 1, short(s), short(want[i + 1])))
            st['i'] = i + 1
            if gaps[i]:
                seams.time.sleep(gaps[i])
        st['done'] = True
        # somebody keeps acting while the rest is observed
        while not st['stop']:
            st['i'] += 1
            a = [0.5] * n
            st['acting'] = True
            env.performAction(np.array(a))
            st['acting'] = False
            allowed.setdefault(state(env), st['i'])
            for s in pending:
                if s not in allowed:
                    never(s)
            del pending[:]
            seams.time.sleep(0.1)

    gaps = [sim.choice((0.0, 0.0, 0.0, 0.05, 1.0, 3.0)) for _ in plan]

    def start(v):
        def body():
            try:
                view = (sv if ship else fv).FlexCubeRenderer('127.0.0.1', v.ip, port)
            except OSError:
                v.alive = False
                sim.probe('viewer-constructor-oserror')
                return
            v.view = view
            view.quad = None
            if not ship:
                view.object = fv.objects3d.Objects3D()
            real = view.drawScene
            real_listen = view.client.listen

            def listen(*a):
                r = real_listen(*a)
                if r is not None:
                    v.frames.append((sched.now, r))
                return r
            view.client.listen = listen

            def draw():
                s = tuple(view.sensors) if ship else (tuple(np.ravel(view.points)), tuple(np.ravel(view.centerOfGrav)))
                shown(v, s)
                if full.get(v.ip, 0) > 0:
                    full[v.ip] -= 1
                    t = sched.cur
                    t.preemptible = False
                    try:
                        real()
                    finally:
                        t.preemptible = True
            view.drawScene = draw
            while not st['stop']:
                t = sched.now - v.task.stalled
                view.drawIdleScene()
                v.idles += 1
                t = sched.now - v.task.stalled - t
                if t > 10.0 + 1.0:
                    sim.violate('viewer-blocks', 'drawIdleScene took %g s' % t)
        v.alive = True
        v.task = sched.spawn(body, 'viewer-%s' % v.ip)

    full = dict((v.ip, 1 if sim.chance(0.05) else 0) for v in viewers)

    def shown(v, s):
        """what is drawn is nothing, a reset, or a state of the environment"""
        if not ship:
            p, c = s
            s = p + c
        if s in allowed or s == ((0.0, 0.0, 0.0) if ship else (1.0,) * 24 + (0.0, -2.0, 0.0)):
            return
        if st['acting']:
            pending.append(s)        # must be the state this step leads to
            return
        never(s)

    pending = []

    def never(s):
        sim.violate('never-was', 'a viewer shows %s, which never was the state' % short(s))

    def crash(v):
        sim.fault('viewer-crash')
        if v.task is not None and not v.task.done:
            v.task.killed = True
        if v.view is not None:
            v.view.client.UDPInSock.close()
            v.view.client.UDPOutSock.close()
        v.view = None
        v.alive = False

    def report():
        for t, e in sched.errors:
            raise e

    sim.log('ship' if ship else 'cube', len(plan), len(viewers), realtime)
    sched.spawn(main, 'main')
    for v in viewers:
        if sim.chance(0.7):
            start(v)
    ips = [v.ip for v in viewers] + ['127.0.0.1']
    for _ in sim.ops(4, 8):
        sched.run(max_time=sched.now - sched.t0 + sim.choice((0.05, 0.5, 2.5, 11.0)))
        report()
        k = sim.weighted([(3, 'loss'), (2, 'delay'), (2, 'dup'), (2, 'partition'), (3, 'senderr'), (3, 'foreign'), (2, 'crash'), (3, 'start'),
                          (2, 'calm'), (1, 'recverr'), (1, 'truncate'), (2, 'none')])
        sim.log(k)
        if k == 'loss':
            net.loss = sim.choice((0.3, 0.9, 1.0))
        elif k == 'delay':
            net.max_delay = sim.choice((0.2, 3.0))
        elif k == 'dup':
            net.dup = 0.5
        elif k == 'partition':
            if sim.chance(0.5):
                net.partitioned.add(sim.choice(ips))
            else:
                net.partition_ports.add(sim.choice((int(port), int(port) + 1)))
        elif k == 'senderr':
            net.senderr = 0.5
        elif k == 'recverr':
            net.recv_intr = 0.3
        elif k == 'truncate':
            net.corrupt = 0.3
        elif k == 'foreign':
            from dst.props.p16 import GARBAGE
            g = sim.choice(GARBAGE)
            to = ('127.0.0.1', int(port) + 1) if sim.chance(0.6) else (sim.choice(ips), int(port))
            sim.fault('foreign-datagram')
            sched.at(0.0, lambda: net._deliver(to, g, ('10.0.0.9', 1)), 'foreign')
        elif k == 'crash':
            live = [v for v in viewers if v.alive]
            if live:
                crash(sim.choice(live))
        elif k == 'start':
            dead = [v for v in viewers if not v.alive]
            if dead:
                start(sim.choice(dead))
        elif k == 'calm':
            net.heal()
        sim.state(ship, k, env.server.clients, sum(v.alive for v in viewers), env.updateDone, st['done'])
    # afterwards everything goes on: the environment finishes, and viewers see it act
    net.heal()
    for v in viewers:
        if not v.alive:
            start(v)
    t1 = sched.now
    why = sched.run(until=lambda: st['done'], max_time=sched.now - sched.t0 + 200.0)
    report()
    sim.check(st['done'] or why == 'switches', 'no-progress', 'the environment did not finish its steps')
    t1 = sched.now
    why = sched.run(until=lambda: all(any(t >= t1 for t, _ in v.frames) for v in viewers), max_time=sched.now - sched.t0 + 60.0)
    report()
    sim.check(why != 'time', 'no-progress', lambda: 'a viewer saw nothing within 60 s on a sound network (clients %d, updateDone %s)' % (env.server.clients, env.updateDone))
    sim.check(busy['max'] <= 1, 'concurrent-updates', 'two updates of the viewers at the same time')
    if why == 'until' and viewers:
        sim.probe('progress')
    if sim.chance(0.3):
        sim.probe('closed')
        closer = sched.spawn(env.closeSocket, 'closer')
        sched.run(until=lambda: closer.done, max_time=sched.now - sched.t0 + 30.0)
        sim.check(closer.done, 'no-progress', 'closing the socket does not end')
        # what else goes wrong in the viewers' update is of no interest to the environment
        del sched.errors[:]
        i = st['i']
        why = sched.run(until=lambda: st['i'] > i + 2, max_time=sched.now - sched.t0 + 20.0)
        sim.check(st['i'] > i + 2 or why == 'switches', 'no-progress', 'the environment cannot act after closeSocket()')
    st['stop'] = True
    sched.run(max_time=sched.now - sched.t0 + 30.0)
