"""P19: renderers show states that were, and never disturb the environment; results of threads are reported once."""
import sys

import numpy as np

from dst import fakeplot, seams
from dst.core import short
from dst.fakeplot import board
from dst.props.p16 import Quiet


class DrawError(Exception):
    pass


class FuncError(Exception):
    pass


def setup():
    seams.no_jit()
    fakeplot.install()
    import pybrain.rl.environments.cartpole  # noqa
    import pybrain.rl.environments.simple.renderer  # noqa


def run(sim):
    sched = seams.use_sched(sim, preempt=True, max_gap=sim.choice((3, 8, 25)), max_switches=8000)
    board.clear()
    old = sys.stdout
    sys.stdout = Quiet()
    try:
        kind = sim.weighted([(3, 'simple'), (4, 'cartpole'), (2, 'threaded')])
        sim.log(kind)
        dict(simple=simple, cartpole=cartpole, threaded=threads)[kind](sim, sched)
    finally:
        board.clear()
        sys.stdout = old


def report(sched, allowed):
    for t, e in sched.errors:
        if not isinstance(e, allowed):
            raise e


class Watch(object):
    """what is drawn is one of the states the renderer was given, and not older than what it had been given when the drawing before ended"""
    def __init__(self, sim, sched, look, states, same):
        self.sim, self.sched, self.look, self.states, self.same = sim, sched, look, states, same
        self.begun = 0          # updates that began
        self.ended = 0          # updates that are complete
        self.floor = 0          # complete when the drawing before ended
        self.draws = 0
        self.last = None
        self.slow = sim.choice((0.0, 0.0, 0.02, 0.3))
        self.fails_at = sim.int(1, 12) if sim.chance(0.25) else None
        self.failed = False
        board.on_draw = self.draw

    def draw(self, fig):
        self.draws += 1
        if self.fails_at is not None and self.draws >= self.fails_at:
            self.sim.fault('drawing-fails')
            self.failed = True
            raise DrawError('no display')
        seen = self.look()
        lo, hi = self.floor, self.begun
        self.floor = self.ended
        cand = [k for k in range(lo, hi + 1) if self.same(seen, self.states[k])]
        if not cand:
            older = [k for k in range(0, lo) if self.same(seen, self.states[k])]
            self.sim.violate('stale-drawing' if older else 'mixed-drawing', 'drawn: %s; state %s' % (short(seen), short(self.states[self.ended])))
        self.last = cand[-1]
        self.floor = max(self.floor, cand[0])
        if self.slow:
            self.sched.sleep(self.slow)

    def update(self, state, fn):
        """one update of the renderer: it may have to wait for one drawing"""
        self.states.append(state)
        self.begun += 1
        t = self.sched.now
        fn()
        dt = self.sched.now - t
        self.ended += 1
        return dt


def drive(sim, sched, r, w, main, cost):
    """the main program, a renderer that is started at some time and stopped at some time"""
    st = dict(done=False)

    def body():
        main(st)
        st['done'] = True
    sched.spawn(body, 'main')
    starts = sim.int(1, 2)
    when = [sim.choice((0.0, 0.0, 0.1, 1.0)) for _ in range(starts)]
    started = []
    stopped = []

    def start():
        for d in when:
            if d:
                seams.time.sleep(d)
            try:
                r.start()
                started.append(1)
            except RuntimeError:
                # threads can be started only once
                if not w.failed and not stopped:
                    raise
    sched.spawn(start, 'starter')
    if sim.chance(0.3):
        def stop():
            stopped.append(sched.now)
            r.stop()
        sched.at(sim.choice((0.02, 0.5, 2.0)), lambda: sched.spawn(stop, 'stopper'))
    why = sched.run(until=lambda: st['done'], max_time=sched.now - sched.t0 + 60.0)
    report(sched, DrawError)
    sim.check(st['done'] or why == 'switches', 'blocked', lambda: 'after %s the program waits for the renderer (%s)' % (
        'a drawing failed' if w.failed else '%d drawings' % w.draws, why))
    if why == 'switches':
        sim.probe('out-of-switches')
        return
    why = sched.run(max_time=sched.now - sched.t0 + 2.0 + 4 * w.slow)
    report(sched, DrawError)
    renderers = [t for t in sched.tasks if not t.done and not t.name.startswith(('main', 'start', 'stop'))]
    sim.check(len(renderers) <= 1, 'two-threads', 'the renderer runs %d times' % len(renderers))
    if why == 'switches':
        return
    if started and not stopped and not w.failed:
        sim.check(r.is_alive(), 'gone', 'the renderer ended without being asked to')
        sim.check(w.last is not None and w.same(w.look(), w.states[-1]) and w.floor == w.ended, 'stale-drawing',
                  lambda: 'nothing happens any more, drawn is %s instead of %s' % (short(w.look()), short(w.states[-1])))
        sim.probe('final-drawing')
    stopper = sched.spawn(r.stop, 'stopper-at-end')
    why = sched.run(until=lambda: stopper.done and not any(not t.done for t in renderers),
                    max_time=sched.now - sched.t0 + 1.0 + 2 * w.slow)
    report(sched, DrawError)
    sim.check(why in ('until', 'switches'), 'not-stopped', 'the renderer does not end within a second of stop()')
    if why == 'until':
        sim.probe('stopped')
    sim.state(sorted(set(when)), bool(stopped), w.failed, w.slow, min(w.draws, 5), min(w.ended, 12))


def simple(sim, sched):
    from pybrain.rl.environments.simple.renderer import SimpleRenderer
    r = SimpleRenderer()
    lo = -sim.int(1, 3)
    r.setFunction(lambda x: x ** 2, lo, lo + sim.int(1, 5))
    states = [[]]

    def look():
        line = getattr(r, 'line', None)
        if line is None:
            return ()
        x, y = line.props['data']
        # as a figure would: the numbers that are there now
        return (tuple(x), tuple(y))

    def same(seen, path):
        return seen == (tuple(p[0] for p in path), tuple(p[1] for p in path)) or (not path and seen == ())
    w = Watch(sim, sched, look, states, same)
    plan = []
    for _ in range(sim.int(60, 400) if sim.chance(0.03) else sim.int(2, 25)):
        plan.append(('reset' if sim.chance(0.12) else 'data', sim.float(-2, 2), sim.choice((0.0, 0.0, 0.0, 0.04, 0.2))))

    def main(st):
        for kind, x, gap in plan:
            if kind == 'reset':
                dt = w.update([], r.reset)
            else:
                dt = w.update(states[-1] + [(x, x * x)], lambda: r.updateData((x, x * x)))
            if dt > 3 * w.slow + 0.5:
                sim.violate('blocked', '%s waited %g s, a drawing takes %g s' % (kind, dt, w.slow))
            if gap:
                seams.time.sleep(gap)
    drive(sim, sched, r, w, main, 0.0)


def cartpole(sim, sched):
    from pybrain.rl.environments.cartpole.cartpole import CartPoleEnvironment, CartPoleLinEnvironment
    from pybrain.rl.environments.cartpole.nonmarkovpole import NonMarkovPoleEnvironment
    from pybrain.rl.environments.cartpole.renderer import CartPoleRenderer
    cls = sim.choice((CartPoleEnvironment, CartPoleEnvironment, CartPoleLinEnvironment, NonMarkovPoleEnvironment))
    kw = {}
    if sim.chance(0.3):
        kw['polelength'] = sim.float(0.1, 1.0)
    seed = sim.draw(1000)
    plan = []
    for _ in range(sim.int(60, 400) if sim.chance(0.03) else sim.int(2, 25)):
        plan.append((None if sim.chance(0.1) else sim.float(-50, 50), sim.choice((0.0, 0.0, 0.0, 0.04, 0.2))))

    def act(e, a):
        if a is None:
            e.reset()
        else:
            e.performAction(np.array([a]) if cls is not CartPoleLinEnvironment else a)

    def full(e):
        return tuple(float(v) for v in np.ravel(e.sensors))
    np.random.seed(seed)
    ref = cls(**kw)
    want = [full(ref)]
    for a, _ in plan:
        act(ref, a)
        want.append(full(ref))
    np.random.seed(seed)
    env = cls(**kw)
    delay = sim.chance(0.3)
    env.delay = delay
    r = CartPoleRenderer()
    env.setRenderer(r)
    states = [(0.0, 0.0, 0.0, 0.0)]

    def look():
        if r.box is None or r.pole is None:
            return None
        x, y = r.pole.props['data']
        return (float(np.ravel(r.box.props['x'])[0]), tuple(float(v) for v in x), tuple(float(v) for v in y), r.box.props.get('facecolor'))

    def same(seen, s):
        if seen is None:
            return s == states[0]
        ang, pos = s[0], s[2]
        n = r.polelength
        want = (pos - r.cartwidth / 2.0, (pos, pos + n * np.sin(ang)), (0.0, n * np.cos(ang)))
        flat = lambda v: np.array([v[0]] + list(v[1]) + list(v[2]))
        if not np.allclose(flat(seen), flat(want), rtol=1e-9, atol=1e-9):
            return False
        if min(abs(abs(ang) - 0.05), abs(abs(pos) - 0.05)) < 1e-9:
            return True
        return seen[3] == ('green' if abs(ang) < 0.05 and abs(pos) < 0.05 else 'blue')
    w = Watch(sim, sched, look, states, same)
    sim.log(cls.__name__, len(plan), delay)

    def main(st):
        for i, (a, gap) in enumerate(plan):
            if a is None:
                env.reset()
                dt = 0.0
            else:
                dt = w.update(want[i + 1], lambda: act(env, a))
            if dt > 0.05 * delay + 3 * w.slow + 0.5:
                sim.violate('blocked', 'an action took %g s, a drawing takes %g s' % (dt, w.slow))
            if full(env) != want[i + 1]:
                sim.violate('influenced', 'step %d: rendered %s, not rendered %s' % (i, short(full(env)), short(want[i + 1])))
            if gap:
                seams.time.sleep(gap)
    drive(sim, sched, r, w, main, 0.0)


def threads(sim, sched):
    from pybrain.utilities import threaded
    calls = []
    results = {}
    fails = dict(start=sim.chance(0.15))

    def make(i):
        durations = sim.choice((0.0, 0.1, 1.0))
        bad = sim.chance(0.25)
        give = sim.choice(('args', 'args', None, 0, [], ''))

        def callback(res):
            results.setdefault(i, []).append(res)

        def func(x, y=2):
            calls.append((i, x, y))
            if durations:
                seams.time.sleep(durations)
            if bad:
                sim.fault('function-fails')
                raise FuncError()
            return (i, x, y) if give == 'args' else give
        if sim.chance(0.3):
            deco = threaded()(func)
            want = False
        else:
            deco = threaded(callback, sim.chance(0.5))(func) if sim.chance(0.7) else threaded(callback=callback)(func)
            want = not bad
        return deco, want, give
    fs = [make(i) for i in range(sim.int(1, 4))]
    expected = {}
    ran = []
    if fails['start']:
        sched.fail_start = lambda: sim.chance(0.3)

    def main():
        for n in range(sim.int(1, 6)):
            i = sim.draw(len(fs))
            f, want, give = fs[i]
            args, kw = ((n,), {}) if sim.chance(0.5) else ((n,), dict(y=-n))
            t = sched.now
            try:
                f(*args, **kw)
            except RuntimeError:
                if not fails['start']:
                    raise
                continue
            if sched.now - t > 0:
                sim.violate('blocked', 'a threaded function was waited for')
            ran.append((i, n, kw.get('y', 2)))
            if want:
                expected.setdefault(i, []).append((i, n, kw.get('y', 2)) if give == 'args' else give)
            if sim.chance(0.3):
                seams.time.sleep(0.3)
    sched.spawn(main, 'main')
    why = sched.run(max_time=200.0)
    report(sched, FuncError)
    if why == 'switches':
        return
    sim.check(why == 'quiescent', 'no-progress', 'threads still run: %s' % why)
    sim.check(sorted(calls) == sorted(ran), 'calls', lambda: 'executed %s, called %s' % (short(sorted(calls)), short(sorted(ran))))
    for i in range(len(fs)):
        got = sorted(map(repr, results.get(i, [])))
        exp = sorted(map(repr, expected.get(i, [])))
        sim.check(got == exp, 'results', lambda: 'reported %s, results %s' % (short(got), short(exp)))
    sim.probe('threads-done')
    sim.state('threaded', len(fs), len(ran), fails['start'], sorted(map(len, results.values())))
