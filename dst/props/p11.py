"""P11: an optimizer accounts for every evaluation and returns the best one."""
import logging

import numpy as np

from dst.core import short


def setup():
    import pybrain.optimization  # noqa
    import pybrain.optimization.distributionbased.rank1  # noqa
    import pybrain.tools.shortcuts  # noqa


class Fail(Exception):
    """raised by the evaluator"""


def algorithms():
    import pybrain.optimization as O
    from pybrain.optimization.distributionbased.rank1 import Rank1NES
    d = {n: getattr(O, n) for n in (
        'HillClimber', 'StochasticHillClimber', 'RandomSearch', 'WeightGuessing', 'WeightMaskGuessing', 'ES', 'GA',
        'ParticleSwarmOptimizer', 'NelderMead', 'MemeticSearch', 'InverseMemeticSearch', 'InnerMemeticSearch',
        'InnerInverseMemeticSearch', 'FiniteDifferences', 'PGPE', 'SimpleSPSA', 'CMAES', 'SNES', 'XNES', 'FEM',
        'VanillaGradientEvolutionStrategies', 'ExactNES', 'OriginalNES')}
    d['Rank1NES'] = Rank1NES
    return d


MEMETIC = ('MemeticSearch', 'InverseMemeticSearch', 'InnerMemeticSearch', 'InnerInverseMemeticSearch')
VES = ('VanillaGradientEvolutionStrategies', 'ExactNES', 'OriginalNES')
# these may decide to stop on their own (converged, or a variance that is no longer positive)
CONVERGE = ('CMAES', 'NelderMead', 'SNES', 'Rank1NES', 'PGPE') + VES


def functions():
    return dict(
        sphere=lambda x: float(np.dot(x, x)),
        absolute=lambda x: float(sum(abs(v - 0.5) for v in x)),
        steps=lambda x: float(sum(np.round(v) ** 2 for v in x)),
        plateau=lambda x: 3.0,
        linear=lambda x: float(sum(x)),
        waves=lambda x: float(sum(v * v - 2 * np.cos(3 * v) for v in x)))


class Recorder(object):
    """the evaluator: every call is recorded, the armed one fails"""

    def __init__(self, sim, fun, kind, noise):
        self.sim, self.fun, self.kind, self.noise = sim, fun, kind, noise
        self.done = []          # (params, value) of the completed evaluations
        self.calls = 0
        self.armed = None       # (countdown, what)
        self.fired = None

    def value(self, ev):
        if self.kind == 'module':
            y = np.array(ev.activate([1.0, -0.5]))
            return self.fun(y)
        return self.fun(np.array(getattr(ev, 'params', ev), float))

    def __call__(self, ev):
        self.calls += 1
        if self.armed is not None:
            n, what = self.armed
            if n > 1:
                self.armed = (n - 1, what)
            else:
                self.armed = None
                self.fired = what
                self.sim.fault('evaluator-' + what)
                if what == 'raises':
                    raise Fail()
                if what == 'ValueError':
                    raise ValueError('from the evaluator')
                return float(what)
        v = self.value(ev)
        if self.noise:
            v += float(self.sim.draw(5))
        if not np.isfinite(v):
            # the search itself went out of bounds
            self.fired = 'diverged'
            self.sim.probe('diverged')
            return v
        self.done.append((np.array(getattr(ev, 'params', ev), float).copy(), v))
        return v


def configuration(sim, name, dim):
    """keyword arguments of an algorithm, small enough to run quickly"""
    kw = {}
    if name in ('HillClimber', 'StochasticHillClimber', 'MemeticSearch', 'InverseMemeticSearch', 'ES', 'InnerMemeticSearch',
                'InnerInverseMemeticSearch') and sim.chance(0.3):
        kw['evaluatorIsNoisy'] = True
    if name in MEMETIC:
        kw['localSteps'] = sim.int(10, 14)
        import pybrain.optimization as O
        if sim.chance(0.4):
            kw['localSearch'] = sim.choice((O.RandomSearch, O.CMAES, O.StochasticHillClimber))
    if name in ('ES', 'InnerMemeticSearch', 'InnerInverseMemeticSearch'):
        kw['mu'] = sim.int(1, 3)
        kw['lambada'] = kw['mu'] * sim.int(1, 3)
        kw['elitism'] = sim.chance(0.5)
        if sim.chance(0.3):
            kw['storeHallOfFame'] = False
    if name == 'GA':
        kw['populationSize'] = sim.int(1, 12)
        kw['elitism'] = sim.chance(0.5)
        kw['topProportion'] = sim.choice((0.2, 0.5, 0.05))
        kw['eliteProportion'] = sim.choice((0.5, 0.1))
        kw['storeAllPopulations'] = sim.chance(0.3)
    if name == 'ParticleSwarmOptimizer':
        kw['size'] = sim.int(1, 8)
        if sim.chance(0.3):
            kw['boundaries'] = [(-2, 3)] * dim
        if sim.chance(0.3):
            from pybrain.optimization.populationbased.pso import ring
            kw['neighbourfunction'] = ring
    if name == 'FiniteDifferences':
        kw['batchSize'] = sim.int(1, 8)
        kw['rprop'] = sim.chance(0.3)
    if name == 'PGPE':
        kw['exploration'] = sim.choice(('local', 'global'))
    if name in ('SNES', 'XNES') and sim.chance(0.5):
        kw['batchSize'] = sim.int(4, 10)
    if name == 'XNES' and sim.chance(0.3):
        kw['importanceMixing'] = True
        kw['batchSize'] = sim.int(5, 12)
    if name == 'FEM':
        kw['windowSize'] = sim.int(4, 12)
        kw['elitism'] = sim.chance(0.2)
        kw['sampleElitism'] = sim.chance(0.2)
        for k in ('adaptiveShaping', 'useAnticipatedMeanShift', 'doMadnessUpdate', 'mutative', 'oneFifthRule', 'diagonalOnly'):
            if sim.chance(0.12):
                kw[k] = True
    if name in VES:
        kw['batchSize'] = sim.int(12, 20)
        kw['importanceMixing'] = sim.chance(0.5)
        kw['elitism'] = sim.chance(0.2)
    return kw


class Subject(object):
    """one optimizer, its evaluator and what is known about it"""

    def __init__(self, sim, index, algs):
        from pybrain.rl.environments.fitnessevaluator import FitnessEvaluator
        from pybrain.rl.environments.functions.function import FunctionEnvironment
        from pybrain.structure.parametercontainer import ParameterContainer
        from pybrain.tools.shortcuts import buildNetwork
        self.sim, self.index = sim, index
        self.name = sim.choice(sorted(algs))
        cls = algs[self.name]
        name = self.name
        dim = sim.int(1, 4)
        if name == 'Rank1NES':
            dim = max(2, dim)
        kind = sim.choice(('array', 'list', 'ints', 'container', 'module', 'random'))
        if name == 'Rank1NES' and kind in ('container', 'module'):
            kind = 'array'
        form = sim.choice(('callable', 'callable', 'fitness', 'function'))
        if kind in ('module',) and form == 'function':
            form = 'fitness'
        fname = sim.choice(sorted(functions()))
        fun = functions()[fname]
        net = None
        if kind == 'module':
            net = buildNetwork(2, 1, 1, bias=sim.chance(0.5))
            dim = len(net)
        self.kw = kw = configuration(sim, name, dim)
        self.noise = bool(kw.get('evaluatorIsNoisy')) and sim.chance(0.5)
        self.rec = rec = Recorder(sim, fun, kind, self.noise)
        self.cls = cls

        desired = None
        toMin = None
        if form == 'fitness':
            class E(FitnessEvaluator):
                toBeMinimized = sim.chance(0.5)
                desiredValue = sim.choice((None, None, -1.0, 0.5))

                def f(self, x):
                    return rec(x)
            evaluator = E()
            toMin, desired = E.toBeMinimized, E.desiredValue
        elif form == 'function':
            class F(FunctionEnvironment):
                def f(self, x):
                    return rec(x)
            evaluator = F(dim)
            toMin, desired = True, F.desiredValue
        else:
            evaluator = rec
        self.minimize = bool(toMin)
        if sim.chance(0.5):
            self.minimize = sim.chance(0.5)
            kw['minimize'] = self.minimize
        if sim.chance(0.3):
            desired = sim.choice((0.25, 1.0, -2.0, 3.0, 6.0))
            kw['desiredEvaluation'] = desired
        self.desired = desired
        kw['maxEvaluations'] = self.maxEvals = sim.choice((None, 0, 1, 5, 17, 40, 80, 80, 80.0))
        self.storing = sim.choice((None, 'evaluations', 'both'))
        if self.storing == 'evaluations':
            kw['storeAllEvaluations'] = True
        elif self.storing == 'both':
            kw['storeAllEvaluated'] = True
            kw['storeAllEvaluations'] = True
        if name in ('SNES', 'XNES', 'Rank1NES'):
            self.storing = 'both'
            kw.pop('storeAllEvaluated', None)
            kw.pop('storeAllEvaluations', None)
        x = [sim.value() for _ in range(dim)]
        if any(abs(v) > 100 for v in x):
            x = [max(-5.0, min(5.0, v)) for v in x]
        if kind == 'array':
            x0 = np.array(x)
        elif kind == 'list':
            x0 = list(x)
        elif kind == 'ints':
            x0 = [int(v) for v in x]
        elif kind == 'container':
            x0 = ParameterContainer(dim)
            x0._setParameters(np.array(x))
        elif kind == 'module':
            x0 = net
        else:
            x0 = None
            if form != 'function':
                kw['numParameters'] = dim
        self.kind, self.form, self.fname, self.dim = kind, form, fname, dim
        self.x0 = x0
        self.x0copy = None if x0 is None else np.array(getattr(x0, 'params', x0), float).copy()
        self.steps = 0           # completed learning steps
        self.base = 0            # evaluations before this one do not count (direction changed)
        self.listened = []
        kw['listener'] = lambda e, f: self.stepDone()
        self.evaluator = evaluator
        sim.log('new', index, name, kind, form, fname, 'dim', dim, 'min', self.minimize, 'desired', desired,
                sorted((k, getattr(v, '__name__', v)) for k, v in kw.items() if k != 'listener'))
        self.opt = self.cls(**kw)
        self.ready = False
        self.steplimit = None

    # -- oracle ------------------------------------------------------------
    def evals(self):
        return [v for _, v in self.rec.done]

    def better(self, a, b):
        return a < b if self.minimize else a > b

    def best(self, upto=None):
        vals = self.evals()[self.base:upto]
        if not vals:
            return None
        return min(vals) if self.minimize else max(vals)

    def reached(self, b):
        if b is None or self.desired is None:
            return False
        return b <= self.desired if self.minimize else b >= self.desired

    def stepDone(self):
        """the listener: called at the end of each learning step"""
        self.steps += 1
        self.listened.append(len(self.rec.done))
        sim = self.sim
        if not self.noise:
            sim.check(not self.reached(self.best(self.stepstart)), 'continues-after-desired',
                      lambda: '%s did another step although %r was reached (desired %r)'
                      % (self.name, self.best(self.stepstart), self.desired))
        sim.check(self.steplimit is None or self.steps <= self.steplimit, 'too-many-steps',
                  lambda: '%s: step %d, limit %r' % (self.name, self.steps, self.steplimit))
        self.stepstart = len(self.rec.done)

    def verify(self, result=None):
        sim, o, rec = self.sim, self.opt, self.rec
        sim.check(o.numEvaluations == len(rec.done), 'wrong-count',
                  lambda: '%s counts %r evaluations, %d were completed' % (self.name, o.numEvaluations, len(rec.done)))
        sim.check(o.numLearningSteps == self.steps, 'wrong-step-count',
                  lambda: '%s counts %r steps, %d were completed' % (self.name, o.numLearningSteps, self.steps))
        if self.x0copy is not None and self.kind != 'random':
            now = np.array(getattr(self.x0, 'params', self.x0), float)
            sim.check(np.array_equal(now, self.x0copy), 'initial-point-modified',
                      lambda: '%s: %s became %s' % (self.name, self.x0copy, now))
        if self.storing:
            sim.check(len(o._allEvaluations) == len(rec.done) and all(a == b for a, b in zip(o._allEvaluations, self.evals())),
                      'wrong-record', lambda: '%s stored %s, evaluated %s' % (self.name, short(o._allEvaluations), short(self.evals())))
        if self.storing == 'both':
            got = [np.array(getattr(e, 'params', e), float) for e in o._allEvaluated]
            sim.check(len(got) == len(rec.done) and all(np.array_equal(a, b) for a, (b, _) in zip(got, rec.done)),
                      'wrong-record', lambda: '%s stored evaluables %s, evaluated %s' % (self.name, short(got), short(rec.done)))
        want = self.best()
        if want is None:
            return
        e, f = o._bestFound() if result is None else result
        p = np.array(getattr(e, 'params', e), float)
        if self.noise:
            sim.check(any(v == f and np.array_equal(p, q) for q, v in rec.done), 'never-evaluated',
                      lambda: '%s returned %s with %r, which was not evaluated' % (self.name, p, f))
            return
        sim.check(f == want, 'not-the-best', lambda: '%s returned fitness %r, the best of %d evaluations is %r (%s)'
                  % (self.name, f, len(rec.done) - self.base, want, 'min' if self.minimize else 'max'))
        if self.kind in ('container', 'module'):
            sim.check(hasattr(e, 'params'), 'wrong-kind', lambda: '%s returned %r' % (self.name, e))
        else:
            sim.check(isinstance(e, np.ndarray), 'wrong-kind', lambda: '%s returned %r' % (self.name, e))
        got = rec.value(e)
        sim.check(got == f, 'returned-evaluable-differs',
                  lambda: '%s returned %s with fitness %r, but it has %r' % (self.name, p, f, got))

    def trouble(self, e):
        """an exception went through learn() or setEvaluator()"""
        from pybrain.utilities import DivergenceError
        if self.rec.fired == 'raises':
            want = Fail
        elif self.rec.fired == 'ValueError':
            want = (ValueError, DivergenceError)
        else:
            want = DivergenceError if self.rec.fired else ()
        if not isinstance(e, want):
            raise e

    def prepare(self):
        sim, rec = self.sim, self.rec
        rec.fired = None
        before = len(rec.done)
        try:
            self.opt.setEvaluator(self.evaluator, self.x0)
            self.ready = True
        except Exception as e:
            self.trouble(e)
            # a new one
            sim.log(self.index, 'setEvaluator failed')
            sim.state(self.name, 'init-failed', rec.fired)
            self.opt = self.cls(**self.kw)
            rec.done[:] = []
            return
        rec.armed = None
        sim.log(self.index, 'evaluator set, evaluations:', len(rec.done) - before)
        self.verify()

    def budget(self):
        o = self.opt
        return self.maxEvals is None or o.numEvaluations + o.batchSize <= self.maxEvals

    def learn(self, n):
        sim, o, rec = self.sim, self.opt, self.rec
        rec.fired = None
        steps0, evals0 = self.steps, len(rec.done)
        self.stepstart = evals0
        self.steplimit = None
        if n is not None:
            self.steplimit = steps0 + n
        elif o.maxLearningSteps is not None:
            self.steplimit = max(steps0, o.maxLearningSteps)
        result = None
        try:
            result = o.learn(n) if n is not None else o.learn()
        except Exception as e:
            self.trouble(e)
            sim.log(self.index, 'learn', n, 'failed:', type(e).__name__, 'steps', self.steps - steps0)
        else:
            sim.check(rec.fired != 'raises', 'error-swallowed', lambda: '%s hid the exception of the evaluator' % self.name)
        rec.armed = None
        did = self.steps - steps0
        sim.log(self.index, 'learn', n, 'steps', did, 'evaluations', len(rec.done) - evals0, 'best', repr(self.best()), rec.fired)
        sim.state(self.name, self.kind, self.form, rec.fired, min(did, 3), self.minimize, n is None)
        sim.check(self.maxEvals is None or len(rec.done) <= max(evals0, self.maxEvals), 'budget-exceeded',
                  lambda: '%s did %d evaluations, allowed %r (%d before)' % (self.name, len(rec.done), self.maxEvals, evals0))
        if did == 0 and rec.fired is None and self.name != 'NelderMead':
            sim.check(len(rec.done) == evals0, 'evaluations-outside-steps',
                      lambda: '%s: %d evaluations, but no step' % (self.name, len(rec.done) - evals0))
        if rec.fired is None and self.name not in CONVERGE and not self.noise:
            # why did it stop?
            ok = ((self.steplimit is not None and self.steps >= self.steplimit) or not self.budget() or self.reached(self.best()))
            sim.check(ok, 'stops-without-reason', lambda: '%s stopped after %d of %r steps, %d evaluations of %r, best %r, desired %r'
                      % (self.name, did, self.steplimit, len(rec.done), self.maxEvals, self.best(), self.desired))
        self.verify(result)

    def arm(self):
        what = self.sim.choice(('raises', 'nan', 'inf', 'ValueError', '-inf'))
        self.rec.armed = (self.sim.int(1, 12), what)
        self.sim.log(self.index, 'armed', self.rec.armed)


def run(sim):
    from pybrain.structure.evolvables.maskedmodule import MaskedModule
    from pybrain.structure.evolvables.maskedparameters import MaskedParameters
    sim.seed_globals()
    logging.disable(logging.CRITICAL)
    algs = algorithms()
    operators = [(c, n, getattr(c, n)) for c in (MaskedParameters, MaskedModule) for n in ('mutate', 'topologyMutate')]
    defaults = {n: {k: v for k, v in vars(c).items() if not k.startswith('__')} for n, c in algs.items()}
    subjects = [Subject(sim, i, algs) for i in range(sim.weighted(((3, 1), (1, 2))))]
    np.seterr(all='ignore')
    for _ in sim.ops(9, 16):
        s = subjects[sim.draw(len(subjects))]
        if not s.ready:
            if sim.chance(0.2):
                s.arm()
            s.prepare()
        else:
            op = sim.weighted(((6, 'learn'), (2, 'resume'), (1, 'budget'), (1, 'direction'), (1, 'desired')))
            if op == 'learn':
                if sim.chance(0.25):
                    s.arm()
                s.learn(sim.int(0, 4))
            elif op == 'resume':
                if s.opt.maxLearningSteps is None and (s.maxEvals is None or s.maxEvals > 200):
                    continue
                if sim.chance(0.25):
                    s.arm()
                s.learn(None)
            elif op == 'budget':
                s.maxEvals = s.opt.maxEvaluations = len(s.rec.done) + sim.int(0, 60)
                sim.log(s.index, 'maxEvaluations', s.maxEvals)
            elif op == 'desired':
                s.desired = s.opt.desiredEvaluation = sim.choice((None, 0.25, 1.0, -2.0, 3.0, 6.0))
                sim.log(s.index, 'desiredEvaluation', s.desired)
            else:
                want = sim.chance(0.5)
                if s.kw.get('importanceMixing'):
                    continue
                n = len(s.rec.done)
                s.opt.minimize = want
                if want != s.minimize:
                    s.minimize, s.base = want, n
                sim.log(s.index, 'minimize', want)
                s.verify()
        for c, n, m in operators:
            sim.check(getattr(c, n) is m, 'operators-exchanged', lambda: '%s.%s is another function now' % (c.__name__, n))
    for n, c in algs.items():
        for k, v in defaults[n].items():
            sim.check(vars(c).get(k) is v or vars(c).get(k) == v, 'class-defaults-changed', lambda: '%s.%s' % (n, k))
    sim.probe('runs')
