"""P12: the front of a multi-objective optimization is the non-dominated set."""
import logging

import numpy as np

from dst.core import short


def setup():
    import pybrain.optimization  # noqa
    import pybrain.rl.environments.functions.multiobjective  # noqa


class Fail(Exception):
    pass


# --- reference: smaller is better ------------------------------------------

def dominates(a, b, strict):
    """a makes b superfluous"""
    if strict:
        return all(x < y for x, y in zip(a, b))
    return all(x <= y for x, y in zip(a, b)) and any(x < y for x, y in zip(a, b))


def front(vals, equality):
    """keys of the items that nothing dominates; vals: {item: vector}"""
    return set(i for i, v in vals.items() if not any(dominates(w, v, equality) for w in vals.values()))


def checkfront(sim, got, vals, equality, cls, what):
    """got: items returned, vals: {item: vector}"""
    sim.check(len(set(got)) == len(got) and all(g in vals for g in got), cls, lambda: '%s: unknown or repeated items' % what)
    want = front(vals, equality)
    if equality:
        sim.check(set(got) == want, cls, lambda: '%s: %d items %s, expected %d: %s'
                  % (what, len(got), short([vals[g] for g in got]), len(want), short([vals[g] for g in want])))
    else:
        # one representative of each non-dominated vector
        a = sorted(tuple(vals[g]) for g in got)
        b = sorted(set(tuple(vals[g]) for g in want))
        sim.check(a == b, cls, lambda: '%s: %s, expected %s' % (what, short(a), short(b)))


def checkconst(sim, got, vals, equality, cls, what):
    """vals: {item: (vector, feasible, violation)}"""
    sim.check(len(set(got)) == len(got) and all(g in vals for g in got), cls, lambda: '%s: unknown or repeated items' % what)
    ok = {i: tuple(v[0]) for i, v in vals.items() if v[1]}
    if ok:
        sim.check(all(g in ok for g in got), 'infeasible-front',
                  lambda: '%s: contains infeasible items although there are feasible ones' % what)
        checkfront(sim, got, ok, equality, cls, what)
    elif vals:
        amount = {i: abs(sum(v[2])) for i, v in vals.items()}
        low = min(amount.values())
        sim.check(len(got) == 1 and amount[got[0]] <= low * (1 + 1e-9) + 1e-12, cls,
                  lambda: '%s: nothing is feasible, violations %s, least %r' % (what, [amount[g] for g in got], low))


# --- sets of points ---------------------------------------------------------

def points(sim):
    import pybrain.tools.nondominated as N
    from pybrain.optimization.populationbased.multiobjective.nsga2 import nsga2select
    dim = sim.int(1, 4)
    n = sim.choice((1, 2, 5, 12, 30, 90, 130, 260))
    grid = sim.choice((2, 3, 6, 40, 1000))
    shape = sim.choice(('cloud', 'front', 'line'))
    import random
    rng = random.Random(sim.draw(1 << 30))
    vals = {}
    for i in range(n):
        if shape == 'cloud':
            v = [rng.randrange(grid) / 4.0 for _ in range(dim)]
        elif shape == 'front':
            x = rng.randrange(grid)
            v = [x / 4.0 if k % 2 else -x / 4.0 for k in range(dim)]
        else:
            v = [float(rng.randrange(grid))] + [1.5] * (dim - 1)
        vals[(i,)] = np.array(v)
    eq = sim.chance(0.5)
    sim.log('points', n, 'dim', dim, 'grid', grid, shape, 'equality', eq)
    sim.state('points', n, dim, grid, shape, eq)
    items = list(vals)
    key = lambda x: vals[x]
    got = N.non_dominated_front(list(items), key=key, allowequality=eq)
    tv = {i: tuple(v) for i, v in vals.items()}
    checkfront(sim, list(got), tv, eq, 'wrong-front', 'non_dominated_front')
    if n <= 130:
        rest = dict(tv)
        fronts = N.non_dominated_sort(list(items), key=key, allowequality=eq)
        for f in fronts:
            checkfront(sim, list(f), rest, eq, 'wrong-sort', 'non_dominated_sort')
            for i in f:
                del rest[i]
        sim.check(not rest, 'wrong-sort', lambda: 'items left out: %s' % short(rest))
        k = sim.int(1, n)
        sel = nsga2select(list(items), vals, k, eq)
        sim.check(len(sel) == k and len(set(sel)) == k, 'wrong-selection', lambda: 'selected %d of %d' % (len(sel), k))
        rank = {i: r for r, f in enumerate(fronts) for i in f}
        worst = max(rank[i] for i in sel)
        if eq:
            sim.check(all(i in sel for i in items if rank[i] < worst), 'wrong-selection',
                      lambda: 'an item of rank %s was left out for one of rank %d' % (
                          [rank[i] for i in items if i not in sel and rank[i] < worst], worst))
    d = N.crowding_distance(list(items), vals)
    if n > 2 and all(len(set(tv[i][k] for i in items)) == n for k in range(dim)):
        want = {}
        for k in range(dim):
            o = sorted(items, key=lambda i: tv[i][k])
            span = tv[o[-1]][k] - tv[o[0]][k]
            for a, b, c in zip(o, o[1:], o[2:]):
                want[b] = want.get(b, 0) + (tv[c][k] - tv[a][k]) / span
            for b in (o[0], o[-1]):
                want[b] = 1e100
        sim.check(all(abs(d[i] - want[i]) < 1e-9 or (want[i] >= 1e100 and d[i] >= 1e99) or
                      (want[i] > 1e90 and d[i] > 1e90) for i in items), 'wrong-distance',
                  lambda: 'crowding distances %s, expected %s' % (short(dict(d)), short(want)))
    else:
        sim.check(all(np.isfinite(d[i]) for i in items), 'wrong-distance', lambda: 'crowding distances %s' % short(dict(d)))


# --- histories of optimization ----------------------------------------------

def recording(sim, base, rec):
    class F(base):
        def f(self, x):
            rec['calls'] += 1
            if rec['armed'] is not None:
                rec['armed'] -= 1
                if rec['armed'] == 0:
                    rec['armed'] = None
                    rec['fired'] = True
                    sim.fault('evaluator-raises')
                    raise Fail()
            v = base.f(self, x)
            rec['log'].append((tuple(x), tuple(float(t) for t in v)))
            return v
    F.__name__ = base.__name__
    return F()


def history(sim):
    import pybrain.optimization as O
    import pybrain.rl.environments.functions.multiobjective as M
    constrained = sim.chance(0.35)
    rec = dict(calls=0, armed=None, fired=False, log=[])
    plain = False
    if constrained:
        base = sim.choice((M.ConstDeb, M.ConstSrn, M.ConstOsy, M.ConstTnk, M.ConstBnh))
    else:
        class Sum(M.MultiObjectiveFunction):
            """three objectives, on a grid (ties)"""
            xdim = 2

            def f(self, x):
                g = np.round(x * 2) / 2
                return -np.array([g[0] ** 2 + g[1] ** 2, abs(g[0] - 1), abs(g[1] + 1)])
        base = sim.choice((M.SchBenchmark, M.FonBenchmark, M.PolBenchmark, M.KurBenchmark, M.Deb, M.Pol, Sum, Sum))
    fn = recording(sim, base, rec)
    kw = dict(populationSize=sim.choice((2, 4, 9, 20, 110)), elitism=sim.chance(0.6), allowEquality=sim.chance(0.5),
              storeAllPopulations=True, storeAllEvaluations=True)
    if kw['populationSize'] == 110 and not sim.chance(0.15):
        kw['populationSize'] = 14
    if sim.chance(0.3):
        kw['topProportion'] = sim.choice((0.2, 0.8))
    if sim.chance(0.3):
        kw['mutationProb'] = sim.choice((0.0, 1.0))
    bound = fn.xbound
    if np.isscalar(bound):
        bound = [(-bound, bound)] * fn.xdim
    evaluator = fn
    # values of the benchmark functions are to be maximised
    sign = -1.0
    if not constrained and sim.chance(0.1):
        plain = True
        evaluator = lambda x: fn.f(x)
        bound = None
        if sim.chance(0.5):
            kw['minimize'] = True
            sign = 1.0
    x0 = np.array([sim.float(lo, hi) for lo, hi in (bound or [(-2, 2)] * fn.xdim)])
    budget = sim.choice((None, None, None, 40, 100))
    if budget is not None:
        kw['maxEvaluations'] = budget
    sim.log(base.__name__, 'plain' if plain else '', sorted(kw.items()))
    A = O.ConstMultiObjectiveGA if constrained else O.MultiObjectiveGA
    known = {}       # individual -> evaluation, all generations
    state = dict(seen=0, steps=0, failed=False)
    reversed_ = []

    def value(x):
        """the evaluation of an individual, smaller is better"""
        v = base.f(base(), np.array(x)) if not hasattr(base, 'g') else None
        if v is not None:
            return tuple(sign * float(t) for t in v)
        b = base()
        v = b.f(np.array(x))
        return tuple(sign * float(t) for t in v), bool(b.feasible), tuple(float(t) for t in b.violation)

    def stepDone(best, bestf):
        state['steps'] += 1
        pop, fits = opt._allGenerations[-1]
        pop = [tuple(float(t) for t in p) for p in pop]
        new = rec['log'][state['seen']:]
        state['seen'] = len(rec['log'])
        vals = {p: value(p) for p in pop}
        sim.check(set(fits) == set(pop), 'wrong-generation', lambda: 'fitnesses of %d individuals for %d' % (len(fits), len(set(pop))))
        # evaluated: not those that are known from the previous generation
        names = [x for x, _ in new]
        if not state['failed']:
            sim.check(not any(x in state.get('last', ()) for x in names), 'evaluated-twice',
                      lambda: 'an individual of the previous generation was evaluated again')
        sim.check(all(p in set(x for x, _ in rec['log']) for p in pop), 'never-evaluated', 'individuals without evaluation')
        state['failed'] = False
        state['last'] = set(pop)
        if bound is not None:
            for p in pop:
                sim.check(all(lo - 1e-12 <= t <= hi + 1e-12 for t, (lo, hi) in zip(p, bound)), 'out-of-bounds',
                          lambda: '%s is outside of %s' % (p, bound))
        if kw['elitism']:
            known.clear()
        known.update(vals)
        got = [tuple(float(t) for t in b) for b in best]
        sim.check(len(got) == len(bestf), 'wrong-fitness', lambda: '%d individuals, %d fitnesses' % (len(got), len(bestf)))
        eq = kw['allowEquality']
        what = 'generation %d' % state['steps']
        if constrained:
            checkconst(sim, got, known, eq, 'wrong-front', what)
            for b, f in zip(got, bestf):
                sim.check(np.allclose(np.abs(f[0]), np.abs(known[b][0]), rtol=1e-9) and bool(f[1]) == known[b][1], 'wrong-fitness',
                          lambda: '%s has %s, reported %s' % (b, known[b], f))
        else:
            if plain:
                back = {i: tuple(-t for t in v) for i, v in known.items()}
                if set(tuple(known[g]) for g in got if g in known) != set(known[i] for i in front(known, eq)):
                    # only quiet if it is the front of the other direction
                    checkfront(sim, got, back, eq, 'wrong-front', what)
                    reversed_.append(what)
            else:
                checkfront(sim, got, known, eq, 'wrong-front', what)
            for b, f in zip(got, bestf):
                sim.check(np.allclose(np.abs(f), np.abs(known[b]), rtol=1e-9), 'wrong-fitness',
                          lambda: '%s has %s, reported %s' % (b, known[b], f))
        sim.log('step', state['steps'], 'population', len(pop), 'new', len(new), 'front', len(got))
        sim.state(base.__name__, kw['elitism'], eq, len(pop) > 100, min(len(got), 5), plain)

    opt = A(evaluator, x0, listener=stepDone, **kw)
    for _ in sim.ops(4, 7):
        if sim.chance(0.3):
            rec['armed'] = sim.int(1, kw['populationSize'])
        n = sim.int(0, 3)
        before, steps = len(rec['log']), state['steps']
        rec['fired'] = False
        try:
            result = opt.learn(n)
        except Fail:
            state['failed'] = True
            sim.log('failed')
        else:
            sim.check(not rec['fired'], 'error-swallowed', 'the exception of the evaluator was hidden')
            did = state['steps'] - steps
            sim.check(did == n or (budget is not None and len(rec['log']) + opt.batchSize > budget), 'stops-without-reason',
                      lambda: '%d of %d generations' % (did, n))
            if state['steps']:
                sim.check(result[0] is not None and len(result[0]) == len(result[1]), 'wrong-result', lambda: short(result))
        rec['armed'] = None
        sim.check(budget is None or len(rec['log']) <= max(before, budget), 'budget-exceeded', lambda: '%d of %r' % (len(rec['log']), budget))
        sim.check(opt.numEvaluations == len(rec['log']), 'wrong-count',
                  lambda: 'counts %d evaluations, %d were completed' % (opt.numEvaluations, len(rec['log'])))
        sim.check(len(opt._allEvaluations) == len(rec['log']), 'wrong-record', lambda: '%d evaluations stored' % len(opt._allEvaluations))
    if reversed_:
        sim.check(False, 'front-of-opposite-direction', lambda: 'minimize=%r: %s is the front of the opposite direction'
                  % (kw.get('minimize', False), reversed_[0]))


def run(sim):
    sim.seed_globals()
    logging.disable(logging.CRITICAL)
    np.seterr(all='ignore')
    if sim.chance(0.4):
        points(sim)
    else:
        history(sim)
    sim.probe('runs')
