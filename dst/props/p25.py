"""P25: learners without a network (hashed neighbours, Gaussian processes, k-means) answer from exactly the data given."""
import itertools
import math

import numpy as np

from dst import seams
from dst.core import short


def setup():
    import pybrain.supervised.knn.lsh.minhash, pybrain.supervised.knn.lsh.nearoptimal  # noqa
    import pybrain.auxiliary.gaussprocess, pybrain.auxiliary.kmeans  # noqa
    import pybrain.datasets  # noqa


def close(a, b, tol=1e-9):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (1 + np.abs(b))))


def satellite(sim, n):
    """information attached to a point: any object, also ones that cannot be compared"""
    return sim.choice((lambda: {'n': n}, lambda: [n], lambda: np.array([n, n]), lambda: object(), lambda: complex(n)))()


def interrupted(sim, f, n):
    """True if f was interrupted"""
    try:
        with seams.Interrupter(sim, n):
            f()
    except KeyboardInterrupt:
        return True
    return False


# --- bits -----------------------------------------------------------------------------
def minhash(sim):
    from pybrain.supervised.knn.lsh.minhash import MinHash, jacardCoefficient, arrayPermutation
    dim, nperm = sim.int(1, 8), sim.draw(5)
    h = MinHash(dim, nperm)
    perms = [[int(i) for i in p] for p in h.permutations]
    sim.check(len(perms) == nperm and all(sorted(p) == list(range(dim)) for p in perms), 'minhash:permutations', lambda: 'permutations %s of %d bits' % (perms, dim))
    sim.log('minhash', dim, nperm)
    stored = []

    def bits():
        if stored and sim.chance(0.4):
            b = [int(v) for v in sim.choice(stored)[0]]
            if sim.chance(0.5):
                i = sim.draw(dim)
                b[i] = 1 - b[i]
            return b
        return [sim.draw(2) for _ in range(dim)]

    def array(b):
        return np.array(b, dtype=sim.choice((int, bool, float, np.uint8)))

    def bucket(b):
        return tuple(next((i for i, j in enumerate(p) if b[j]), dim) for p in perms)

    def content():
        return dict((k, [id(s) for _, s in v]) for k, v in h.buckets.items())

    def n_stored():
        return sum(len(v) for v in h.buckets.values())

    for _ in sim.ops(10, 30):
        op = sim.weighted([(5, 'put'), (6, 'knn'), (1, 'bad'), (1, 'interrupt'), (1, 'tools')])
        if op in ('put', 'interrupt'):
            b, s = bits(), satellite(sim, len(stored))
            a = array(b)
            before = n_stored()
            if op == 'put':
                h.put(a, s)
                done = True
            else:
                done = not interrupted(sim, lambda: h.put(a, s), 1 + sim.draw(8 + 4 * dim * nperm)) or n_stored() > before
            if done:
                stored.append((tuple(b), s))
            sim.check(n_stored() == len(stored), 'minhash:count', lambda: '%d items stored of %d put' % (n_stored(), len(stored)))
            a[:] = 0 if sim.chance(0.5) else a   # the caller may use its array again
            sim.log(op, b, done)
        elif op == 'knn':
            b, k = bits(), sim.draw(len(stored) + 2)
            before = content()
            got = h.knn(array(b), k)
            agree = lambda x: sum(int(u) == v for u, v in zip(x, b))  # noqa
            cands = [(x, s) for x, s in stored if bucket(x) == bucket(b)]
            want = sorted((agree(x) for x, s in cands), reverse=True)[:k]
            sim.check([agree(x) for x, _ in got] == want, 'minhash:neighbours',
                      lambda: '%d neighbours of %s agree in %s bits, in the bucket are %s' % (k, b, [agree(x) for x, _ in got], [x for x, _ in cands]))
            for x, s in got:
                sim.check(any(t is s and tuple(int(v) for v in x) == y for y, t in cands), 'minhash:satellite', lambda: 'neighbour %s was not put with this object' % short(x))
            sim.check(len(set(id(s) for _, s in got)) == len(got), 'minhash:twice', lambda: 'an item was returned twice')
            sim.check(dict((kk, sorted(v)) for kk, v in content().items()) == dict((kk, sorted(v)) for kk, v in before.items()), 'minhash:query-changes', lambda: 'a query changed the hash')
            if b in [list(x) for x, _ in stored] and k:
                sim.check(got and agree(got[0][0]) == dim, 'minhash:itself', lambda: 'an item put is not found')
                sim.probe('exact')
            sim.log('knn', b, k, len(got))
            sim.state('minhash', nperm, len(got), k)
        elif op == 'bad':
            wrong = sim.choice((np.zeros(dim + 1, int), np.zeros((dim, 1), int), np.zeros((1, dim), int)))
            before = content()
            f = sim.choice((lambda: h.put(wrong, 'x'), lambda: h.knn(wrong, 1)))
            try:
                f()
                sim.violate('minhash:bad-accepted', 'an item of shape %s is accepted for %d bits' % (wrong.shape, dim))
            except ValueError:
                sim.fault('wrong-shape')
            sim.check(content() == before, 'minhash:bad-changes', 'a refused item changed the hash')
            sim.log('bad')
        else:
            a, b = bits(), bits()
            sim.check(abs(jacardCoefficient(array(a), array(b)) - sum(u == v for u, v in zip(a, b)) / float(dim)) < 1e-12, 'minhash:coefficient', lambda: 'of %s and %s' % (a, b))
            p = sim.shuffled(list(range(dim)))
            sim.check([int(v) for v in arrayPermutation(np.array(p))(np.array(a))] == [a[i] for i in p], 'minhash:permute', lambda: '%s by %s' % (a, p))
            sim.log('tools')


# --- points ----------------------------------------------------------------------------
def lsh(sim):
    from pybrain.supervised.knn.lsh.nearoptimal import MultiDimHash
    if sim.chance(0.03):
        dim = sim.choice((25, 30))
        sim.log('lsh', dim)
        try:
            h = MultiDimHash(dim)
            h.insert([0.0] * dim, 'x')
            got = h.knn([0.0] * dim, 1)
        except Exception as e:
            sim.violate('lsh:high-dimension:%s' % type(e).__name__, 'hashing points of %d dimensions: %r' % (dim, e))
        sim.log('inserted')
        sim.check(len(got) == 1 and got[0][1] == 'x', 'lsh:itself', 'an inserted point is not found')
        return
    dim = sim.weighted([(4, 1), (4, 2), (1, 3)])
    omega, prob = sim.choice((4, 4, 3, 2)), sim.choice((0.8, 0.8, 0.5, 0.9))
    sim.log('lsh', dim, omega, prob)
    if dim < 3 and sim.chance(0.1):
        # the promised share of points lies in a ball
        share = []
        for _ in range(40):
            h = MultiDimHash(dim)
            pts = np.random.uniform(-30, 30, (30, dim))
            share.append(sum(h.findBall(p)[1] is not None for p in pts) / 30.)
        mean, err = float(np.mean(share)), float(np.std(share)) / math.sqrt(len(share))
        sim.log('coverage')
        sim.check(mean >= 0.8 - 6 * err - 0.01, 'lsh:coverage', lambda: '%.3f of the points lie in a ball, 0.8 are promised' % mean)
        sim.log('measured')
        sim.probe('coverage')
        return
    h = MultiDimHash(dim, omega, prob)
    stored = []

    def point():
        if stored and sim.chance(0.5):
            p = list(sim.choice(stored)[0])
            if sim.chance(0.6):
                i = sim.draw(dim)
                p[i] += sim.choice((0.01, -0.3, 0.7))
            return p
        return [sim.choice((0.0, sim.float(-10, 10), sim.float(-2, 2), float(sim.int(-4, 4)))) for _ in range(dim)]

    def arg(p):
        return np.array(p) if sim.chance(0.7) else list(p)

    def ball(p):
        cube, b = h.findBall(np.array(p))
        return tuple(int(c) for c in cube), b

    def content():
        return dict((k, [id(s) for _, s in v]) for k, v in h.balls.items())

    for _ in sim.ops(10, 30):
        op = sim.weighted([(5, 'insert'), (6, 'knn'), (1, 'interrupt')])
        if op in ('insert', 'interrupt'):
            p, s = point(), satellite(sim, len(stored))
            a = np.array(p) if dim == 1 or sim.chance(0.7) else list(p)
            if op == 'insert':
                h.insert(a, s)
                done = True
            else:
                before = sum(map(len, h.balls.values()))
                done = not interrupted(sim, lambda: h.insert(a, s), 1 + sim.draw(40)) or sum(map(len, h.balls.values())) > before
            if done:
                stored.append((tuple(p), s, ball(p)))
            if isinstance(a, np.ndarray):
                a += 1.0
            sim.log(op, p, done)
        else:
            p, k = point(), sim.draw(len(stored) + 2)
            before = content()
            mine = ball(p)
            got = h.knn(arg(p), k)
            dist = lambda x: sum((u - v) ** 2 for u, v in zip(x, p))  # noqa
            cands = [(x, s) for x, s, b in stored if b == mine]
            want = sorted(dist(x) for x, _ in cands)[:k]
            have = [dist(np.ravel(x)) for x, _ in got]
            sim.check(close(have, want), 'lsh:neighbours', lambda: '%d neighbours of %s at squared distances %s, in its ball are %s' % (k, p, short(have), short(want)))
            for x, s in got:
                sim.check(any(t is s and close(np.ravel(x), y) for y, t in cands), 'lsh:satellite', lambda: 'neighbour %s was not inserted with this object' % short(x))
            sim.check(len(set(id(s) for _, s in got)) == len(got), 'lsh:twice', lambda: 'a point was returned twice')
            if mine[1] is not None:
                far = [d for d in have if math.sqrt(d) > 2 * math.sqrt(math.sqrt(dim)) + 1e-9]
                sim.check(not far, 'lsh:far', lambda: 'points at squared distances %s share a ball' % short(far))
            sim.check(content() == before, 'lsh:query-changes', lambda: 'a query changed the hash')
            if k and any(list(x) == p for x, _, _ in stored):
                sim.check(have and have[0] == 0, 'lsh:itself', lambda: 'an inserted point is not found')
                sim.probe('exact')
            sim.log('knn', p, k, len(got))
            sim.state('lsh', dim, min(4, len(got)), mine[1] is None)


# --- Gaussian processes -------------------------------------------------------------------
def gauss(sim):
    from pybrain.auxiliary.gaussprocess import GaussianProcess
    from pybrain.datasets import SupervisedDataSet, SequentialDataSet
    indim = sim.int(1, 2)
    start, stop, step = float(sim.int(-2, 0)), float(sim.int(1, 2)), sim.choice((0.5, 1.0))
    if sim.chance(0.5):
        gp = GaussianProcess(indim, start, stop, step)
    else:
        gp = GaussianProcess(indim, (start,) * indim, (stop,) * indim, (step,) * indim)
    axis = [start + i * step for i in range(int(math.ceil((stop - start) / step)))]
    grid = np.array(list(itertools.product(axis, repeat=indim)))
    sim.check(np.shape(gp.testx) == grid.shape and sorted(map(tuple, np.asarray(gp.testx, float).tolist())) == sorted(map(tuple, grid.tolist())), 'gp:grid',
              lambda: 'grid %s..%s by %s is %s' % (start, stop, step, short(gp.testx)))
    testx = np.array(gp.testx, float)
    X, Y = [], []
    hyper, mean = (0.5, 2.0, 0.1), 0.0
    fresh = True      # nothing changed since the grid of test points was made
    sim.log('gp', indim, len(grid))

    def pt():
        if X and sim.chance(0.15):
            return list(sim.choice(X))
        return [sim.float(-2, 2) for _ in range(indim)]

    def dataset(n, wrong=False):
        cls = sim.choice((SupervisedDataSet, SequentialDataSet))
        ds = cls(indim + 1, 1) if wrong else cls(indim, 1)
        if cls is SequentialDataSet:
            ds.newSequence()
        xs, ys = [], []
        for _ in range(n):
            x, y = pt(), sim.float(-3, 3)
            ds.addSample(x + [0.0] if wrong else x, [y])
            xs.append(x)
            ys.append(y)
        return ds, xs, ys

    def kernel(A, B):
        l, sf, _ = hyper
        d = np.sum((A[:, None, :] - B[None, :, :]) ** 2, axis=2)
        return sf ** 2 * np.exp(-d / (2 * l ** 2))

    def predict(T):
        A = np.array(X, float).reshape(len(X), indim)
        K = kernel(A, A) + 0.001 * np.eye(len(X))
        k = kernel(A, T)
        return mean + np.dot(k.T, np.linalg.solve(K, np.array(Y) - mean)), kernel(T, T) - np.dot(k.T, np.linalg.solve(K, k))

    def audit(where):
        sim.check(len(gp.trainx) == len(X) and close(np.asarray(gp.trainx, float).reshape(-1, indim), np.array(X, float).reshape(-1, indim)) and close(np.ravel(gp.trainy), Y), 'gp:data',
                  lambda: '%s: holds %s -> %s, given were %s -> %s' % (where, short(np.asarray(gp.trainx).tolist()), short(np.asarray(gp.trainy).tolist()), short(X), short(Y)))

    old = []
    for _ in sim.ops(8, 20):
        op = sim.weighted([(4, 'add'), (2, 'set'), (2, 'dataset'), (1, 'wrong'), (1, 'reset'), (1, 'hyper'), (6, 'test'), (3, 'draw'), (2, 'reuse')])
        if op == 'add':
            x, y = pt(), sim.float(-3, 3)
            gp.addSample(x, sim.choice(([y], y)))
            X, Y = X + [x], Y + [y]
        elif op in ('set', 'dataset'):
            ds, xs, ys = dataset(sim.int(1, 4))
            if op == 'set':
                gp.trainOnDataset(ds)
                X, Y = xs, ys
            else:
                gp.addDataset(ds)
                X, Y = X + xs, Y + ys
            old.append(ds)
        elif op == 'wrong':
            ds, _, _ = dataset(1, True)
            try:
                sim.choice((gp.trainOnDataset, gp.addDataset))(ds)
                sim.violate('gp:wrong-accepted', 'a dataset of another dimension is accepted')
            except AssertionError:
                sim.fault('wrong-dataset')
        elif op == 'reset':
            gp.reset()
            X, Y = [], []
        elif op == 'hyper':
            hyper = (sim.float(0.2, 1.5), sim.float(0.5, 2), 0.1)
            mean = sim.float(-1, 1)
            gp.hyper, gp.mean = hyper, mean
            fresh = False
        elif op == 'test':
            T = np.array([pt() for _ in range(sim.int(1, 4))])
            got = gp.testOnArray(T.copy())
            testx, fresh = T, True
            sim.check(np.shape(got) == (len(T),), 'gp:shape', lambda: '%s predictions for %d points' % (np.shape(got), len(T)))
            if X:
                m, c = predict(T)
                sim.check(close(got, m, 1e-6), 'gp:mean', lambda: 'predicts %s for %s, expected %s' % (short(got.tolist()), short(T.tolist()), short(m.tolist())))
                sim.check(close(gp.pred_cov, c, 1e-6), 'gp:covariance', lambda: 'covariance %s, expected %s' % (short(gp.pred_cov.tolist()), short(c.tolist())))
                sim.probe('predicted')
            else:
                sim.check(close(got, [mean] * len(T)), 'gp:prior', lambda: 'predicts %s without data' % short(got.tolist()))
        elif op == 'draw' and X and fresh:
            got = gp.draw()
            m, c = predict(testx)
            dev = 6.5 * np.sqrt(np.maximum(np.diag(c), 0)) + 1e-3
            sim.check(np.shape(got) == np.shape(m) and bool(np.all(np.abs(got - m) <= dev)), 'gp:draw',
                      lambda: 'draws %s from a process of mean %s, deviation %s' % (short(np.asarray(got).tolist()), short(m.tolist()), short((dev / 6.5).tolist())))
            sim.check(bool(np.any(got != m)), 'gp:draw-mean', 'a draw is the mean itself')
            sim.probe('drawn')
        elif op == 'reuse' and old:
            # datasets given before are used for something else
            ds = sim.choice(old)
            if sim.chance(0.5):
                ds.clear()
            if isinstance(ds, SequentialDataSet):
                ds.newSequence()
            ds.addSample(pt(), [99.0])
        else:
            continue
        sim.log(op, len(X))
        audit(op)
        sim.state('gp', op, min(4, len(X)), indim)


# --- k-means ---------------------------------------------------------------------------------
def kmeans(sim):
    from pybrain.auxiliary.kmeans import kinit, kmeanspp
    n, dim = sim.int(1, 10), sim.int(1, 3)
    X = np.array([[sim.choice((float(sim.int(-2, 2)), sim.float(-5, 5))) for _ in range(dim)] for _ in range(n)])
    for _ in range(sim.int(2, 3)):
        k = sim.int(1, n)
        before = X.copy()
        C = np.asarray(kinit(X, k))
        sim.check(bool(np.all(X == before)), 'kmeans:data-changed', 'the data was changed')
        sim.check(C.shape == (k, dim), 'kmeans:shape', lambda: '%s centres, %d asked for' % (C.shape, k))
        rows = X.tolist()
        sim.check(all(c in rows for c in C.tolist()), 'kmeans:seed', lambda: 'centre %s is no point of the data' % short(C.tolist()))

        def cost(centers):
            return float(np.sum(np.min(np.sum((X[:, None, :] - np.asarray(centers)[None, :, :]) ** 2, axis=2), axis=1)))

        for i in range(1, k):
            best = min(cost(np.vstack([C[:i], x[None]])) for x in X)
            mine = cost(C[:i + 1])
            sim.check(mine <= best + 1e-9 * (1 + best), 'kmeans:greedy', lambda: 'centre %d of %s leaves a cost of %r, the best choice %r' % (i, short(C.tolist()), mine, best))
        np.random.seed(sim.draw(1000))
        state = np.random.get_state()
        init = np.asarray(kinit(X, k))
        np.random.set_state(state)
        book, label = kmeanspp(X, k)
        sim.check(book.shape == (k, dim) and label.shape == (n,) and all(0 <= int(v) < k for v in label), 'kmeans:clusters', lambda: 'codebook %s, labels %s' % (book.shape, short(label)))
        sim.check(cost(book) <= cost(init) * (1 + 1e-9) + 1e-9, 'kmeans:worse', lambda: 'clusters cost %r, the seeds %r' % (cost(book), cost(init)))
        sim.log('kmeans', n, k)
        sim.log(cost(book))
        sim.state('kmeans', n, k, dim)


def run(sim):
    sim.seed_globals()
    kind = sim.weighted([(3, 'minhash'), (3, 'lsh'), (4, 'gauss'), (1, 'kmeans')])
    {'minhash': minhash, 'lsh': lsh, 'gauss': gauss, 'kmeans': kmeans}[kind](sim)
