"""P08: the two-player games are played by their rules: boards, captures, wins, draws, legal moves,
players and the scores of the tasks built on them follow a reference model over any history."""
import random

import numpy as np

from dst.core import short

E, B, W = 0, 1, -1


def setup():
    import pybrain.rl.environments.twoplayergames.tasks  # noqa
    import pybrain.rl.environments.twoplayergames.capturegameplayers  # noqa
    import pybrain.rl.environments.twoplayergames.gomokuplayers  # noqa
    import pybrain.tools.shortcuts  # noqa


class Fail(Exception):
    pass


# --- reference rules -----------------------------------------------------------------------------

class RefCapture(object):
    def __init__(self, size, suicide):
        self.h = self.w = size
        self.suicide = suicide
        self.new()

    def new(self):
        self.b = {(i, j): E for i in range(self.h) for j in range(self.w)}
        self.winner, self.moves = None, 0

    def near(self, p):
        return [q for q in ((p[0] + 1, p[1]), (p[0] - 1, p[1]), (p[0], p[1] + 1), (p[0], p[1] - 1)) if q in self.b]

    def group(self, b, p):
        todo, g, libs = [p], {p}, set()
        while todo:
            for q in self.near(todo.pop()):
                if b[q] == E:
                    libs.add(q)
                elif b[q] == b[p] and q not in g:
                    g.add(q)
                    todo.append(q)
        return g, libs

    def effect(self, c, p):
        """'capture', 'suicide' or None for a stone of c on the empty position p"""
        b = dict(self.b)
        b[p] = c
        if any(b[q] == -c and not self.group(b, q)[1] for q in self.near(p)):
            return 'capture'
        return None if self.group(b, p)[1] else 'suicide'

    def legal(self, c, p):
        return p in self.b and self.b[p] == E and (self.suicide or self.effect(c, p) != 'suicide')

    def killing(self, c):
        return {p for p in self.b if self.b[p] == E and self.effect(c, p) == 'capture'}

    def move(self, c, p):
        if p == 'resign':
            self.moves += 1
            self.winner = -c
            return True
        if not self.legal(c, p):
            return False
        self.moves += 1
        e = self.effect(c, p)
        if e:
            self.winner = c if e == 'capture' else -c
            self.b[p] = 'x' if e == 'capture' else 'y'
        else:
            self.b[p] = c
        return True


class RefGomoku(object):
    pente = False

    def __init__(self, h, w):
        self.h, self.w = h, w
        self.new()

    def new(self):
        self.b = {(i, j): E for i in range(self.h) for j in range(self.w)}
        self.winner, self.moves = None, 0
        self.pairs = {B: 0, W: 0}
        if self.pente:
            self.b[(self.h // 2, self.w // 2)] = W
            self.moves = 1

    def five(self, c, p):
        for dx, dy in ((0, 1), (1, 0), (1, 1), (1, -1)):
            n = 1
            for s in (1, -1):
                q = (p[0] + s * dx, p[1] + s * dy)
                while self.b.get(q) == c:
                    n += 1
                    q = (q[0] + s * dx, q[1] + s * dy)
            if n >= 5:
                return True
        return False

    def taken(self, c, p):
        res = set()
        if self.pente:
            for dx in (-1, 0, 1):
                for dy in (-1, 0, 1):
                    q = [(p[0] + i * dx, p[1] + i * dy) for i in (1, 2, 3)]
                    if (dx or dy) and [self.b.get(x) for x in q] == [-c, -c, c]:
                        res.update(q[:2])
        return res

    def wins(self, c, p):
        return self.five(c, p) or self.pairs[c] + len(self.taken(c, p)) // 2 >= 5

    def legal(self, c, p):
        return self.b.get(p) == E

    def killing(self, c):
        return {p for p in self.b if self.b[p] == E and self.wins(c, p)}

    def move(self, c, p):
        if not self.legal(c, p):
            return False
        self.moves += 1
        if self.wins(c, p):
            self.winner = c
            self.b[p] = 'x'
            return True
        t = self.taken(c, p)
        self.b[p] = c
        for q in t:
            self.b[q] = E
        self.pairs[c] += len(t) // 2
        if E not in self.b.values():
            self.winner = 'draw'
        return True


class RefPente(RefGomoku):
    pente = True


def make_game(sim):
    from pybrain.rl.environments.twoplayergames import CaptureGame, GomokuGame
    from pybrain.rl.environments.twoplayergames.pente import PenteGame
    kind = sim.choice(('capture', 'capture', 'gomoku', 'pente'))
    if kind == 'capture':
        n, s = sim.int(2, 6), not sim.chance(0.4)
        return kind, CaptureGame(n, s), RefCapture(n, s)
    h, w = sim.int(5, 7), sim.int(5, 7)
    return kind, (GomokuGame if kind == 'gomoku' else PenteGame)((h, w)), (RefGomoku if kind == 'gomoku' else RefPente)(h, w)


def run(sim):
    sim.seed_globals()
    f = sim.weighted([(4, rules), (3, players), (3, tasks), (1, relative)])
    f(sim)


# --- move by move ----------------------------------------------------------------------------------

def compare(sim, kind, g, r):
    pos = sorted(r.b)
    sim.check({p: g.b[p] for p in g.b} == r.b, 'wrong-board', lambda: '%s: board %s, expected %s' % (kind, show(g.b), show(r.b)))
    sim.check(g.getWinner() == r.winner and g.gameOver() == (r.winner is not None), 'wrong-winner',
              lambda: '%s: winner %s (over: %s), expected %s on %s' % (kind, g.getWinner(), g.gameOver(), r.winner, show(r.b)))
    sim.check(g.movesDone == r.moves, 'wrong-move-count', lambda: '%s: %d moves counted, %d made' % (kind, g.movesDone, r.moves))
    sim.check([x for x in g.getSensors()] == [r.b[p] for p in pos], 'wrong-sensors', lambda: '%s: %s' % (kind, g.getSensors()))
    a = [int(r.b[p] == c) for p in pos for c in (W, B)]
    sim.check([int(x) for x in g.getBoardArray()] == a and g.outdim == len(a) and g.indim == len(pos), 'wrong-board-array',
              lambda: '%s: %s' % (kind, g.getBoardArray()))
    if kind == 'pente':
        sim.check(g.pairsTaken == r.pairs, 'wrong-pairs', lambda: 'pairs %s, expected %s' % (g.pairsTaken, r.pairs))
    if r.winner is not None:
        return
    for c in (B, W):
        leg = {p for p in pos if r.legal(c, p)}
        same(sim, kind, 'getLegals', c, g.getLegals(c), leg, r)
        same(sim, kind, 'getKilling', c, g.getKilling(c), r.killing(c), r)
        if kind == 'capture':
            same(sim, kind, 'getAcceptable', c, g.getAcceptable(c), {p for p in leg if r.effect(c, p) != 'suicide'}, r)
    if kind == 'capture':
        for p in pos:
            if r.b[p] == E:
                sim.check(g.getLiberties(p) is None and g.getGroupSize(p) is None, 'wrong-liberties', lambda: 'an empty position has liberties')
                continue
            gr, libs = r.group(r.b, p)
            sim.check(g.getLiberties(p) == len(libs) and g.getGroupSize(p) == len(gr), 'wrong-liberties',
                      lambda: 'stone at %s: %s liberties, group of %s, expected %d and %d on %s'
                      % (p, g.getLiberties(p), g.getGroupSize(p), len(libs), len(gr), show(r.b)))


def same(sim, kind, what, c, got, exp, r):
    sim.check(set(got) == exp, 'wrong-' + what, lambda: '%s: %s(%d) gives %s, expected %s on %s'
              % (kind, what, c, sorted(got), sorted(exp), show(r.b)))


def show(b):
    h = max(p[0] for p in b) + 1
    w = max(p[1] for p in b) + 1
    return '/'.join(''.join({E: '.', B: 'X', W: 'O'}.get(b[(i, j)], str(b[(i, j)])) for j in range(w)) for i in range(h))


def rules(sim):
    kind, g, r = make_game(sim)
    sim.log(kind, r.h, r.w, getattr(r, 'suicide', None))
    compare(sim, kind, g, r)
    c = B
    calm = sim.chance(0.6)          # avoid ending the game, so that boards fill up
    for k in sim.ops(30, 80) if kind == "capture" else sim.ops(50, 120):
        op = sim.weighted([(30, 'move'), (3, 'any'), (1, 'outside'), (1, 'again'), (1, 'reset'), (1, 'setup')])
        if r.winner is not None or op == 'reset':
            g.reset()
            r.new()
            c = B
            sim.log('reset')
            sim.probe('reset')
        elif op == 'setup' and kind == 'capture' and r.h > 2:
            g.reset()
            r.new()
            if sim.chance(0.5):
                n = sim.int(0, 8)
                m = g.randomBoard(n)
                sim.log('random board', n, m)
                r.b = dict(g.b)
                r.moves = g.movesDone
                s = [x for x in r.b.values() if x != E]
                sim.check(0 <= m <= n and len(s) == m and sum(s) in (0, 1) and set(s) <= {B, W}, 'wrong-random-board',
                          lambda: 'random board after %s of %s moves: %s' % (m, n, show(r.b)))
                sim.check(all(r.group(r.b, p)[1] for p in r.b if r.b[p] != E), 'wrong-random-board', lambda: 'dead stones on %s' % show(r.b))
                c = B if sum(s) == 0 else W
            else:
                n, c = sim.int(0, 12), sim.choice((B, W))
                room = 1 if r.h == 3 else 4 if r.h == 4 else 4 + 4 * (r.h - 4)
                g.giveHandicap(n, c)
                sim.log('handicap', n, c)
                r.b = dict(g.b)
                r.moves = g.movesDone
                s = [p for p in r.b if r.b[p] != E]
                sim.check(all(r.b[p] == c for p in s) and len(s) <= n and (len(s) == n or n > room // 2), 'wrong-handicap',
                          lambda: '%d handicap stones for %d on %s' % (n, c, show(r.b)))
                c = -c
        else:
            free = [p for p in sorted(r.b) if r.b[p] == E]
            if op == 'again':
                c = -c          # the same player twice: the game leaves the order to its caller
            if kind == 'capture' and op == 'any' and sim.chance(0.3):
                p = 'resign'
            elif op == 'outside':
                p = sim.choice(((-1, 0), (0, -1), (r.h, 0), (0, r.w), (r.h, r.w), (99, 99)))
            elif op == 'any' or not free:
                p = sim.choice(sorted(r.b))
            else:
                p = sim.choice(free)
                if calm:
                    bad = r.killing(c) | ({q for q in free if r.effect(c, q)} if kind == 'capture' else set())
                    ok = [q for q in free if q not in bad]
                    p = sim.choice(ok) if ok else p
                    if kind == "pente" and sim.chance(0.7):
                        take = [q for q in ok if r.taken(c, q)]
                        p = sim.choice(take) if take else p
            sim.check(p == 'resign' or bool(g.isLegal(c, p)) == r.legal(c, p), 'wrong-legality',
                      lambda: '%s: isLegal(%d, %s) is %s on %s' % (kind, c, p, g.isLegal(c, p), show(r.b)))
            how = sim.draw(2)
            exp = r.move(c, p)
            if how:
                got = g.doMove(c, p)
                sim.check(bool(got) == exp, 'wrong-result', lambda: '%s: doMove(%d, %s) returns %s' % (kind, c, p, got))
            else:
                g.performAction([c, p])
                sim.check(g.lastplayer == c, 'wrong-last-player', lambda: 'last player %s' % g.lastplayer)
            sim.log(c, p, exp)
            if exp:
                c = -c
            else:
                sim.probe('refused-move')
        compare(sim, kind, g, r)
        if r.winner is not None:
            sim.probe('over-%s-%s' % (kind, 'draw' if r.winner == 'draw' else 'win'))
        sim.state(kind, op, r.winner, min(r.moves, 20), max(getattr(r, 'pairs', {0: 0}).values()))


# --- players -----------------------------------------------------------------------------------------

def player_for(sim, kind, game, which=None):
    from pybrain.rl.environments.twoplayergames import capturegameplayers as C, gomokuplayers as G
    from pybrain.tools.shortcuts import buildNetwork
    from pybrain.structure import SigmoidLayer
    which = which or sim.choice(('random', 'killing', 'nonsuicide', 'module', 'greedy'))
    if which in ('module', 'greedy'):
        n = game.indim
        net = buildNetwork(2 * n, n, outclass=SigmoidLayer, bias=False)
        P = (C if kind == 'capture' else G).ModuleDecidingPlayer
        return which, P(net, game, greedySelection=which == 'greedy')
    if kind == 'capture':
        P = {'random': C.RandomCapturePlayer, 'killing': C.KillingPlayer, 'nonsuicide': C.NonSuicidePlayer}[which]
    else:
        which = 'killing' if which == 'killing' else 'random'
        P = G.KillingGomokuPlayer if which == 'killing' else G.RandomGomokuPlayer
    return which, P(game)


def watch(sim, kind, which, player, ref, fail, illegal=None):
    """the player's moves are judged on the reference board; it may fail or offer illegal moves"""
    orig = player.getAction
    seen = []
    if which in ('module', 'greedy'):
        act = player.module.activate

        def activate(x):
            out = act(x)
            seen[:] = [np.array(x), np.array(out)]
            return out
        player.module.activate = activate

    def getAction():
        if fail[0] > 0:
            fail[0] -= 1
            if fail[0] == 0:
                sim.fault('player-fails')
                raise Fail()
        if illegal and sim.chance(illegal):
            sim.fault('illegal-move')
            return [player.color, sim.choice([p for p in sorted(ref.b) if ref.b[p] != E] or [(0, 99)])]
        a = orig()
        c, p = a
        sim.check(c == player.color, 'wrong-color', lambda: '%s moves for %s' % (which, c))
        leg = {q for q in ref.b if ref.legal(c, q)}
        sim.check(p in leg, 'illegal-move', lambda: '%s %s plays %s on %s' % (kind, which, p, show(ref.b)))
        kill = ref.killing(c)
        if which == 'killing' and kill:
            sim.check(p in kill, 'missed-win', lambda: '%s killing player plays %s, wins at %s on %s' % (kind, p, sorted(kill), show(ref.b)))
        if kind == 'capture' and which in ('killing', 'nonsuicide'):
            ok = {q for q in leg if ref.effect(c, q) != 'suicide'}
            sim.check(p in ok or not ok, 'needless-suicide', lambda: '%s plays %s on %s' % (which, p, show(ref.b)))
        if which in ('module', 'greedy'):
            x, out = seen
            pos = sorted(ref.b)
            exp = [int(ref.b[q] == d) for q in pos for d in (-c, c)]
            sim.check([int(v) for v in x] == exp, 'wrong-view', lambda: 'the module of player %d is shown %s on %s' % (c, short(list(x)), show(ref.b)))
            if which == 'greedy':
                best = max(out[pos.index(q)] for q in leg)
                sim.check(out[pos.index(p)] >= best - 1e-12, 'not-greedy', lambda: '%s on %s' % (p, show(ref.b)))
        return a
    player.getAction = getAction
    return player


def follow(sim, game, ref):
    """let the reference board follow the game"""
    domove, reset = game.doMove, game.reset

    def doMove(c, p):
        r = domove(c, p)
        e = ref.move(c, p)
        sim.check(bool(r) == e, 'wrong-result', lambda: 'doMove(%d, %s) returns %s on %s' % (c, p, r, show(ref.b)))
        sim.check(game.getWinner() == ref.winner, 'wrong-winner', lambda: 'winner %s, expected %s on %s' % (game.getWinner(), ref.winner, show(ref.b)))
        if ref.winner is not None and hasattr(ref, 'over'):
            ref.over(ref.winner, ref.moves)
        return r

    def reset_():
        reset()
        ref.new()
        if hasattr(ref, 'started'):
            ref.started()
    game.doMove, game.reset = doMove, reset_
    if hasattr(game, 'giveHandicap'):
        handicap = game.giveHandicap

        def giveHandicap(*a):
            handicap(*a)
            ref.b = dict(game.b)
        game.giveHandicap = giveHandicap


def players(sim):
    kind, g, r = make_game(sim)
    follow(sim, g, r)
    fail = [0]
    w1, p1 = player_for(sim, kind, g)
    w2, p2 = player_for(sim, kind, g)
    illegal = sim.choice((None, None, 0.15))
    watch(sim, kind, w1, p1, r, fail, illegal)
    watch(sim, kind, w2, p2, r, fail, illegal)
    if kind == 'capture' and not r.suicide and r.h < 3:
        return          # such a board can leave a player without any legal move
    for k in sim.ops(4, 8):
        p1.color = sim.choice((B, W))
        p2.color = -p1.color
        fail[0] = sim.int(1, 12) if sim.chance(0.4) else 0
        g.reset()
        sim.log(kind, r.h, r.w, w1, w2, p1.color, 'fail', fail[0])
        try:
            g.playToTheEnd(p1, p2)
        except Fail:
            sim.probe('game-aborted')
            compare(sim, kind, g, r)
            continue
        except (IndexError, AssertionError):
            # nobody wins and no legal move is left: possible where suicide is forbidden
            if kind == 'capture' and not r.suicide and any(not [p for p in r.b if r.legal(c, p)] for c in (B, W)):
                sim.probe('no-legal-move')
                continue
            raise
        finally:
            fail[0] = 0
        compare(sim, kind, g, r)
        sim.check(g.gameOver(), 'game-not-over', 'playToTheEnd returned before the end')
        sim.state(kind, w1, w2, r.winner, illegal, r.moves)


# --- tasks -------------------------------------------------------------------------------------------

def tasks(sim):
    from pybrain.rl.environments.twoplayergames import tasks as T
    kind = sim.choice(('capture', 'capture', 'gomoku', 'pente', 'handicap'))
    n = sim.int(3, 5) if kind in ('capture', 'handicap') else sim.int(5, 6)
    games = 'capture' if kind in ('capture', 'handicap') else kind
    kw = dict(opponentStart=sim.chance(0.5), alternateStarting=sim.chance(0.5), winnerReward=sim.choice((1.0, 2.5)),
              numMovesCoeff=sim.choice((0.0, 0.5, 1.0)), averageOverGames=sim.int(1, 4))
    if kind == 'handicap':
        kw = dict(opponentStart=sim.chance(0.5), maxGames=sim.choice((5, 12, 25)))
    cls = {'capture': T.CaptureGameTask, 'gomoku': T.GomokuTask, 'pente': T.PenteTask, 'handicap': T.HandicapCaptureTask}[kind]
    ref = RefCapture(n, True) if games == 'capture' else (RefGomoku if kind == 'gomoku' else RefPente)(n, n)
    from pybrain.rl.environments.twoplayergames import CaptureGame, GomokuGame
    from pybrain.rl.environments.twoplayergames.pente import PenteGame
    own = sim.draw(3)
    other = {'capture': lambda: CaptureGame(n), 'gomoku': lambda: GomokuGame((n, n)), 'pente': lambda: PenteGame((n, n))}[games]()
    ow, opp = player_for(sim, games, other, None if own == 2 else ('killing' if own == 1 else 'random'))
    if own == 2:
        task = cls(n, opp, **kw)            # an instance that comes from another game
    else:
        task = cls(n, opp.__class__ if own else None, **kw)
    sim.log(kind, n, sorted(kw.items()), ow, own)
    opp = task.opponent
    # the constructor has begun a game already
    ref.new()
    ref.b = dict(task.env.b)
    ref.moves = task.env.movesDone
    record, fail = [], [0]
    starts = [opp.color == B]
    ref.over = lambda w, m: record.append((w, m))
    follow(sim, task.env, ref)
    watch(sim, games, ow, opp, ref, fail)
    which, agent = player_for(sim, games, task.env)
    illegal = None if kind == 'handicap' else sim.choice((None, None, 0.1))
    watch(sim, games, which, agent, ref, fail, illegal)
    color = agent_color = None
    oc = [opp.color]                # who starts the next game
    for k in sim.ops(4, 8):
        op = sim.weighted([(6, 'f'), (2, 'steps')]) if kind != 'handicap' else 'f'
        del record[:]
        fail[0] = sim.int(1, 20) if sim.chance(0.4) else 0
        sim.log(op, fail[0])
        if op == 'steps':
            # some moves of a game that is never finished or evaluated
            try:
                agent.game = task.env
                agent.color = -opp.color
                task.reset()
                for _ in range(sim.int(0, 4)):
                    if task.isFinished():
                        break
                    task.performAction(agent.getAction())
                    sim.check(task.getReward() == 0 or task.isFinished(), 'early-reward', 'a reward during the game')
                    if task.isFinished():
                        oc[0] = -oc[0] if kw['alternateStarting'] else oc[0]
            except Fail:
                sim.probe('game-aborted')
            finally:
                fail[0] = 0
            sim.check(opp.color == oc[0], 'wrong-starter', lambda: 'opponent plays %d, expected %d' % (opp.color, oc[0]))
            continue
        try:
            val = task.f(agent if sim.chance(0.8) or which not in ('module', 'greedy') or illegal else agent.module)
        except Fail:
            sim.probe('evaluation-aborted')
            if kind != 'handicap' and kw['alternateStarting'] and len(record) % 2:
                oc[0] = -oc[0]
            if kind != 'handicap':
                sim.check(opp.color == oc[0], 'wrong-starter', lambda: 'after an aborted evaluation of %d games the opponent plays %d, expected %d'
                          % (len(record), opp.color, oc[0]))
            continue
        finally:
            fail[0] = 0
        if kind == 'handicap':
            handicap(sim, task, val, record, kw)
            continue
        sim.check(len(record) == kw['averageOverGames'], 'game-count', lambda: '%d games played, %d expected' % (len(record), kw['averageOverGames']))
        tot = 0.0
        mn = 3 if games == 'capture' else 9
        for w, m in record:
            if w == 'draw':
                x = 0.0
            else:
                x = kw['winnerReward'] - kw['numMovesCoeff'] * (m - mn) / float(n * n - mn)
                if w == oc[0]:
                    x = -x
            tot += x
            if kw['alternateStarting']:
                oc[0] = -oc[0]
        tot /= len(record)
        sim.check(abs(val - tot) < 1e-9, 'wrong-score', lambda: '%s: score %r, the games played %s give %r' % (kind, val, record, tot))
        sim.check(opp.color == oc[0], 'wrong-starter', lambda: 'opponent plays %d, expected %d' % (opp.color, oc[0]))
        sim.state(kind, which, ow, kw['alternateStarting'], kw['opponentStart'], len(record), [w for w, _ in record].count(B))


def handicap(sim, task, val, record, kw):
    """the results attribute all games played; the score is drawn from the highest handicap that was played"""
    sim.check(len(record) <= kw['maxGames'], 'game-count', lambda: '%d games' % len(record))
    tot = [sum(x) for x in zip(*task.results.values())]
    wins = [m for w, m in record if w == W]
    losses = [m for w, m in record if w != W]
    sim.check(tot == [len(wins), len(record), sum(wins), sum(losses)], 'wrong-results', lambda: 'results %s add up to %s, games played: %s'
              % (task.results, tot, short(record)))
    high = max(h for h, r in task.results.items() if r[1])
    sim.check(high - 1.7 <= val <= high + 1.2, 'wrong-score', lambda: 'score %s at handicap %s with results %s' % (val, high, task.results))
    sim.state('handicap', high, len(record))


def relative(sim):
    """relative scores: of the games played, and independent of what was played before"""
    from pybrain.rl.environments.twoplayergames import tasks as T
    kind = sim.choice(('capture', 'gomoku'))
    n = sim.int(3, 5) if kind == 'capture' else 5
    cls = T.RelativeCaptureTask if kind == 'capture' else T.RelativeGomokuTask
    kw = dict(maxGames=sim.int(1, 5), numMovesCoeff=sim.choice((0.0, 0.5)))
    if kind == 'capture':
        kw['presetGamesProportion'] = sim.choice((0, 0.5, 0.5))
    noisy = sim.chance(0.5)
    sim.log('relative', kind, n, sorted(kw.items()), noisy)

    def pair(task):
        res = []
        for w in ('random', 'killing'):
            _, p = player_for(sim, kind, task.env, w)
            if noisy:
                p.randomPartMoves = 0
            orig = p.getAction

            def getAction(p=p, orig=orig):
                if fail[0] > 0:
                    fail[0] -= 1
                    if fail[0] == 0:
                        sim.fault('player-fails')
                        raise Fail()
                temps.append(getattr(p, 'randomPartMoves', None))
                return orig()
            p.getAction = getAction
            res.append(p)
        return res
    fail, temps = [0], []
    task = cls(n, **kw)
    p1, p2 = pair(task)
    for k in sim.ops(3, 6):
        fail[0] = sim.int(1, 30) if sim.chance(0.4) else 0
        s = sim.draw(1 << 20)
        sim.log(fail[0], s)
        del temps[:]
        out = []
        try:
            for t, a, b in ((task, p1, p2), (cls(n, **kw),) * 3):
                if t is not task:
                    fail[0] = 0
                    a, b = pair(t)
                random.seed(s)
                np.random.seed(s)
                del temps[:]
                games = []
                one = t._oneGame
                t._oneGame = lambda *x: games.append(one(*x)) or games[-1]
                try:
                    v = t(a, b)
                finally:
                    del t._oneGame
                m = t.env.movesDone
                mn = 3 if kind == 'capture' else 9
                w = t.env.getWinner()
                x = 0 if w == 'draw' else (1 - kw['numMovesCoeff'] * (m - mn) / float(n * n - mn)) * (1 if w == B else -1)
                sim.check(abs(games[-1] - x) < 1e-9, 'wrong-score', lambda: 'a game won by %s after %d moves scores %s, expected %s' % (w, m, games[-1], x))
                sim.check(min(games) - 1e-9 <= v <= max(games) + 1e-9, 'wrong-score', lambda: 'games scored %s, average %s' % (games, v))
                out.append((v, list(temps)))
        except Fail:
            sim.probe('evaluation-aborted')
            continue
        sim.check(out[0] == out[1], 'depends-on-history', lambda: 'a used task scores %s with %s, a new one %s with %s'
                  % (out[0][0], short(sorted(set(map(str, out[0][1])))), out[1][0], short(sorted(set(map(str, out[1][1]))))))
        sim.state('relative', kind, noisy, len(temps) > 20, out[0][0] > 0)
