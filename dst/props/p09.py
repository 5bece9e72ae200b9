"""P09: a tournament accounts for exactly the games that were completed."""
import random

import numpy as np

from dst.core import short


def setup():
    import pybrain.rl.experiments.tournament  # noqa
    import pybrain.rl.environments.twoplayergames.capturegameplayers  # noqa
    import pybrain.rl.environments.twoplayergames.gomokuplayers  # noqa
    import pybrain.rl.environments.twoplayergames.pente  # noqa


class Fail(Exception):
    pass


def simgame(sim):
    """a user-defined game whose outcome is drawn"""
    from pybrain.rl.environments.twoplayergames.twoplayergame import TwoPlayerGame

    class G(TwoPlayerGame):
        startcolor = sim.choice((1, -1))

        def __init__(self):
            self.reset()

        def reset(self):
            TwoPlayerGame.reset(self)
            self.n = 0

        def isLegal(self, c, a):
            return a != 'bad'

        def doMove(self, c, a):
            if a == 'bad':
                return False
            self.n += 1
            if a == 'end' or self.n >= 6:
                self.winner = sim.choice((1, -1, self.DRAW))
            return True
    return G()


def run(sim):
    from pybrain.rl.experiments.tournament import Tournament
    from pybrain.rl.agents.agent import Agent
    from pybrain.rl.environments.twoplayergames import CaptureGame, GomokuGame, capturegameplayers as C, gomokuplayers as G
    from pybrain.rl.environments.twoplayergames.pente import PenteGame
    sim.seed_globals()
    kind = sim.choice(('user', 'user', 'capture', 'gomoku', 'pente'))
    fail, bad = [0], [0.0]
    moves = []

    def wrap(a):
        orig = a.getAction

        def getAction():
            if fail[0] > 0:
                fail[0] -= 1
                if fail[0] == 0:
                    sim.fault('player-fails')
                    raise Fail()
            if bad[0] and sim.chance(bad[0]):
                sim.fault('illegal-move')
                return [a.color, 'bad' if kind == 'user' else (-1, -1)]
            return orig()
        a.getAction = getAction
        a.newEpisode = lambda: eps.append(a)
        return a

    class User(Agent):
        def getAction(self):
            return [self.color, 'end' if sim.chance(0.3) else 'go']
    eps = []
    if kind == 'user':
        game = simgame(sim)
        make = User
    elif kind == 'capture':
        game = CaptureGame(sim.int(3, 4))
        make = lambda: sim.choice((C.RandomCapturePlayer, C.KillingPlayer, C.NonSuicidePlayer))(game)
    else:
        game = (GomokuGame if kind == 'gomoku' else PenteGame)((5, 5))
        make = lambda: sim.choice((G.RandomGomokuPlayer, G.KillingGomokuPlayer))(game)
    agents = [wrap(make()) for _ in range(sim.int(2, 4))]
    naming = sim.choice(('different', 'different', 'same', 'none'))
    for i, a in enumerate(agents):
        if naming != 'none':
            a.name = 'A%d' % (i if naming == 'different' or sim.chance(0.3) else 0)
    t = Tournament(game, list(agents))
    t.forcedLegality = forced = sim.chance(0.5)
    done = {}                   # (first, second) -> winners, in order
    ends = []
    cur = [None]
    perform, reset = game.performAction, game.reset

    def performAction(a):
        was = game.gameOver()
        sim.check(not was, 'move-after-end', 'a move after the end of the game')
        if cur[0] is not None:
            first, n = cur[0]
            me = [x for x in agents if getattr(x, 'color', None) == a[0] and x in eps[-2:]]
            sim.check(len(me) == 1, 'wrong-colors', lambda: 'players have colors %s' % [x.color for x in eps[-2:]])
            exp = eps[-2:][n % 2]
            sim.check(me[0] is exp, 'wrong-turn', lambda: 'move %d of a game is made by the wrong player' % n)
            sim.check(a[0] == (game.startcolor if n % 2 == 0 else -game.startcolor), 'wrong-colors', lambda: 'move %d is made by color %s' % (n, a[0]))
            cur[0] = (first, n + 1)
        if forced:
            sim.check(game.isLegal(*a), 'illegal-move-executed', lambda: 'forcedLegality, but %s was played' % (a,))
        perform(a)
        if game.gameOver():
            w = game.getWinner()
            p1, p2 = eps[-2:]
            done.setdefault((p1, p2), []).append('draw' if w == game.DRAW else p1 if w == game.startcolor else p2)
            cur[0] = None

    def reset_():
        reset()
        cur[0] = (None, 0)
    game.performAction, game.reset = performAction, reset_
    rounds = 0
    sim.log(kind, len(agents), forced, naming)
    for k in sim.ops(6, 12):
        op = sim.weighted([(6, 'organize'), (2, 'elo'), (2, 'print'), (1, 'reset'), (1, 'outside')])
        bad[0] = 0.1 if sim.chance(0.3) else 0.0
        fail[0] = sim.int(1, 60) if sim.chance(0.4) else 0
        n = sim.int(1, 3)
        sim.log(op, n, fail[0], bad[0])
        aborted = False
        if op == 'organize':
            before = {k: len(v) for k, v in done.items()}
            try:
                r = t.organize(n)
                sim.check(r is t.results, 'wrong-results', 'organize does not return the results')
            except Fail:
                aborted = True
                sim.probe('tournament-aborted')
            fail[0] = 0
            if not aborted:
                for a in agents:
                    for b in agents:
                        if a is not b:
                            d = len(done.get((a, b), [])) - before.get((a, b), 0)
                            sim.check(d == n, 'wrong-pairing', lambda: '%s played %d games against %s in %d rounds' % (a.name, d, b.name, n))
        elif op == 'reset':
            t.reset()
            done.clear()
        elif op == 'outside':
            # somebody uses the game between the rounds
            fail[0] = 0
            reset()
            cur[0] = None
        elif op == 'print':
            fail[0] = 0
            s = str(t)
            lines = []
            for (a, b) in [(a, b) for a in agents for b in agents if a is not b]:
                g = done.get((a, b), [])
                lines.append('%s won %d times and lost %d times against %s' % (a.name, sum(x is a for x in g), sum(x is b for x in g), b.name))
            got = [x.strip() for x in s.split('\n')]
            for line in lines:
                # (several agents can have one name)
                sim.check(got.count(line) == lines.count(line), 'wrong-report', lambda: 'the report %s lacks %r' % (short(s, 300), line))
            sim.check(', %d games)' % sum(map(len, done.values())) in s, 'wrong-report', lambda: short(s, 100))
        else:
            fail[0] = 0
            old = {}
            for a in agents:
                if sim.chance(0.3):
                    a.elo = sim.choice((1000, 1500, 1800.0))
                elif sim.chance(0.5) and 'elo' in a.__dict__:
                    del a.elo
                old[a] = a.__dict__.get('elo', 1200)
            kk = sim.choice((32, 16, 0))
            got = t.eloScore(1200, kk)
            exp = dict(old)
            for i, a in enumerate(agents):
                for b in agents[i + 1:]:
                    g = done.get((a, b), []) + done.get((b, a), [])
                    s = sum(1.0 if x is a else 0.5 if x == 'draw' else 0.0 for x in g)
                    est = len(g) / (1.0 + 10 ** ((exp[b] - exp[a]) / 400.0))
                    exp[a] += kk * (s - est)
                    exp[b] -= kk * (s - est)
            sim.check(set(got) == set(agents) and all(abs(got[a] - exp[a]) < 1e-6 and a.elo == got[a] for a in agents), 'wrong-elo',
                      lambda: 'elo %s, expected %s after %s' % ([got[a] for a in agents], [exp[a] for a in agents],
                                                              {(a.name, b.name): [getattr(x, 'name', x) for x in v] for (a, b), v in done.items()}))
            sim.check(abs(sum(got.values()) - sum(old.values())) < 1e-6, 'elo-not-conserved', lambda: 'sum %s, was %s' % (sum(got.values()), sum(old.values())))
        res = {p: list(v) for p, v in t.results.items() if v}
        sim.check(set(res) == set(done) and all(len(res[p]) == len(done[p]) and all(x is y or x == y for x, y in zip(res[p], done[p])) for p in done),
                  'wrong-results', lambda: 'results %s, games completed %s' % tuple(
                      {(a.name, b.name): [getattr(x, 'name', x) for x in v] for (a, b), v in d.items()} for d in (res, done)))
        sim.check(t.numGames == sum(map(len, done.values())), 'wrong-game-count', lambda: '%d games counted, %d completed' % (t.numGames, sum(map(len, done.values()))))
        for v in done.values():
            if 'draw' in v:
                sim.probe('draw')
        sim.state(kind, len(agents), op, aborted, forced, min(t.numGames, 30))
