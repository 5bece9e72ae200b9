"""P18: the TCP clients (simplerace, capture game) against servers on an arbitrary network."""
import sys

import numpy as np

from dst import seams
from dst.core import short
from dst.props.p16 import Quiet

PORT = ('127.0.0.1', 6524)


def setup():
    seams.no_jit()
    import pybrain.rl.environments.simplerace.simpleracetcp  # noqa
    import pybrain.rl.environments.simplerace.simpleracetask  # noqa
    import pybrain.rl.environments.simplerace.simplecontroller  # noqa
    from pybrain.rl.environments.twoplayergames.capturegameplayers import clientwrapper, randomplayer  # noqa


def run(sim):
    sim.seed_globals()
    sched = seams.use_sched(sim, preempt=False, max_switches=60000)
    net = seams.use_net(sim, sched)
    old = sys.stdout
    sys.stdout = Quiet()
    try:
        if sim.chance(0.5):
            race(sim, sched, net)
        else:
            capture(sim, sched, net)
    finally:
        sys.stdout = old


class Server(object):
    """a task that reads lines and answers, until it is told to go away"""

    def __init__(self, sim, sched, net, answer, hello=None):
        self.sim, self.sched, self.net = sim, sched, net
        self.answer = answer
        self.hello = hello
        self.lines = []
        self.sock = None
        self.gone = False
        self.left = sim.int(0, 25) if sim.chance(0.25) else None     # messages until the server dies
        net.listeners[PORT] = self.accept

    def accept(self, sock):
        self.sock = sock
        if self.hello is not None:
            self.send(self.hello())
        self.sched.spawn(self.serve, 'server', True)

    def send(self, *msgs):
        """messages: they travel in pieces, and together"""
        for m in msgs:
            if self.gone:
                return
            if self.left is not None:
                self.left -= 1
                if self.left < 0:
                    self.die(m)
                    return
            self.sock.rx.feed(m.encode())

    def die(self, m=''):
        self.gone = True
        self.sim.fault('server-dies')
        if m and self.sim.chance(0.5):
            self.sock.rx.feed(m.encode()[:self.sim.draw(len(m))])    # in the middle of a message
            self.sim.fault('partial-message')
        self.sock.rx.close(self.sim.chance(0.3))

    def serve(self):
        buf = b''
        while not self.gone:
            self.sched.block(lambda: self.sock.tx.avail or self.sock.tx.eof, None, 'server-recv')
            if not self.sock.tx.avail:
                return
            buf += self.sock.tx.avail
            self.sock.tx.avail = b''
            while b'\n' in buf:
                line, buf = buf.split(b'\n', 1)
                self.lines.append(line.decode())
                if not self.gone:
                    self.send(*self.answer(line.decode()))


def drive(sim, sched, body, server):
    """run body() as a task to its end; it must not spin on a connection that is over"""
    t = sched.spawn(body, 'main')
    why = sched.run(until=lambda: t.done or (server.sock is not None and getattr(server.sock, 'eofs', 0) > 5), max_time=3600.0)
    if server.sock is not None and getattr(server.sock, 'eofs', 0) > 5:
        sim.violate('spins', 'the client goes on reading from a closed connection')
    if not t.done:
        sim.violate('hangs', 'the client never returns (%s), server %s' % (why, 'gone' if server.gone else 'alive'))
    for task, e in sched.errors:
        raise e


# --- simplerace -------------------------------------------------------------------

def race(sim, sched, net):
    from pybrain.rl.environments.simplerace.simpleracetask import SimpleraceTask
    from pybrain.rl.environments.simplerace.simplecontroller import SimpleController
    wp = [sim.float(1, 100), sim.float(1, 100)]
    script = []                # every message of the server, in order
    eol = sim.choice(('\n', '\r\n'))
    vals = []

    def data():
        if sim.chance(0.02):
            wp[0] += 1.0
        f = [round(sim.float(-100, 100), 3) for _ in range(16)] + list(wp)
        return ' '.join(['data', str(len(script))] + [repr(x) for x in f]), f

    def message():
        k = sim.weighted([(8, 'data'), (1, 'noise'), (1, 'reset')])
        if k == 'data':
            s, f = data()
            script.append(('data', f))
        elif k == 'noise':
            s = sim.choice(('hello', 'welcome to simplerace', 'dat', 'xx 1 2'))
            script.append(('noise', None))
        else:
            script.append(('reset', None))
            s = 'reset'
        out = s + eol
        if sim.chance(0.1):
            out += eol          # an empty line
        return out

    def answer(line):
        # a reset is followed by data without being asked for it
        out = [message()]
        while script[-1][0] == 'reset':
            out.append(message())
        return out

    def hello():
        n = sim.draw(3)
        for _ in range(n):
            script.append(('noise', None))
        script.append(('reset', None))
        first = 'hello' + eol
        return first * n + 'reset' + eol

    server = Server(sim, sched, net, answer, hello)
    steps = sim.int(3, 25)
    direct = sim.chance(0.7)
    w = dict(ready=False, wait=False, got=0, sensors=np.zeros(7), step=0, commands=[])

    def command(a):
        # forward: 6 7 8, neutral: 3 4 5, backward: 0 1 2
        row = 2 if a[0] > 0.3 else (0 if a[0] < -0.3 else 1)
        col = 2 if a[1] > 0.3 else (0 if a[1] < -0.3 else 1)
        return row * 3 + col

    def body():
        task = SimpleraceTask()
        env = task.env
        agent = SimpleController()
        for i in range(steps):
            if direct:
                a = np.array([sim.choice((-1.0, -0.3, 0.0, 0.3, 1.0, 0.31)), sim.choice((-1.0, -0.31, 0.0, 0.3, 1.0))])
            else:
                agent.integrateObservation(task.getObservation())
                a = agent.getAction()
            # the model of what this step does
            if w['wait']:
                w['wait'] = False
            elif w['ready']:
                w['commands'].append(str(command(a)))
            # a step consumes one message: whoever waits for the next must have been sent one
            if w['got'] >= len(script) and not (w['ready'] and w['commands'] and len(w['commands']) > w.get('answered', 0)):
                # nothing was asked for: the server speaks first
                if not server.gone:
                    server.send(message())
            try:
                task.performAction(a)
            except (IOError, EOFError):
                sim.check(server.gone, 'gives-up', 'the connection is alive')
                sim.probe('race-server-gone')
                w['commands'] = None
                return
            except Exception as e:
                if 'Unexpected episode change' in str(e):
                    k, f = script[w['got']]
                    sim.violate('unexpected-episode-change', 'waypoint %s follows %s' % (f[-2:], w.get('wp')))
                raise
            w['answered'] = len(w['commands'])
            sim.check(w['got'] < len(script), 'wrong-message', 'a step without an answer of the server')
            k, f = script[w['got']]
            w['got'] += 1
            if k == 'reset':
                w.update(ready=True, wait=True, sensors=np.zeros(7), step=0)
            elif k == 'data':
                w['sensors'] = np.array(f[:7])
                w['step'] += 1
                w['wp'] = f[-2:]
            got = np.array(task.getObservation(), dtype=float)
            sim.check(got.shape == (7,) and np.array_equal(got, w['sensors']), 'wrong-sensors',
                      lambda: 'step %d (%s): %s instead of %s' % (i + 1, k, short(list(got)), short(list(w['sensors']))))
            sim.check(env.step == w['step'], 'wrong-step', lambda: 'counts %d steps instead of %d' % (env.step, w['step']))
            sim.state('race', k, w['ready'], w['wait'])
            sim.log('step', k, round(sched.now, 3))
        sim.check(task.t == steps, 'wrong-step', 'the task counts %d steps' % task.t)
    sim.log('race', steps, direct, repr(eol))
    net.short_send = sim.choice((0.0, 0.3))
    drive(sim, sched, body, server)
    # let the last command arrive
    sched.run(max_time=sched.now - sched.t0 + 100.0)
    if w['commands'] is not None:
        sim.check(server.lines == w['commands'], 'wrong-commands', lambda: 'the server received %s instead of %s' % (server.lines, w['commands']))
    sim.probe('race')


# --- capture game -----------------------------------------------------------------

def capture(sim, sched, net):
    from pybrain.rl.environments.twoplayergames import CaptureGame
    from pybrain.rl.environments.twoplayergames.capturegameplayers.clientwrapper import ClientCapturePlayer
    from pybrain.rl.environments.twoplayergames.capturegameplayers import RandomCapturePlayer
    size = sim.choice((2, 3, 5))
    color = sim.choice((1, -1))
    kind = sim.choice(('AtariGreedy', 'AtariMinMax'))
    style = sim.choice(('(%d, %d)\n', '(%d,%d)', '(%d, %d)\r\n', '%d,%d\n'))
    bad = dict(sent=None)
    w = dict(n=0, move=None, boards=[])
    hello = sim.choice(('OK', 'OK\n', 'OK\r\n'))
    game = CaptureGame(size, suicideenabled=sim.chance(0.5))

    def answer(line):
        w['n'] += 1
        if w['n'] == 1:
            sim.check(line == '%s-%d' % (kind, color), 'wrong-greeting', lambda: repr(line))
            return [hello]
        # the position as the server understands it
        head, _, rest = line.partition('-')
        rows = rest.split('-')[1:]
        sim.check(head == ('1' if color == 1 else '2') and len(rows) == size and all(len(r) == size for r in rows), 'wrong-position', lambda: repr(line))
        board = dict(((i, j), {'0': 0, '1': 1, '2': -1}[c]) for i, r in enumerate(rows) for j, c in enumerate(r))
        w['boards'].append(board)
        forbidden = [p for p in sorted(board) if not board[p] and not game.isLegal(color, p)]
        if sim.chance(0.3 if forbidden else 0.05):
            sim.fault('wrong-answer')
            bad['sent'] = sim.choice(('occupied', 'outside', 'nonsense') + (('suicide',) * 3 if forbidden else ()))
            if bad['sent'] == 'occupied' and any(board.values()):
                p = sim.choice(sorted(p for p in board if board[p]))
            elif bad['sent'] == 'suicide':
                p = sim.choice(forbidden)
                sim.probe('suicide-answered')
            elif bad['sent'] == 'nonsense':
                return [sim.choice(('pass\n', '(1, \n', '??\n'))]
            else:
                p = (size, size)
            return [style % p]
        legal = [p for p in sorted(board) if not board[p] and game.isLegal(color, p)]
        if not legal:
            bad['sent'] = 'none-legal'
            return ['()\n']
        w['move'] = sim.choice(legal)
        m = style % w['move']
        return [m] if not sim.chance(0.2) or m[0] != '(' else ['\n' + m]
    server = Server(sim, sched, net, answer)

    def body():
        try:
            p = ClientCapturePlayer(game, color, kind)
        except (IOError, EOFError):
            sim.check(server.gone, 'gives-up', 'the connection is alive')
            sim.probe('capture-server-gone')
            return
        other = RandomCapturePlayer(game, -color)
        if sim.chance(0.3):
            p.name = 'java'
        turn = 1
        moves = 0
        while not game.gameOver() and moves < 60:
            if turn == color:
                want = dict(game.b)
                bad['sent'] = None
                w['move'] = None
                try:
                    act = p.getAction()
                except (IOError, EOFError):
                    sim.check(server.gone, 'gives-up', 'the connection is alive')
                    sim.probe('capture-server-gone')
                    return
                except Exception as e:
                    sim.check(bad['sent'] is not None, 'refused-move', lambda: 'after %s: %r' % (w['move'], e))
                    sim.probe('bad-move-refused')
                    return
                sim.check(bad['sent'] is None, 'illegal-move', lambda: 'accepted %s' % (act,))
                sim.check(w['boards'][-1] == want, 'wrong-position', lambda: 'the server was shown %s' % (w['boards'][-1],))
                sim.check(act[0] == color and tuple(act[1]) == tuple(w['move']), 'wrong-move', lambda: '%s instead of %s' % (act, w['move']))
            else:
                if not game.getLegals(-color):
                    return
                act = other.getAction()
            sim.log('move', act[0], tuple(act[1]), round(sched.now, 3))
            game.performAction(act)
            moves += 1
            turn = -turn
        sim.probe('game-over')
        sim.state('capture', size, color, moves)
    sim.log('capture', size, color, repr(style), repr(hello))
    net.short_send = sim.choice((0.0, 0.3))
    drive(sim, sched, body, server)
    sim.probe('capture')
