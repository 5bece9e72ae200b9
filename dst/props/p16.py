"""P16: UDP server and clients: everything received is what was sent, whatever the network does."""
import sys

import numpy as np

from dst import seams
from dst.core import short


class Quiet(object):
    def write(self, s):
        pass

    def flush(self):
        pass


def setup():
    seams.no_jit()
    import pybrain.tools.networking.udpconnection  # noqa


def same(a, b):
    """equal, including types, shapes and every bit of a float"""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)) or a.shape != b.shape:
            return False
        return all(same(x, y) for x, y in zip(a.ravel().tolist(), b.ravel().tolist()))
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and a != a:
        return isinstance(b, float) and b != b
    if isinstance(a, (float, int, np.number)) and isinstance(b, (float, int, np.number)):
        return a == b and isinstance(a, bool) == isinstance(b, bool)
    return type(a) is type(b) and a == b


SPECIAL = (0.0, -0.0, 1.0 / 3, 1e-300, 1e300, 0.1 + 0.2, -1.5, 123456789.123456789, float('nan'), float('inf'), float('-inf'), 5e-324)


def scalar(sim):
    k = sim.draw(7)
    if k == 0:
        return sim.int(-5, 10 ** 12)
    if k == 1:
        return sim.choice(('r', '', 'array', "it's", 'a"b', 'ü', 'x,y]'))
    if k == 2:
        return sim.choice((True, None))
    if k == 3:
        return np.float64(sim.choice(SPECIAL[:7]))
    if k == 4:
        return sim.choice(SPECIAL)
    return sim.float(-100, 100)


def array_(sim):
    shape = sim.choice(((1,), (3,), (8, 3), (2, 2, 2), (0,), (0, 3), (), (1, 12), (1200,)))
    if len(shape) == 1 and shape[0] > 100:
        a = np.arange(shape[0]) + sim.draw(1000)
        return a
    n = int(np.prod(shape)) if shape else 1
    return np.array([sim.choice(SPECIAL) if sim.chance(0.2) else sim.float(-50, 50) for _ in range(n)], dtype=float).reshape(shape)


def message(sim, serial):
    items = [serial]
    for _ in range(sim.int(0, 3)):
        k = sim.draw(5)
        if k == 0:
            items.append(array_(sim))
        elif k == 1:
            items.append([scalar(sim) for _ in range(sim.int(0, 3))])
        elif k == 2:
            items.append(tuple(scalar(sim) for _ in range(sim.int(0, 2))))
        elif k == 3:
            items.append([array_(sim), scalar(sim)])
        else:
            items.append(scalar(sim))
    return items


GARBAGE = (b'', b'\xff\xfe\x00', b'[1, 2', b'garbage', b'a..b', b'x' * 70, b'nul\x00', b'999.1.1.1', b'[' * 300, b'(' * 150, b'1/0', b'SystemExit()',
           b'exit()', b'__import__("os").getpid()', b'open("x")', b'undefined_name', b'lambda: 0', b'\n', b' ')


class ClientRun(object):
    def __init__(self, ip):
        self.ip = ip
        self.client = None
        self.task = None
        self.got = []
        self.stop = False
        self.alive = False
        self.raw = None
        self.listens = 0


def run(sim):
    from pybrain.tools.networking import udpconnection as U
    sched = seams.use_sched(sim, preempt=True, max_gap=sim.choice((5, 20, 60)), max_switches=40000)
    net = seams.use_net(sim, sched)
    old = sys.stdout
    sys.stdout = Quiet()
    try:
        play(sim, sched, net, U)
    finally:
        sys.stdout = old


def play(sim, sched, net, U):
    buf = sim.choice(('1024', '1024', '16384', '65536', '200'))
    port = sim.choice(('21560', '21580', '5000'))
    server = U.UDPServer('127.0.0.1', port, buf)
    sent = {}                # serial -> message
    raw = {}                 # datagram -> message
    clients = [ClientRun('127.0.0.%d' % (i + 1)) for i in range(sim.int(1, 3))]
    state = dict(stop=False, serial=0, heal=False)
    nthreads = sim.choice((1, 1, 2))
    log = []                 # what the server's socket returned
    problems = []

    # what arrives at the server
    rs = server.UDPInSock.recv

    def srecv(n):
        try:
            d = rs(n)
        except Exception as e:
            log.append(('error', e))
            raise
        log.append(('data', d))
        return d
    server.UDPInSock.recv = srecv
    known = []               # the model of the server

    def listen():
        t = sched.now
        had = bool(known)
        del log[:]
        server.listen()
        dt = sched.now - t
        if dt > (2.0 if had else 10.0) + 1e-6:
            problems.append(('listens-too-long', 'server.listen() took %g s' % dt))
        if not log:
            problems.append(('wrong-listen', 'listen() did not listen'))
            return
        for n, (k, d) in enumerate(log):
            if k == 'error':
                # nothing for that long: nobody is there (any more)
                if n == 0:
                    del known[:]
                continue
            try:
                ip = d.decode()
                if ip not in known:
                    known.append(ip)
            except UnicodeDecodeError:
                pass
        if server.clients != len(known) or list(server.cIP) != known or [a for a, _ in server.addrList] != known or len(server.UDPOutSockList) != len(known):
            problems.append(('wrong-clients', 'clients %d: %s %s instead of %s' % (server.clients, server.cIP, server.addrList, known)))
        if any(p != int(port) for _, p in server.addrList):
            problems.append(('wrong-clients', 'port: %s' % server.addrList))

    def send(exact):
        state['serial'] += 1
        m = message(sim, state['serial'])
        sent[state['serial']] = m
        to = list(known)
        n0 = len(net.sent)
        me = sched.cur
        server.send(m)
        mine = net.sent[n0:]
        if exact:
            # one datagram for every client, none for the others (unresolvable names cannot be sent to)
            good = [ip for ip in to if ip in ips]
            got = [a[0] for _, _, a, _ in mine if a[1] == int(port)]
            if not toolong(mine, good):
                if [g for g in got if g in ips] != good:
                    problems.append(('wrong-recipients', 'sent to %s instead of %s' % (got, good)))
        for _, d, a, _ in mine:
            if a[1] == int(port):
                raw.setdefault(d, []).append(m)

    def toolong(mine, good):
        return not mine and bool(good)

    ips = [c.ip for c in clients]

    def serve():
        while not state['stop']:
            listen()
            if server.clients > 0:
                for _ in range(sim.int(1, 2)):
                    send(nthreads == 1)
            seams.time.sleep(sim.choice((0.02, 0.0, 0.5)))

    def second():
        # somebody else also sends (an environment that is reset)
        while not state['stop']:
            if server.clients > 0:
                send(False)
            seams.time.sleep(sim.choice((0.02, 0.3, 1.0)))

    def start(c):
        def body():
            try:
                c.client = U.UDPClient('127.0.0.1', c.ip, port, sim.choice((buf, buf, '1024', '65536')))
            except OSError:
                sim.probe('client-constructor-oserror')
                c.alive = False
                return
            cl = c.client
            rc = cl.UDPInSock.recv
            box = []

            def crecv(n):
                d = rc(n)
                box.append(d)
                return d
            cl.UDPInSock.recv = crecv
            while not c.stop and not state['stop']:
                del box[:]
                t = sched.now
                v = cl.listen(sim.choice((None, [0])))
                c.listens += 1
                if sched.now - t > 10.0 + 1e-6:
                    problems.append(('listens-too-long', 'client.listen() took %g s' % (sched.now - t)))
                received(c, box[0] if box else None, v)
                seams.time.sleep(sim.choice((0.0, 0.02, 0.2)))
        c.stop = False
        c.alive = True
        c.task = sched.spawn(body, 'client-%s' % c.ip)

    def received(c, d, v):
        if d is None:
            if v is not None:
                problems.append(('value-from-nothing', 'listen() returned %s, nothing was received' % short(v)))
            return
        if d in raw or any(x == d for _, x, _, _ in net.sent if x in raw):
            sim.probe('data-received')
            if v is None or not any(same(v, m) for m in raw[d]):
                problems.append(('wrong-data', 'received %s instead of %s' % (short(v), short(raw[d][0]))))
            else:
                c.got.append((sched.now, v[0]))
            return
        pend = [m for k, m in sent.items() if v is not None and isinstance(v, list) and v and same(v, m)]
        if pend:
            c.got.append((sched.now, v[0]))       # on its way while send() is still busy
        elif v is not None:
            problems.append(('value-from-garbage', '%r yields %s' % (bytes(d[:60]), short(v))))
        else:
            sim.probe('garbage-received')

    def crash(c):
        sim.fault('client-crash')
        if c.task is not None and not c.task.done:
            c.task.killed = True
        if c.client is not None:
            for s in (c.client.UDPInSock, c.client.UDPOutSock):
                s.close()
        c.client = None
        c.alive = False

    def report():
        for cls, msg in problems:
            sim.violate(cls, msg)
        for t, e in sched.errors:
            raise e

    def foreign():
        g = sim.choice(GARBAGE)
        if sim.chance(0.5):
            to = ('127.0.0.1', int(port) + 1)
        else:
            to = (sim.choice(ips), int(port))
        sim.fault('foreign-datagram')
        sched.at(0.0, lambda: net._deliver(to, g, ('10.0.0.9', 1)), 'foreign')

    t0 = sched.now
    st = sched.spawn(serve, 'server')
    if nthreads == 2:
        sched.spawn(second, 'second')
    for c in clients:
        if sim.chance(0.8):
            start(c)
    # the nemesis
    for _ in sim.ops(5, 12):
        sched.run(until=None, max_time=sched.now - sched.t0 + sim.choice((0.05, 0.5, 2.5, 11.0)))
        report()
        k = sim.weighted([(3, 'loss'), (2, 'delay'), (2, 'dup'), (2, 'partition'), (2, 'senderr'), (3, 'foreign'), (3, 'crash'), (3, 'start'),
                          (2, 'calm'), (1, 'recverr'), (1, 'truncate'), (2, 'none')])
        sim.log(k)
        if k == 'loss':
            net.loss = sim.choice((0.3, 0.9, 1.0))
        elif k == 'delay':
            net.max_delay = sim.choice((0.2, 3.0, 12.0))
        elif k == 'dup':
            net.dup = 0.5
        elif k == 'partition':
            if sim.chance(0.5):
                net.partitioned.add(sim.choice(ips))
            else:
                net.partition_ports.add(sim.choice((int(port), int(port) + 1)))
        elif k == 'senderr':
            net.senderr = 0.4
        elif k == 'recverr':
            net.recv_intr = 0.3
        elif k == 'truncate':
            net.corrupt = 0.3
        elif k == 'foreign':
            for _ in range(sim.int(1, 3)):
                foreign()
        elif k == 'crash':
            live = [c for c in clients if c.alive]
            if live:
                crash(sim.choice(live))
        elif k == 'start':
            dead = [c for c in clients if not c.alive]
            if dead:
                start(sim.choice(dead))
        elif k == 'calm':
            net.heal()
        sim.state(k, len(known), nthreads, sum(c.alive for c in clients))
    # once the network is sound again, every client that listens receives data
    net.heal()
    for c in clients:
        if not c.alive:
            start(c)
    t1 = sched.now
    n0 = [c.listens for c in clients]
    why = sched.run(until=lambda: all(any(t >= t1 for t, _ in c.got) for c in clients), max_time=sched.now - sched.t0 + 60.0)
    report()
    # (data that does not fit into the buffer of the client cannot be received)
    if why == 'time':
        big = any(len(d) > 190 for _, d, _, _ in net.sent)
        sim.check(big and buf != '65536', 'no-progress', lambda: 'a client received nothing within 60 s on a sound network (%s)' % (
            [(c.ip, [t for t, _ in c.got if t >= t1][:1], c.listens) for c in clients],))
    else:
        sim.probe('progress')
    state['stop'] = True
    sched.run(max_time=sched.now - sched.t0 + 30.0)
    report()
