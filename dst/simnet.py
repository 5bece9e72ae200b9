"""Sockets under the simulator's control: UDP datagrams with loss, duplication,
delay (hence reordering), corruption, partitions and failing system calls; TCP
streams with arbitrary segmentation, short sends, stalls, EOF and resets."""
import errno
import re
import socket as _socket

from dst import simsched

AF_INET = _socket.AF_INET
SOCK_STREAM = _socket.SOCK_STREAM
SOCK_DGRAM = _socket.SOCK_DGRAM
timeout_exc = _socket.timeout
gaierror = _socket.gaierror

current = None
_IP = re.compile(r'^\d{1,3}(\.\d{1,3}){3}$')


class Net(object):
    def __init__(self, sim, sched):
        self.sim = sim
        self.sched = sched
        self.bound = {}
        self.listeners = {}
        self.loss = self.dup = self.senderr = self.corrupt = 0.0
        self.max_delay = 0.01
        self.partitioned = set()         # (ip) cut off
        self.partition_ports = set()
        self.sent = []                   # (time, data, addr, fate)
        self.n = 0
        self.recv_intr = 0.0
        self.socks = []

    def heal(self):
        self.loss = self.dup = self.senderr = self.corrupt = self.recv_intr = 0.0
        self.partitioned.clear()
        self.partition_ports.clear()
        self.max_delay = 0.01

    # UDP
    def datagram(self, src, data, addr):
        sim = self.sim
        if not isinstance(data, (bytes, bytearray, memoryview)):
            raise TypeError("a bytes-like object is required, not '%s'" % type(data).__name__)
        data = bytes(data)
        if not isinstance(addr, tuple) or len(addr) != 2 or not isinstance(addr[0], str):
            raise TypeError('sendto(): AF_INET address must be tuple (host, port)')
        host, port = addr
        if host == 'localhost':
            host = '127.0.0.1'
        if '\0' in host:
            raise TypeError('host name must not contain null character')
        host.encode('idna')         # UnicodeError for impossible names, like the real one
        if not _IP.match(host) or any(int(x) > 255 for x in host.split('.')):
            sim.fault('unresolvable-address')
            raise gaierror(-2, 'Name or service not known')
        if len(data) > 65507:
            raise OSError(errno.EMSGSIZE, 'Message too long')
        if sim.chance(self.senderr):
            sim.fault('send-oserror')
            self.sent.append((self.sched.now, data, (host, port), 'error'))
            raise OSError(errno.ENETUNREACH, 'Network is unreachable')
        self.n += 1
        if host in self.partitioned or port in self.partition_ports:
            sim.fault('partitioned-datagram')
            self.sent.append((self.sched.now, data, (host, port), 'partitioned'))
            return len(data)
        if sim.chance(self.loss):
            sim.fault('datagram-lost')
            self.sent.append((self.sched.now, data, (host, port), 'lost'))
            return len(data)
        copies = 1
        if sim.chance(self.dup):
            sim.fault('datagram-duplicated')
            copies = 2
        self.sent.append((self.sched.now, data, (host, port), 'sent'))
        for _ in range(copies):
            d = data
            if sim.chance(self.corrupt):
                sim.fault('datagram-corrupted')
                k = sim.draw(len(d) + 1)
                d = d[:k]
            delay = sim.float(0, self.max_delay)
            if delay > 0.05:
                sim.fault('datagram-delayed')
            self.sched.at(delay, lambda d=d: self._deliver((host, port), d, src), 'deliver')
        return len(data)

    def _deliver(self, addr, data, src):
        s = self.bound.get(addr) or self.bound.get(('', addr[1])) or self.bound.get(('0.0.0.0', addr[1]))
        if s is None or s.closed:
            self.sim.probe('datagram-nobody-listening')
            return
        if len(s.queue) >= 64:
            self.sim.fault('socket-buffer-overflow')
            return
        s.queue.append((data, src))


class Pipe(object):
    """one direction of a TCP connection"""

    def __init__(self, net):
        self.net = net
        self.inflight = 0
        self.avail = b''
        self.eof = False
        self.reset = False
        self.last = net.sched.now

    def feed(self, data):
        """queue bytes for delivery in arbitrary segments, in order"""
        sim = self.net.sim
        data = bytes(data)
        t = max(self.last, self.net.sched.now)
        while data:
            k = len(data)
            if sim.chance(0.4):
                k = 1 + sim.draw(len(data))
                if k < len(data):
                    sim.fault('stream-fragmented')
            seg, data = data[:k], data[k:]
            t += sim.float(0, 0.02) if not sim.chance(0.05) else sim.float(0, 5.0)
            self.net.sched.at(t - self.net.sched.now, lambda seg=seg: self._arrive(seg), 'segment')
        self.last = t

    def _arrive(self, seg):
        self.avail += seg

    def close(self, reset=False):
        t = max(self.last, self.net.sched.now)

        def fin():
            if reset:
                self.reset = True
            else:
                self.eof = True
        self.net.sched.at(t - self.net.sched.now, fin, 'fin')

    def ready(self):
        return bool(self.avail) or self.eof or self.reset


class SimSocket(object):
    """the class that replaces socket.socket"""

    def __init__(self, family=AF_INET, type=SOCK_STREAM, proto=0, fileno=None):
        if current is None:
            raise RuntimeError('socket created outside a simulated network')
        self.net = current
        self.family = family
        self.type = type
        self.queue = []
        self.addr = None
        self.timeout = None
        self.closed = False
        self.rx = self.tx = None
        self.peer = None
        self.net.socks.append(self)

    def _chk(self):
        if self.closed:
            raise OSError(errno.EBADF, 'Bad file descriptor')

    def setsockopt(self, *a):
        pass

    def getsockopt(self, *a):
        return 0

    def settimeout(self, t):
        self._chk()
        self.timeout = t

    def gettimeout(self):
        return self.timeout

    def setblocking(self, b):
        self.timeout = None if b else 0.0

    def bind(self, addr):
        self._chk()
        if addr in self.net.bound and not self.net.bound[addr].closed:
            raise OSError(errno.EADDRINUSE, 'Address already in use')
        if addr[0] not in ('', 'localhost') and not _IP.match(addr[0]):
            raise gaierror(-2, 'Name or service not known')
        self.addr = addr
        self.net.bound[addr] = self

    def getsockname(self):
        return self.addr or ('0.0.0.0', 0)

    def fileno(self):
        return 1000 + self.net.socks.index(self) if not self.closed else -1

    def sendto(self, data, *rest):
        self._chk()
        if self.type != SOCK_DGRAM:
            return self.send(data)
        self.net.sched.yield_point('sendto')
        return self.net.datagram(self.addr or ('127.0.0.1', 40000), data, rest[-1])

    def _block(self, ready, what):
        self._chk()
        sim = self.net.sim
        if self.net.recv_intr and sim.chance(self.net.recv_intr):
            sim.fault('recv-oserror')
            raise OSError(errno.ECONNREFUSED, 'Connection refused')
        if self.timeout == 0.0:
            self.net.sched.yield_point(what)
            if not ready():
                raise BlockingIOError(errno.EAGAIN, 'Resource temporarily unavailable')
            return
        ok = self.net.sched.block(lambda: ready() or self.closed, self.timeout, what)
        self._chk()
        if not ok:
            sim.probe('socket-timeout')
            raise timeout_exc('timed out')

    def recvfrom(self, n, *a):
        if self.type == SOCK_STREAM:
            return self.recv(n), self.peer
        self._block(lambda: bool(self.queue), 'recvfrom')
        data, src = self.queue.pop(0)
        if len(data) > n:
            self.net.sim.fault('datagram-truncated')
        return data[:n], src

    def recv(self, n, *a):
        if self.type == SOCK_DGRAM:
            return self.recvfrom(n)[0]
        if self.rx is None:
            raise OSError(errno.ENOTCONN, 'Transport endpoint is not connected')
        self._block(self.rx.ready, 'recv')
        self.net.nrecv = getattr(self.net, 'nrecv', 0) + 1
        if self.rx.avail:
            k = min(n, len(self.rx.avail))
            if k > 1 and self.net.sim.chance(0.15):
                k = 1 + self.net.sim.draw(k)
                self.net.sim.fault('short-recv')
            out, self.rx.avail = self.rx.avail[:k], self.rx.avail[k:]
            return out
        if self.rx.reset:
            raise ConnectionResetError(errno.ECONNRESET, 'Connection reset by peer')
        self.eofs = getattr(self, 'eofs', 0) + 1
        self.net.sched.yield_point('eof')
        return b''

    def recv_into(self, buf, n=0, *a):
        d = self.recv(n or len(buf))
        buf[:len(d)] = d
        return len(d)

    def connect(self, addr):
        self._chk()
        if self.type == SOCK_DGRAM:
            self.peer = addr
            return
        self.net.sched.yield_point('connect')
        srv = self.net.listeners.get(tuple(addr))
        if srv is None:
            raise ConnectionRefusedError(errno.ECONNREFUSED, 'Connection refused')
        self.peer = addr
        self.tx, self.rx = Pipe(self.net), Pipe(self.net)
        srv(self)

    def connect_ex(self, addr):
        try:
            self.connect(addr)
            return 0
        except OSError as e:
            return e.errno

    def send(self, data, *a):
        self._chk()
        if self.type == SOCK_DGRAM:
            return self.sendto(data, self.peer)
        if not isinstance(data, (bytes, bytearray, memoryview)):
            raise TypeError("a bytes-like object is required, not '%s'" % type(data).__name__)
        if self.tx is None:
            raise BrokenPipeError(errno.EPIPE, 'Broken pipe')
        self.net.sched.yield_point('send')
        if self.rx.reset:
            raise ConnectionResetError(errno.ECONNRESET, 'Connection reset by peer')
        data = bytes(data)
        k = len(data)
        if k > 1 and self.net.sim.chance(getattr(self.net, 'short_send', 0.0)):
            k = 1 + self.net.sim.draw(k - 1)
            self.net.sim.fault('short-send')
        self.tx.feed(data[:k])
        return k

    def sendall(self, data, *a):
        if not isinstance(data, (bytes, bytearray, memoryview)):
            raise TypeError("a bytes-like object is required, not '%s'" % type(data).__name__)
        data = bytes(data)
        while data:
            k = self.send(data)
            data = data[k:]

    def makefile(self, mode='r', buffering=None, encoding=None, errors=None, newline=None):
        import io
        sock = self

        class Raw(io.RawIOBase):
            def readable(self):
                return True

            def writable(self):
                return True

            def readinto(self, b):
                d = sock.recv(len(b))
                b[:len(d)] = d
                return len(d)

            def write(self, b):
                return sock.send(bytes(b))
        raw = Raw()
        if 'r' in mode and 'w' in mode:
            buf = io.BufferedRWPair(raw, raw)
        elif 'w' in mode:
            buf = io.BufferedWriter(raw)
        else:
            buf = io.BufferedReader(raw)
        if 'b' in mode:
            return buf
        return io.TextIOWrapper(buf, encoding or 'utf-8', errors, newline)

    def shutdown(self, how):
        if self.tx is not None:
            self.tx.close()

    def close(self):
        if not self.closed:
            self.closed = True
            if self.tx is not None:
                self.tx.close()
            if self.addr in self.net.bound and self.net.bound[self.addr] is self:
                del self.net.bound[self.addr]

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def create_connection(addr, timeout=None, source_address=None):
    s = SimSocket()
    if timeout is not None and timeout is not _socket._GLOBAL_DEFAULT_TIMEOUT:
        s.settimeout(timeout)
    s.connect(addr)
    return s


def sim_select(r, w, x, timeout=None):
    net = current

    def ready(s):
        if s.type == SOCK_DGRAM:
            return bool(s.queue)
        return s.rx is not None and s.rx.ready()
    net.sched.block(lambda: bool(w) or any(ready(s) for s in r), timeout, 'select')
    return [s for s in r if ready(s)], list(w), []
