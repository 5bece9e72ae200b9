"""Files under the simulator's control.

Files really live in a private scratch directory, but every file-system call of
the code under test on that directory passes through here, one numbered step at
a time.  At a step chosen by the tape the disk can fail (ENOSPC, EIO, EMFILE),
write only part of the data, or the process can die: user-space buffers are then
lost, completed system calls survive, and any further call of the dead process
has no effect.  Durability is that of a killed process (the kernel survives).
"""
import builtins
import errno
import io
import os
import shutil
import tempfile

real_open = builtins.open
real = {n: getattr(os, n) for n in
        ('replace', 'rename', 'remove', 'unlink', 'open', 'write', 'close', 'fsync', 'truncate', 'ftruncate',
         'mkdir', 'rmdir', 'link', 'symlink', 'fdopen', 'read')}
if hasattr(os, 'fdatasync'):
    real['fdatasync'] = os.fdatasync

current = None


class SimCrash(BaseException):
    """the simulated process has been killed"""


class FS(object):
    def __init__(self, sim):
        self.sim = sim
        # (a name without any letters that could mean something to the library)
        k = 0
        while True:
            self.root = os.path.join(tempfile.gettempdir(), 'dst-%d-%d' % (os.getpid(), k))
            try:
                real['mkdir'](self.root, 0o700)
                break
            except FileExistsError:
                k += 1
        self.step = 0
        self.crash_at = None
        self.fail_at = None
        self.fail_errno = errno.ENOSPC
        self.fail_sticky = False
        self.torn = False
        self.epoch = 0
        self.bufsize = 64
        self.oplog = []
        self.fired = None
        self.fds = {}

    def path(self, name):
        return os.path.join(self.root, name)

    def inside(self, p):
        try:
            p = os.fspath(p)
        except TypeError:
            return False
        if isinstance(p, bytes):
            p = p.decode('utf-8', 'replace')
        return os.path.abspath(p).startswith(self.root + os.sep)

    def arm(self, crash_at=None, fail_at=None, err=errno.ENOSPC, sticky=False, torn=False):
        """plan a fault, counted in steps from now"""
        self.step = 0
        self.crash_at = crash_at
        self.fail_at = fail_at
        self.fail_errno = err
        self.fail_sticky = sticky
        self.torn = torn
        self.fired = None

    def disarm(self):
        self.crash_at = self.fail_at = None

    def reboot(self):
        """a new process: handles of the old one are dead"""
        self.epoch += 1
        self.disarm()
        self.fds.clear()

    def point(self, what, epoch=None, writing=False):
        """one step.  Raises the planned fault.  -> True if a torn write is due"""
        if epoch is not None and epoch != self.epoch:
            raise SimCrash('dead process')
        self.step += 1
        self.oplog.append(what)
        if self.crash_at is not None and self.step >= self.crash_at:
            if self.step == self.crash_at or self.fired != 'crash':
                self.sim.fault('process-killed')
                self.sim.log('crash at fs step', self.step, what.split(' ')[0])
            self.fired = 'crash'
            if writing and self.torn:
                return True
            self.die()
        if self.fail_at is not None and (self.step == self.fail_at or
                                         (self.fail_sticky and self.step > self.fail_at)):
            self.fired = 'error'
            self.sim.fault('disk-' + errno.errorcode[self.fail_errno])
            self.sim.log('disk error', errno.errorcode[self.fail_errno], 'at fs step', self.step, what.split(' ')[0])
            if writing and self.torn:
                return True
            raise OSError(self.fail_errno, os.strerror(self.fail_errno))
        return False

    def die(self):
        self.epoch += 1
        self.crash_at = self.fail_at = None
        raise SimCrash()

    def destroy(self):
        self.epoch += 1
        shutil.rmtree(self.root, ignore_errors=True)


class SimRaw(io.FileIO):
    def __init__(self, fs, file, mode, closefd=True):
        self._fs = fs
        self._epoch = fs.epoch
        io.FileIO.__init__(self, file, mode, closefd)

    def write(self, b):
        fs = self._fs
        if self._epoch != fs.epoch:
            return len(b)                       # buffered data of a dead process vanishes
        b = bytes(b)
        torn = fs.point('write %d' % len(b), self._epoch, writing=True)
        if torn:
            k = fs.sim.draw(len(b) + 1)
            fs.sim.fault('torn-write')
            if k:
                io.FileIO.write(self, b[:k])
            if fs.fired == 'crash':
                fs.die()
            raise OSError(fs.fail_errno, os.strerror(fs.fail_errno))
        if len(b) > 1 and fs.sim.chance(0.05):
            k = 1 + fs.sim.draw(len(b) - 1)
            fs.sim.fault('short-write')
            return io.FileIO.write(self, b[:k])
        return io.FileIO.write(self, b)

    def readinto(self, buf):
        fs = self._fs
        fs.point('read', self._epoch)
        m = memoryview(buf).cast('B')
        n = len(m)
        if n > 1 and fs.sim.chance(0.05):
            fs.sim.fault('short-read')
            n = 1 + fs.sim.draw(n - 1)
        data = io.FileIO.read(self, n)
        m[:len(data)] = data
        return len(data)

    def read(self, size=-1):
        if size is None or size < 0:
            return self.readall()
        self._fs.point('read', self._epoch)
        return io.FileIO.read(self, size)

    def readall(self):
        self._fs.point('read', self._epoch)
        return io.FileIO.readall(self)

    def truncate(self, size=None):
        if self._epoch != self._fs.epoch:
            return 0
        self._fs.point('truncate', self._epoch)
        return io.FileIO.truncate(self, size)


def sim_open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    fs = current
    if fs is None:
        return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    is_fd = isinstance(file, int)
    if is_fd:
        if file not in fs.fds:
            return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    elif not fs.inside(file):
        return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    if 'U' in mode:
        mode = mode.replace('U', '')
        if 'r' not in mode:
            mode = 'r' + mode
    rawmode = mode.replace('b', '').replace('t', '')
    binary = 'b' in mode
    if binary and encoding is not None:
        raise ValueError("binary mode doesn't take an encoding argument")
    writing = any(c in rawmode for c in 'wax+')
    if not is_fd:
        fs.point('open %s %s' % (os.path.basename(str(file)), rawmode), fs.epoch)
        if opener is not None:
            file = opener(file, _flags(rawmode))
    raw = SimRaw(fs, file, rawmode, closefd)
    if buffering == 0:
        if not binary:
            raise ValueError("can't have unbuffered text I/O")
        return raw
    size = buffering if buffering > 1 else fs.bufsize
    if '+' in rawmode:
        buf = io.BufferedRandom(raw, size)
    elif writing:
        buf = io.BufferedWriter(raw, size)
    else:
        buf = io.BufferedReader(raw, max(size, 512))
    if binary:
        return buf
    return io.TextIOWrapper(buf, encoding or 'utf-8', errors, newline, buffering == 1)


def _flags(m):
    if '+' in m:
        f = os.O_RDWR
    elif 'r' in m:
        f = os.O_RDONLY
    else:
        f = os.O_WRONLY
    if 'w' in m:
        f |= os.O_CREAT | os.O_TRUNC
    if 'x' in m:
        f |= os.O_CREAT | os.O_EXCL
    if 'a' in m:
        f |= os.O_CREAT | os.O_APPEND
    return f


def _wrap2(name):
    fn = real[name]

    def inner(a, b, *rest, **kw):
        fs = current
        if fs is not None and (fs.inside(a) or fs.inside(b)):
            fs.point(name, fs.epoch)
        return fn(a, b, *rest, **kw)
    inner.__name__ = name
    return inner


def _wrap1(name):
    fn = real[name]

    def inner(a, *rest, **kw):
        fs = current
        if fs is not None and not isinstance(a, int) and fs.inside(a):
            fs.point(name, fs.epoch)
        return fn(a, *rest, **kw)
    inner.__name__ = name
    return inner


def _os_open(path, flags, mode=0o777, *, dir_fd=None):
    fs = current
    if fs is not None and fs.inside(path):
        fs.point('open', fs.epoch)
        fd = real['open'](path, flags, mode)
        fs.fds[fd] = fs.epoch
        return fd
    if dir_fd is not None:
        return real['open'](path, flags, mode, dir_fd=dir_fd)
    return real['open'](path, flags, mode)


def _os_write(fd, data):
    fs = current
    if fs is not None and fd in fs.fds:
        torn = fs.point('write %d' % len(data), fs.fds[fd], writing=True)
        if torn:
            k = fs.sim.draw(len(data) + 1)
            fs.sim.fault('torn-write')
            if k:
                real['write'](fd, bytes(data)[:k])
            if fs.fired == 'crash':
                fs.die()
            raise OSError(fs.fail_errno, os.strerror(fs.fail_errno))
    return real['write'](fd, data)


def _os_close(fd):
    fs = current
    if fs is not None:
        fs.fds.pop(fd, None)
    return real['close'](fd)


def _os_fsync(fd):
    fs = current
    if fs is not None:
        if hasattr(fd, 'fileno'):
            fd = fd.fileno()
        fs.point('fsync', fs.epoch)
    return real['fsync'](fd)


def _os_fdopen(fd, mode='r', buffering=-1, encoding=None, *a, **kw):
    return sim_open(fd, mode, buffering, encoding, *a, **kw)


def install():
    builtins.open = sim_open
    io.open = sim_open
    for n in ('replace', 'rename', 'link', 'symlink'):
        setattr(os, n, _wrap2(n))
    for n in ('remove', 'unlink', 'mkdir', 'rmdir', 'truncate'):
        setattr(os, n, _wrap1(n))
    os.open = _os_open
    os.write = _os_write
    os.close = _os_close
    os.fsync = _os_fsync
    os.fdopen = _os_fdopen
