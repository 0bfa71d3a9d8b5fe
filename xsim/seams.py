"""Seams: the library boundary between xylem and the outside world.

`install()` is called once in a worker, *before* xylem is imported.  It replaces
`open`, the `os` functions, clocks, sockets, subprocesses, randomness and plugin
enumeration by versions which, inside a simulated process (a forked child with
`activate()` called), report each operation to the coordinator and obey its
decision.  Outside of simulated processes everything passes through.

Paths below one of VIRT are virtual: they live below the scratch directory ROOT.
A mutating operation on any other path is reported as an escape and refused, so
nothing outside of ROOT can ever be touched by the code under test.
"""
import _io
import builtins
import datetime
import contextlib
import errno
import io
import marshal
import os
import posixpath
import random
import re
import shlex
import shutil
import signal
import socket
import struct
import subprocess
import sys
import tempfile
import threading
import time

VIRT = ('/xsim', '/etc/xylem', '/var/cache/xylem', '/tmp', '/usr/local/etc/xylem',
        '/usr/etc/xylem', '/usr/var/cache/xylem', '/usr/bin/sw_vers')

ROOT = None
ACTIVE = False
_main_channel = None
_tls = threading.local()
FDS = {}          # fd -> virtual path (tracked files of this simulated process)
CWD = '/xsim/cwd'
PID = 4711
EUID = 0
ENTRY_POINTS = None   # callable(group) -> list of entry point objects, set by worker


class R(object):
    """Saved originals."""


for _n in ('open', 'read', 'write', 'close', 'fsync', 'fdatasync', 'ftruncate', 'stat',
           'lstat', 'access', 'listdir', 'scandir', 'mkdir', 'rmdir', 'unlink', 'remove',
           'rename', 'replace', 'link', 'symlink', 'readlink', 'chmod', 'utime', 'truncate',
           'getcwd', 'chdir', 'getpid', 'geteuid', 'getuid', 'urandom', 'system',
           'sendfile', 'fchmod', 'kill', 'fork', '_exit', 'waitpid', 'umask', 'chown', 'mkfifo'):
    setattr(R, _n, getattr(os, _n))
R.bopen = builtins.open
R.time = time.time
R.monotonic = time.monotonic
R.perf_counter = time.perf_counter
R.time_ns = time.time_ns
R.sleep = time.sleep
R.datetime = datetime.datetime
R.create_connection = socket.create_connection
R.Popen = subprocess.Popen
R.getaddrinfo = socket.getaddrinfo


# ----------------------------------------------------------------- channel

THREAD_SOCKS = []     # channels of further threads of this simulated process
XYLEM_DIR = None      # directory of the code under test (with trailing slash)

class Channel(object):
    def __init__(self, sock):
        self.sock = sock
        self.lock = threading.Lock()
        self.last = 0      # outcome of the previous operation (0 or errno or -1)

    def _recv(self, n):
        buf = b''
        while len(buf) < n:
            d = self.sock.recv(n - len(buf))
            if not d:
                R._exit(99)
            buf += d
        return buf

    def raw_call(self, kind, args):
        data = marshal.dumps((self.last, kind, args))
        self.last = 0
        self.sock.sendall(struct.pack('<I', len(data)) + data)
        n, = struct.unpack('<I', self._recv(4))
        return marshal.loads(self._recv(n))

    def call(self, kind, *args):
        with self.lock:
            action, value = self.raw_call(kind, args)
        if action == 'int':
            raise KeyboardInterrupt()
        return action, value


def chan():
    return getattr(_tls, 'chan', None) or _main_channel


@contextlib.contextmanager
def off():
    """What happens in here is of the simulator, not of the simulated process."""
    old = getattr(_tls, 'off', False)
    _tls.off = True
    try:
        yield
    finally:
        _tls.off = old


def active():
    return ACTIVE and not getattr(_tls, 'off', False)


def osop(kind, path, func, extra=(), path2=None):
    """Report an operation, obey the decision, perform it."""
    c = chan()
    action, value = c.call(kind, path, *extra)
    if action == 'err':
        c.last = value
        raise _oserr(value, path, path2)
    try:
        result = func()
    except OSError as e:
        c.last = e.errno or -1
        raise _oserr(e.errno, path, path2) from None
    if action == 'intafter':
        raise KeyboardInterrupt()
    return result


def _oserr(num, path=None, path2=None):
    if path2 is not None:
        return OSError(num, os.strerror(num), path, None, path2)
    if path is not None:
        return OSError(num, os.strerror(num), path)
    return OSError(num, os.strerror(num))


# ------------------------------------------------------------------- paths

def vpath(p):
    """Normalized virtual path, or None if the path is not virtual."""
    if isinstance(p, int):
        return None
    p = os.fspath(p)
    if isinstance(p, bytes):
        p = os.fsdecode(p)
    if not p.startswith('/'):
        p = CWD + '/' + p
    n = posixpath.normpath(p)
    if n.startswith('//'):
        n = n[1:]
    for v in VIRT:
        if n == v or n.startswith(v + '/'):
            # a working copy of the code under test may lie below /tmp
            return None if XYLEM_DIR and n.startswith(posixpath.dirname(XYLEM_DIR[:-1]) + '/') else n
    return None


def real(v):
    return ROOT + v


def escape(op, path):
    c = chan()
    c.call('escape', op, str(path))
    c.last = errno.EACCES
    raise PermissionError(errno.EACCES, os.strerror(errno.EACCES), str(path))


def _nul(p):
    s = os.fspath(p)
    if (b'\0' if isinstance(s, bytes) else '\0') in s:
        raise ValueError('embedded null byte')


# ------------------------------------------------------------------- files

class SimFileIO(_io.FileIO):

    _sim_path = None

    def __init__(self, file, mode='r', closefd=True, opener=None):
        if isinstance(file, int):
            self._sim_path = FDS.get(file)
            super(SimFileIO, self).__init__(file, mode, closefd)
            self.name = file
            return
        _nul(file)
        vp = vpath(file)
        if opener is not None:
            fd = opener(file, _flags(mode))
            FDS.setdefault(fd, vp)
            self._sim_path = vp
            super(SimFileIO, self).__init__(fd, mode, True)
            self.name = file
            return
        osop('open', vp,
             lambda: super(SimFileIO, self).__init__(real(vp), mode, closefd),
             (mode,))
        self._sim_path = vp
        self.name = file
        FDS[self.fileno()] = vp

    def write(self, b):
        if self._sim_path is None or not active():
            return super(SimFileIO, self).write(b)
        b = memoryview(b).cast('B')
        c = chan()
        action, value = c.call('write', self._sim_path, len(b))
        if action == 'err':
            c.last = value
            raise _oserr(value)
        if action == 'short' and len(b) > 1:
            b = b[:max(1, min(len(b) - 1, value * len(b) // 1000))]
        n = super(SimFileIO, self).write(b)
        if action == 'intafter':
            raise KeyboardInterrupt()
        return n

    def readinto(self, b):
        if self._sim_path is None or not active():
            return super(SimFileIO, self).readinto(b)
        c = chan()
        b = memoryview(b).cast('B')
        action, value = c.call('read', self._sim_path, len(b))
        if action == 'err':
            c.last = value
            raise _oserr(value)
        if action == 'short' and len(b) > 1:
            b = b[:max(1, min(len(b) - 1, value))]
        return super(SimFileIO, self).readinto(b)

    def read(self, size=-1):
        if self._sim_path is None or not active():
            return super(SimFileIO, self).read(size)
        if size is None or size < 0:
            return self.readall()
        b = bytearray(size)
        n = self.readinto(b)
        return bytes(b[:n])

    def readall(self):
        if self._sim_path is None or not active():
            return super(SimFileIO, self).readall()
        c = chan()
        action, value = c.call('read', self._sim_path, -1)
        if action == 'err':
            c.last = value
            raise _oserr(value)
        return super(SimFileIO, self).readall()

    def truncate(self, size=None):
        if self._sim_path is None or not active():
            return super(SimFileIO, self).truncate(size)
        return osop('truncate', self._sim_path,
                    lambda: super(SimFileIO, self).truncate(size))

    def close(self):
        if not self.closed and self._sim_path is not None:
            try:
                FDS.pop(self.fileno(), None)
            except ValueError:
                pass
        return super(SimFileIO, self).close()


def _flags(mode):
    m = mode.replace('b', '').replace('t', '')
    f = {'r': os.O_RDONLY, 'w': os.O_WRONLY | os.O_CREAT | os.O_TRUNC,
         'a': os.O_WRONLY | os.O_CREAT | os.O_APPEND,
         'x': os.O_WRONLY | os.O_CREAT | os.O_EXCL}[m.replace('+', '')]
    if '+' in m:
        f = (f & ~os.O_WRONLY) | os.O_RDWR
    return f | os.O_CLOEXEC


def sim_open(file, mode='r', buffering=-1, encoding=None, errors=None,
             newline=None, closefd=True, opener=None):
    def passthrough():
        return R.bopen(file, mode, buffering, encoding, errors, newline, closefd, opener)
    if not active():
        return passthrough()
    if isinstance(file, int):
        if file not in FDS:
            return passthrough()
    else:
        if not isinstance(file, (str, bytes, os.PathLike)):
            return passthrough()
        if opener is None and vpath(file) is None:
            if any(ch in mode for ch in 'wax+'):
                if os.fspath(file) in ('/dev/null', b'/dev/null'):
                    return passthrough()
                escape('open', file)
            return passthrough()
    if not isinstance(mode, str):
        return passthrough()
    binary = 'b' in mode
    core = mode.replace('b', '').replace('t', '').replace('U', '')
    if len(set(core) & set('rwax')) != 1 or (binary and 't' in mode):
        raise ValueError('invalid mode: %r' % mode)
    if binary and (encoding is not None or errors is not None or newline is not None):
        raise ValueError("binary mode doesn't take text arguments")
    raw = SimFileIO(file, core, closefd, opener)
    try:
        if buffering == 0:
            if not binary:
                raise ValueError("can't have unbuffered text I/O")
            return raw
        line = False
        if buffering == 1:
            buffering, line = -1, not binary
        if buffering < 0:
            buffering = io.DEFAULT_BUFFER_SIZE
        if '+' in core:
            buf = io.BufferedRandom(raw, buffering)
        elif core[0] == 'r':
            buf = io.BufferedReader(raw, buffering)
        else:
            buf = io.BufferedWriter(raw, buffering)
        if binary:
            return buf
        text = io.TextIOWrapper(buf, io.text_encoding(encoding), errors, newline, line)
        text.mode = mode
        return text
    except BaseException:
        raw.close()
        raise


def _o_open(path, flags, mode=0o777, *, dir_fd=None):
    if not active():
        return R.open(path, flags, mode, dir_fd=dir_fd)
    vp = vpath(path)
    if vp is None:
        if flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC) \
                and os.fspath(path) != '/dev/null':
            escape('open', path)
        return R.open(path, flags, mode, dir_fd=dir_fd)
    acc = flags & os.O_ACCMODE
    m = 'r' if acc == os.O_RDONLY else ('w' if flags & os.O_TRUNC else 'a')
    if flags & os.O_EXCL:
        m = 'x'
    elif flags & os.O_CREAT and m == 'a':
        m = 'c'
    fd = osop('open', vp, lambda: R.open(real(vp), flags, mode), (m,))
    FDS[fd] = vp
    return fd


def _o_write(fd, data):
    if not active() or fd not in FDS:
        return R.write(fd, data)
    c = chan()
    data = memoryview(data).cast('B')
    action, value = c.call('write', FDS[fd], len(data))
    if action == 'err':
        c.last = value
        raise _oserr(value)
    if action == 'short' and len(data) > 1:
        data = data[:max(1, min(len(data) - 1, value * len(data) // 1000))]
    n = R.write(fd, data)
    if action == 'intafter':
        raise KeyboardInterrupt()
    return n


def _o_read(fd, n):
    if not active() or fd not in FDS:
        return R.read(fd, n)
    c = chan()
    action, value = c.call('read', FDS[fd], n)
    if action == 'err':
        c.last = value
        raise _oserr(value)
    if action == 'short' and n > 1:
        n = max(1, min(n - 1, value))
    return R.read(fd, n)


def _o_close(fd):
    if active():
        FDS.pop(fd, None)
    return R.close(fd)


def _fdop(name, kind):
    orig = getattr(R, name)

    def f(fd, *args):
        no = fd if isinstance(fd, int) else fd.fileno()
        if not active() or no not in FDS:
            return orig(fd, *args)
        return osop(kind, FDS[no], lambda: orig(no, *args))
    f.__name__ = name
    return f


def _pathop(name, kind, mutating=False):
    orig = getattr(R, name)

    def f(path, *args, **kwargs):
        if not active():
            return orig(path, *args, **kwargs)
        if isinstance(path, int):
            if mutating and path in FDS:
                return osop(kind, FDS[path], lambda: orig(path, *args, **kwargs))
            return orig(path, *args, **kwargs)
        _nul(path)
        vp = vpath(path)
        if vp is None:
            if mutating:
                escape(kind, path)
            return orig(path, *args, **kwargs)
        return osop(kind, vp, lambda: orig(real(vp), *args, **kwargs))
    f.__name__ = name
    return f


def _path2op(name, kind):
    orig = getattr(R, name)

    def f(src, dst, **kwargs):
        if not active():
            return orig(src, dst, **kwargs)
        vs, vd = vpath(src), vpath(dst)
        if vs is None or vd is None:
            escape(kind, src if vs is None else dst)
        return osop(kind, vs, lambda: orig(real(vs), real(vd)), (vd,), vd)
    f.__name__ = name
    return f


def _o_symlink(src, dst, target_is_directory=False, **kw):
    if not active():
        return R.symlink(src, dst, target_is_directory, **kw)
    vd = vpath(dst)
    if vd is None:
        escape('symlink', dst)
    return osop('symlink', vd, lambda: R.symlink(src, real(vd)), (os.fspath(src),))


def _o_access(path, mode, **kw):
    if not active():
        return R.access(path, mode, **kw)
    vp = None if isinstance(path, int) else vpath(path)
    if vp is None:
        return R.access(path, mode, **kw)
    return osop('stat', vp, lambda: R.access(real(vp), mode))


def _o_listdir(path='.'):
    if not active():
        return R.listdir(path)
    vp = vpath(path)
    if vp is None:
        return R.listdir(path)
    c = chan()
    action, value = c.call('listdir', vp)
    if action == 'err':
        c.last = value
        raise _oserr(value, vp)
    if isinstance(os.fspath(path), bytes):
        value = [os.fsencode(x) for x in value]
    return list(value)


class SimDirEntry(object):
    def __init__(self, parent, name):
        self.name = name
        self.path = posixpath.join(os.fspath(parent), name)

    def is_dir(self, follow_symlinks=True):
        return posixpath.isdir(self.path) and (
            follow_symlinks or not posixpath.islink(self.path))

    def is_file(self, follow_symlinks=True):
        return posixpath.isfile(self.path) and (
            follow_symlinks or not posixpath.islink(self.path))

    def is_symlink(self):
        return posixpath.islink(self.path)

    def is_junction(self):
        return False

    def stat(self, follow_symlinks=True):
        return os.stat(self.path) if follow_symlinks else os.lstat(self.path)

    def inode(self):
        return os.lstat(self.path).st_ino

    def __fspath__(self):
        return self.path


class SimScandir(object):
    def __init__(self, items):
        self._it = iter(items)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None

    def close(self):
        pass


def _o_scandir(path='.'):
    if not active() or isinstance(path, int) or vpath(path) is None:
        return R.scandir(path)
    return SimScandir([SimDirEntry(path, n) for n in _o_listdir(path)])


def _o_readlink(path, **kw):
    if not active() or vpath(path) is None:
        return R.readlink(path, **kw)
    vp = vpath(path)
    return osop('stat', vp, lambda: R.readlink(real(vp)))


def _o_getcwd():
    return CWD if active() else R.getcwd()


def _o_chdir(path):
    global CWD
    if not active():
        return R.chdir(path)
    vp = vpath(path)
    if vp is None:
        raise _oserr(errno.ENOENT, str(path))
    R.stat(real(vp))
    CWD = vp


def _o_sendfile(*a, **kw):
    if active():
        raise OSError(errno.ENOTSOCK, 'sendfile not simulated')
    return R.sendfile(*a, **kw)


def _forbidden(name):
    orig = getattr(os, name)

    def f(*a, **kw):
        if active():
            escape(name, a[:2])
        return orig(*a, **kw)
    f.__name__ = name
    return f


# ------------------------------------------------------------------- flock

def _lock_seam():
    import fcntl
    o_flock, o_lockf = fcntl.flock, fcntl.lockf

    def lock(orig, fd, op, *a):
        no = fd if isinstance(fd, int) else fd.fileno()
        if not active() or no not in FDS:
            return orig(fd, op, *a)
        c = chan()
        action, value = c.call('flock', FDS[no], op)
        if action == 'err':
            c.last = value
            raise _oserr(value)
        if op & (fcntl.LOCK_NB | fcntl.LOCK_UN):
            return orig(fd, op, *a)
        while True:
            try:
                return orig(fd, op | fcntl.LOCK_NB, *a)
            except BlockingIOError:
                c.call('lockwait', FDS[no])

    def flock(fd, op):
        return lock(o_flock, fd, op)

    def lockf(fd, op, *a):
        return lock(o_lockf, fd, op, *a)
    fcntl.flock, fcntl.lockf = flock, lockf


# ------------------------------------------------------------------- clock

def _clock(which):
    return chan().call('now', which)[1]


def _t_time():
    return _clock('wall') if active() else R.time()


def _t_time_ns():
    return int(_clock('wall') * 10 ** 9) if active() else R.time_ns()


def _t_monotonic():
    return _clock('mono') if active() else R.monotonic()


def _t_perf():
    return _clock('mono') if active() else R.perf_counter()


def _t_sleep(secs):
    if not active():
        return R.sleep(secs)
    if secs < 0:
        raise ValueError('sleep length must be non-negative')
    chan().call('sleep', float(secs))


class _DTMeta(type(datetime.datetime)):
    def __instancecheck__(cls, obj):
        return isinstance(obj, R.datetime)


class SimDatetime(datetime.datetime):
    @classmethod
    def now(cls, tz=None):
        if not active():
            return cls.fromtimestamp(R.time(), tz)
        return cls.fromtimestamp(_clock('wall'), tz)

    @classmethod
    def today(cls):
        return cls.now()

    @classmethod
    def utcnow(cls):
        return cls.fromtimestamp(_clock('wall') if active() else R.time(),
                                 datetime.timezone.utc).replace(tzinfo=None)


SimDatetime.__module__ = 'datetime'
SimDatetime.__name__ = SimDatetime.__qualname__ = 'datetime'


# ----------------------------------------------------------------- network

_NETERR = {
    'refused': lambda: ConnectionRefusedError(errno.ECONNREFUSED, 'Connection refused'),
    'reset': lambda: ConnectionResetError(errno.ECONNRESET, 'Connection reset by peer'),
    'pipe': lambda: BrokenPipeError(errno.EPIPE, 'Broken pipe'),
    'unreach': lambda: OSError(errno.ENETUNREACH, 'Network is unreachable'),
    'timeout': lambda: socket.timeout('timed out'),
    'dns': lambda: socket.gaierror(socket.EAI_NONAME, 'Name or service not known'),
    'dnstemp': lambda: socket.gaierror(socket.EAI_AGAIN, 'Temporary failure in name resolution'),
}


def _net(kind, *args):
    action, value = chan().call(kind, *args)
    if action == 'neterr':
        raise _NETERR[value]()
    if action == 'err':
        raise _oserr(value)
    if action == 'short' or action == 'intafter':
        raise RuntimeError('simulator: action %s for a network operation' % action)
    return value


class FakeRaw(io.RawIOBase):
    def __init__(self, sock):
        self.sock = sock

    def readable(self):
        return True

    def writable(self):
        return True

    def readinto(self, b):
        d = self.sock.recv(len(b))
        b[:len(d)] = d
        return len(d)

    def write(self, b):
        self.sock.sendall(bytes(b))
        return len(b)


class FakeSocket(object):
    family, type, proto = socket.AF_INET, socket.SOCK_STREAM, 6

    def __init__(self, cid, timeout, address):
        self.cid = cid
        self.timeout = timeout
        self.address = address
        self.eof = False

    def setsockopt(self, *a):
        pass

    def getsockopt(self, *a):
        return 0

    def settimeout(self, t):
        self.timeout = t

    def gettimeout(self):
        return self.timeout

    def setblocking(self, flag):
        self.timeout = None if flag else 0.0

    def fileno(self):
        return -1

    def getpeername(self):
        return self.address

    def sendall(self, data, flags=0):
        _net('send', self.cid, bytes(data), self.timeout)

    def send(self, data, flags=0):
        self.sendall(data)
        return len(data)

    def recv(self, n, flags=0):
        if self.eof or n == 0:
            return b''
        d = _net('recv', self.cid, n, self.timeout)
        if not d:
            self.eof = True
        return d

    def recv_into(self, b, n=0, flags=0):
        d = self.recv(n or len(b))
        b[:len(d)] = d
        return len(d)

    def makefile(self, mode='r', buffering=None, **kw):
        raw = FakeRaw(self)
        if buffering == 0:
            return raw
        if 'w' in mode and 'r' in mode:
            buf = io.BufferedRWPair(raw, raw)
        elif 'w' in mode:
            buf = io.BufferedWriter(raw)
        else:
            buf = io.BufferedReader(raw)
        if 'b' in mode:
            return buf
        return io.TextIOWrapper(buf, **kw)

    def shutdown(self, how):
        pass

    def close(self):
        pass

    def detach(self):
        return -1

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    # looks like an SSL socket to http.client
    def getpeercert(self, *a):
        return {}

    def selected_alpn_protocol(self):
        return None

    def do_handshake(self):
        pass


def _wanted():
    """URL of the urllib request on whose behalf a connection is made, if any."""
    f = sys._getframe(2)
    while f is not None:
        if f.f_code.co_name == 'do_open':
            return getattr(f.f_locals.get('req'), 'full_url', None)
        f = f.f_back
    return None


def _s_create_connection(address, timeout=socket._GLOBAL_DEFAULT_TIMEOUT,
                         source_address=None, **kw):
    if not active():
        return R.create_connection(address, timeout, source_address, **kw)
    if timeout is socket._GLOBAL_DEFAULT_TIMEOUT:
        timeout = socket.getdefaulttimeout()
    t = None if timeout is None else float(timeout)
    cid = _net('connect', str(address[0]), int(address[1]), t, _wanted())
    return FakeSocket(cid, t, tuple(address))


def _s_getaddrinfo(*a, **kw):
    if not active():
        return R.getaddrinfo(*a, **kw)
    _net('dns', str(a[0]))
    return [(socket.AF_INET, socket.SOCK_STREAM, 6, '', ('192.0.2.1', a[1]))]


def _ssl_seam():
    import ssl
    orig = ssl.SSLContext.wrap_socket

    def wrap_socket(self, sock, *a, **kw):
        if isinstance(sock, FakeSocket):
            return sock
        return orig(self, sock, *a, **kw)
    ssl.SSLContext.wrap_socket = wrap_socket
    # loading the certificates of the host takes long, and nothing is encrypted here
    ssl.SSLContext.load_default_certs = lambda self, *a, **kw: None
    ssl.SSLContext.set_default_verify_paths = lambda self, *a, **kw: None
    cached = []

    def context(*a, **kw):
        if not cached:
            cached.append(ssl.create_default_context())
        return cached[0]
    context()
    ssl._create_default_https_context = context


# -------------------------------------------------------------- subprocess

def _shell(text):
    """The first command that a shell would run."""
    lex = shlex.shlex(text, posix=True, punctuation_chars=True)
    lex.whitespace_split = True
    lex.commenters = ''
    out = []
    for word in lex:
        if word and set(word) <= set('();<>|&'):
            break
        out.append(re.sub(r'\$\w+', '', word))
    return out


class SimPopen(object):
    """Stands in for subprocess.Popen; commands run in the coordinator's model."""

    def __new__(cls, *a, **kw):
        if not active():
            return R.Popen(*a, **kw)
        return object.__new__(cls)

    def __init__(self, args, bufsize=-1, executable=None, stdin=None, stdout=None,
                 stderr=None, preexec_fn=None, close_fds=True, shell=False, cwd=None,
                 env=None, universal_newlines=None, startupinfo=None, creationflags=0,
                 restore_signals=True, start_new_session=False, pass_fds=(), *,
                 user=None, group=None, extra_groups=None, encoding=None, errors=None,
                 text=None, umask=-1, pipesize=-1, process_group=None):
        self.args = args
        if shell:
            argv = _shell(args if isinstance(args, str) else args[0])
        elif isinstance(args, (str, bytes, os.PathLike)):
            argv = [os.fspath(args)]
        else:
            argv = [os.fsdecode(a) for a in args]
        if not argv:
            raise IndexError('list index out of range')
        self._text = bool(text or universal_newlines or encoding or errors)
        self._enc = encoding or 'utf-8'
        self._errors = errors or 'strict'
        self._stdout, self._stderr = stdout, stderr
        self._result = None
        self._streams = {}
        self.returncode = None
        self.stdin = io.BytesIO() if stdin == subprocess.PIPE else None
        c = chan()
        action, value = c.call('spawn', [str(a) for a in argv])
        if action == 'err':
            c.last = value
            if shell:
                self._handle, self._result = None, (127, b'', b'sh: not found\n')
                self.pid = PID + 1000
                return
            raise _oserr(value, argv[0])
        self._handle = value
        self.pid = PID + 1000 + value
        if action == 'intafter':
            raise KeyboardInterrupt()

    def _finish(self, timeout=None):
        if self._result is None:
            action, value = chan().call(
                'wait', self._handle, None if timeout is None else float(timeout))
            if action == 'timeout':
                raise subprocess.TimeoutExpired(self.args, timeout)
            self._result = tuple(value)
        self.returncode = self._result[0]
        return self._result

    def _conv(self, data):
        if self._text:
            return data.decode(self._enc, self._errors)
        return data

    def _data(self, which):
        rc, out, err = self._result
        if which == 'out':
            if self._stdout != subprocess.PIPE:
                return None
            return self._conv(out + (err if self._stderr == subprocess.STDOUT else b''))
        if self._stderr != subprocess.PIPE:
            return None
        return self._conv(err)

    def communicate(self, input=None, timeout=None):
        self._finish(timeout)
        return self._data('out'), self._data('err')

    def _stream(self, which):
        if which not in self._streams:
            self._finish()
            d = self._data(which)
            self._streams[which] = None if d is None else (
                io.StringIO(d) if self._text else io.BytesIO(d))
        return self._streams[which]

    @property
    def stdout(self):
        return self._stream('out') if self._stdout == subprocess.PIPE else None

    @property
    def stderr(self):
        return self._stream('err') if self._stderr == subprocess.PIPE else None

    def wait(self, timeout=None):
        self._finish(timeout)
        return self.returncode

    _wait = wait

    def poll(self):
        if self._result is None:
            action, value = chan().call('poll', self._handle)
            if value is None:
                return None
            self._result = tuple(value)
        self.returncode = self._result[0]
        return self.returncode

    def send_signal(self, sig):
        if self._result is None:
            chan().call('killcmd', self._handle)

    def terminate(self):
        self.send_signal(signal.SIGTERM)

    def kill(self):
        self.send_signal(signal.SIGKILL)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        if self._result is None:
            self._finish()

    @classmethod
    def __class_getitem__(cls, item):
        return cls


def _o_system(command):
    if not active():
        return R.system(command)
    p = SimPopen(command, shell=True)
    rc = p.wait()
    return rc << 8 if rc >= 0 else -rc


# ------------------------------------------------------------ console, misc

class SimStream(io.TextIOBase):
    """stdout/stderr of a simulated process: reports complete lines."""

    _kind = 'out'

    def __init__(self, fd, encoding):
        self._fd = fd
        self._enc = encoding
        self._buf = ''

    @property
    def encoding(self):
        return self._enc

    @property
    def errors(self):
        return 'strict' if self._fd == 1 else 'backslashreplace'

    def writable(self):
        return True

    def isatty(self):
        return False

    def fileno(self):
        raise io.UnsupportedOperation('fileno')

    def write(self, s):
        if not isinstance(s, str):
            raise TypeError("write() argument must be str, not %s" % type(s).__name__)
        s.encode(self._enc, self.errors)
        self._buf += s
        if '\n' in s:
            self.flush()
        return len(s)

    def flush(self):
        if self._buf:
            b, self._buf = self._buf, ''
            chan().call(self._kind, self._fd, b)

    @property
    def buffer(self):
        outer = self

        class B(io.RawIOBase):
            def writable(self):
                return True

            def write(self, data):
                outer.write(bytes(data).decode(outer._enc, 'replace'))
                return len(data)

            def flush(self):
                outer.flush()
        return B()


def _o_urandom(n):
    if not active():
        return R.urandom(n)
    return chan().call('urandom', n)[1]


def _o_getpid():
    return PID if active() else R.getpid()


def _o_geteuid():
    return EUID if active() else R.geteuid()


def _audit(event, args):
    if not ACTIVE:
        return
    if event == 'open':
        path, mode, flags = args
        if isinstance(path, str) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC):
            if not path.startswith(ROOT) and path != '/dev/null':
                raise PermissionError(errno.EACCES, 'blocked by simulator', path)
    elif event in _AUDIT_PATHS:
        for a in args[:2] if event in ('os.rename', 'os.link') else \
                (args[1:2] if event == 'os.symlink' else args[:1]):
            if isinstance(a, int):
                continue
            if isinstance(a, (str, bytes)) and not os.fsdecode(a).startswith(ROOT):
                raise PermissionError(errno.EACCES, 'blocked by simulator', os.fsdecode(a))
    elif event in ('subprocess.Popen', 'os.system', 'os.exec', 'os.posix_spawn', 'os.spawn',
                   'os.fork', 'os.forkpty', 'socket.connect', 'socket.sendto', 'socket.bind',
                   'os.kill', 'pty.spawn'):
        raise PermissionError(errno.EACCES, 'blocked by simulator: ' + event)


_AUDIT_PATHS = {'os.remove', 'os.rename', 'os.rmdir', 'os.mkdir', 'os.chmod', 'os.chown',
                'os.truncate', 'os.link', 'os.symlink', 'os.utime', 'os.setxattr',
                'os.removexattr', 'os.chflags'}


def _iter_entry_points(group, name=None):
    return iter([e for e in ENTRY_POINTS(group) if name is None or e.name == name])


def install():
    builtins.open = sim_open
    io.open = sim_open
    io.FileIO = SimFileIO if False else io.FileIO
    os.open = _o_open
    os.write = _o_write
    os.read = _o_read
    os.close = _o_close
    os.fsync = _fdop('fsync', 'fsync')
    os.fdatasync = _fdop('fdatasync', 'fsync')
    os.ftruncate = _fdop('ftruncate', 'truncate')
    os.fchmod = _fdop('fchmod', 'chmod')
    os.stat = _pathop('stat', 'stat')
    os.lstat = _pathop('lstat', 'stat')
    os.mkdir = _pathop('mkdir', 'mkdir', True)
    os.rmdir = _pathop('rmdir', 'rmdir', True)
    os.unlink = _pathop('unlink', 'unlink', True)
    os.remove = _pathop('remove', 'unlink', True)
    os.chmod = _pathop('chmod', 'chmod', True)
    os.chown = _pathop('chown', 'chmod', True)
    os.utime = _pathop('utime', 'utime', True)
    os.truncate = _pathop('truncate', 'truncate', True)
    os.mkfifo = _pathop('mkfifo', 'mkfifo', True)
    os.rename = _path2op('rename', 'rename')
    os.replace = _path2op('replace', 'rename')
    os.link = _path2op('link', 'link')
    os.symlink = _o_symlink
    os.access = _o_access
    os.listdir = _o_listdir
    os.scandir = _o_scandir
    os.readlink = _o_readlink
    os.getcwd = _o_getcwd
    os.chdir = _o_chdir
    os.sendfile = _o_sendfile
    os.system = _o_system
    os.urandom = _o_urandom
    os.getpid = _o_getpid
    os.geteuid = _o_geteuid
    os.getuid = _o_geteuid
    for n in ('fork', 'execv', 'execve', 'posix_spawn', 'posix_spawnp', 'kill', 'killpg'):
        setattr(os, n, _forbidden(n))
    shutil._use_fd_functions = False
    if hasattr(shutil, '_USE_CP_SENDFILE'):
        shutil._USE_CP_SENDFILE = False
    time.time = _t_time
    time.time_ns = _t_time_ns
    time.monotonic = _t_monotonic
    time.perf_counter = _t_perf
    time.sleep = _t_sleep
    datetime.datetime = SimDatetime
    socket.create_connection = _s_create_connection
    socket.getaddrinfo = _s_getaddrinfo
    subprocess.Popen = SimPopen
    _lock_seam()
    _ssl_seam()
    sys.addaudithook(_audit)


def install_plugin_seam():
    import pkg_resources
    import importlib.metadata as im
    pkg_resources.iter_entry_points = _iter_entry_points
    orig = im.entry_points

    def entry_points(**params):
        if ENTRY_POINTS is None or 'group' not in params:
            return orig(**params)
        return [e for e in ENTRY_POINTS(params['group'])
                if params.get('name') in (None, e.name)]
    im.entry_points = entry_points


def activate(sock, root, pid, euid, env, cwd='/xsim/cwd', encoding='utf-8'):
    """Turn this (freshly forked) process into a simulated process."""
    global ACTIVE, _main_channel, ROOT, PID, EUID, CWD
    ROOT, PID, EUID, CWD = root, pid, euid, cwd
    _main_channel = Channel(sock)
    os.environ.clear()
    os.environ.update(env)
    random.seed(pid)
    ns = tempfile._RandomNameSequence()
    ns._rng, ns._rng_pid = random.Random(pid), pid
    tempfile._name_sequence = ns
    tempfile.tempdir = '/tmp'
    sys.stdout = SimStream(1, encoding)
    sys.stderr = SimStream(2, encoding)
    ACTIVE = True


# ----------------------------------------------------------------- threads

def _trace_lines():
    """Preempt the current thread at lines of xylem, as the coordinator decides."""
    c = chan()
    left = [c.call('line', '', 0)[1]]

    def local(frame, event, arg):
        left[0] -= 1
        if left[0] <= 0:
            off = getattr(_tls, 'off', False)
            left[0] = c.call('line', os.path.basename(frame.f_code.co_filename),
                             frame.f_lineno)[1]
        return local

    def tracer(frame, event, arg):
        if frame.f_code.co_filename.startswith(XYLEM_DIR):
            return local(frame, event, arg)
        return None
    sys.settrace(tracer)


def trace_lines():
    _trace_lines()


def run_threads(functions):
    """Run functions in threads whose interleaving the coordinator decides."""
    results = [None] * len(functions)

    def body(i):
        _tls.chan = Channel(THREAD_SOCKS[i])
        try:
            _tls.chan.call('start')
            _trace_lines()
            try:
                results[i] = functions[i]()
            finally:
                sys.settrace(None)
        except BaseException as e:
            import traceback
            with off():
                results[i] = ('EXC', type(e).__name__, str(e)[:300],
                              traceback.format_exc()[-2000:])
        c = _tls.chan
        _tls.off = True
        data = marshal.dumps((0, 'exit', (None,)))
        c.sock.sendall(struct.pack('<I', len(data)) + data)
    threads = [threading.Thread(target=body, args=(i,), daemon=True)
               for i in range(len(functions))]
    chan().call('threads')
    for t in threads:
        t.start()
    for t in threads:
        t.join()
    return results


class SimLock(object):
    """threading.Lock whose contention the coordinator sees."""

    def __init__(self):
        self._l = R.Lock()

    def acquire(self, blocking=True, timeout=-1):
        if not active() or getattr(_tls, 'chan', None) is None:
            return self._l.acquire(blocking, timeout)
        if self._l.acquire(False):
            return True
        if not blocking:
            return False
        while True:
            chan().call('lockwait', 'lock')
            if self._l.acquire(False):
                return True

    def release(self):
        self._l.release()

    def locked(self):
        return self._l.locked()

    def _at_fork_reinit(self):
        self._l = R.Lock()

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()


class SimRLock(object):
    def __init__(self):
        self._l = SimLock()
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = threading.get_ident()
        if self._owner == me:
            self._count += 1
            return True
        if not self._l.acquire(blocking, timeout):
            return False
        self._owner, self._count = me, 1
        return True

    def release(self):
        if self._owner != threading.get_ident():
            raise RuntimeError('cannot release un-acquired lock')
        self._count -= 1
        if not self._count:
            self._owner = None
            self._l.release()

    def _is_owned(self):
        return self._owner == threading.get_ident()

    def _release_save(self):
        s = (self._count, self._owner)
        self._count, self._owner = 0, None
        self._l.release()
        return s

    def _acquire_restore(self, s):
        self._l.acquire()
        self._count, self._owner = s

    def _at_fork_reinit(self):
        self._l = SimLock()
        self._owner, self._count = None, 0

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()


R.Lock = threading.Lock
R.RLock = threading.RLock
