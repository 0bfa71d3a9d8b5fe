"""The simulator: one coordinator that decides everything a run does.

Simulated processes (and threads) are forked children which stop at every seam
event and wait for the coordinator's decision, so exactly one of them runs at a
time.  Clock, network, package managers, disk durability and all faults live
here, in plain Python driven by `Choices`.
"""
import errno
import gc
import hashlib
import io
import marshal
import os
import pickle
import re
import resource
import select
import shutil
import signal
import socket
import stat as statmod
import struct
import sys
import traceback

from . import seams

R = seams.R
WALL0 = 1500000000.0      # simulated epoch
MUTATING = {'write', 'truncate', 'mkdir', 'rmdir', 'unlink', 'rename', 'link',
            'symlink', 'chmod', 'utime', 'mkfifo'}
STEP_CAP = 30000
ADDRESS = re.compile('0x[0-9a-f]{6,}')
WALL_TIMEOUT = 60


class HarnessError(Exception):
    pass


class Violation(object):
    def __init__(self, tags, cls, msg, step):
        self.tags = tuple(tags)
        self.cls = cls
        self.msg = msg
        self.step = step

    def __repr__(self):
        return '%s %s: %s' % (','.join(self.tags), self.cls, self.msg)


_libc = None


def _pdeathsig():
    global _libc
    if _libc is None:
        import ctypes
        _libc = ctypes.CDLL(None)
    _libc.prctl(1, signal.SIGKILL)


# -------------------------------------------------------------------- disk

class Disk(object):
    """What would survive a power loss: a prefix of the name space operations and,
    per file, its last synced content or anything unsynced written after it."""

    def __init__(self, sim, roots, fsync_commits_names):
        self.sim = sim
        self.roots = roots
        self.fsync_commits_names = fsync_commits_names
        self.inodes = {}       # key -> {'versions': [bytes], 'synced': index or -1}
        self.current = {}      # os ino -> key
        self.serial = 0
        self.ns = [self._snapshot(True)]
        self.barrier = 0

    def _walk(self):
        out = {}
        for root in self.roots:
            top = self.sim.real(root)
            stack = [(top, root)]
            while stack:
                r, v = stack.pop()
                try:
                    st = R.lstat(r)
                except OSError:
                    continue
                out[v] = (r, st)
                if statmod.S_ISDIR(st.st_mode):
                    for n in sorted(R.listdir(r)):
                        stack.append((r + '/' + n, v + '/' + n))
        return out

    def _snapshot(self, durable=False):
        snap, seen = {}, {}
        for v, (r, st) in self._walk().items():
            if statmod.S_ISDIR(st.st_mode):
                snap[v] = ('dir', st.st_mode)
            elif statmod.S_ISLNK(st.st_mode):
                snap[v] = ('link', R.readlink(r))
            elif statmod.S_ISREG(st.st_mode):
                key = self.current.get(st.st_ino)
                with R.bopen(r, 'rb') as f:
                    data = f.read()
                if key is None:
                    self.serial += 1
                    key = self.serial
                    self.inodes[key] = {'versions': [data], 'synced': 0 if durable else -1,
                                        'mode': st.st_mode}
                else:
                    ino = self.inodes[key]
                    if ino['versions'][-1] != data:
                        ino['versions'].append(data)
                        if durable:
                            ino['synced'] = len(ino['versions']) - 1
                    ino['mode'] = st.st_mode
                seen[st.st_ino] = key
                snap[v] = ('file', key)
        self.current = seen
        return snap

    def note(self):
        snap = self._snapshot()
        if snap != self.ns[-1]:
            self.ns.append(snap)

    def synced(self, vpath):
        e = self.ns[-1].get(vpath)
        if e is None:
            return
        if e[0] == 'file':
            ino = self.inodes[e[1]]
            ino['synced'] = len(ino['versions']) - 1
            if self.fsync_commits_names:
                self.barrier = len(self.ns) - 1
        elif e[0] == 'dir':
            self.barrier = len(self.ns) - 1

    def sync_all(self):
        self.note()
        self.barrier = len(self.ns) - 1
        for ino in self.inodes.values():
            ino['synced'] = len(ino['versions']) - 1

    def crash(self, number):
        """number(key) -> [0,1).  0 everywhere means that nothing is lost."""
        self.note()
        span = len(self.ns) - self.barrier
        j = len(self.ns) - 1 - int(number('ns') * span)
        snap = self.ns[j]
        for root in self.roots:
            r = self.sim.real(root)
            if os.path.lexists(r):
                shutil.rmtree(r)
        for v in sorted(snap):
            e = snap[v]
            r = self.sim.real(v)
            if e[0] == 'dir':
                os.makedirs(r, exist_ok=True)
            elif e[0] == 'link':
                os.makedirs(os.path.dirname(r), exist_ok=True)
                R.symlink(e[1], r)
            else:
                ino = self.inodes[e[1]]
                vs, s = ino['versions'], ino['synced']
                if s == len(vs) - 1:
                    data = vs[-1]
                else:
                    last = vs[-1]
                    opts = [last] + vs[max(s, 0):-1] + [b'', last[:len(last) // 2]]
                    if last:
                        opts.append(b'\0' * len(last))
                    data = opts[int(number('c%s' % v.rsplit('/', 1)[-1][:8]) * len(opts))]
                os.makedirs(os.path.dirname(r), exist_ok=True)
                with R.bopen(r, 'wb') as f:
                    f.write(data)
                R.chmod(r, statmod.S_IMODE(ino['mode']))
        self.inodes, self.current = {}, {}
        self.ns = [self._snapshot(True)]
        self.barrier = 0


# -------------------------------------------------------------------- tasks

class Task(object):
    """A simulated process or thread."""

    def __init__(self, name, sock, ospid):
        self.name = name
        self.sock = sock
        self.ospid = ospid
        self.pending = None
        self.wake = None        # blocked until this time
        self.cont = None        # called when woken
        self.lockwait = None    # progress stamp when it started to wait for a lock
        self.done = False
        self.status = None      # ('exit', result) ('killed',) ('hang',) ('died', sig)
        self.out = []           # (fd, text)
        self.counts = {}
        self.steps = 0
        self.last_op = None
        self.killafter = None
        self.group = [self]
        self.threads = []
        self.keep = None
        self.injected = []      # faults injected into this task
        self.start_step = 0
        self.end_step = None
        self.start_time = 0
        self.meta = {}

    def text(self, fd=None):
        return ''.join(t for f, t in self.out if fd is None or f == fd)

    @property
    def result(self):
        return self.status[1] if self.status and self.status[0] == 'exit' else None

    def count(self, key):
        n = self.counts.get(key, 0)
        self.counts[key] = n + 1
        return n


class Sim(object):

    def __init__(self, choices, root, stats):
        self.ch = choices
        self.root = root
        self.stats = stats             # Counter of everything worth reporting
        self.now = 0.0
        self.skew = 0.0
        self.step_no = 0
        self.tasks = []
        self.kept = []          # last tasks of processes which wait for another job
        self.live = []
        self.violations = []
        self.digest = hashlib.sha256()
        self.sched_digest = hashlib.sha256()
        self.keep_trace = False
        self.trace = []
        self.net = None
        self.pm = None
        self.disk = None
        self.fault_rows = []           # [(kinds, fault, probability)]
        self.max_faults = 0
        self.containers = False
        self.fault_count = 0
        self.faults_on = True
        self.p_switch = 0.0
        self.pathclass = lambda p: ''
        self.observers = []            # f(sim, task, kind, args) before the operation
        self.after = []                # f(sim, task, op, errno) after the operation
        self.powered_off = False
        self.progress = 0
        self.escapes = []
        self.sleeps = []               # (step, task name, seconds)
        self.mutations = []            # (step, task, kind, path)
        self.reads = []                # (step, task, kind, path)
        self.serial = 0
        self.permute = True
        self.clock_tick = 0.001
        self.readings = []             # (step, task name, value)
        self._last = None

    # ------------------------------------------------------------- helpers
    def real(self, v):
        return self.root + v

    def violate(self, tags, cls, msg):
        if isinstance(tags, str):
            tags = (tags,)
        self.violations.append(Violation(tags, cls, msg, self.step_no))
        self.log('VIOLATION', cls, msg)

    def log(self, *what):
        if self.keep_trace:
            self.trace.append('%d %s' % (self.step_no, ' '.join(str(w) for w in what)))

    def hit(self, what, n=1):
        self.stats[what] = self.stats.get(what, 0) + n

    def wall(self):
        return WALL0 + self.now + self.skew

    # file system of the simulated machine, as the workload prepares it
    def write_file(self, v, data):
        r = self.real(v)
        os.makedirs(os.path.dirname(r), exist_ok=True)
        if isinstance(data, str):
            data = data.encode('utf-8')
        with R.bopen(r, 'wb') as f:
            f.write(data)

    def read_file(self, v):
        try:
            with R.bopen(self.real(v), 'rb') as f:
                return f.read()
        except OSError:
            return None

    def mkdir(self, v):
        os.makedirs(self.real(v), exist_ok=True)

    def remove(self, v):
        r = self.real(v)
        if os.path.isdir(r) and not os.path.islink(r):
            shutil.rmtree(r)
        elif os.path.lexists(r):
            R.unlink(r)

    def tree(self, *tops):
        """{virtual path: content} below the given virtual directories."""
        out = {}
        for top in tops or ('',):
            base = self.real(top)
            if os.path.isfile(base):
                out[top] = self.read_file(top)
            for d, dirs, files in os.walk(base):
                v = d[len(self.root):]
                for n in dirs:
                    p = os.path.join(d, n)
                    out[v + '/' + n] = ('link', R.readlink(p)) if os.path.islink(p) else None
                for n in files:
                    p = os.path.join(d, n)
                    if os.path.islink(p):
                        out[v + '/' + n] = ('link', R.readlink(p))
                    else:
                        with R.bopen(p, 'rb') as f:
                            out[v + '/' + n] = f.read()
        return out

    # ----------------------------------------------------------- processes
    def spawn(self, name, fn, args=(), env=None, euid=0, cwd='/xsim/cwd',
              encoding='utf-8', threads=0, cpu=20, keep=False):
        """Start a process; with `keep` it can be given further jobs when it is through."""
        pairs = [socket.socketpair() for _ in range(threads + 1)]
        self.serial += 1
        # containers that share the files have pids of their own
        pid = 7 if self.containers else 4711 + self.serial
        sys.stdout.flush()
        sys.stderr.flush()
        ospid = R.fork()
        if ospid == 0:
            try:
                gc.disable()
                _pdeathsig()
                for a, _ in pairs:
                    a.close()
                for t in self.live + self.kept:
                    t.sock.close()
                resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                e = {'PATH': '/xsim/bin', 'HOME': '/xsim/home', 'LANG': 'C.UTF-8'}
                e.update(env or {})
                seams.activate(pairs[0][1], self.root, pid, euid, e, cwd, encoding)
                seams.THREAD_SOCKS = [b for _, b in pairs[1:]]
                while fn is not None:
                    try:
                        result = ('ok', fn(*args))
                    except SystemExit as ex:
                        result = ('sysexit', repr(ex.code))
                    except BaseException as ex:
                        with seams.off():
                            result = ('exc', type(ex).__name__, str(ex)[:500],
                                      traceback.format_exc()[-3000:])
                    sys.settrace(None)
                    for s in (sys.stdout, sys.stderr):
                        kind = s._kind
                        try:
                            s._kind = 'outend'
                            s.flush()
                        except BaseException:
                            pass
                        s._kind = kind
                    seams.ACTIVE = False
                    _, job = seams._main_channel.raw_call('exit', (result,))
                    fn, args = (None, ()) if job is None else pickle.loads(job)
                    seams.ACTIVE = True
                seams.ACTIVE = False
            except BaseException:
                try:
                    os.write(2, traceback.format_exc().encode())
                except BaseException:
                    pass
            finally:
                R._exit(0)
        tasks = []
        for i, (a, b) in enumerate(pairs):
            b.close()
            a.settimeout(WALL_TIMEOUT)
            t = Task(name if i == 0 else '%s.%d' % (name, i), a, ospid)
            t.start_step = self.step_no
            t.start_time = self.now
            tasks.append(t)
        main = tasks[0]
        main.threads = tasks[1:]
        for t in tasks:
            t.group = tasks
            t.pid = pid
            t.euid = euid
        main.keep = (env, euid, encoding) if keep else None
        self.tasks.append(main)
        self.live.append(main)
        self.hit('processes')
        self._recv(main)
        return main

    def go_on(self, old, name, fn, args=()):
        """Give another job to a process that was kept; it appears as a task of its own."""
        self.kept.remove(old)
        t = Task(name, old.sock, old.ospid)
        t.start_step = self.step_no
        t.start_time = self.now
        t.threads = []
        t.pid, t.euid, t.keep = old.pid, old.euid, old.keep
        self.tasks.append(t)
        self.live.append(t)
        self.hit('further_calls')
        self._send(t, 'go', pickle.dumps((fn, args)))
        self._recv(t)
        return t

    def _drop(self, t):
        """End a process that was kept."""
        self.kept.remove(t)
        R.kill(t.ospid, signal.SIGKILL)
        try:
            R.waitpid(t.ospid, 0)
        except ChildProcessError:
            pass
        t.sock.close()

    def _recv(self, t):
        """Read the next event of a task (it is running now)."""
        try:
            head = self._read(t, 4)
            body = self._read(t, struct.unpack('<I', head)[0]) if head else None
        except socket.timeout:
            # blocked for real (a lock of the kernel, for instance)
            self.log(t.name, 'no event within %d s' % WALL_TIMEOUT)
            self.kill(t, ('hang',))
            return
        if not head or body is None:
            try:
                _, st = R.waitpid(t.ospid, 0)
            except ChildProcessError:
                st = 0
            if os.WIFSIGNALED(st) and os.WTERMSIG(st) in (signal.SIGXCPU, signal.SIGKILL):
                self._finish(t, ('hang',))
                self.log(t.name, 'used up its cpu time')
                return
            raise HarnessError('%s died unexpectedly (status %d)' % (t.name, st))
        last, kind, args = marshal.loads(body)
        if t.last_op is not None:
            op, t.last_op = t.last_op, None
            self._post(t, op, last)
            if t.done:
                return
        if kind == 'exit':
            t.pending = None
            if t is t.group[0] and t.keep and not t.threads:
                self._finish(t, ('exit', args[0]), True)
                self.kept.append(t)
                return
            if t is t.group[0]:
                self._send(t, 'go', None)
            self._finish(t, ('exit', args[0]))
            if t is t.group[0]:
                try:
                    R.waitpid(t.ospid, 0)
                except ChildProcessError:
                    pass
            return
        if kind == 'threads':
            # the main thread starts its threads and waits for them
            self._send(t, 'go', None)
            t.pending = ('join', ())
            t.joining = True
            for th in t.threads:
                self.live.append(th)
                self._recv(th)
            return
        t.pending = (kind, args)

    def _read(self, t, n):
        buf = b''
        while len(buf) < n:
            try:
                d = t.sock.recv(n - len(buf))
            except ConnectionResetError:
                d = b''
            if not d:
                return None
            buf += d
        return buf

    def _send(self, t, action, value):
        data = marshal.dumps((action, value))
        try:
            t.sock.sendall(struct.pack('<I', len(data)) + data)
        except OSError:
            pass

    def _finish(self, t, status, keep=False):
        t.done = True
        t.status = status
        t.end_step = self.step_no
        t.end_time = self.now
        if not keep:
            t.sock.close()
        if t in self.live:
            self.live.remove(t)
        self.log(t.name, 'ends', repr(status)[:2000])
        self._mix('end', t.name, repr(status)[:200])
        self.progress += 1

    def _mix(self, *what):
        # where objects lie in memory is not under control (and does not matter)
        self.digest.update(ADDRESS.sub('0x', repr(what)).encode('utf-8', 'replace'))

    def kill(self, t, status=('killed',)):
        main = t.group[0]
        if main.done:
            return
        R.kill(main.ospid, signal.SIGKILL)
        try:
            R.waitpid(main.ospid, 0)
        except ChildProcessError:
            pass
        for x in main.group:
            if not x.done:
                self._finish(x, status)
        if self.pm is not None:
            self.pm.orphan(main)

    def kill_all(self):
        for t in list(self.live):
            self.kill(t)
        for t in list(self.kept):
            self._drop(t)

    # ---------------------------------------------------------- scheduling
    def _ready(self, t):
        if getattr(t, 'joining', False):
            return all(x.done for x in t.threads)
        if t.lockwait is not None:
            return t.lockwait < self.progress
        return t.wake is None or t.wake <= self.now

    def run(self):
        """Run until no live task is left."""
        current = None
        while self.live and not self.powered_off:
            runnable = [t for t in self.live if self._ready(t)]
            if not runnable:
                times = [t.wake for t in self.live if t.wake is not None
                         and t.lockwait is None]
                if not times:
                    self.log('deadlock', [t.name for t in self.live])
                    for t in list(self.live):
                        self.kill(t, ('hang',))
                    break
                self.now = max(self.now, min(times))
                continue
            if current not in runnable:
                current = self._pick(runnable)
            elif len(runnable) > 1:
                others = [x for x in runnable if x is not current]
                v = self.ch.keyed('sched', '%s#%d' % (current.name, current.steps),
                                  [(x.name, self.p_switch / len(others)) for x in others])
                for x in others:
                    if x.name == v:
                        current = x
            if len(runnable) > 1:
                if current is not self._last:
                    self.hit('switches')
                self._last = current
                self.sched_digest.update(current.name.encode() + b';')
            self._step(current)

    def _pick(self, runnable):
        if len(runnable) == 1:
            return runnable[0]
        self._npick = getattr(self, '_npick', 0) + 1
        rest = runnable[1:]
        v = self.ch.keyed('sched', 'pick#%d' % self._npick,
                          [(x.name, min(0.5, self.p_switch) / len(rest)) for x in rest])
        for x in rest:
            if x.name == v:
                return x
        return runnable[0]

    def reply(self, t, action='go', value=None):
        kind, args = t.pending
        t.pending = None
        t.wake = t.cont = None
        if action in ('go', 'short', 'intafter'):
            t.last_op = (kind, args, action)
        self._mix(t.name, kind, args if kind not in ('out', 'outend') else args[0], action,
                  value if not isinstance(value, (bytes, list, tuple)) else len(value))
        self._send(t, action, value)
        self.progress += 1
        self._recv(t)

    def block(self, t, until, cont):
        t.wake = until
        t.cont = cont

    def _step(self, t):
        self.step_no += 1
        self.now += 1e-5
        t.steps += 1
        self.hit('steps')
        if self.step_no > STEP_CAP or t.steps > STEP_CAP // 2:
            self.log(t.name, 'exceeded the step cap')
            self.kill(t, ('hang',))
            return
        if getattr(t, 'joining', False):
            t.joining = False
            t.pending = None
            self._recv(t)
            return
        if t.lockwait is not None:
            t.lockwait = None
            return self.reply(t)
        if t.cont is not None:
            cont, t.cont, t.wake = t.cont, None, None
            return cont()
        kind, args = t.pending
        for f in self.observers:
            f(self, t, kind, args)
        if kind == 'listdir' or kind == 'open' and args[1] == 'r':
            self.reads.append((self.step_no, t.name, kind, args[0]))
        if self.keep_trace and kind not in ('stat', 'line', 'urandom'):
            self.log(t.name, kind, repr(args)[:300])
        fault = self._fault(t, kind, args)
        if fault is not None:
            if self._apply_fault(t, kind, args, fault):
                return
        getattr(self, 'ev_' + kind)(t, *args)

    # -------------------------------------------------------------- faults
    def _fault(self, t, kind, args):
        if not self.fault_rows or kind in ('escape', 'urandom', 'start', 'outend'):
            return None
        full = kind
        if kind in ('open',):
            full = 'open' if args[1] == 'r' else 'openw'
        pc = self.pathclass(args[0]) if args and isinstance(args[0], str) else ''
        n = t.count('f:' + full)
        opts = [(f, p) for kinds, f, p in self.fault_rows
                if full in kinds or (full + '@' + pc) in kinds or
                '*' in kinds or ('*@' + pc) in kinds]
        if not opts and self.ch.replay is None:
            return None
        v = self.ch.keyed('fault', '%s:%s:%d' % (t.name, full, n), opts,
                          self.faults_on and self.fault_count < self.max_faults)
        if v is not None:
            self.fault_count += 1
            self.hit('fault:%s:%s' % (v.split(':')[0] if not v.startswith('err')
                                      else v, full))
            self.log(t.name, 'FAULT', v, 'at', full, repr(args)[:200])
            t.injected.append((v, full, args, self.step_no))
        return v

    def _apply_fault(self, t, kind, args, fault):
        """True if the event is dealt with."""
        name, _, val = fault.partition(':')
        if name == 'err':
            if kind in ('connect', 'send', 'recv'):
                self.net.hurt(self, t, kind, args, val)
            self.reply(t, 'err', getattr(errno, val))
            return True
        if name == 'int':
            self.reply(t, 'int', None)
            return True
        if name == 'intafter':
            if kind in MUTATING or kind in ('fsync', 'open', 'spawn'):
                t.pending_action = 'intafter'
                if kind == 'spawn':
                    return False
                self.reply(t, 'intafter', None)
            else:
                self.reply(t, 'int', None)
            return True
        if name == 'short':
            self.reply(t, 'short', int(val or 500))
            return True
        if name == 'torn':
            t.killafter = 'kill'
            self.reply(t, 'short', int(val or 500))
            return True
        if name == 'kill':
            self.kill(t)
            return True
        if name == 'killafter':
            t.killafter = 'kill'
            return False
        if name == 'power':
            self.power_loss()
            return True
        if name == 'powerafter':
            t.killafter = 'power'
            return False
        if name == 'clock':
            self.skew += float(val)
            return False
        if name == 'stall':
            d = float(val)
            t.wake = self.now + d
            t.cont = lambda: getattr(self, 'ev_' + kind)(t, *args)
            return True
        raise HarnessError('unknown fault %r' % fault)

    def power_loss(self):
        self.hit('power_loss')
        self.kill_all()
        self.powered_off = True
        if self.disk is not None:
            n = self.stats.get('_pl', 0)
            self._pl = getattr(self, '_pl', 0) + 1
            self.disk.crash(lambda k: self.ch.number('env', 'power%d:%s' % (self._pl, k)))

    def boot(self):
        self.powered_off = False

    def _post(self, t, op, last):
        """An operation of t has been performed."""
        kind, args, action = op
        path = args[0] if args and isinstance(args[0], str) else None
        mutating = kind in MUTATING or (kind == 'open' and args[1] != 'r')
        if mutating and not last:
            p = args[1] if kind in ('rename', 'link') else path
            self.mutations.append((self.step_no, t.name, kind, path))
            if kind in ('rename', 'link'):
                self.mutations.append((self.step_no, t.name, kind, args[1]))
            if kind not in ('unlink', 'rmdir', 'utime'):
                try:
                    ns = int(self.wall() * 1e9)
                    R.utime(self.real(p), ns=(ns, ns), follow_symlinks=False)
                except (OSError, NotImplementedError):
                    pass
        if self.disk is not None and mutating:
            self.disk.note()
        if kind == 'fsync' and not last and self.disk is not None:
            self.disk.synced(path)
        for f in self.after:
            f(self, t, op, last)
        if t.killafter:
            what, t.killafter = t.killafter, None
            self.log(t.name, 'killed after', kind)
            if what == 'power':
                self.power_loss()
            else:
                self.kill(t)

    # ------------------------------------------------------ event handlers
    def _fsop(self, t, *args):
        self.reply(t)

    ev_read = ev_write = ev_fsync = ev_truncate = ev_stat = ev_mkdir = _fsop
    ev_rmdir = ev_unlink = ev_rename = ev_link = ev_symlink = ev_chmod = _fsop
    ev_utime = ev_mkfifo = ev_start = ev_flock = _fsop

    def ev_open(self, t, path, mode):
        self.reply(t)

    def ev_listdir(self, t, path):
        try:
            names = sorted(R.listdir(self.real(path)))
        except OSError as e:
            return self.reply(t, 'err', e.errno)
        if self.permute and len(names) > 1:
            # any order a file system might return
            k = t.count('listdir')
            names.sort(key=lambda n: hashlib.md5(
                ('%s' % self.ch.number('env', '%s:ls:%d' % (t.name, k)) + n).encode()).digest()
                if self.ch.number('env', '%s:ls:%d' % (t.name, k)) else n.encode())
        self.reply(t, 'go', names)

    def ev_lockwait(self, t, *a):
        t.lockwait = self.progress

    def ev_line(self, t, *where):
        self.reply(t, 'go', self.budget(t))

    def budget(self, t):
        n = t.count('budget')
        u = self.ch.number('env', '%s:lines:%d' % (t.name, n))
        return 1 + int(self.line_scale * u ** 3) if u else 10 ** 9

    line_scale = 300

    def ev_now(self, t, which):
        self.now += self.clock_tick
        v = self.wall() if which == 'wall' else 1000.0 + self.now
        if which == 'wall':
            self.readings.append((self.step_no, t.name, v))
        self.reply(t, 'go', v)

    def ev_sleep(self, t, secs):
        self.hit('sleeps')
        self.sleeps.append((self.step_no, t.name, secs))
        self.block(t, self.now + secs, lambda: self.reply(t))

    def ev_dns(self, t, host):
        self.net.dns(self, t, host)

    def ev_connect(self, t, host, port, timeout, wanted=None):
        self.net.connect(self, t, host, port, timeout, wanted)

    def ev_send(self, t, cid, data, timeout):
        self.net.send(self, t, cid, data, timeout)

    def ev_recv(self, t, cid, n, timeout):
        self.net.recv(self, t, cid, n, timeout)

    def ev_spawn(self, t, argv):
        self.pm.spawn(self, t, argv)

    def ev_wait(self, t, handle, timeout):
        self.pm.wait(self, t, handle, timeout)

    def ev_poll(self, t, handle):
        self.pm.poll(self, t, handle)

    def ev_killcmd(self, t, handle):
        self.pm.killcmd(self, t, handle)

    def ev_out(self, t, fd, text):
        t.out.append((fd, text))
        main = t.group[0]
        if main is not t:
            main.out.append((fd, text))
        self._mix('out', t.name, fd, text)
        self.log(t.name, 'prints', repr(text)[:400])
        self.reply(t)

    ev_outend = ev_out

    def ev_urandom(self, t, n):
        k = t.count('urandom')
        out = b''
        while len(out) < n:
            out += hashlib.blake2b(('%s|%s|%d|%d' % (self.ch.seed, t.name, k, len(out)))
                                   .encode()).digest()
        self.reply(t, 'go', out[:n])

    def ev_escape(self, t, op, path):
        self.escapes.append((t.name, op, path))
        self.log(t.name, 'ESCAPE', op, path)
        self.reply(t)

    def ev_mark(self, t, *what):
        """A milestone reported by a harness program (not by xylem)."""
        t.meta.setdefault('marks', []).append((self.step_no, self.now) + what)
        self.reply(t)

    def ev_plugin(self, t, *what):
        """A call into a simulated plugin, which may be told to fail."""
        v = self.ch.keyed('env', '%s:plugin:%s:%d' % (
            t.name, what[0], t.count('plugin:' + what[0])), self.plugin_rows(t, what),
            self.faults_on)
        t.meta.setdefault('plugin', []).append((self.step_no,) + what + (v,))
        if v is not None:
            self.hit('fault:plugin:%s:%s' % (what[0], v))
            self.log(t.name, 'plugin', what, v)
        self.reply(t, 'go', v)

    def plugin_rows(self, t, what):
        return []

    # -------------------------------------------------------------- ending
    def close(self):
        self.kill_all()
