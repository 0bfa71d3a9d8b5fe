"""Simulated package managers behind the subprocess seam."""
import errno
import os

INSTALL_FAULTS = ('fail', 'failpartial', 'failafter', 'lie', 'liepartial', 'signal',
                  'ENOENT', 'EACCES', 'ENOMEM')
QUERY_FAULTS = ('qfail', 'qgarbage', 'qENOENT', 'qlie')


class Command(object):
    def __init__(self, n, task, argv, step):
        self.n = n
        self.task = task.name
        self.argv = list(argv)
        self.step = step
        self.kind = 'other'      # install, query, probe, update, setup, other
        self.mgr = None
        self.packages = []
        self.spawned = False
        self.end_step = None
        self.rc = None
        self.behaviour = None
        self.reported = None     # what a query answered
        self.effect = []
        self.sudo = False

    def __repr__(self):
        return '%s:%s rc=%s' % (self.task, ' '.join(self.argv), self.rc)


class Manager(object):
    def __init__(self, name, exe):
        self.name = name
        self.exe = exe
        self.present = True
        self.updated = True
        self.installed = set()
        self.broken = set()      # packages that never install
        self.setup_works = True
        self.update_works = True


class PM(object):
    def __init__(self, sim):
        self.sim = sim
        self.managers = {}
        self.commands = []
        self.sw_vers = None       # what the version command of OS X says
        self.rows = {'install': [], 'query': [], 'probe': [], 'setup': [], 'update': []}
        self.sudo_present = True
        self.duration = 3.0
        self.fake_dirs = []
        self.spelling = {}       # package -> row of pip freeze
        for name, exe in (('apt', 'apt-get'), ('homebrew', 'brew'), ('macports', 'port'),
                          ('pip', 'pip'), ('s1', 's1-get'), ('s2', 's2-get'),
                          ('s3', 's3-get'), ('s4', 's4-get')):
            self.managers[exe] = Manager(name, exe)

    def mgr(self, name):
        for m in self.managers.values():
            if m.name == name:
                return m

    def installed(self, name):
        return self.mgr(name).installed

    # ------------------------------------------------------------- analysis
    def _classify(self, c):
        a = c.argv
        if a and a[0] == 'sudo':
            c.sudo = True
            a = a[1:]
        exe = os.path.basename(a[0]) if a else ''
        if exe == 'touch':
            c.mgr, c.kind, c.packages = 'fake', 'install', list(a[1:])
            return exe
        if exe.endswith('-setup') and exe[:-6] in self.managers:
            c.mgr, c.kind = self.managers[exe[:-6]].name, 'setup'
            return exe
        if exe == 'sw_vers' and self.sw_vers is not None:
            c.kind = 'osversion'
            return exe
        m = self.managers.get(exe)
        if m is None:
            return exe
        c.mgr = m.name
        rest = a[1:]
        if not rest:
            c.kind = 'probe'
        elif rest[0] in ('freeze', 'list', 'check'):
            c.kind = 'query'
        elif rest[0] == 'update':
            c.kind = 'update'
        elif rest[0] in ('install', 'reinstall'):
            c.kind = 'install'
            c.packages = [x for x in rest[1:] if not x.startswith('-')]
        return exe

    # --------------------------------------------------------------- events
    def spawn(self, sim, t, argv):
        c = Command(len(self.commands), t, argv, sim.step_no)
        self.commands.append(c)
        exe = self._classify(c)
        sim.hit('commands')
        sim.log(t.name, 'command', c.argv, c.kind)
        n = t.count('cmd:' + c.kind)
        v = sim.ch.keyed('env', '%s:cmd:%s:%d' % (t.name, c.kind, n),
                         self.rows.get(c.kind, []), sim.faults_on)
        c.behaviour = v
        if v is not None:
            sim.hit('fault:cmd:' + v)
            sim.log(t.name, 'COMMAND FAULT', v)
        act = getattr(t, 'pending_action', None) or 'go'
        t.pending_action = None

        def fail(e):
            c.rc = 'E'
            c.end_step = sim.step_no
            if act == 'intafter':
                return sim.reply(t, 'int', None)
            sim.reply(t, 'err', e)
        if v in ('ENOENT', 'EACCES', 'ENOMEM', 'qENOENT', 'EPERM'):
            return fail(getattr(errno, v.lstrip('q')))
        if c.sudo and not self.sudo_present:
            return fail(errno.ENOENT)
        if c.kind == 'other' or (c.kind not in ('setup', 'osversion') and c.mgr != 'fake'
                                 and not self.managers[exe].present):
            if c.sudo:
                c.spawned = True
                c.behaviour = 'sudofail'
                return sim.reply(t, act, c.n)
            return fail(errno.ENOENT)
        c.spawned = True
        sim.reply(t, act, c.n)

    def wait(self, sim, t, handle, timeout):
        c = self.commands[handle]
        if c.rc is not None:
            return sim.reply(t, 'go', (c.rc if isinstance(c.rc, int) else 0, b'', b''))
        d = self.duration if c.kind in ('install', 'setup', 'update') else 0.05
        if c.behaviour == 'slow':
            d *= 100
        if timeout is not None and timeout < d:
            return sim.block(t, sim.now + timeout, lambda: sim.reply(t, 'timeout', None))
        sim.block(t, sim.now + d, lambda: self._done(sim, t, c))

    def _done(self, sim, t, c):
        out = self._execute(sim, c)
        c.end_step = sim.step_no
        sim.log(t.name, 'command ended', c, out[:200])
        sim.reply(t, 'go', (c.rc, out, b''))

    def poll(self, sim, t, handle):
        c = self.commands[handle]
        if c.rc is not None:
            return sim.reply(t, 'go', (c.rc if isinstance(c.rc, int) else 0, b'', b''))
        c.polls = getattr(c, 'polls', 0) + 1
        if c.polls > 3:
            out = self._execute(sim, c)
            c.end_step = sim.step_no
            return sim.reply(t, 'go', (c.rc, out, b''))
        sim.reply(t, 'go', None)

    def killcmd(self, sim, t, handle):
        self._abort(t, self.commands[handle])
        sim.reply(t)

    def orphan(self, t):
        for c in self.commands:
            if c.task == t.name and c.spawned and c.rc is None:
                self._abort(t, c)

    def _abort(self, t, c):
        """The command was running when it or its parent was killed."""
        if c.rc is not None:
            return
        if c.kind == 'install':
            u = self.sim.ch.number('env', '%s:abort:%d' % (c.task, c.n))
            pk = c.packages[:int(u * (len(c.packages) + 1))] if u < 0.8 else list(c.packages)
            self._install(c, pk)
            if u:
                self.sim.log('aborted', c, 'having installed', pk)
        c.rc = -15
        c.end_step = self.sim.step_no

    # ------------------------------------------------------------ execution
    def _install(self, c, packages):
        for p in packages:
            if c.mgr == 'fake':
                r = self.sim.real(p)
                if os.path.isdir(os.path.dirname(r)) and p.startswith('/'):
                    with open(r, 'ab'):
                        pass
                    c.effect.append(p)
            else:
                m = self.mgr(c.mgr)
                if p not in m.broken:
                    m.installed.add(p)
                    c.effect.append(p)

    def _execute(self, sim, c):
        v = c.behaviour
        if v == 'sudofail':
            c.rc = 1
            return b''
        if c.kind == 'install':
            pk = c.packages
            c.rc = 0
            if v == 'fail':
                c.rc, pk = 1, []
            elif v == 'failpartial':
                c.rc, pk = 100, pk[:len(pk) // 2]
            elif v == 'failafter':
                c.rc = 2
            elif v == 'lie':
                pk = []
            elif v == 'liepartial':
                pk = pk[:len(pk) // 2]
            elif v == 'signal':
                c.rc, pk = (-9, -2, -15, -2)[len(self.commands) % 4], []
            self._install(c, pk)
            if c.mgr == 'fake':
                if v is None and len(c.effect) < len(pk):
                    c.rc = 1
            elif v is None and any(p in self.mgr(c.mgr).broken for p in pk):
                c.rc = 100
            return b'installing\n'
        if c.kind == 'probe':
            c.rc = 1
            return b'usage\n'
        if c.kind == 'osversion':
            c.rc = 0
            return self.sw_vers.encode() + b'\n'
        m = self.mgr(c.mgr)
        if c.kind == 'query':
            c.rc = 0
            if c.argv[-1] == 'check':
                c.reported = m.updated
                return b'updated\n' if m.updated else b'outdated\n'
            names = sorted(m.installed)
            if v == 'qfail':
                c.rc = 1
                c.reported = []
                return b''
            if v == 'qgarbage':
                c.reported = []
                return b'\xff\xfe???\n# broken pipe'
            if v == 'qlie' and names:
                names = names[:-1]
            c.reported = list(names)
            if c.argv[-1] == 'freeze':
                return ''.join(self.spelling.get(n, '%s==1.%%d' % n).replace('%d', str(i)) + '\n'
                               for i, n in enumerate(names)).encode()
            return ''.join('%s\n' % n for n in names).encode()
        if c.kind == 'setup':
            m.present = m.present or (m.setup_works and v != 'fail')
            c.rc = 0 if m.present else 1
            return b''
        if c.kind == 'update':
            m.updated = m.updated or (m.update_works and v != 'fail')
            c.rc = 0 if m.updated else 1
            return b''
        c.rc = 127
        return b''
