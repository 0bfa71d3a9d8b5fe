"""What all simulated worlds share."""
import re

from .. import core, net, pm, plugins, programs

ANSI = re.compile('\x1b\\[[0-9;]*m')

ERRNOS = {
    'openw': ['ENOSPC', 'EACCES', 'EROFS', 'EMFILE', 'EIO'],
    'write': ['ENOSPC', 'EIO', 'EDQUOT'],
    'fsync': ['EIO', 'ENOSPC'],
    'rename': ['EIO', 'ENOSPC', 'EACCES'],
    'link': ['EIO', 'ENOSPC'],
    'mkdir': ['ENOSPC', 'EACCES', 'EROFS'],
    'unlink': ['EIO', 'EACCES'],
    'chmod': ['EPERM', 'EIO'],
    'truncate': ['EIO'],
    'utime': ['EPERM'],
    'open': ['EIO', 'EACCES', 'EMFILE'],
    'read': ['EIO', 'ESTALE'],
    'listdir': ['EIO', 'EACCES'],
}
FAILING = ('err', 'short', 'torn')     # faults a program may notice


def strip(text):
    return ANSI.sub('', text)


class World(object):
    name = '?'
    sessions = 0         # in how many of 1000 runs calls of the API are made in a session
    _sessions = None
    harness = False

    def __init__(self, sim):
        self.sim = sim
        self.ch = sim.ch
        self.states = set()
        self.net = sim.net = net.Net()
        self.pm = sim.pm = pm.PM(sim)
        self.ops = 0
        self.story = []

    def go(self):
        raise NotImplementedError

    def nontrivial(self):
        """Whether something was injected or interleaved that could break the system."""
        st = self.sim.stats
        return any(k.startswith('fault:') for k in st) or st.get('switches', 0) > 0 \
            or st.get('power_loss', 0) > 0

    def describe(self):
        return '; '.join(self.story)[:700]

    def tell(self, *what):
        s = ' '.join(str(w) for w in what)
        self.story.append(s)
        self.sim.log('==', s)

    def state(self, *what):
        self.states.add('|'.join(str(w) for w in what))

    # ------------------------------------------------------------ processes
    def start(self, kind, fn, args=(), **kw):
        self.ops += 1
        t = self._session(kind, fn, args, kw) or \
            self.sim.spawn('%s%d' % (kind, self.ops), fn, args, **kw)
        t.kind = kind
        return t

    def in_session(self):
        if self._sessions is None:
            self._sessions = bool(self.sessions) and self.ch.chance(self.sessions)
        return self._sessions

    def _session(self, kind, fn, args, kw):
        """Some calls of the API are made by one process that lives for long."""
        if self.harness or fn not in programs.CALLS or not self.in_session():
            return None
        if self.ch.chance(100):
            return None
        name = '%s%d' % (kind, self.ops)
        for t in self.sim.kept:
            if t.keep == (kw.get('env'), kw.get('euid', 0), kw.get('encoding', 'utf-8')):
                return self.sim.go_on(t, name, fn, args)
        return self.sim.spawn(name, fn, args, keep=True, **kw)

    def alone(self, kind, fn, args=(), **kw):
        """Run a process of the harness: no faults, nothing else running."""
        sim = self.sim
        on, rows, off = sim.faults_on, sim.fault_rows, self.net.offline
        sim.faults_on, sim.fault_rows = False, []
        self.harness = True
        try:
            t = self.start(kind, fn, args, **kw)
            sim.run()
        finally:
            self.harness = False
            sim.faults_on, sim.fault_rows = on, rows
            self.net.offline = off
        return t

    # ------------------------------------------------- faults (swarm testing)
    def err_rows(self, kinds, cls, p):
        out = []
        for k in kinds:
            names = ERRNOS[k]
            for e in names:
                out.append(({'%s@%s' % (k, cls)}, 'err:' + e, p / len(names)))
        return out

    def swarm(self, rows, max_choices=(0, 1, 1, 2, 3, 6)):
        """Some of the fault kinds, at a random rate."""
        rate = self.ch.choice([1.0, 0.3, 3.0])
        keep = []
        for r in rows:
            if self.ch.chance(600):
                keep.append((r[0], r[1], min(0.9, r[2] * rate)))
        self.sim.fault_rows = keep
        self.sim.max_faults = self.ch.choice(max_choices)
        return keep

    def schedule(self):
        self.sim.p_switch = self.ch.choice([0.1, 0.0, 0.02, 0.3, 0.6])
        self.sim.containers = self.ch.chance(250)

    # -------------------------------------------------------------- outcomes
    @staticmethod
    def failed(t):
        """The process reported a failure (API: exception, CLI: status)."""
        r = t.result
        if r is None:
            return True
        if r[0] != 'ok':
            return True
        if t.meta.get('cli'):
            return r[1] != 0
        return False

    @staticmethod
    def stopped(t):
        """Killed or power loss."""
        return t.status is not None and t.status[0] != 'exit'

    @staticmethod
    def hung(t):
        return t.status is not None and t.status[0] == 'hang'

    @staticmethod
    def interrupted(t):
        return any(f in ('int', 'intafter') for f, _, _, _ in t.injected)

    @staticmethod
    def faulted(t, a=None, b=None):
        """Errors injected into the task (in a range of steps)."""
        return [x for x in t.injected if x[0].split(':')[0] in FAILING
                and (a is None or a <= x[3] <= b)]

    # ------------------------------------------------------------- leftovers
    fixtures = frozenset()

    def leftovers(self, tasks, top, mut0, expected):
        """C27: nothing is left behind by processes that ended by themselves."""
        sim = self.sim
        names = set()
        for t in tasks:
            kinds = [x[1] for x in t.injected]
            # one mishap: the removal itself may fail, or be interrupted
            if self.stopped(t) or 'unlink' in kinds or self.interrupted(t) and len(kinds) > 1:
                continue
            names.add(t.name)
        made = {p: n for st, n, kind, p in sim.mutations[mut0:] if n in names and p}
        if not made:
            return
        there = {p for p, v in sim.tree(top).items() if v is not None}
        left = sorted(p for p in made if p in there and p not in expected
                      and p not in self.fixtures)
        if not left:
            return
        back = self.fixture(left)
        self.fixtures = set(self.fixtures) | set(back)
        left = [p for p in left if p not in back]
        if left:
            sim.violate(('C27',), 'left-behind', '%s leaves %s behind; %s' % (
                made[left[0]], left[0], [(t.name, t.status, t.injected) for t in tasks
                                         if t.name == made[left[0]]]))

    def fixture(self, paths):
        """Which of these files are always there, e.g. because they serve as locks."""
        return ()

    def check_escapes(self):
        for task, op, path in self.sim.escapes:
            self.sim.violate(('C15', 'C11'), 'escape', '%s: %s of %s' % (task, op, path))
