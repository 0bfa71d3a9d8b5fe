"""Compacting a rules file in place under crashes, interrupts and disk errors."""
import yaml

from .. import core, programs, rules
from .base import World, strip

DIR = '/xsim/work'
ODD = ['yes', '1.0', '', ' lead', 'a: b', '- x', '#c', 'x #y', '\u00e4\u00f6', '\u65e5\u672c', "it's",
       '"q"', 'two\nlines', 'tab\t.', '~', 'null', '0x1f', '1e3', '2014-01-01', '@at', '%p',
       '!bang', '&anc', '*ali', '[b', '{c', 'a, b', 'trail ', '\U0001f389', '=', '?', '|', '>']


def odd_rules(ch, src, version):
    r = rules.gen_doc(ch, src, version, max_keys=5).rules
    for od in r.values():
        for vd in od.values():
            for idict in vd.values():
                for rule in idict.values():
                    if ch.chance(150):
                        rule['packages'] = rule['packages'] + [ch.choice(ODD)]
                    if ch.chance(60):
                        rule[ch.choice(['note', 'key with: colon', '1', 'formula'])] = ch.choice(
                            [ch.choice(ODD), [ch.choice(ODD), 5, None, True], {'a': {'b': [1.5]}},
                             None, [[], {}], 'x' * 300])
                    if ch.chance(40):
                        rule['packages'] = [None, 'p', 3, 1.5, {'name': 'x', 'v': None}]
    # the same rules for some version as for any version, and the default spelled out
    for od in r.values():
        for osn, vd in od.items():
            if osn != 'any_os' and 'any_version' in vd and ch.chance(300):
                vd[ch.choice(['one', 'trusty', 'lion'])] = dict(vd['any_version'])
            if osn != 'any_os' and ch.chance(100):
                vd.setdefault('two', {})
            if osn != 'any_os' and ch.chance(80):
                # the same rules for all the versions it knows, or some of them
                same = dict(vd[sorted(vd)[0]])
                for v in ch.shuffle(rules.OSES.get(osn, (['v1', 'v2', 'v3'],))[0])[:ch.choice([3, 20])]:
                    vd[v] = dict(same)
                if ch.chance(700):
                    vd.pop('any_version', None)
            if osn in rules.OSES and ch.chance(200):
                for v in list(vd):
                    if 'default_installer' in vd[v]:
                        d = vd[v].pop('default_installer')
                        vd[v][rules.OSES[osn][1]] = d
    return r


def spread(rs):
    """{key: {os: {version: {installer: rule}}}}, fully expanded."""
    c = {}
    for (key, osn, v), idict in rules.canon_rules(rs).items():
        c.setdefault(key, {}).setdefault(osn, {})[v] = idict
    return c


def difference(old, new):
    """Where two rules documents mean something different, if anywhere."""
    a, b = spread(old), spread(new)
    for key in sorted(set(a) | set(b)):
        ods = [x.get(key, {}) for x in (a, b)]
        oses = {o for od in ods for o in od} | {'someos'}
        for osn in sorted(oses):
            default = rules.OSES.get(osn, (0, 'default_installer'))[1]
            for v in sorted({v for od in ods for vd in od.values() for v in vd} | {'other'}):
                x, y = (rules.ref_lookup(c, key, osn, v, default) for c in (a, b))
                if x != y:
                    return '%s on %s:%s is %r, becomes %r' % (key, osn, v, x, y)


class CompactWorld(World):
    groups = ('disk', 'kill', 'power', 'int')
    lines = False

    def go(self):
        ch, sim = self.ch, self.sim
        self.schedule()
        sim.pathclass = lambda p: 'work' if p.startswith(DIR) else ''
        sim.mkdir(DIR)
        self.path = DIR + '/' + ch.choice(['rules.yaml', 'base', 'my rules.yml'])
        self.link = ch.chance(150)
        self.n = 0
        self.new_content()
        self.siblings = {}
        for n in ('.tmp', '.bak', '~', '.new', '.orig'):
            if ch.chance(250):
                self.siblings[self.path + n] = 'keep'
        self.siblings[DIR + '/other.yaml'] = 'foo: {ubuntu: [x]}\n'
        for p, c in self.siblings.items():
            sim.write_file(p, c)
        sim.disk = core.Disk(sim, [DIR], ch.chance(500))
        self.configure_faults()
        sim.after.append(self.watch)
        for _ in range(ch.range(1, 4)):
            getattr(self, ch.weighted([('compact', 6), ('printed', 2), ('edit', 2)]))()
            if self.bad:
                break
        if not self.bad:
            sim.faults_on = False
            if self.kind:
                self.new_content(True)
                sim.disk.sync_all()
            self.compact(1)
            if not self.bad:
                self.compact(1)
        self.check_escapes()

    def configure_faults(self):
        rows = []
        if 'disk' in self.groups:
            rows += self.err_rows(('openw', 'write', 'fsync', 'rename', 'chmod', 'link'),
                                  'work', 0.15)
            rows += self.err_rows(('unlink', 'open', 'read'), 'work', 0.05)
            rows += [({'write@work'}, 'short:%d' % n, 0.06) for n in (1, 100, 400)]
            rows += [({'read@work'}, 'short:50', 0.05)]
        mut = {k + '@work' for k in ('openw', 'write', 'fsync', 'rename', 'mkdir', 'unlink',
                                    'chmod', 'link', 'truncate')}
        if 'kill' in self.groups:
            rows += [(mut, 'kill', 0.06), (mut, 'killafter', 0.06), ({'*'}, 'kill', 0.002)]
            rows += [({'write@work'}, 'torn:%d' % n, 0.04) for n in (1, 150, 500)]
        if 'power' in self.groups:
            rows += [(mut, 'power', 0.06), (mut, 'powerafter', 0.12), ({'*'}, 'power', 0.001)]
        if 'int' in self.groups:
            rows += [(mut, 'int', 0.05), (mut, 'intafter', 0.05), ({'*'}, 'int', 0.002),
                     ({'read@work', 'open@work', 'line', 'out'}, 'int', 0.05)]
        self.swarm(rows)

    # ------------------------------------------------------------------ content
    def new_content(self, valid=False):
        ch, sim = self.ch, self.sim
        self.n += 1
        self.kind = None
        if not valid and ch.chance(200):
            self.kind = ch.choice(sorted(rules.INVALID) + ['latin1', 'latin1', 'utf16'])
            if self.kind in rules.INVALID:
                text = rules.invalid_text(ch, self.kind, 'a')
            else:
                # would be valid in another encoding
                text = rules.gen_doc(ch, 'a', self.n).text
                text += ch.choice(['', '# comment\n']) + 'zz: {any_os: {s1: [f\u00e4n]}}\n'
                text = text.encode('latin-1' if self.kind == 'latin1' else 'utf-16')
            self.rules = None
        else:
            self.rules = odd_rules(ch, 'a', self.n)
            text = rules.render(ch, self.rules)
            if ch.chance(40):
                text = '\ufeff' + text
        self.content = text if isinstance(text, bytes) else text.encode('utf-8')
        if self.link:
            sim.remove(self.path)
            sim.write_file(DIR + '/target', self.content)
            from ..seams import R
            R.symlink('target', sim.real(self.path))
        else:
            sim.write_file(self.path, self.content)
        self.reference()
        self.tell('content', self.n, self.kind or '')

    def read(self):
        from ..seams import R
        try:
            with R.bopen(self.sim.real(self.path), 'rb') as f:
                return f.read()
        except OSError:
            return None

    def reference(self):
        """What compacting the content again and again yields when nothing goes wrong."""
        sim = self.sim
        self.chain = [self.content]
        if self.kind:
            return
        copy = '/xsim/copy/%d.yaml' % self.n
        sim.write_file(copy, self.content)
        for i in range(3):
            t = self.alone('reference', programs.cli, (['_compact_rules_file', copy, '-w'],))
            t.meta['cli'] = True
            if self.failed(t):
                sim.violate(('C18',), 'valid-rejected', 'compacting %s rules fails: %s %s; %r' % (
                    'compacted' if i else 'valid', t.status, strip(t.text(2))[-400:],
                    self.chain[-1][:600]))
                return
            e = sim.read_file(copy)
            if e == self.chain[-1] and i:
                return
            self.chain.append(e)
            try:
                new = yaml.safe_load(e.decode('utf-8'))
                diff = difference(self.rules, new)
            except Exception as x:
                sim.violate(('C18',), 'unreadable', '%r: %r' % (x, e[:400]))
                return
            if diff or set(new) != set(self.rules):
                sim.violate(('C18',), 'meaning', diff or 'keys %s become %s' % (
                    sorted(self.rules), sorted(new)))
                return
            if i:
                self.again(yaml.safe_load(self.chain[-2].decode('utf-8')), new)

    def again(self, old, new):
        """Compacting a second time changed something."""
        lone = []
        for key, od in old.items():
            for osn, vd in od.items():
                if osn != 'any_os' and isinstance(vd, dict) and list(vd) == ['any_version'] \
                        and isinstance(vd['any_version'], list):
                    od[osn] = vd['any_version']
                    lone.append('%s/%s' % (key, osn))
        if lone and old == new:
            # a difference on its own: goes on with both forms
            self.sim.violate(('C18',), 'not-idempotent', 'compacting again collapses the lone '
                             'any_version of %s, whose other versions were dropped' % lone)
            self.known += 1
        else:
            self.sim.violate(('C18',), 'not-idempotent', 'compacting again changes %r to %r' % (
                old, new))

    known = 0

    @property
    def bad(self):
        return len(self.sim.violations) > self.known

    def watch(self, sim, t, op, err):
        """At every moment the file is whole."""
        if op[0] not in core.MUTATING and op[0] != 'open' or self.bad or \
                not getattr(self, 'running', False):
            return
        self.check_whole(t.name + ' ' + op[0])

    def check_whole(self, when):
        sim = self.sim
        got = self.read()
        if got in self.chain:
            return True
        sim.violate(('C18', 'C19') if 'interrupt' in when else ('C18',), 'not-whole',
                    'after %s the file %s' % (when, 'is gone' if got is None else
                                              'holds %d bytes: %r' % (len(got), got[-60:])))
        return False

    def fixture(self, paths):
        for p in paths:
            self.sim.remove(p)
        self.alone('fixture', programs.cli, (['_compact_rules_file', self.path, '-w'],))
        return set(paths) & set(self.sim.tree(DIR))

    # ---------------------------------------------------------------- operations
    def edit(self):
        self.new_content()
        self.sim.disk.sync_all()

    def argv(self, write):
        ch = self.ch
        p = ch.choice([self.path, self.path, '../work/' + self.path.rsplit('/', 1)[1]])
        a = [p] + (['-w' if ch.chance(500) else '--write'] if write else [])
        if ch.chance(300):
            a.reverse()
        pre = ch.subset(['--no-color', '-v'], 150) + ch.choice([[], [], ['--xylem-dir', '/xsim/xd'],
                                                               ['--os', 'simos:one']])
        if ch.chance(500):
            return pre + ['_compact_rules_file'] + a
        return ['_compact_rules_file'] + a + pre

    def compact(self, n=None):
        ch, sim = self.ch, self.sim
        if n is None:
            n = ch.weighted([(1, 4), (2, 1)])
        tasks = []
        m0 = len(sim.mutations)
        for _ in range(n):
            lines = self.lines and ch.chance(600)
            t = self.start('compact', programs.cli, (self.argv(True), 'xylem', lines),
                           encoding=ch.choice(['utf-8', 'ascii']))
            t.meta['cli'] = True
            tasks.append(t)
        self.running = True
        sim.run()
        self.running = False
        lost = sim.powered_off
        if lost:
            sim.boot()
        self.tell('compact', [(t.status[0] if t.status[0] != 'exit' else
                               'failed' if self.failed(t) else 'ok',
                               [x[0] + '@' + x[1] for x in t.injected]) for t in tasks],
                  'power loss' if lost else '')
        for t in tasks:
            self.state('compact', self.kind or 'valid', t.status[0], self.failed(t), lost,
                       ','.join(sorted({x[0] + x[1] for x in t.injected})))
            if self.hung(t):
                sim.violate(('C18',), 'hang', '%s never ends' % t.name)
        for p, c in self.siblings.items():
            if sim.read_file(p) != c.encode('utf-8'):
                sim.violate(('C18',), 'sibling', '%s was changed' % p)
        if not lost:
            self.leftovers(tasks, DIR, m0, {self.path, DIR + '/target'} | set(self.siblings))
        if not self.check_whole('power loss' if lost else
                                'an interrupt' if any(self.interrupted(t) for t in tasks)
                                else 'the run'):
            return
        now = self.read()
        for t in tasks:
            if self.stopped(t) or lost:
                continue
            ok = not self.failed(t)
            if self.interrupted(t) and ok:
                sim.violate(('C19',), 'interrupt-status', '%s was interrupted, but exits with 0'
                            % t.name)
            if ok and (self.kind or now == self.chain[0] != self.chain[1]):
                sim.violate(('C18', 'C19'), 'not-written', '%s exits with 0, but %s' % (
                    t.name, 'the rules are invalid (%s)' % self.kind if self.kind
                    else 'the file still has the old content'))
            if not ok and not self.kind and not t.injected:
                sim.violate(('C18',), 'valid-rejected', '%s fails: %s' % (
                    t.name, strip(t.text(2))[-400:]))
            if not ok and self.kind and not t.injected and not strip(t.text(2)).strip():
                sim.violate(('C18',), 'not-reported', '%s says nothing about invalid rules (%s)'
                            % (t.name, self.kind))
        i = self.chain.index(now)
        if i:
            # compacted; compacting that changes nothing
            self.chain = self.chain[i:] if i + 1 < len(self.chain) else [now, now]
        if not lost:
            sim.disk.sync_all()

    def printed(self):
        """Without --write the result is only printed."""
        ch, sim = self.ch, self.sim
        m0 = len(sim.mutations)
        t = self.start('print', programs.cli, (self.argv(False),))
        t.meta['cli'] = True
        before = self.read()
        sim.run()
        if sim.powered_off:
            sim.boot()
        self.tell('print', t.status[0], [x[0] + '@' + x[1] for x in t.injected])
        muts = [m for m in sim.mutations[m0:] if m[1] == t.name]
        if muts or self.read() != before:
            sim.violate(('C11', 'C18'), 'effect-of-query', 'printing changes files: %s' % muts[:3])
        if self.stopped(t):
            return
        ok = not self.failed(t)
        if self.interrupted(t) and ok:
            sim.violate(('C19',), 'interrupt-status', '%s was interrupted, but exits with 0'
                        % t.name)
        if t.injected:
            return
        if ok and self.kind or not ok and not self.kind:
            sim.violate(('C18', 'C19'), 'status', 'printing %s rules %s' % (
                self.kind or 'valid', 'succeeds' if ok else 'fails: ' + strip(t.text(2))[-300:]))
        elif ok and self.chain[1].decode('utf-8').strip() not in strip(t.text(1)):
            sim.violate(('C18',), 'printed', 'prints %r' % strip(t.text(1))[:300])
