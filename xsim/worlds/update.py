"""Sources, stored rules and everything that updates or queries them."""
import io
import os
import pickle
import posixpath

import yaml

from .. import core, plugins, programs, rt, rules
from ..core import WALL0
from ..net import FAULTS as NET_FAULTS
from .base import ERRNOS, World, strip

HOME = '/xsim/home/.config/xylem'

OS_CHOICES = [(None, 'simos', 'two'), ('simos:one', 'simos', 'one'), ('simos', 'simos', 'two'),
              ('ubuntu:trusty', 'ubuntu', 'trusty'), ('simder:one', 'simder', 'one'),
              ('osx:lion', 'osx', 'lion')]


class Source(object):
    def __init__(self, sid, spec, tail='', urlpath='/rules.yaml', shared=None):
        self.sid = sid
        self.spec = spec
        self.filename = None
        self.plain = []        # labels of versions without a key of their own
        self.future = []       # [(label or None, bytes)]
        self.n = 0
        if spec == 'rules':
            name = 'h%s.example' % sid if shared is None else 'hx.example'
            if shared == 'port':
                urlpath = ':80' + str(ord(sid)) + urlpath.replace(':8080', '')
            elif shared == 'path':
                urlpath = '/' + sid + urlpath.replace(':8080', '')
            elif shared == 'query':
                urlpath = '/rules?of=' + sid
            self.uid = 'http://' + name + urlpath
            self.host = self.uid.split('/')[2]
        else:
            self.host = None
            self.path = '/xsim/data/%s%s.yaml' % (sid, tail)
            self.uid = 'simspec:' + self.path

    @property
    def names(self):
        return (self.uid,) if self.spec == 'rules' else (
            self.uid, self.path, '/xsim/data/%s-' % self.sid)

    def descr(self):
        return {'rules': self.uid} if self.spec == 'rules' else {'simspec': {'path': self.path}}

    def __repr__(self):
        return self.sid


class Loc(object):
    """One of the ways of telling xylem which directories to use."""

    def __init__(self, w, mode, ch):
        self.mode = mode
        self.argv, self.env = [], {}
        self.user_config = HOME + '/config.yaml'
        configs = [self.user_config, '/etc/xylem/config.yaml']
        base = '/etc/xylem'
        def spell(p):
            # the same directory, as a user may write it
            return ch.choice([p, p, p + '/', '..' + p[5:], '~/..' + p[5:], p[:5] + '/.' + p[5:]])
        if mode in ('xdir', 'xdir_env', 'xdir_both'):
            base = '/xsim/xd'
            self.sources, self.cache = base + '/sources.d', base + '/cache'
            if mode == 'xdir_env':
                self.env['XYLEM_DIR'] = spell(base)
            else:
                self.argv += ['--xylem-dir', spell(base)]
                if mode == 'xdir_both':
                    self.env['XYLEM_DIR'] = spell('/xsim/otherxd')
            if ch.chance(200):
                self.env['XYLEM_PREFIX'] = spell('/xsim/pfx')
            configs = [base + '/config.yaml']
        elif mode in ('prefix', 'prefix_env', 'prefix_both'):
            if mode == 'prefix_env':
                self.env['XYLEM_PREFIX'] = spell('/xsim/pfx')
            else:
                self.argv += ['--prefix', spell('/xsim/pfx')]
                if mode == 'prefix_both':
                    self.env['XYLEM_PREFIX'] = spell('/xsim/otherpfx')
            base = '/xsim/pfx/etc/xylem'
            self.sources, self.cache = base + '/sources.d', '/xsim/pfx/var/cache/xylem'
            configs = [self.user_config, base + '/config.yaml']
        elif mode == 'user':
            self.sources, self.cache = HOME + '/sources.d', HOME + '/cache'
            user_arg = ch.chance(500)
            if user_arg:
                self.argv += ['--user-sources', 'true']
        else:
            self.sources, self.cache = base + '/sources.d', '/var/cache/xylem'
        self.configs = configs
        # the locations themselves may be set on the command line or in the files, where
        # the first that has them wins
        texts = {c: '' for c in configs}
        for key, arg, path in (('cache_dir', '--cache-dir', '/xsim/elsewhere/cache'),
                               ('sources_dir', '--sources-dir', '/xsim/elsewhere/sources')):
            where = None
            if ch.chance(250):
                where = ch.choice([arg] + configs)
                if where == arg:
                    self.argv += [arg, spell(path)]
                else:
                    texts[where] += '%s: %s\n' % (key, spell(path))
                if key == 'cache_dir':
                    self.cache = path
                else:
                    self.sources = path
            if where is not None:
                for c in configs if where == arg else configs[configs.index(where) + 1:]:
                    if ch.chance(500):
                        texts[c] += '%s: /xsim/decoy%s\n' % (key, key)
        if mode == 'user':
            if user_arg:
                texts[configs[ch.int(2)]] += 'user_sources: false\n' if ch.chance(500) else ''
            else:
                where = ch.int(2)
                texts[configs[where]] += 'user_sources: true\n'
                if where == 0 and ch.chance(300):
                    texts[configs[1]] += 'user_sources: false\n'
        elif mode in ('xdir', 'xdir_env', 'xdir_both') and ch.chance(200):
            texts[configs[0]] += 'user_sources: true\n'       # has no effect there
        for c, text in texts.items():
            if text:
                w.sim.write_file(c, text)

    def may_read(self, path):
        return path in self.configs or self.inside(path, self.sources) or \
            self.inside(path, self.cache) or path.startswith('/xsim/data/') or \
            self.inside(path, rt.REPO)

    @staticmethod
    def inside(path, top):
        return path == top or path.startswith(top + '/')

    def may_write(self, path):
        return self.inside(path, self.cache) or self.cache.startswith(path + '/')


MODES = ['xdir', 'system', 'xdir_env', 'prefix', 'user', 'prefix_env', 'xdir_both',
         'prefix_both']
DECOY_DIRS = ['/etc/xylem', HOME, '/xsim/pfx/etc/xylem', '/xsim/xd', '/xsim/otherxd',
              '/xsim/otherpfx/etc/xylem']


class UpdateWorld(World):
    sessions = 300
    layouts = 0

    # phases and their weights, fault groups
    phases = [('update', 5), ('query', 2), ('remote', 2)]
    groups = ('net', 'disk', 'data')
    n_phases = (2, 4)
    modes = ['xdir']
    decoys = False
    bump = 0.0
    invalid = 250
    min_sources = 1
    max_sources = 3
    filenames = ['10-a.yaml', '20-b.yaml', 'Z.yaml', 'm.yaml', '9.yaml', 'a0.yaml', 'm-x.yaml',
                 'm b.yaml', '\u00e4.yaml']
    line_interrupts = False
    dry = 0
    prefetch = 0
    plain_docs = 120
    links = 60             # source files which are symbolic links (permille)

    # --------------------------------------------------------------- building
    def go(self):
        ch, sim = self.ch, self.sim
        self.docs = {}
        self.by_bytes = {}
        self.anon = set()
        self.decoy_uids = set()
        self.older = []      # fields of entries changed by phase_damage
        self.build()
        sim.disk = core.Disk(sim, [self.loc.cache], ch.chance(500))
        if ch.chance(700) and not getattr(self, 'virgin', False):
            self.update_phase(0, quiet=True)
        for p in range(ch.range(*self.n_phases)):
            kind = ch.weighted(self.phases)
            getattr(self, 'phase_' + kind)()
            if sim.violations:
                break
        if not sim.violations:
            self.recover()
        self.check_escapes()

    def build(self):
        ch, sim = self.ch, self.sim
        self.loc = Loc(self, ch.choice(self.modes), ch if self.decoys else _Zero())
        self.schedule()
        self.configure_faults()
        sim.pathclass = self.pathclass
        n = ch.range(self.min_sources, self.max_sources)
        if ch.chance(120):
            sim.mkdir(self.loc.cache)
            if ch.chance(300):
                sim.write_file(self.loc.cache + '/README', 'not from xylem')
        self.sources = []
        shared = ch.choice([None] * 5 + ['port', 'path', 'query'])
        for i in range(n):
            s = Source('abcdefgh'[i], 'simspec' if ch.chance(150) else 'rules',
                       ch.choice(['', '-\u00e4']),
                       ch.choice(['/rules.yaml'] * 4 + [
                           '/rules/', '/', '/a%20b?x={y}&z=%s', '/x.yaml?for={0}', '//r//a.yaml',
                           ':8080/rules.yaml', '/Rules.YAML', '/~a/%2e/r.yaml?']), shared)
            for v in range(ch.range(2, 4)):
                self.gen_version(s)
            s.current = s.future.pop(0)
            self.publish(s)
            self.sources.append(s)
        self.layout()
        # what is stored: uid -> set of possible labels (None: no entry, '!': damaged)
        self.stored = {s.uid: {None} for s in self.sources}
        self.times = {}
        if self.decoys:
            self.make_decoys()
        self.net.on_request = self.on_request

    def gen_version(self, s):
        ch = self.ch
        s.n += 1
        if s.n > 1 and ch.chance(self.invalid) or s.n == 1 and ch.chance(self.invalid // 3):
            kind = ch.choice(sorted(rules.INVALID))
            text = rules.invalid_text(ch, kind, s.sid)
            data = text if isinstance(text, bytes) else text.encode('utf-8')
            label = None
        elif self.plain_docs and ch.chance(self.plain_docs):
            # no rules at all, the rules of another source, or older rules again
            other = ch.choice(sorted(self.docs) or [None]) if ch.chance(600) else None
            if other is None or self.docs[other].label in self.anon:
                doc = rules.Doc({}, rules.render(ch, {}), '')
            else:
                doc = self.docs[other]
            label = doc.label
            if not label.startswith(s.sid + 'v'):
                label = '%s=%s' % (s.sid, doc.label or 'empty')
                s.plain.append(label)
                self.anon.add(label)
                doc = self.docs[label] = rules.Doc(doc.rules, doc.text, label)
            data = doc.data
            self.by_bytes[s.sid, data] = label
        else:
            old = [x for x, _ in s.future if x is not None and x not in self.anon]
            if old and s.n < 10 and ch.chance(250):
                doc = rules.next_doc(self.docs[old[-1]], s.sid, s.n)
            else:
                doc = rules.gen_doc(ch, s.sid, s.n)
            label, data = doc.label, doc.data
            self.docs[label] = doc
            self.by_bytes[s.sid, data] = label
        s.future.append((label, data))

    def publish(self, s):
        label, data = s.current
        if s.spec == 'rules':
            self.net.put(s.uid, data)
        else:
            self.sim.write_file(s.path, data)

    def advance(self, s):
        if not s.future:
            return False
        s.current = s.future.pop(0)
        self.publish(s)
        return True

    def on_request(self, sim, t, r):
        """The world moves on while requests are served."""
        if not self.bump:
            return
        v = sim.ch.keyed('env', 'bump:%d' % r.n, [('bump', self.bump)])
        if v:
            for s in self.sources:
                if self.owner(r) is s and s.future:
                    self.advance(s)
                    sim.log('remote', s.sid, 'becomes', s.current[0])

    def layout(self):
        """Distribute the sources over source files; also rewritten by phase_reorder."""
        ch, sim = self.ch, self.sim
        self.layouts += 1
        d = self.loc.sources
        sim.remove(d)
        sim.mkdir(d)
        names = ch.shuffle(self.filenames)
        nf = ch.range(1, min(3, len(self.sources)))
        order = ch.shuffle(self.sources)
        files = {}
        for i, s in enumerate(order):
            files.setdefault(names[i if i < nf else ch.int(nf)], []).append(s)
        for n in ch.shuffle(sorted(files)):
            for s in files[n]:
                s.filename = n
            text = yaml.safe_dump([s.descr() for s in files[n]], default_flow_style=False)
            if ch.chance(150):
                text = '# sources\n---\n' + text
            if ch.chance(self.links):
                # what counts is the name of the link
                held = ch.choice(['.held-', 'zz-', '00-']) + n[:-5]
                sim.write_file(d + '/' + held, text)
                os.symlink(held, sim.real(d + '/' + n))
            else:
                sim.write_file(d + '/' + n, text)
        self.bad_files = []
        self.odd_files = []
        for n, c in (('.hidden.yaml', '- rules: http://hidden.example/x\n'),
                     ('README', 'nothing'), ('x.yml', '- rules: http://yml.example/x\n'),
                     ('05-broken.yaml', '- rules: [a\n b: }\n'),
                     ('zz-broken.yaml', '\t- foo\n'),
                     ('q.yaml.orig', '- rules: http://orig.example/x\n'),
                     ('.yaml', '- rules: http://dotyaml.example/x\n'),
                     ('b.YAML', '- rules: http://upper.example/x\n')):
            if ch.chance(120):
                sim.write_file(d + '/' + n, c)
                self.odd_files.append(n)
                if 'broken' in n:
                    self.bad_files.append(n)
        if ch.chance(120):
            self.odd_files.append('dir.yaml')
            sim.mkdir(d + '/dir.yaml')
        if ch.chance(120):
            self.odd_files.append('sub')
            sim.write_file(d + '/sub/n.yaml', '- rules: http://sub.example/x\n')
        self.order = [s for n in sorted(files) for s in files[n]]
        self.tell('sources', ['%s:%s:%s' % (s.filename, s.spec, s.sid) for s in self.order])

    def make_decoys(self):
        ch, sim = self.ch, self.sim
        for d in DECOY_DIRS:
            if not ch.chance(600):
                continue
            if not self.loc.inside(d + '/sources.d', self.loc.sources):
                sim.write_file(d + '/sources.d/00-decoy.yaml',
                               '- rules: http://decoy.example%s\n' % d)
                self.net.put('http://decoy.example' + d, b'foo: {any_os: {s1: [decoy]}}\n')
            if d + '/config.yaml' not in self.loc.configs:
                sim.write_file(d + '/config.yaml', ch.choice(
                    ['cache_dir: /xsim/decoycache\n', 'sources_dir: /xsim/decoysources\n',
                     'user_sources: true\n', '[broken', 'os_override: simos:three\n']))
        for d in ('/var/cache/xylem', HOME + '/cache', '/xsim/pfx/var/cache/xylem',
                  '/xsim/xd/cache', '/xsim/otherxd/cache'):
            if ch.chance(500) and not self.loc.inside(d, self.loc.cache):
                sim.write_file(d + '/sources/precious', 'keep me')
        sim.write_file('/xsim/cwd/precious', 'keep me')

    def pathclass(self, p):
        if self.loc.inside(p, self.loc.cache):
            return 'cache'
        if self.loc.inside(p, self.loc.sources):
            return 'src'
        if p in self.loc.configs:
            return 'config'
        if p.startswith('/xsim/data/'):
            return 'data'
        return ''

    def configure_faults(self):
        ch = self.ch
        rows = []
        if 'net' in self.groups:
            names = [b for b in NET_FAULTS if ch.chance(400)]
            p = ch.choice([0.15, 0.0, 0.4])
            self.net.rows = [(b, p / len(names)) for b in names] if names else []
        if 'slow' in self.groups:
            names = [b for b in ('slow', 'drip', 'chunked', 'close', 'redirect', 'status503',
                                 'ctimeout', 'stall') if ch.chance(500)]
            p = ch.choice([0.2, 0.0, 0.5])
            self.net.rows = self.net.rows + [(b, p / len(names)) for b in names]
        if 'disk' in self.groups:
            rows += self.err_rows(('openw', 'write', 'fsync', 'rename', 'chmod', 'link'),
                                  'cache', 0.12)
            rows += self.err_rows(('mkdir', 'unlink'), 'cache', 0.05)
            rows += [({'write@cache'}, 'short:%d' % n, 0.04) for n in (1, 400, 900)]
        if 'data' in self.groups:
            rows += self.err_rows(('open', 'read'), 'data', 0.05)
        if 'readcache' in self.groups:
            rows += self.err_rows(('open', 'read'), 'cache', 0.05)
            rows += [({'read@cache'}, 'short:%d' % n, 0.03) for n in (1, 50)]
        if 'readconf' in self.groups:
            rows += self.err_rows(('open', 'read', 'listdir'), 'src', 0.02)
        if 'kill' in self.groups:
            mut = {k + '@cache' for k in ('openw', 'write', 'fsync', 'rename', 'mkdir',
                                         'unlink', 'chmod', 'link', 'truncate')}
            rows += [(mut, 'kill', 0.05), (mut, 'killafter', 0.06), ({'*'}, 'kill', 0.004)]
            rows += [({'write@cache'}, 'torn:%d' % n, 0.03) for n in (1, 300, 990)]
        if 'fsync' in self.groups:
            rows += self.err_rows(('fsync',), 'cache', 0.2)
        if 'power' in self.groups:
            mut = {k + '@cache' for k in ('openw', 'write', 'fsync', 'rename', 'mkdir',
                                         'unlink', 'chmod', 'link')}
            rows += [(mut, 'power', 0.04), (mut, 'powerafter', 0.08), ({'*'}, 'power', 0.003)]
        if 'int' in self.groups:
            mut = {k + '@cache' for k in ('openw', 'write', 'fsync', 'rename', 'mkdir')}
            rows += [(mut, 'int', 0.03), (mut, 'intafter', 0.03), ({'*'}, 'int', 0.01),
                     ({'connect', 'recv', 'send', 'sleep', 'line'}, 'int', 0.03)]
        if 'clock' in self.groups:
            rows += [({'now', 'recv', 'rename', 'openw@cache'}, 'clock:%d' % d, 0.03)
                     for d in (-86400 * 3, -30, 3600, 86400 * 400)]
        if 'stall' in self.groups:
            rows += [({'*'}, 'stall:30', 0.005), ({'openw@cache', 'rename@cache', 'open@cache'},
                                                 'stall:5', 0.05)]
        self.swarm(rows)

    # ---------------------------------------------------------------- running
    def argv_os(self):
        o = self.ch.choice(OS_CHOICES)
        return (['--os', o[0]] if o[0] else []), o[1], o[2]

    def opts(self, command, extra=(), opts=None):
        """Options before or after the command."""
        opts = list(self.loc.argv) + list(extra) if opts is None else list(opts)
        if self.ch.chance(400):
            return opts + [command]
        return [command] + opts

    def spawn_update(self):
        ch = self.ch
        enc = ch.choice(['utf-8', 'ascii', 'latin-1'])
        dry = bool(self.dry) and ch.chance(self.dry)
        if ch.chance(300 if self.in_session() else 700) or self.line_interrupts:
            lines = self.line_interrupts and ch.chance(500)
            extra = ch.subset(['-v', '--no-color', '-d'], 150)
            argv = self.opts('update', extra)
            script = 'xylem'
            if ch.chance(100):
                argv.remove('update')
                script = 'xylem-update'
            if dry:
                argv += [ch.choice(['--dry-run', '-n'])]
            t = self.start('update', programs.cli, (argv, script, lines), env=self.loc.env,
                           encoding=enc)
            t.meta['cli'] = True
        else:
            t = self.start('update', programs.update, (self.loc.argv, dry), env=self.loc.env,
                           encoding=enc)
        t.meta['op'] = 'update'
        t.meta['dry'] = dry
        return t

    def phase_printconfig(self):
        """Printing the configuration has no effects, whatever else is on the command line."""
        sim, ch = self.sim, self.ch
        cmd = ch.choice([['update'], ['lookup', 'foo'], ['install', 'foo'], ['resolve', 'foo']])
        argv = list(self.loc.argv) + cmd
        argv.insert(ch.choice([0, len(argv)]), '--print-config')
        m0, r0, c0 = len(sim.mutations), len(self.net.requests), len(self.pm.commands)
        t = self.start('config', programs.cli, (argv,), env=self.loc.env)
        t.meta['cli'] = True
        sim.run()
        self.no_effects(t, m0)
        if len(self.net.requests) > r0 or len(self.pm.commands) > c0:
            sim.violate(('C11',), 'effect-of-query', '%s: %s' % (argv, [
                r.url for r in self.net.requests[r0:]] + self.pm.commands[c0:]))
        if t.result != ('ok', 0) and not t.injected and not self.stopped(t):
            sim.violate(('C11', 'C14'), 'print-config', '%s: %s' % (argv, t.status))

    def no_effects(self, t, m0):
        for st, name, kind, path in self.sim.mutations[m0:]:
            if name == t.name:
                self.sim.violate(('C11',), 'effect-of-query', '%s: %s of %s' % (
                    t.name, kind, path))
                break

    def spawn_query(self):
        ch = self.ch
        keys = ch.shuffle(rules.KEYS)[:ch.range(0, 2)] + \
            ['ver-' + s.sid for s in self.sources] + ch.subset(['nosuchkey', 'Foo', 'zed.', 'zeD', 'BAR-LIB'], 80)
        osargv, osn, version = self.argv_os()
        what = ch.choice(['query', 'lookup', 'resolve'] +
                         ['clilookup', 'cliresolve'] * (not self.in_session()))
        if what in ('query', 'lookup', 'clilookup') and ch.chance(250):
            # preferences do not matter for a lookup
            osargv = osargv + ['--core-installers', ch.choice(['s1', 's2', 's2,s1', 's1,s2,s3'])]
        argv = list(self.loc.argv) + osargv
        if what == 'query':
            kept = '%d %r' % (self.layouts, self.loc.argv) \
                if self.in_session() and ch.chance(600) else None
            prefetch = self.prefetch and ch.chance(self.prefetch)
            t = self.start('query', programs.query, (argv, keys, kept, prefetch),
                           env=self.loc.env)
            t.meta['prefetch'] = prefetch
        elif what == 'lookup':
            keys = keys[:3] if len(keys) > 3 and ch.chance(500) else keys
            t = self.start('query', programs.lookup, (argv, keys, ch.chance(400)),
                           env=self.loc.env)
        elif what == 'resolve':
            t = self.start('query', programs.resolve, (argv, keys), env=self.loc.env)
        else:
            cmd = what[3:]
            extra = osargv + ch.subset(['--no-color'] + ['-v'] * (cmd == 'resolve'), 200)
            if cmd == 'resolve' and ch.chance(400):
                extra += ['--show-default-installer']
                a = self.loc.argv + osargv + [cmd] + keys + ['--show-default-installer']
            elif ch.chance(500):
                a = self.loc.argv + extra + [cmd] + keys
            else:
                a = [cmd] + keys + self.loc.argv + extra
            lines = self.line_interrupts and ch.chance(500)
            t = self.start('query', programs.cli, (a, 'xylem', lines), env=self.loc.env)
            t.meta['cli'] = True
        t.meta.update(op='query', what=what, keys=keys, osn=osn, version=version)
        return t

    # ----------------------------------------------------------------- phases
    def phase_update(self):
        self.update_phase(1)

    def phase_updates(self):
        self.update_phase(self.ch.range(2, 3), queries=self.ch.range(0, 2))

    def phase_mixed(self):
        self.update_phase(self.ch.range(1, 2), queries=self.ch.range(1, 2))

    def phase_query(self):
        self.net.offline = self.ch.chance(700)
        self.update_phase(0, queries=1)
        self.net.offline = False

    def phase_remote(self):
        for s in self.sources:
            if self.ch.chance(600) and self.advance(s):
                self.tell('remote', s.sid, '->', s.current[0])

    def phase_reorder(self):
        self.layout()

    def phase_damage(self):
        """Something happens to stored entries."""
        ch, sim = self.ch, self.sim
        cand = [s for s in self.order if self.stored[s.uid] != {None}
                and getattr(s, 'entry', None) and sim.read_file(s.entry)]
        if not cand:
            return
        for s in ch.shuffle(cand)[:ch.weighted([(1, 3), (2, 1)])]:
            data = sim.read_file(s.entry)
            kind = ch.choice(['gone', 'empty', 'half', 'cut', 'garbage', 'text', 'zeros',
                              'list', 'keyless', 'otherspec', 'badrules', 'norules',
                              'noclass', 'older', 'older', 'foreign'])
            if kind in ('keyless', 'otherspec', 'badrules', 'norules', 'older'):
                try:
                    d = pickle.loads(data)
                    assert isinstance(d, dict) and 'spec_name' in d and 'data' in d
                except Exception:
                    kind = 'half'
            if kind == 'gone':
                sim.remove(s.entry)
            else:
                if kind == 'empty':
                    new = b''
                elif kind == 'half':
                    new = data[:len(data) // 2]
                elif kind == 'cut':
                    new = data[:-2]
                elif kind == 'garbage':
                    new = b'\x93\x00garbage' * 20
                elif kind == 'text':
                    new = b'{}\n'
                elif kind == 'zeros':
                    new = b'\0' * len(data)
                elif kind == 'list':
                    new = pickle.dumps(['foo', {}], 2)
                elif kind == 'noclass':
                    # as if pickled by a program with other modules
                    new = ch.choice([b'cxylem.sources.database\nGone\n.',
                                     b'cno.such.module\nThing\n.', b'\x80\x63}.'])
                elif kind == 'foreign':
                    new = ch.choice([pickle.dumps(None), pickle.dumps({}), pickle.dumps(0),
                                     pickle.dumps('foo'), pickle.dumps({'foo': {}})])
                elif kind == 'older':
                    # stored by another version: may be refused or used, but nothing else
                    k = ch.choice(['xylem_version', 'spec_version'])
                    d[k] = ch.choice(['0.0.1', 0, '99.0'])
                    self.older.append((k, d[k]))
                    new = pickle.dumps(d, 2)
                else:
                    if kind == 'keyless':
                        d.pop(ch.choice(['data', 'spec_name', 'arguments', 'time_data_loaded',
                                         'origin']), None)
                    elif kind == 'otherspec':
                        d['spec_name'] = 'rules' if s.spec != 'rules' else 'simspec'
                    elif kind == 'badrules':
                        d['data'] = ch.choice([
                            {'foo': ['a']}, {'foo': {'ubuntu': {'trusty': {'apt': 5}}}},
                            {'fo o': {}}, {3: {}},
                            dict(d['data'] if isinstance(d['data'], dict) else {}, zz={'any_os': {'any_version': {
                                'default_installer': {'packages': ['a']}}}})])
                    else:
                        d['data'] = ch.choice(['foo', [], 5])
                    new = pickle.dumps(d, 2)
                sim.write_file(s.entry, new)
            sim.disk.sync_all()
            sim.hit('fault:damage:' + kind)
            s.foreign = kind == 'otherspec' and '!' not in self.stored[s.uid]
            self.stored[s.uid] = {None} if kind == 'gone' else \
                self.stored[s.uid] | {'!'} if kind == 'older' else {'!'}
            self.tell('damage', s.sid, kind)
        clearing = 'clear' in dict(self.phases)
        if ch.chance(150 if clearing else 650):
            self.update_phase(0, queries=1)
        elif ch.chance(800 if clearing else 500):
            self.phase_clear()

    def phase_clear(self):
        """Clear and probe stored rules through the API."""
        ch, sim = self.ch, self.sim
        ops = [(ch.weighted([('clear', 3), ('available', 3), ('outdated', 3), ('load', 2)]),
                ch.choice(self.order if ch.chance(500) else self.order[:1]).uid)
               for _ in range(ch.range(1, 6))]
        same = ch.chance(500)
        self.net.offline = True
        t = self.start('ops', programs.cache_ops, (self.loc.argv, ops, same), env=self.loc.env)
        t.meta['op'] = 'ops'
        sim.run()
        self.net.offline = False
        self.tell('ops', [(o, self.src(u).sid) for o, u in ops], same,
                  [x[0] + '@' + x[1] for x in t.injected], t.status[0])
        lost = sim.powered_off
        if lost:
            sim.boot()
        before = {u: set(v) for u, v in self.stored.items()}
        r = t.result
        if self.hung(t):
            sim.violate(('C25',), 'hang', '%s never ends' % t.name)
            return
        crash = lost or self.stopped(t) or self.interrupted(t)
        if crash:
            # any prefix of the clears may have happened
            for o, u in ops:
                if o == 'clear':
                    before[u].add(None)
        elif r is None or r[0] != 'ok':
            if not self.faulted(t):
                sim.violate(('C25',), 'ops-fail', '%s: %s' % (t.name, str(r)[:500]))
        else:
            faulty = bool(t.injected)
            for o, u, what, v in r[1]:
                s, now = self.src(u), before[u]
                bad = None
                if what == 'nosource':
                    bad = 'source unknown'
                elif o == 'clear':
                    if what == 'ok':
                        now = {None}
                    elif not faulty:
                        bad = 'fails: %s' % (v,)
                    before[u] = now
                elif o == 'available':
                    if what != 'ok':
                        bad = 'fails: %s' % (v,)
                    elif v and now == {None}:
                        bad = 'is true without an entry'
                    elif not v and None not in now:
                        bad = 'is false with an entry'
                elif o == 'outdated':
                    if now == {None} and (what != 'ok' or not v):
                        bad = 'is %s %s without an entry' % (what, v)
                    elif now == {'!'} and getattr(s, 'foreign', False) and not faulty and \
                            (what != 'ok' or not v):
                        bad = 'is %s %s with an entry of another spec' % (what, v)
                    elif what != 'ok' and not faulty and not now & {None, '!'}:
                        bad = 'fails: %s' % (v,)
                elif o == 'load':
                    if what == 'ok' and now <= {None, '!'}:
                        bad = 'succeeds, although the entry is %s' % (
                            'missing' if now == {None} else 'damaged')
                    elif what != 'ok' and not faulty and not now & {None, '!'}:
                        bad = 'fails: %s' % (v,)
                if bad:
                    tags = ('C25', 'C07') if o == 'load' else ('C25',)
                    sim.violate(tags, 'cache-op', '%s of %s %s' % (o, s.sid, bad))
            muts = {p for st, n, k, p in sim.mutations if n == t.name and k == 'unlink'}
            paths = {self.src(u).__dict__.get('entry') for o, u in ops if o == 'clear'}
            if None not in paths and muts - paths:
                sim.violate(('C25',), 'clears-other', '%s removes %s' % (t.name, muts - paths))
        self.state('ops', ','.join(o for o, _ in ops), t.status[0],
                   ','.join(sorted({x[0] for x in t.injected})))
        if sim.violations:
            return
        pr = self.probe(('C25',))
        if pr is None:
            return
        for s in self.order:
            got = pr[s.uid]
            if got not in before[s.uid]:
                sim.violate(('C25',) + (('C02',) if crash else ()), 'clear-wrong',
                            'after %s: %s holds %s, should be %s' % (
                                [(o, self.src(u).sid) for o, u in ops], s.sid, got,
                                sorted(map(str, before[s.uid]))))
            self.stored[s.uid] = {got}
        if not lost:
            sim.disk.sync_all()

    def phase_refresh(self):
        """A client loads all rules from their sources, and stores them later."""
        sim, ch = self.sim, self.ch
        lenient = ch.chance(600)
        if not lenient and any(s.current[0] is None for s in self.order):
            return
        nrows, bump, rows = self.net.rows, self.bump, sim.fault_rows
        self.bump = 0
        if not lenient:
            self.net.rows = []
        sim.fault_rows = [r for r in rows if r[1].startswith('clock')]
        before = {u: set(v) for u, v in self.stored.items()}
        rounds = 1 if lenient else ch.choice([1, 2, 2, 3])
        t = self.start('refresh', programs.refresh, (
            self.loc.argv, ch.choice([20, 0.5, 4000, 0]), lenient, rounds), env=self.loc.env)
        t.meta['op'] = 'update'
        again = []

        def remote(sim, task, kind, args):
            # between the rounds the rules change, as long as they are valid
            if kind == 'mark' and args[0] == 'again' and task is t:
                again.append(1)
                t.meta['since'] = sim.step_no
                for s in self.order:
                    if s.future and s.future[0][0] is not None and ch.keyed(
                            'env', 'round:%s:%d:%s' % (t.name, len(again), s.sid),
                            [('advance', 0.7)]):
                        self.advance(s)
        sim.observers.append(remote)
        sim.run()
        sim.observers.remove(remote)
        self.net.rows, self.bump, sim.fault_rows = nrows, bump, rows
        self.tell('refresh', t.status, [x[0] + '@' + x[1] for x in t.injected])
        self.state('refresh', t.status[0], len(t.injected))
        if self.failed(t):
            sim.violate(('C01', 'C26'), 'refresh-fails', '%s: %s' % (t.name, str(t.result)[:500]))
            return
        pr = self.probe()
        if pr is None:
            return
        for uid, d in t.result[1]:
            s = self.src(uid)
            label = self.fetched(t, s, 0, 0)
            if label is None:
                # nothing was loaded, and nothing is stored
                if pr[uid] not in before[uid]:
                    sim.violate(('C01', 'C02'), 'failed-source-stored', 'source %s, which could '
                                'not be loaded, holds %s after storing, should be %s' % (
                                    s.sid, pr[uid], sorted(map(str, before[uid]))))
                elif not self.reported(t, s):
                    sim.violate(('C01', 'C19'), 'failure-not-reported', '%s: source %s failed, '
                                'but is not named: %r' % (t.name, s.sid, strip(t.text(2))[-300:]))
            elif d is None:
                sim.violate(('C01',), 'spurious-error', '%s: source %s was fetched, but not '
                            'loaded: %s' % (t.name, s.sid, strip(t.text(2))[-300:]))
            elif pr[uid] != s.current[0]:
                sim.violate(('C01', 'C26'), 'wrong-version', 'source %s holds %s after storing %s'
                            % (s.sid, pr[uid], s.current[0]))
            else:
                got = {k: self.meta[uid][k] for k in d}
                if got != d:
                    sim.violate(('C26',), 'entry-lies', 'entry of %s has %s, but was loaded with '
                                '%s' % (s.sid, got, d))
            self.stored[uid] = {pr[uid]}
        sim.disk.sync_all()

    def shipped(self):
        """URLs of the sources that come with xylem."""
        import glob
        import os
        urls = []
        for n in sorted(glob.glob(os.path.join(
                os.environ.get('XSIM_REPO', '/repo'), 'xylem/sources/sources.d/*.yaml'))):
            with open(n) as f:
                urls += [u for d in yaml.safe_load(f) for u in d.values()]
        return urls

    def phase_nosources(self):
        """The selected directory of sources is missing, or holds no sources."""
        ch, sim = self.ch, self.sim
        missing = ch.chance(600)
        urls = self.shipped()
        missing = missing and bool(urls)
        sim.remove(self.loc.sources)
        if missing:
            for i, u in enumerate(urls):
                self.net.put(u, ('dflt%d: {any_os: {any_version: {s1: [shipped-%d]}}}\n'
                                 'dflt: {any_os: {any_version: {s1: [shipped-%d]}}}\n'
                                 % (i, i, i)).encode())
        else:
            urls = []
            sim.mkdir(self.loc.sources)
            if ch.chance(400):
                sim.write_file(self.loc.sources + '/README', 'nothing')
        on, nrows = sim.faults_on, self.net.rows
        sim.faults_on, self.net.rows = False, []
        mut0, read0, req0 = len(sim.mutations), len(sim.reads), len(self.net.requests)
        if self.dry:
            d = self.start('nosrc', programs.cli, (self.loc.argv + ['update', '--dry-run'],),
                           env=self.loc.env)
            sim.run()
            if sim.mutations[mut0:]:
                sim.violate(('C11',), 'effect-of-dry-run', '%s: %s' % (
                    d.name, sim.mutations[mut0:][:3]))
            elif [r.url for r in self.net.requests[req0:]] != urls:
                sim.violate(('C11',), 'dry-run-differs', '%s requests %s' % (
                    d.name, [r.url for r in self.net.requests[req0:]]))
            req0 = len(self.net.requests)
        a = self.start('nosrc', programs.cli, (self.loc.argv + ['update'],), env=self.loc.env)
        a.meta['cli'] = True
        sim.run()
        got = [r.url for r in self.net.requests[req0:]]
        keys = ['dflt%d' % i for i in range(len(urls))] + ['dflt', 'ver-a', 'foo']
        b = self.start('nosrc', programs.query, (self.loc.argv + ['--os', 'simos:two'], keys),
                       env=self.loc.env)
        sim.run()
        sim.faults_on, self.net.rows = on, nrows
        self.check_locations([a, b], mut0, read0, len(self.net.requests))
        tags = ('C15', 'C05')
        if a.result != ('ok', 0):
            sim.violate(tags, 'nosources', '%s %s of sources: %s %s' % (
                a.name, 'without directory' if missing else 'with empty directory', a.result,
                strip(a.text(2))[-600:]))
        elif got != urls:
            sim.violate(tags, 'wrong-source', '%s %s of sources requests %s' % (
                a.name, 'without directory' if missing else 'with empty directory', got))
        elif b.result[0] != 'ok':
            sim.violate(tags, 'nosources', '%s: %s' % (b.name, str(b.result)[:600]))
        else:
            want = sorted(keys[:len(urls) + bool(urls)])
            first = dict(b.result[1]['answers'])['dflt'] if urls else {}
            if b.result[1]['keys'] != want:
                sim.violate(tags, 'wrong-source', '%s: keys are %s instead of %s' % (
                    b.name, b.result[1]['keys'], want))
            elif urls and first.get('s1', {}).get('packages') != ['shipped-0']:
                sim.violate(tags, 'wrong-source', '%s: dflt is %s' % (b.name, first))
        self.state('nosources', missing)
        self.layout()
        sim.disk.sync_all()

    def fixture(self, paths):
        sim = self.sim
        for p in paths:
            sim.remove(p)
        net, bump, self.bump = self.net.rows, self.bump, 0
        self.net.rows = []
        self.alone('fixture', programs.update, (self.loc.argv, False), env=self.loc.env)
        self.net.rows, self.bump = net, bump
        return set(paths) & set(sim.tree(self.loc.cache))

    def owner(self, r):
        """The source a request was made for."""
        url = (r.url or r.wanted or '').replace('!redirected', '')
        there = [s for s in self.sources if s.spec == 'rules' and s.host == r.origin]
        for s in there:
            if s.uid == url:
                return s
        return there[0] if len(there) == 1 else None

    def src(self, uid):
        for s in self.sources:
            if s.uid == uid:
                return s

    def update_phase(self, updates, queries=0, quiet=False):
        sim = self.sim
        on, rows = sim.faults_on, sim.fault_rows
        nrows = self.net.rows
        if quiet:
            updates = 1
            sim.faults_on, self.net.rows = False, []
        dry, self.dry = self.dry, 0 if quiet else self.dry
        tasks = []
        start = sim.step_no
        self.phase_start = start
        for i in self.ch.shuffle(['u'] * updates + ['q'] * queries):
            tasks.append(self.spawn_update() if i == 'u' else self.spawn_query())
        self.dry = dry
        before = {u: set(v) for u, v in self.stored.items()}
        mut0, read0, req0 = len(sim.mutations), len(sim.reads), len(self.net.requests)
        sim.run()
        sim.faults_on = on
        self.net.rows = nrows
        lost = sim.powered_off
        if lost:
            sim.boot()
        self.tell('phase', [(t.name, t.status[0] if t.status[0] != 'exit' else
                             ('ok' if not self.failed(t) else 'failed'),
                             [x[0] + '@' + x[1] for x in t.injected]) for t in tasks],
                  'power loss' if lost else '')
        self.check_locations(tasks, mut0, read0, req0)
        stores = []
        for t in tasks:
            if t.meta['op'] == 'query' or t.meta.get('dry'):
                self.no_effects(t, mut0)
            if t.meta['op'] == 'update':
                stores += self.judge_update(t, before, len(tasks) > 1)
        self.judge_stored(before, stores, tasks, lost)
        if not lost:
            self.leftovers([t for t in tasks if t.meta['op'] == 'update'], self.loc.cache, mut0,
                           {getattr(s, 'entry', None) for s in self.sources})
        for t in tasks:
            if t.meta['op'] == 'update' and self.interrupted(t):
                self.judge_interrupt(t, not self.failed(t))
        for t in tasks:
            if t.meta['op'] == 'query':
                self.judge_query(t, before, stores, lost)
        if not lost:
            sim.disk.sync_all()

    # ----------------------------------------------------------------- oracle
    def segments(self, t):
        """[(source, first step, step at which the next one began or the task ended)]"""
        first = {}
        since = t.meta.get('since', -1)     # the last round is the one that is stored
        for r in self.net.requests:
            if r.task == t.name and r.step > since:
                for s in self.sources:
                    if self.owner(r) is s:
                        first.setdefault(s.sid, (r.step, s))
        for step, name, kind, path in self.sim.reads:
            if name == t.name and kind == 'open' and step > since:
                for s in self.sources:
                    if s.spec == 'simspec' and s.path == path:
                        first.setdefault(s.sid, (step, s))
        items = sorted(first.values(), key=lambda x: x[0])
        out = []
        for i, (step, s) in enumerate(items):
            end = items[i + 1][0] - 1 if i + 1 < len(items) else t.end_step
            out.append((s, step, end, i + 1 < len(items)))
        return out

    def fetched(self, t, s, a, b):
        """Label of the valid content that t received of s, else None."""
        if s.spec == 'rules':
            last = None
            for r in self.net.requests:
                if r.task == t.name and self.owner(r) is s:
                    last = r
            if last is None or not last.delivered or last.content is None:
                return None
            return self.by_bytes.get((s.sid, last.content))
        if any(x[0].startswith('err') and x[2] and x[2][0] == s.path for x in t.injected):
            return None
        return s.current[0]

    def reported(self, t, s):
        text = strip(t.text(2))
        return any(n in text for n in s.names)

    def judge_update(self, t, before, concurrent):
        """Check one update; returns [(source, label, fetch step, end step, definite)]."""
        sim = self.sim
        stores = []
        segs = self.segments(t)
        seen = {s.sid for s, _, _, _ in segs}
        interrupted = self.interrupted(t)
        stopped = self.stopped(t)
        if self.hung(t):
            sim.violate(('C03',) if concurrent else ('C01', 'C06'), 'hang',
                        '%s never ends' % t.name)
        prelude = segs[0][1] if segs else t.end_step
        early = self.faulted(t, 0, prelude)
        dry = ('C11',) if t.meta.get('dry') else ()
        ok = not self.failed(t)
        if not stopped and not interrupted:
            if not ok and not early:
                tags = ['C01']
                if concurrent and not t.injected:
                    tags = ['C03']
                if any('!' in v for v in before.values()):
                    tags.append('C07')
                if self.odd_files:
                    tags.append('C05')
                if t.meta.get('dry'):
                    tags.append('C11')
                sim.violate(tags, 'update-fails', '%s: %s %s' % (
                    t.name, str(t.result)[:300], strip(t.text(2))[-400:]))
            missing = [s.sid for s in self.order if s.sid not in seen]
            if ok and missing:
                sim.violate(('C01', 'C05') + dry, 'source-skipped',
                            '%s did not try sources %s' % (t.name, missing))
            if ok and not early:
                for n in self.bad_files:
                    if n not in strip(t.text(2)):
                        sim.violate(('C05',), 'bad-file-not-reported',
                                    '%s does not report %s' % (t.name, n))
                order = [s.sid for s, _, _, _ in segs]
                exp = [s.sid for s in self.order if s.sid in seen]
                if order != exp:
                    sim.violate(('C05',), 'update-order', '%s: %s instead of %s'
                                % (t.name, order, exp))
        outcome = []
        for s, a, b, more in segs:
            label = self.fetched(t, s, a, b)
            rep = self.reported(t, s)
            disk = self.faulted(t, a, b)
            complete = more or (not stopped and not interrupted)
            outcome.append('%s%s%s' % ('F' if label else '-', 'R' if rep else '', len(disk)))
            if label is None:
                if complete and not rep and ok:
                    sim.violate(('C01', 'C19') + dry, 'failure-not-reported',
                                '%s: source %s failed, but is not named: %r'
                                % (t.name, s.sid, strip(t.text(2))[-300:]))
                continue
            if complete and rep and not disk and not early and not interrupted:
                tags = (('C03',) if concurrent else ('C01',)) + dry
                if before[s.uid] & {None, '!'}:
                    tags += ('C07',)
                sim.violate(tags, 'spurious-error', '%s: source %s was fetched, but: %s'
                            % (t.name, s.sid, strip(t.text(2))[-500:]))
            if t.meta.get('dry'):
                continue
            definite = complete and not (rep and disk) and not (early and not ok)
            stores.append((s, label, a, b, definite, t, rep and bool(disk) and complete))
        self.state('u', 'stop' if stopped else 'int' if interrupted else 'ok' if ok else 'fail',
                   ','.join(outcome), ','.join(sorted({x[0] + '@' + x[1] for x in t.injected})),
                   'conc' if concurrent else '')
        return stores

    def judge_interrupt(self, t, ok):
        sim = self.sim
        step = min(x[3] for x in t.injected if x[0] in ('int', 'intafter'))
        if ok and t.meta.get('cli'):
            sim.violate(('C19',), 'interrupt-status', '%s was interrupted, but exits with 0: %s'
                        % (t.name, [x[:2] for x in t.injected]))
        later = [r.url or r.host for r in self.net.requests if r.task == t.name and r.step > step]
        if later:
            sim.violate(('C19',), 'fetch-after-interrupt', '%s fetches %s after the interrupt'
                        % (t.name, later))
        # no entry may be put in place after the interrupt
        entries = {s.entry for s in self.sources if getattr(s, 'entry', None)}
        for st, name, kind, path in sim.mutations:
            if name == t.name and st > step and path in entries:
                sim.violate(('C19',), 'store-after-interrupt', '%s: %s of %s after the interrupt'
                            % (t.name, kind, path))
                break

    def judge_stored(self, before, stores, tasks, lost):
        """Compare what is stored now with what may be stored."""
        sim = self.sim
        single = len([t for t in tasks if t.meta['op'] == 'update']) <= 1
        pr = self.probe()
        if pr is None:
            return
        crash = lost or any(self.stopped(t) for t in tasks)
        for s in self.sources:
            if s not in self.order:
                continue
            mine = [x for x in stores if x[0] is s]
            allowed = self.admissible(before[s.uid], mine, sim.step_no, lost)
            got = pr[s.uid]
            if '!' in allowed and got == '!':
                self.stored[s.uid] = {'!'}
                continue
            tags = ['C02'] if crash or any(x[0].split(':')[0] in ('err', 'short')
                                           for t in tasks for x in t.injected) else []
            if not single:
                tags.append('C03')
            interrupted = any(self.interrupted(t) for t in tasks)
            if interrupted:
                tags.append('C19')
            if '!' in before[s.uid]:
                tags.append('C07')
            if got == '!':
                sim.violate(tags + ['C01', 'C02'], 'entry-damaged',
                            'stored entry of %s cannot be loaded: %s' % (s.sid, self.why[s.uid]))
            elif got == '?':
                sim.violate(tags + ['C01', 'C02', 'C04'], 'entry-differs',
                            'stored rules of %s are of no version it ever had: %s'
                            % (s.sid, self.why[s.uid]))
            elif got is None and None not in allowed:
                sim.violate(tags + ['C01', 'C02'], 'entry-gone',
                            'stored entry of %s is gone' % s.sid)
            elif got not in allowed:
                if not mine and not tags:
                    tags.append('C01')
                if single:
                    tags.append('C01')
                sim.violate(tags, 'wrong-version', 'source %s holds %s, should be %s' % (
                    s.sid, got, sorted(map(str, allowed))))
            self.stored[s.uid] = {got}

    @staticmethod
    def admissible(initial, stores, at, lost=False, since=None):
        """Versions that may be stored at step `at` (or within [since, at])."""
        cands = [(l, -2, -1, True) for l in initial]
        cands += [(x[1], x[2], x[3], x[4]) for x in stores
                  if x[2] <= at and not x[6]]
        if lost:
            return {c[0] for c in cands}
        limit = at if since is None else since
        out = set()
        for c in cands:
            gone = any(d[3] and d is not c and d[1] > c[2] and d[2] <= limit for d in cands)
            if not gone:
                out.add(c[0])
        return out

    def identify(self, s, data):
        """Label of the document these stored rules are, or None."""
        try:
            m = data['ver-' + s.sid]['any_os']['any_version']['s1']
            label = rules.canon_rule(m)['packages'][0]
            if rules.canon_rules(data) == rules.canon_rules(self.docs[label].rules):
                return label
        except Exception:
            pass
        try:
            canon = rules.canon_rules(data)
        except Exception:
            return None
        for label in s.plain:
            if canon == rules.canon_rules(self.docs[label].rules):
                return label
        return None

    def probe(self, tags=('C01', 'C04', 'C07')):
        """{uid: label, None (no entry), '!' (cannot be loaded), '?' (unknown content)}"""
        sim = self.sim
        t = self.alone('probe', programs.probe, (self.loc.argv,), env=self.loc.env)
        r = t.result
        if r is None or r[0] != 'ok':
            if self.odd_files:
                tags = tuple(tags) + ('C05',)
            sim.violate(tags, 'cannot-query', 'sources cannot be listed: %s' % str(r)[:500])
            return None
        out, self.why, self.meta = {}, {}, {}
        paths = [d['path'] for _, _, d in r[1]]
        if len(set(paths)) < len(paths):
            sim.violate(tuple(tags) + ('C25', 'C02'), 'shared-entry',
                        'several sources have the same entry: %s' % paths)
            return None
        by = {s.uid: s for s in self.sources}
        uids = [u for u, _, _ in r[1]]
        exp = [s.uid for s in self.order]
        if uids != exp:
            sim.violate(('C05',), 'source-order', 'sources are %s, should be %s' % (uids, exp))
            return None
        for uid, what, d in r[1]:
            s = by[uid]
            s.entry = d['path']
            if what == 'ok':
                out[uid] = self.identify(s, d['data']) or '?'
                self.why[uid] = str(d['data'])[:200]
                self.meta[uid] = d
                self.judge_meta(s, out[uid], d)
            elif what == 'missing':
                out[uid] = None
            else:
                out[uid] = '!'
                self.why[uid] = d['error']
        return out

    def judge_meta(self, s, label, d, query=None):
        """C26: the entry describes the fetch it came from."""
        sim = self.sim
        bad = []
        if d['spec'] != s.spec:
            bad.append('spec %r' % d['spec'])
        arg = s.uid if s.spec == 'rules' else {'path': s.path}
        if d['arguments'] != arg:
            bad.append('arguments %r' % (d['arguments'],))
        raw = d['raw']
        if isinstance(raw, dict):
            import xylem
            exp = {'xylem_version': xylem.__version__, 'spec_name': s.spec, 'arguments': arg}
            if s.spec == 'simspec':
                exp['spec_version'] = 7
            for k, v in exp.items():
                if k in raw and raw[k] != v and (k, raw[k]) not in self.older:
                    bad.append('%s is %r, should be %r' % (k, raw[k], v))
        if label in self.docs:
            origins = s.__dict__.setdefault('origins', {})
            key = (label, d['time'])
            # origin: the file which listed the source when it was fetched
            if key not in origins:
                origins[key] = self.loc.sources + '/' + s.filename
            if posixpath.normpath(d['origin']) != origins[key]:
                bad.append('origin %r, should be %r' % (d['origin'], origins[key]))
            if not self.time_ok(s, label, d['time']):
                bad.append('load time %s is no clock reading during the fetch of %s'
                           % (d['time'] - WALL0 if isinstance(d['time'], float)
                              else d['time'], label))
        if bad:
            sim.violate(('C26',) + (('C03',) if query else ()), 'entry-lies',
                        'entry of %s%s: %s' % (
                            s.sid, ' as loaded by ' + query.name if query else '',
                            '; '.join(bad)))

    def time_ok(self, s, label, value):
        """Was `value` read from the clock while a process fetched this version?"""
        if not isinstance(value, (int, float)):
            return False
        sim = self.sim
        for t in sim.tasks:
            if t.meta.get('op') != 'update':
                continue
            segs = t.meta.get('segs')
            if segs is None or not t.done:
                segs = self.segments(t)
                if t.done:
                    t.meta['segs'] = segs
            for i, (x, a, b, more) in enumerate(segs):
                if x is not s:
                    continue
                if self.label_at(t, s) != label:
                    continue
                lo = segs[i - 1][2] if i else -1
                if i == 0:
                    # anything since the source files have been read
                    lo = max([st for st, n, k, p in sim.reads
                              if n == t.name and st < a and self.loc.inside(p, self.loc.sources)]
                             + [t.meta.get('since', -1)])
                # the first clock reading of a segment may come before its first request
                for st, n, v in sim.readings:
                    if n == t.name and st <= b and abs(v - value) < 2e-6 and \
                            st > (lo if i == 0 else self.last_store(t, lo)):
                        return True
        return False

    def last_store(self, t, before):
        """Last step up to `before` in which t changed the cache, read or requested anything."""
        m = -1
        for st, n, k, p in self.sim.mutations:
            if n == t.name and st <= before:
                m = max(m, st)
        for r in self.net.requests:
            if r.task == t.name and r.step <= before:
                m = max(m, r.step)
        return m

    def label_at(self, t, s):
        d = t.meta.setdefault('fetched', {})
        if s.sid not in d or not t.done:
            d[s.sid] = self.fetched(t, s, 0, 0)
        return d[s.sid]

    # ---------------------------------------------------------------- queries
    def judge_query(self, t, before, stores, lost):
        sim = self.sim
        m = t.meta
        if self.stopped(t):
            if self.hung(t):
                sim.violate(('C03', 'C04'), 'hang', '%s never ends' % t.name)
            return
        if self.interrupted(t):
            if m.get('cli') and not self.failed(t):
                sim.violate(('C19',), 'interrupt-status',
                            '%s was interrupted, but exits with 0' % t.name)
            return
        req = [r for r in self.net.requests if r.task == t.name]
        if req and not m.get('prefetch'):
            sim.violate(('C04',), 'query-online', '%s requests %s' % (t.name, req[0].url))
        muts = [x for x in sim.mutations if x[1] == t.name]
        if muts:
            sim.violate(('C11', 'C15'), 'query-writes', '%s: %s' % (t.name, muts[:3]))
        allowed = {s.sid: self.admissible(before[s.uid], [x for x in stores if x[0] is s],
                                          t.end_step, lost, since=t.start_step)
                   for s in self.order}
        concurrent = bool(stores) or len(sim.tasks) > 1 and any(
            x is not t and x.end_step is not None and x.end_step >= t.start_step and
            x.start_step <= t.end_step for x in sim.tasks)
        bad = [s for s in self.order if allowed[s.sid] & {None, '!'}]
        surely = [s for s in self.order if allowed[s.sid] <= {None, '!', '?'}]
        failed = self.failed(t)
        faults = self.faulted(t)
        answers, parsed = None, True
        try:
            answers = self.answers(t, bool(bad or faults))
        except Exception as e:
            parsed = False
            why = repr(e)
        self.state('q', m['what'], 'fail' if failed else 'ok',
                   'conc' if concurrent else '', len(faults), len(bad))
        if answers is None and parsed:
            if not bad and not faults:
                sim.violate((('C03', 'C04') if concurrent else ('C04',)) +
                            (('C05',) if self.odd_files else ()), 'query-fails',
                            '%s %s: %s %s' % (t.name, m['what'], str(t.result)[:400],
                                              strip(t.text(2))[-600:]))
            return
        if not parsed:
            if bad or faults or failed:
                return
            sim.violate(('C04',), 'query-output', '%s: cannot understand output (%s): %r'
                        % (t.name, why, t.text(1)[:300]))
            return
        if surely and not faults:
            sim.violate(('C07',), 'damage-ignored', '%s %s answers although %s cannot be loaded'
                        % (t.name, m['what'], surely))
            return
        if surely:
            sim.violate(('C07',), 'damage-ignored', '%s answers although %s cannot be loaded'
                        % (t.name, surely))
            return
        if m['what'] == 'query' and r_entries(t):
            for uid, d in r_entries(t):
                s = self.src(uid)
                if s in self.order:
                    self.judge_meta(s, self.identify(s, d['data']) or '?', d, t)
        # which versions does it claim to have seen?
        default = rules.OSES[m['osn']][1]
        combos = [()]
        for s in self.order:
            vs = [v for v in sorted(map(str, allowed[s.sid])) if v in self.docs]
            seen = answers.get('ver-' + s.sid)
            combos = [c + (v,) for c in combos for v in vs]
            if len(combos) > 200:
                combos = combos[:200]
        errors, wrong = [], False
        # lookups of several keys load the stored rules once per key
        parts = [[k] for k in m['keys']] if m['what'] in ('lookup', 'clilookup') and concurrent \
            else [m['keys']]
        for part in parts:
            errs = []
            for c in combos:
                docs = [self.docs[v].rules for v in c]
                err = self.compare(t, answers, docs, default, part)
                if err is None:
                    break
                errs.append(err)
            else:
                errors, wrong = errs, True
                break
        if wrong:
            tags = ['C04']
            if concurrent:
                tags.append('C03')
            if faults or bad:
                tags.append('C07')
            if len(self.order) > 1:
                tags.append('C05')
            sim.violate(tags, 'wrong-answer', '%s %s for %s:%s: %s' % (
                t.name, m['what'], m['osn'], m['version'], (errors or ['nothing stored'])[0]))
        order = answers.get('__order__')
        if order is not None:
            exp = [s.uid for s in self.order]
            if [u for u, _ in order] != exp:
                sim.violate(('C05',), 'source-order', '%s: %s, should be %s' % (
                    t.name, order, exp))

    def answers(self, t, trouble):
        """{key: canonical answer} of a query that worked, None if it failed."""
        m = t.meta
        default = rules.OSES[m['osn']][1]
        r = t.result
        if r[0] != 'ok':
            return None
        r = r[1]
        w = m['what']
        if w == 'query':
            out = {k: rules.canon_answer(v, default) for k, v in r['answers']}
            out['__keys__'] = r['keys']
            out['__order__'] = r['order']
            if r['default'] != default or tuple(r['os']) != (m['osn'], m['version']):
                raise ValueError('os %r %r' % (r['os'], r['default']))
            return out
        if w == 'lookup':
            if any(x[1] == 'exc' for x in r):
                if all(x[1] == 'exc' for x in r) or self.faulted(t):
                    return None
                # several queries, each with its own database
                return None
            return {k: rules.canon_answer(v, default) for k, _, v in r}
        if w == 'resolve':
            out = {'__resolved__': {k: (i, [x.get('package') for x in rs])
                                    for k, i, rs in r['result']},
                   '__errors__': sorted(k for k, _, _ in r['errors'])}
            return out
        text = strip(t.text(1))
        if w == 'clilookup':
            if r != 0:
                return None
            return parse_lookup(text, default, m['osn'], m['version'])
        res = parse_resolve(text, default)
        err = strip(t.text(2))
        missing = sorted(k for k in m['keys'] if k not in res)
        if r != 0:
            if trouble and not res:
                return None
            if not all("'%s'" % k in err for k in missing) or not missing:
                return None
        out = {'__resolved__': res, '__errors__': missing}
        out['__status__'] = r
        return out

    def compare(self, t, answers, docs, default, keys):
        """None if the answers are those of these documents, else what differs."""
        m = t.meta
        osn, version = m['osn'], m['version']
        if '__resolved__' in answers:
            errs = []
            core = list(rules.OSES[osn][2])
            if osn.startswith('sim'):
                core = core
            for k in dict.fromkeys(keys):
                a = rules.ref_answer(docs, k, osn, version, default)
                exp = rules.ref_choice(a, core, ADDITIONAL, ALL_INSTALLERS)
                if not exp:
                    errs.append(k)
                    if k in answers['__resolved__']:
                        return '%s resolved to %r, should be an error' % (
                            k, answers['__resolved__'][k])
                    continue
                got = answers['__resolved__'].get(k)
                if got is None:
                    return '%s not resolved, should be one of %r' % (k, exp)
                want = [(i, [str(p) for p in a[i]['packages']]) for i in exp]
                if tuple(got) not in [(i, p) for i, p in want]:
                    return '%s resolved to %r, should be %r' % (k, got, want)
            if sorted(errs) != answers['__errors__']:
                return 'errors for %r, should be %r' % (answers['__errors__'], errs)
            if '__status__' in answers and (answers['__status__'] != 0) != bool(errs):
                return 'status %r with errors for %r' % (answers['__status__'], errs)
            return None
        for k in keys:
            if k not in answers:
                return '%s not answered' % k
            exp = {i: rules.canon_rule(r) for i, r in
                   rules.ref_answer(docs, k, osn, version, default).items()}
            if answers[k] != exp:
                return '%s is %r, should be %r' % (k, answers[k], exp)
        if '__keys__' in answers:
            exp = sorted(rules.ref_keys(docs, osn, version))
            if answers['__keys__'] != exp:
                return 'keys %r, should be %r' % (answers['__keys__'], exp)
        return None

    # --------------------------------------------------------------- locations
    def check_locations(self, tasks, mut0, read0, req0):
        sim = self.sim
        for st, name, kind, path in sim.mutations[mut0:]:
            if not self.loc.may_write(path):
                sim.violate(('C15',), 'write-outside', '%s: %s of %s (%s)' % (
                    name, kind, path, self.loc.mode))
        for st, name, kind, path in sim.reads[read0:]:
            if not self.loc.may_read(path) and not any(
                    c.startswith(path + '/') for c in self.loc.configs):
                sim.violate(('C15',), 'read-outside', '%s: %s of %s (%s)' % (
                    name, kind, path, self.loc.mode))
        hosts = {s.host for s in self.order}
        for r in self.net.requests[req0:]:
            if r.origin not in hosts:
                sim.violate(('C15', 'C05') if 'decoy' in r.host else ('C05',), 'wrong-source',
                            '%s requests %s' % (r.task, r.url or r.host))

    # ----------------------------------------------------------------- recovery
    def recover(self):
        """Once faults stop, one update makes everything right again."""
        sim = self.sim
        sim.faults_on = False
        self.net.rows = []
        self.bump = self.dry = 0
        for s in self.sources:
            while s.current[0] is None:
                if not s.future:
                    doc = rules.gen_doc(_Zero(), s.sid, 77)
                    self.docs[doc.label] = doc
                    self.by_bytes[s.sid, doc.data] = doc.label
                    s.future.append((doc.label, doc.data))
                self.advance(s)
        n = len(sim.violations)
        self.update_phase(1)
        if len(sim.violations) == n:
            for s in self.order:
                if self.stored[s.uid] != {s.current[0]}:
                    sim.violate(('C02', 'C07', 'C01'), 'no-recovery',
                                'source %s holds %s after a faultless update to %s' % (
                                    s.sid, self.stored[s.uid], s.current[0]))
            self.update_phase(0, queries=1)


def r_entries(t):
    return t.result[1].get('entries') if t.result and t.result[0] == 'ok' else None


class _Zero(object):
    """Simplest choices."""

    def int(self, n):
        return 0

    def range(self, lo, hi):
        return lo

    def choice(self, seq):
        return seq[0]

    def chance(self, p):
        return False

    def weighted(self, pairs):
        return pairs[0][0]

    def subset(self, seq, p=0):
        return []

    def shuffle(self, seq):
        return list(seq)


ADDITIONAL = ('s3', 's4', 'pip')
ALL_INSTALLERS = ('s1', 's2', 's3', 's4', 'pip', 'apt', 'homebrew', 'macports', 'fake')


def parse_lookup(text, default, osn, version):
    out = {}
    key, lines = None, []

    def end():
        if key is not None:
            out[key] = rules.canon_answer(yaml.safe_load('\n'.join(lines)), default)
    for line in text.split('\n'):
        if line.startswith("Rules for '"):
            end()
            key, lines = line[len("Rules for '"):].split("'")[0], []
            o = line.split("' on '")[1].split("'")[0]
            if o != '%s:%s' % (osn, version):
                raise ValueError('answer for %s' % o)
        elif key is not None:
            lines.append(line)
    end()
    return out


def parse_resolve(text, default):
    out = {}
    for line in text.split('\n'):
        if ' --> ' not in line:
            continue
        key, rest = line.split(' --> ', 1)
        inst = default
        if ': ' in rest:
            inst, rest = rest.split(': ', 1)
        elif rest.endswith(':'):
            inst, rest = rest[:-1], ''
        if key in out:
            raise ValueError('%s answered twice' % key)
        out[key] = (inst, [p.strip() for p in rest.split(',') if p.strip()])
    return out
