"""Configuration: from command line, files and defaults to effective values."""
import os.path
import posixpath

import yaml

from .. import core, plugins, programs
from .base import World, strip

HOME = '/xsim/home'
USER = HOME + '/.config/xylem'
CWD = '/xsim/cwd'

# name -> (type, command line argument, default)
OPTIONS = {
    'os_override': ('str', 'os', None),
    'os_options/features': ('list', 'os-features', None),
    'core_installers': ('list', 'core-installers', None),
    'use_additional_installers': ('bool', 'use-additional-installers', True),
    'install_from': ('mlist', 'install-from', {}),
    'installer_options': ('mdict', 'installer-options', {}),
    'user_sources': ('bool', 'user-sources', False),
    'cache_dir': ('path', 'cache-dir', None),
    'sources_dir': ('path', 'sources-dir', None),
    'disabled_plugins/os': ('list', 'disable-os-plugins', []),
    'disabled_plugins/installer': ('list', 'disable-installer-plugins', []),
    'disabled_plugins/spec': ('list', 'disable-spec-plugins', []),
}
NAMES = list(OPTIONS)
WORDS = ['s1', 's2', 'pip', 'apt', 'a-b', 'b_c', 'x1', '\u00e4\u00f6', 'foo', 'no-such']
OS = ['simos:one', 'simos', 'ubuntu:trusty', 'simos:two&a,b', 'simos : two', 'ubuntu:lucid &',
      'simos& c , d', 'nosuch:1', 'osx:lion&x']
PATHS = ['/xsim/sel/a', '/xsim/sel/b/c', 'rel/d', '~/mine', '/xsim/sel/x/../y', './here/',
         '~/.config/xylem/mycache', '/xsim/sel//e']
WRONG = {
    'str': [5, ['simos:one'], {'simos': 'one'}, True, 1.5],
    'path': [5, ['/xsim/sel/a'], {'a': 'b'}, False],
    'bool': ['yes please', 1, 0, [True], {'a': True}, 'on and off'],
    'list': ['s1', 5, {'s1': 1}, [5], ['s1', ['s2']], ['s1', True], [{'s1': 's2'}], False],
    'mlist': ['s1', ['s1'], {'s1': 'foo'}, {'s1': [5]}, {5: ['foo']}, {'s1': {'foo': 1}},
              {'s1': ['foo'], 's2': 'bar'}],
    'mdict': ['s1', ['s1'], {'s1': 'foo'}, {'s1': ['as_root']}, {5: {'a': 1}},
              {'s1': {5: 1}}, {'s1': {'a': 1}, 's2': 3}],
}
BAD_CLI = {
    'bool': ['5', 'maybe', '[', '{', 'a b', '"yes'],
    'list': ['5', 'a, [b]', '[a', 'a: b', '{a: b}', 'true', 'a, 1.5', '"a'],
    'mlist': ['s1: foo', '[a]', '{s1: [a]', 's1: [5]', '5: [a]', 's1: {a: b}'],
    'mdict': ['s1: foo', '{s1: [a]}', 's1: {5: 1}', '{s1', '5: {a: 1}'],
}
BROKEN = ['[broken', 'a: b: c\n', '\tuser_sources: true\n', '{', "x: 'unclosed\n", '- a\n- b\n',
          'just text\n', '5: x\n', '42\n', 'user_sources: true\n  bad: indent\n', '%foo\n',
          'a: *nowhere\n', 'x: !!python/object:os.system {}\n', 'true: 1\n',
          'user_sources: true\n- 7\n', 'user_sources: true\n---\ncache_dir: /x\n',
          'disabled_plugins: [a]\n', 'os_options: features\n', 'disabled_plugins: 5\n',
          'a: "\x01"\n', '? [a]\n: b\n: c\n', 'x: @foo\n']


def expand(p):
    if p is None:
        return None
    if p == '~' or p.startswith('~/'):
        p = HOME + p[1:]
    return posixpath.normpath(posixpath.join(CWD, p))


def split_os(s):
    """(name, version, features) of an override, as the documentation has it."""
    head, amp, tail = s.partition('&')
    name, colon, version = head.partition(':')
    feats = None
    if amp:
        tail = tail.strip()
        feats = [x.strip() for x in tail.split(',')] if tail else []
    return name.strip(), version.strip() if colon else None, feats


class File(object):
    """Contents of a configuration file: values, or invalid."""

    def __init__(self, data, values, what):
        self.data, self.values, self.what = data, values, what


ABSENT = File(None, {}, 'absent')


class ConfigWorld(World):
    sessions = 300

    groups = ('read',)
    changing = 250
    wrong = 250
    ops_range = (1, 3)
    lines = False

    def go(self):
        ch, sim = self.ch, self.sim
        self.schedule()
        sim.pathclass = lambda p: 'config' if p in self.files else ''
        self.files = {}
        self.changes = {}
        self.locate()
        rows = []
        if 'read' in self.groups:
            rows += self.err_rows(('open', 'read'), 'config', 0.1)
            rows += [({'read@config'}, 'short:%d' % n, 0.1) for n in (1, 7, 40)]
        if 'int' in self.groups:
            rows += [({'*'}, 'int', 0.01), ({'open@config', 'read@config', 'stat@config'},
                                            'int', 0.05), ({'line'}, 'int', 0.1)]
        self.swarm(rows)
        sim.observers.append(self.observe)
        for i in range(ch.range(*self.ops_range)):
            self.make_files()
            self.operation()
            if sim.violations:
                break
        self.check_escapes()

    # ------------------------------------------------------------ where it is
    def locate(self):
        ch = self.ch
        self.argv, self.env = [], {}
        mode = ch.choice(['system', 'prefix', 'xdir', 'prefix_env', 'xdir_env', 'both'])
        self.xdir, self.prefix = None, '/'
        if mode == 'prefix':
            self.argv += ['--prefix', ch.choice(['/xsim/pfx', '../pfx', '~/../pfx'])]
            self.prefix = '/xsim/pfx'
            if ch.chance(300):
                self.env['XYLEM_PREFIX'] = '/xsim/otherpfx'
        elif mode == 'prefix_env':
            self.env['XYLEM_PREFIX'] = self.prefix = '/xsim/pfx'
        elif mode == 'xdir' or mode == 'both':
            self.argv += ['--xylem-dir', ch.choice(['/xsim/xd', '../xd', '/xsim/xd/'])]
            self.xdir = '/xsim/xd'
            if mode == 'both':
                self.env['XYLEM_DIR'] = '/xsim/otherxd'
            if ch.chance(300):
                self.env['XYLEM_PREFIX'] = self.prefix = '/xsim/pfx'
        elif mode == 'xdir_env':
            self.env['XYLEM_DIR'] = self.xdir = '/xsim/xd'
        sysdir = posixpath.join(self.prefix, 'etc/xylem')
        nouser = ch.chance(200)
        if nouser:
            self.argv.append('--no-user-config')
        if self.xdir:
            self.paths = [self.xdir + '/config.yaml']
        elif nouser:
            self.paths = [sysdir + '/config.yaml']
        else:
            self.paths = [USER + '/config.yaml', sysdir + '/config.yaml']
        # files that must not be considered at all
        for p in (USER, '/etc/xylem', '/xsim/pfx/etc/xylem', '/xsim/xd', '/xsim/otherxd',
                  '/xsim/otherpfx/etc/xylem'):
            p += '/config.yaml'
            if p not in self.paths and ch.chance(400):
                self.sim.write_file(p, ch.choice(
                    ['[broken', 'os_override: ubuntu:lucid\ncache_dir: /xsim/wrong\n',
                     'install_from: {s9: [decoy]}\n', 'user_sources: 7\n']))

    # --------------------------------------------------------------- contents
    def value(self, typ):
        ch = self.ch
        if typ == 'str':
            return ch.choice(OS)
        if typ == 'bool':
            return ch.chance(500)
        if typ == 'path':
            return ch.choice(PATHS)
        words = lambda lo, hi: ch.shuffle(WORDS)[:ch.range(lo, hi)]
        if typ == 'list':
            return words(0, 3)
        if typ == 'mlist':
            return {k: words(0, 2) for k in words(0, 3)}
        return {k: ch.choice([{'as_root': True}, {}, {'a': {'b': [1, None, 'c']}}, {'x': 'y'},
                              {'as_root': False, 'z': 5}]) for k in words(0, 3)}

    def gen_values(self, permille):
        return {n: self.value(OPTIONS[n][0]) for n in NAMES if self.ch.chance(permille)}

    def gen_file(self):
        ch = self.ch
        if ch.chance(self.wrong):
            return self.bad_file()
        values = self.gen_values(ch.choice([250, 100, 500]))
        return File(self.render(values), values, 'ok')

    def bad_file(self):
        ch = self.ch
        kind = ch.choice(['broken', 'wrong', 'undecodable'])
        values = self.gen_values(200)
        if kind == 'undecodable':
            values[ch.choice([n for n in NAMES if OPTIONS[n][0] == 'path'])] = '/x/j\u00f6rg'
            text = self.render(values).replace('\\xF6', '\u00f6')
            return File(text.encode('latin-1', 'replace'), None, 'not UTF-8')
        if kind == 'broken':
            text = ch.choice(BROKEN)
            return File(text, None, 'broken %r' % text)
        name = ch.choice(NAMES)
        values[name] = ch.choice(WRONG[OPTIONS[name][0]])
        return File(self.render(values), None, 'wrong %s=%r' % (name, values[name]))

    def render(self, values):
        ch = self.ch
        out = {}
        order = ch.shuffle(sorted(values))
        for n in order:
            group, _, sub = n.rpartition('/')
            if group:
                out.setdefault(group, {})[sub] = values[n]
            else:
                out[n] = values[n]
        # explicitly unset, and unknown entries
        for n in NAMES:
            if n not in values and ch.chance(60):
                group, _, sub = n.rpartition('/')
                if group:
                    out.setdefault(group, {})[sub] = None
                else:
                    out[n] = None
        for g in ('disabled_plugins', 'os_options'):
            if g not in out and ch.chance(50):
                out[g] = ch.choice([None, {}, {'unknown': 'x'}])
        if ch.chance(200):
            out[ch.choice(['future_option', 'cache-dir', 'features', 'os'])] = \
                ch.choice(['x', 5, ['a'], {'a': 'b'}])
        if not out:
            return ch.choice(['', '# nothing\n', '{}\n', '---\n', 'null\n'])
        text = yaml.safe_dump(out, default_flow_style=ch.choice([False, True, None]),
                              allow_unicode=ch.chance(500), sort_keys=False)
        if ch.chance(200):
            text = '# configuration\n---\n' + text
        return text

    def make_files(self):
        ch, sim = self.ch, self.sim
        self.changes = {}
        for p in self.paths:
            f = ABSENT if ch.chance(250) else self.gen_file()
            self.put(p, f)
            self.files[p] = [f]
            if ch.chance(self.changing):
                self.changes[p] = ABSENT if ch.chance(200) else self.gen_file()

    def put(self, p, f):
        sim = self.sim
        if f is ABSENT:
            sim.remove(p)
            return
        # replaced as a whole: whoever has it open keeps reading the old one
        sim.write_file(p + '.new', f.data)
        os.rename(sim.real(p + '.new'), sim.real(p))

    def observe(self, sim, t, kind, args):
        """Somebody else replaces or removes the file in the meantime."""
        if kind in ('stat', 'open', 'read') and args and args[0] in self.changes:
            p = args[0]
            v = sim.ch.keyed('env', 'change:%s:%d' % (t.name, t.count('cfgchange')),
                             [('change', 0.3)])
            if v:
                f = self.changes.pop(p)
                sim.log('somebody changes', p, 'to', f.what)
                sim.hit('fault:config_changed')
                self.put(p, f)
                self.files[p].append(f)

    # ------------------------------------------------------------ command line
    def arguments(self):
        """(values, argument lists, valid)."""
        ch = self.ch
        values = self.gen_values(ch.choice([200, 80, 400]))
        bad = None
        args = []
        if ch.chance(self.wrong // 2):
            bad = ch.choice([n for n in NAMES if OPTIONS[n][0] in BAD_CLI])
            values.pop(bad, None)
            args.append(['--' + OPTIONS[bad][1], ch.choice(BAD_CLI[OPTIONS[bad][0]])])
        for n in ch.shuffle(sorted(values)):
            typ, arg, _ = OPTIONS[n]
            for s in self.render_arg(typ, values[n]):
                args.append(['--%s=%s' % (arg, s)] if ch.chance(300) else ['--' + arg, s])
        return values, args, bad

    def render_arg(self, typ, v):
        ch = self.ch
        if typ in ('str', 'path'):
            return [v]
        if typ == 'bool':
            return [ch.choice(['yes', 'true', 'True', 'on'] if v else ['no', 'false', 'off'])]
        flow = lambda x: yaml.safe_dump(x, default_flow_style=True, allow_unicode=True,
                                        width=10000).strip()
        bare = ch.chance(500)
        if v and len(v) > 1 and ch.chance(300):
            # several occurrences
            if typ == 'list':
                k = ch.range(1, len(v) - 1)
                parts = [v[:k], v[k:]]
            else:
                ks = list(v)
                k = ch.range(1, len(ks) - 1)
                parts = [{x: v[x] for x in ks[:k]}, {x: v[x] for x in ks[k:]}]
        else:
            parts = [v]
        out = []
        for p in parts:
            s = flow(p)
            out.append(s[1:-1] if bare and (typ == 'list' or p) else s)
        return out

    # -------------------------------------------------------------- expectation
    def candidates(self, cli):
        """Effective configurations, for every combination of versions of the files."""
        combos = [[]]
        for p in self.paths:
            combos = [c + [f] for c in combos for f in self.files[p]]
        out = []
        for c in combos:
            if any(f.values is None for f in c):
                out.append(None)
            else:
                out.append(self.effective([cli] + [f.values for f in c]))
        return out

    def effective(self, layers):
        conf = {}
        for n in NAMES:
            typ, _, default = OPTIONS[n]
            if typ in ('mlist', 'mdict'):
                v = {}
                for l in reversed(layers):
                    v.update(l.get(n, {}))
            else:
                v = default
                for l in layers:
                    if n in l:
                        v = l[n]
                        break
            if typ == 'path':
                v = expand(v)
            conf[n] = v
        home = self.xdir or USER
        user = self.xdir or conf['user_sources']
        if conf['cache_dir'] is None:
            conf['cache_dir'] = home + '/cache' if user else \
                posixpath.join(self.prefix, 'var/cache/xylem')
        if conf['sources_dir'] is None:
            conf['sources_dir'] = home + '/sources.d' if user else \
                posixpath.join(self.prefix, 'etc/xylem/sources.d')
        if conf['os_override'] is not None:
            name, version, feats = split_os(conf['os_override'])
            conf['os_override'] = [name, version]
            if feats is not None:
                conf['os_options/features'] = feats
        out = {}
        for n, v in conf.items():
            group, _, sub = n.rpartition('/')
            if group:
                out.setdefault(group, {})[sub] = v
            else:
                out[n] = v
        return out

    # ---------------------------------------------------------------- operations
    def operation(self):
        ch, sim = self.ch, self.sim
        values, args, bad = self.arguments()
        kind = ch.choice(['api'] * 3 + ['print'] if self.in_session() else ['print', 'api', 'command'])
        flat = [a for x in args for a in x]
        m0, r0, c0 = len(sim.mutations), len(self.net.requests), len(self.pm.commands)
        if kind == 'api':
            argv = self.argv + flat
            t = self.start('settings', programs.settings, (argv,), env=self.env)
        else:
            cmd = ch.choice([['update'], ['lookup', 'foo'], ['resolve', 'foo'],
                             ['install', 'foo'], ['_compact_rules_file', '/xsim/rules.yaml']])
            sim.write_file('/xsim/rules.yaml', 'foo: {simos: {s1: {any_version: [foo]}}}\n')
            k = ch.range(0, len(args))
            front = self.argv + [a for x in args[:k] for a in x]
            back = [a for x in args[k:] for a in x]
            names = {x[0].split('=')[0] for x in args[:k]} & \
                {x[0].split('=')[0] for x in args[k:]}
            if names or ch.chance(300):
                front, back = (front + back, []) if ch.chance(500) else ([], front + back)
            if kind == 'print':
                where = front if ch.chance(500) else back
                where.append('--print-config')
                if ch.chance(200):
                    cmd = []
            script = 'xylem'
            if cmd == ['update'] and ch.chance(300):
                script, cmd = 'xylem-update', []
            argv = front + cmd + back
            lines = self.lines and ch.chance(700)
            t = self.start(kind, programs.cli, (argv, script, lines), env=self.env)
            t.meta['cli'] = True
        self.tell(kind, argv, {p: f[0].what for p, f in self.files.items()})
        sim.run()
        self.tell(t.name, 'ends', str(t.result)[:60], [x[0] for x in t.injected],
                  {p: [x.what for x in f] for p, f in self.files.items() if len(f) > 1})
        cands = self.candidates(values)
        if bad is not None:
            cands = [None]
        self.judge(t, kind, cands, m0, r0, c0, bad)
        self.state(kind, self.failed(t), bad is not None, len(t.injected), len(cands),
                   tuple(sorted(f[0].what.split()[0] for f in self.files.values())))

    def judge(self, t, kind, cands, m0, r0, c0, bad):
        sim = self.sim
        if self.hung(t):
            return sim.violate(('C14',), 'hang', '%s never ends' % t.name)
        failed = self.failed(t)
        hurt = [x for x in self.faulted(t) if x[0].startswith('err')]
        changed = any(len(f) > 1 for f in self.files.values())
        what = {p: [x.what for x in f] for p, f in self.files.items()}
        effects = [m for m in sim.mutations[m0:] if m[1] == t.name]
        effects += [r.url for r in self.net.requests[r0:]]
        effects += [c.argv for c in self.pm.commands[c0:]]
        if self.interrupted(t):
            if not failed:
                sim.violate(('C19', 'C14'), 'interrupt-success',
                            '%s: interrupted, but reports success' % t.name)
            return
        must_fail = hurt or all(c is None for c in cands)
        if must_fail:
            why = 'reading failed: %s' % [x[0] + '@' + x[1] for x in hurt] if hurt else \
                'invalid --%s' % OPTIONS[bad][1] if bad else 'files are %s' % what
            if not failed:
                return sim.violate(('C14',), 'config-ignored',
                                   '%s succeeds although %s' % (t.name, why))
            if effects:
                return sim.violate(('C14',), 'config-effect', '%s does %s although %s' % (
                    t.name, effects[:3], why))
            return
        if kind == 'command':
            # what it does with a valid configuration is the business of other worlds
            return
        if failed:
            if None in cands or changed:
                return
            return sim.violate(('C14',), 'config-rejected', '%s fails (%s) although files are %s' % (
                t.name, str(t.result)[:900], what))
        if kind == 'print':
            text = strip(''.join(x for fd, x in t.out if fd == 1))
            try:
                got = yaml.safe_load(text)
            except yaml.YAMLError as e:
                return sim.violate(('C14',), 'print-config', '%s prints %r: %s' % (
                    t.name, text[:500], e))
        else:
            got = t.result[1]
        if effects:
            sim.violate(('C14', 'C11'), 'config-effect', '%s does %s' % (t.name, effects[:3]))
        if got not in [c for c in cands if c is not None]:
            best = [c for c in cands if c is not None][0]
            diff = {k: (got.get(k, '(none)'), best.get(k, '(none)'))
                    for k in sorted(set(got) | set(best)) if got.get(k, 0) != best.get(k, 0)} \
                if isinstance(got, dict) else (got, best)
            tags = ('C14', 'C15') if isinstance(diff, dict) and \
                set(diff) <= {'cache_dir', 'sources_dir'} else ('C14',)
            sim.violate(tags, 'wrong-config', '%s: values differ (got, expected): %s; files %s' % (
                t.name, diff, what))
