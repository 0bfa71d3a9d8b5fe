"""Plugins of all kinds in any order, good and bad; selection of the operating system."""
import yaml

from .. import plugins, programs, rules
from .base import World, strip

BASE = '/xsim/xd'
KINDS = ('os', 'installer', 'spec')
GROUP = {'os': 'xylem.os', 'installer': 'xylem.installers', 'spec': 'xylem.specs',
         'command': 'xylem.commands'}
SHIPPED = {'os': {'debian': 'debian', 'ubuntu': 'ubuntu', 'xubuntu': 'xubuntu', 'osx': 'osx'},
           'installer': {'apt': 'apt', 'fake': 'fake', 'homebrew': 'homebrew',
                         'macports': 'macports', 'pip': 'pip'},
           'spec': {'rules': 'rules'}}      # plugin name -> name
BAD_NAMES = ['', 'any_os', 'any_version', 'default_installer', 'any_key', 'foo bar', 'a:b',
             'x/y', 'q\n', '*', 5, None, ['s1'], b'bytes', 'unset_installers', 's1 ', ' s1']
# a name ending in one newline passes the pattern of xylem
BAD_NAMES.remove('q\n')


class Plug(object):
    """A simulated plugin: how it is found and what has to become of it."""

    def __init__(self, kind, ep, definition, plugin_name, name, valid, marker=''):
        self.kind, self.ep, self.definition = kind, ep, definition
        self.plugin_name, self.name, self.valid = plugin_name, name, valid
        self.marker = marker

    def __repr__(self):
        return '%s:%s(%s%s)' % (self.kind, self.plugin_name, self.name,
                                '' if self.valid else ', bad')


class Base(World):

    interrupts = False

    def classes(self, kind):
        return {'os': [plugins.SimOS, plugins.SimDer],
                'installer': [plugins.SimInstaller, plugins.S2, plugins.S3, plugins.S4],
                'spec': [plugins.SimSpec]}[kind]

    @staticmethod
    def derive(cls, **attrs):
        """A class like cls."""
        return type('Sim', (cls,), attrs)

    def subclass(self, kind, cls, name, marker):
        if kind == 'os':
            return self.derive(cls, sim_names=[name] + [n for n in cls.sim_names if n != name][
                :0 if name != cls.sim_names[0] else None], sim_marker=marker)
        if kind == 'installer':
            return self.derive(cls, sim_name=name, sim_marker=marker)
        return self.derive(cls, name=name, sim_marker=marker)

    def definition(self, kind, plugin_name, cls):
        return {'plugin_name': plugin_name, 'description': 'simulated', kind: cls}

    def setup_rules(self, keys_of):
        """Sources and what they hold; stored by a faultless update."""
        sim = self.sim
        sim.write_file(BASE + '/sources.d/10-a.yaml', yaml.safe_dump(
            [{'simspec': {'path': '/xsim/data/a.yaml'}}, {'rules': 'http://b.example/r'}]))
        sim.write_file('/xsim/data/a.yaml', yaml.safe_dump(keys_of[0], default_flow_style=False))
        self.net.put('http://b.example/r', yaml.safe_dump(keys_of[1]).encode())
        t = self.alone('setup', programs.update, (['--xylem-dir', BASE],))
        if t.result != ('ok', 'done'):
            raise AssertionError('setup failed: %s' % str(t.result)[:2000])

    def reorder(self, key):
        if key:
            self.sim.hit('fault:enumeration-order')
        plugins.CFG['order'] = {g: '%s%s' % (g, key) for g in GROUP.values()} if key else {}

    def interrupt_rows(self):
        if self.interrupts:
            self.sim.fault_rows = [({'plugin'}, 'int', 0.03), ({'spawn', 'wait'}, 'int', 0.1),
                                   ({'*'}, 'int', 0.01)]
            self.sim.max_faults = 1

    def cli_settings(self, values):
        """Options on the command line or in the configuration file."""
        ch, argv, conf = self.ch, [], {}
        for name, arg, v in values:
            if v is None:
                continue
            if ch.chance(500):
                group, _, sub = name.rpartition('/')
                if group:
                    conf.setdefault(group, {})[sub] = v
                else:
                    conf[name] = v
            else:
                argv += ['--' + arg, v if not isinstance(v, list) else yaml.safe_dump(
                    v, default_flow_style=True).strip()]
        self.sim.remove(BASE + '/config.yaml')
        if conf:
            self.sim.write_file(BASE + '/config.yaml', yaml.safe_dump(conf))
        return ['--xylem-dir', BASE] + argv


class PluginWorld(Base):

    def go(self):
        ch, sim = self.ch, self.sim
        self.schedule()
        self.extra = ch.choice(['s3', 's4', 'pip', 's5'])
        inst = ['s1', 's2', self.extra]
        docs = [rules.gen_rules(ch, tag, installers=inst, oses=['simos', 'any_os', 'simder'])
                for tag in ('a', 'b')]
        self.setup_rules([self.without_defaults(d) for d in docs])
        plugins.CFG['additional'] = tuple(sorted({self.extra} - {'pip'} | set(
            ch.subset(['s3', 's4'], 300))))
        self.keys = sorted(set(docs[0]) | set(docs[1]))[:3]
        self.plugs = []
        for kind in KINDS:
            self.good(kind)
            for i in range(ch.weighted([(1, 4), (0, 2), (2, 2), (3, 1)])):
                self.bad(kind, i)
        self.commands = []
        for i in range(ch.weighted([(0, 3), (1, 3), (2, 2)])):
            self.bad_command(i)
        self.disabled = {}
        for kind in KINDS:
            names = [p.plugin_name for p in self.plugs if p.kind == kind and
                     isinstance(p.plugin_name, str)]
            others = [p.name for p in self.plugs if p.kind == kind and isinstance(p.name, str)]
            # of these only the exact plugin names disable anything
            pool = sorted(set(names + others + list(SHIPPED[kind]) + ['nosuch'] + [
                f(n) for n in names for f in (str.lower, str.upper, lambda n: n[:-1])
                if ch.chance(150)]))
            self.disabled[kind] = [n for n in pool if ch.chance(120)]
        self.tell('plugins', self.plugs, 'commands', [c[0] for c in self.commands], 'disabled',
                  {k: v for k, v in self.disabled.items() if v})
        self.argv = self.cli_settings([('disabled_plugins/' + k, 'disable-%s-plugins' % k,
                                        self.disabled[k] or None) for k in KINDS])
        self.configure(True)
        self.reorder(None)
        ref = self.alone('reference', programs.inventory, (self.argv, self.keys))
        self.check(ref, None)
        clis = [self.cli_argv() for _ in range(2)]
        refs = []
        for a in clis:
            t = self.alone('reference', programs.cli, (a,))
            t.meta['cli'] = True
            refs.append(t)
        self.configure(False)
        for i in range(ch.range(1, 3)):
            if sim.violations:
                break
            self.reorder('o%d' % ch.int(1000))
            self.interrupt_rows()
            t = self.start('inventory', programs.inventory, (self.argv, self.keys))
            sim.run()
            self.check(t, ref)
            for a, r in zip(clis, refs):
                t = self.start('cli', programs.cli, (a,))
                t.meta['cli'] = True
                sim.run()
                self.compare(t, r, a)
        self.check_escapes()

    def without_defaults(self, doc):
        """No default installers: which one that is depends on the plugins."""
        return {k: {o: {v: {i: r for i, r in idict.items() if i != 'default_installer'}
                        for v, idict in vd.items()} for o, vd in od.items()}
                for k, od in doc.items()}

    # ------------------------------------------------------------- the plugins
    def good(self, kind):
        ch = self.ch
        for cls in self.classes(kind):
            name = {'os': lambda: cls.sim_names[0], 'installer': lambda: cls.sim_name,
                    'spec': lambda: 'simspec'}[kind]()
            n = ch.weighted([(1, 6), (2, 3), (3, 1), (0, 1)])
            for i in range(n):
                marker = '' if i == 0 else 'dup%d' % i
                pn = name if i == 0 and ch.chance(500) else ch.choice(
                    ['plugin-%s-%d', 'Plugin-%s-%d', 'PLUGIN %s %d']) % (
                        name, i if ch.chance(700) else 0)
                self.plugs.append(Plug(kind, '%s%d' % (name, i), self.definition(
                    kind, pn, self.derive(cls, sim_marker=marker)), pn, name, True, marker))
        # duplicates of shipped plugins, and entirely new ones
        if kind == 'installer' and ch.chance(300):
            # names that differ in case are different names
            name = ch.choice(['s5', 's5', 'S1', 'S2', 'Pip'])
            cls = self.derive(plugins.S3, sim_name=name, sim_marker='new')
            self.plugs.append(Plug(kind, name + '-new', self.definition(kind, 'fifth', cls),
                                   'fifth', name, True, 'new'))
        if kind == 'os' and ch.chance(300):
            cls = self.derive(plugins.SimIndep, sim_marker='new')
            self.plugs.append(Plug(kind, 'indep', self.definition(kind, 'indep-os', cls),
                                   'indep-os', 'simindep', True, 'new'))

    def bad(self, kind, i):
        """Left out, and nothing else happens."""
        ch, sim = self.ch, self.sim
        cls = ch.choice(self.classes(kind))
        name = {'os': lambda: cls.sim_names[0], 'installer': lambda: cls.sim_name,
                'spec': lambda: 'simspec'}[kind]()
        pn = ch.choice(['bad%d' % i, name])
        d = self.definition(kind, pn, self.derive(cls, sim_marker='BAD'))
        what = ch.choice(['nodict', 'lacks', 'type', 'class', 'name', 'load', 'init', 'getname',
                          'abstract', 'verify', 'verify'])
        if what == 'nodict':
            d = ch.choice([None, 'definition', 5, [], {}, (), cls, [('plugin_name', 'x')]])
        elif what == 'lacks':
            del d[ch.choice(['plugin_name', 'description', kind])]
        elif what == 'type':
            d[ch.choice(['plugin_name', 'description'])] = ch.choice([5, None, b'x', ['x'], {}])
            if isinstance(d['plugin_name'], str) and isinstance(d['description'], str):
                d['description'] = 5
        elif what == 'class':
            other = {'os': plugins.SimInstaller, 'installer': plugins.SimSpec,
                     'spec': plugins.SimOS}[kind]
            d[kind] = ch.choice([object, None, 'cls', 5, other, cls(), len, [cls], Exception])
        elif what == 'name':
            bad = ch.choice(BAD_NAMES)
            if kind == 'os':
                d[kind] = self.derive(cls, sim_names=[bad], sim_marker='BAD')
            elif kind == 'installer':
                d[kind] = self.derive(cls, sim_name='s1', name=bad, sim_marker='BAD')
            else:
                d[kind] = self.derive(cls, name=bad, sim_marker='BAD')
        elif what == 'load':
            d = plugins.Unloadable(ch.choice([ImportError, AttributeError, SyntaxError, OSError,
                                              ValueError, KeyError]), 'simulated')
        elif what == 'init':
            def __init__(self):
                raise ch_exc('cannot be constructed')
            ch_exc = ch.choice([RuntimeError, TypeError, OSError, ImportError])
            d[kind] = self.derive(cls, __init__=__init__)
        elif what == 'getname':
            def name_(self):
                raise KeyError('name')
            d[kind] = self.derive(cls, name=property(name_))
        elif what == 'abstract':
            base = [b for b in cls.__mro__ if b.__name__ in ('OS', 'Installer', 'Spec')][0]
            d[kind] = base
        elif what == 'verify':
            # its name is in order, and may be the name of one that is loaded
            from xylem.plugin_utils import InvalidPluginError
            refusal = ch.choice([InvalidPluginError, ValueError, RuntimeError])

            def verify_plugin(cls, obj):
                raise refusal('refused')
            d[kind] = self.derive(cls, verify_plugin=classmethod(verify_plugin),
                                  sim_marker='BAD')
        sim.hit('fault:badplugin:%s' % what)
        self.plugs.append(Plug(kind, 'bad-%s%d' % (ch.choice(['a', 'z', 'm']), i), d,
                               d.get('plugin_name') if isinstance(d, dict) else None,
                               name, False, what))

    def bad_command(self, i):
        ch = self.ch
        real = ch.choice(['lookup', 'resolve', 'update', 'install'])
        good = dict(title='x', description='x', main=broken_main, prepare_arguments=broken_args,
                    prepare_config=broken_args)
        what = ch.choice(['nodict', 'lacks', 'load', 'dup'])
        name = ch.choice(['zzz', 'aaa', real])
        if what == 'nodict':
            d = ch.choice([None, 'x', 5, [], broken_main])
        elif what == 'lacks':
            lost = ch.choice(sorted(good))
            d = {k: v for k, v in good.items() if k != lost}
        elif what == 'load':
            d = plugins.Unloadable(ch.choice([ImportError, AttributeError, SyntaxError]),
                                   'simulated')
        else:
            # the shipped definition once more
            name, d = ch.choice([name, real]), None
            for n, target in plugins.SHIPPED['xylem.commands']:
                if n == real:
                    d = plugins.EP(n, target=target).load()
        self.sim.hit('fault:badcommand:%s' % what)
        self.commands.append((name, d))

    def configure(self, reference):
        """What is installed: only good plugins, or also bad ones."""
        c = plugins.CFG
        c['plugins'] = {GROUP[k]: [(p.ep, p.definition) for p in self.plugs
                                   if p.kind == k and (p.valid or not reference)]
                        for k in KINDS}
        if not reference:
            c['plugins'][GROUP['command']] = list(self.commands)

    def available(self, kind):
        """name -> marker of the plugin to be loaded: the first that is enumerated."""
        out = {}
        valid = {p.ep: p for p in self.plugs if p.kind == kind and p.valid}
        for e in plugins.entry_points(GROUP[kind]):
            p = valid.get(e.name)
            if p is not None:
                pn, name, marker = p.plugin_name, p.name, p.marker
            elif e.name in SHIPPED[kind]:
                pn, name, marker = e.name, SHIPPED[kind][e.name], ''
            else:
                continue
            if pn not in self.disabled[kind]:
                out.setdefault(name, {marker})
        return out

    # ------------------------------------------------------------------ judging
    def cli_argv(self):
        ch = self.ch
        broken = {c[0] for c in self.commands} & {'lookup', 'resolve', 'install', 'update'}
        if broken and ch.chance(600):
            cmd = {'lookup': ['lookup'] + self.keys[:1], 'resolve': ['resolve'] + self.keys,
                   'install': ['install', '--dry-run'] + self.keys,
                   'update': ['update', '--dry-run']}[ch.choice(sorted(broken))]
            return self.argv + cmd
        cmd = ch.choice([['lookup'] + self.keys[:1], ['resolve'] + self.keys,
                         ['resolve', '--show-default-installer'] + self.keys,
                         ['install', '--dry-run'] + self.keys, ['update', '--dry-run']])
        return self.argv + cmd

    def check(self, t, ref):
        sim = self.sim
        if self.interrupted(t):
            return self.check_interrupt(t)
        r = t.result
        if r is None or r[0] != 'ok':
            return sim.violate(('C16',), 'plugin-takes-down', '%s ends with %s' % (
                t.name, str(r)[:900]))
        r = r[1]
        if 'config' in r:
            return sim.violate(('C16',), 'plugin-takes-down', '%s: %s' % (t.name, r['config']))
        for kind, key in (('os', 'os'), ('installer', 'installers'), ('spec', 'specs')):
            want = self.available(kind)
            if key not in r:
                err = r.get('srcerror' if key == 'specs' else 'error')
                ok = err and err[0] in ('UnsupportedOSError', 'UnsupportedOSVersionError') and \
                    key != 'specs' and 'simos' not in self.available('os')
                ok = ok or (err and err[0] == 'UnknownSpecError' and key != 'specs')
                if not ok:
                    sim.violate(('C16',), 'plugin-takes-down', '%s: no %s plugins: %s' % (
                        t.name, kind, err))
                continue
            got = r[key]
            names = [n for n, m in got]
            if sorted(names) != sorted(want):
                # without any spec plugin xylem loads them again
                sim.violate(('C16',), 'wrong-plugins', '%s: %s plugins are %s, expected %s' % (
                    t.name, kind, names, sorted(want)))
            else:
                for n, m in got:
                    if m not in want[n]:
                        sim.violate(('C16',), 'wrong-plugin', '%s: %s plugin %s is %s, not one '
                                    'of %s' % (t.name, kind, n, m, sorted(want[n])))
        if ref is not None and ref.result[0] == 'ok':
            a = {k: v for k, v in ref.result[1].items() if k not in ('os', 'installers', 'specs')}
            b = {k: v for k, v in r.items() if k not in ('os', 'installers', 'specs')}
            for k in ('error', 'srcerror'):
                if k in a and k in b:
                    a[k], b[k] = a[k][0], b[k][0]
            for x in (a, b):
                for k, v in x.items():
                    # which additional installer is asked last depends on the order
                    if k.startswith('resolve:') and v[0] != 'exc':
                        x[k] = [v[0], [e[:2] for e in v[1]]]
            if a != b:
                d = {k: (a.get(k), b.get(k)) for k in sorted(set(a) | set(b))
                     if a.get(k) != b.get(k)}
                sim.violate(('C16',), 'answer-differs', '%s (reference, other order): %s' % (
                    t.name, str(d)[:900]))
        self.state('inv', sorted(r), len(self.plugs), len([p for p in self.plugs if not p.valid]))

    def check_interrupt(self, t):
        if not self.failed(t):
            self.sim.violate(('C19', 'C16'), 'interrupt-success',
                             '%s: interrupted, but reports success' % t.name)

    def compare(self, t, ref, argv):
        sim = self.sim
        if self.interrupted(t):
            return self.check_interrupt(t)
        out = [strip(''.join(x for fd, x in u.out if fd == 1)).rstrip() for u in (ref, t)]
        if t.result != ref.result or out[0] != out[1]:
            err = ''.join(x for fd, x in t.out if fd == 2)
            sim.violate(('C16',), 'answer-differs', '%s %s: ends with %s and %r, without bad '
                        'plugins in another order with %s and %r; %s' % (
                            t.name, argv, t.result, out[1][:300], ref.result, out[0][:300],
                            err[-600:]))


def broken_main(args=None):
    raise AssertionError('main of a broken command')


def broken_args(parser):
    return None


SHIPPED_OSES = {n: n for n in ('debian', 'ubuntu', 'xubuntu', 'osx')}     # plugin: system
OSX = ['tiger', 'leopard', 'snow', 'lion', 'mountain lion', 'mavericks', 'yosemite']
SW_VERS = {'10.7.5': 'lion', '10.8': 'mountain lion', '10.9.1': 'mavericks', '10.4.11': 'tiger',
           '10.3.9': None, '11.2.1': None, 'beta': None}


class OsWorld(Base):

    def go(self):
        ch, sim = self.ch, self.sim
        self.schedule()
        self.generate()
        rd = {}
        for o in self.oses:
            rd[o['name']] = {v: {'s1': ['%s-%s' % (o['name'], v.replace(' ', '_'))]}
                             for v in o['versions']}
        for n, vs in (('osx', OSX), ('ubuntu', ['lucid', 'trusty'])):
            rd[n] = {v: {'s1': ['%s-%s' % (n, v.replace(' ', '_'))]} for v in vs}
        self.setup_rules([{'which': rd}, {}])
        defs = [('os%s' % o['name'], self.definition('os', 'plugin-' + o['name'], o['cls']))
                for o in self.oses]
        if ch.chance(200):
            defs.append(('bad', ch.choice([None, {}, {'plugin_name': 'x'}])))
        plugins.CFG['plugins'] = {'xylem.os': defs}
        if ch.chance(300):
            sim.write_file('/usr/bin/sw_vers', '')
            self.pm.sw_vers = ch.choice(sorted(SW_VERS))
            sim.hit('osx')
        for i in range(ch.range(2, 4)):
            self.operation()
            if sim.violations:
                break
        self.check_escapes()

    def generate(self):
        """Operating systems with some derivation order, some recognising the machine."""
        ch = self.ch
        self.oses = []
        n = ch.range(2, 5)
        names = ch.shuffle(['o1', 'o2', 'o-3', 'O4', 'o5'])[:n]
        for i, name in enumerate(names):
            anc = set()
            for p in range(i):
                if ch.chance(450):
                    anc |= {p} | set(self.oses[p]['anc'])
            if ch.chance(150) and anc:
                anc = set()
            alln = [name] + [names[a] for a in sorted(anc, reverse=True)]
            if ch.chance(200):
                alln.append('phantom')
            versions = ch.shuffle(['v1', 'v2', 'v3', '10.4', 'mountain lion'])[:ch.range(1, 3)]
            o = dict(name=name, anc=anc, names=alln, versions=versions,
                     core=ch.choice([['s1', 's2'], ['s2', 's1'], ['s1']]),
                     default=ch.choice(['s1', 's2', None]))
            o['cls'] = self.derive(plugins.SimOS, sim_names=alln, sim_versions=versions,
                                   sim_core=o['core'], sim_default=o['default'],
                                   sim_marker='os-' + name)
            self.oses.append(o)
        plugins.CFG.pop('core', None)

    def detection(self):
        """Who recognises the machine, and which versions are detected."""
        ch = self.ch
        mode = ch.choice(['one', 'any', 'none'])
        if mode == 'one':
            m = len(self.oses) - 1 if ch.chance(600) else ch.int(len(self.oses))
            det = [m] + [a for a in sorted(self.oses[m]['anc']) if ch.chance(750)]
        elif mode == 'any':
            det = [i for i in range(len(self.oses)) if ch.chance(500)]
        else:
            det = []
        plugins.CFG['detected'] = [self.oses[i]['name'] for i in det]
        plugins.CFG['os_versions'] = {
            o['name']: None if ch.chance(120) else ch.choice(o['versions']) for o in self.oses}
        if self.pm.sw_vers is not None:
            plugins.CFG['os_versions']['osx'] = SW_VERS[self.pm.sw_vers]
        return det

    def operation(self):
        ch, sim = self.ch, self.sim
        det = self.detection()
        override = feats = None
        known = {o['name']: o['versions'] for o in self.oses}
        known['osx'] = OSX
        known['ubuntu'] = ['lucid', 'trusty']
        if ch.chance(550):
            name = ch.choice(sorted(known) + ['nosuch', 'phantom', 'o', ''])
            vs = known.get(name, ['v1'])
            v = ch.weighted([('known', 5), ('none', 3), ('unknown', 2)])
            v = ch.choice(vs) if v == 'known' else None if v == 'none' else ch.choice(
                ['v9', '', 'None', 'V1', 'any_version', 'v'])
            if v == '' and name == '':
                v = 'v9'
            override = (name, v)
        value = None
        if override:
            value = override[0] if override[1] is None else ch.choice(
                ['%s:%s', '%s:%s', '%s : %s', ' %s:%s ']) % override
            if ch.chance(300):
                feats = ch.choice([['rev'], ['a', 'rev'], [], ['b']])
                value += '&' + ','.join(feats)
        feats_opt = ch.choice([['rev'], ['c'], []]) if ch.chance(250) else None
        disabled = ['plugin-' + o['name'] for o in self.oses if ch.chance(100)]
        if ch.chance(150):
            # next to nothing is left
            disabled = ch.shuffle(['plugin-' + o['name'] for o in self.oses] + sorted(SHIPPED_OSES))
            disabled = disabled[:len(disabled) - ch.choice([0, 1, 1, 2])]
        self.argv = self.cli_settings([
            ('os_override', 'os', value), ('os_options/features', 'os-features', feats_opt),
            ('disabled_plugins/os', 'disable-os-plugins', disabled or None)])
        features = feats if feats is not None else feats_opt or []
        self.tell('os', [(o['name'], o['names'][1:]) for o in self.oses], 'detected',
                  plugins.CFG['detected'], 'override', value, 'disabled', disabled)
        for i in range(ch.range(1, 3)):
            self.reorder('o%d' % ch.int(1000) if ch.chance(850) else None)
            self.interrupt_rows()
            what = ch.choice(['inventory', 'lookup', 'resolve', 'install'])
            m0, c0 = len(sim.mutations), len(self.pm.commands)
            if what == 'inventory':
                t = self.start(what, programs.inventory, (self.argv, ['which']))
            else:
                cmd = {'lookup': ['lookup', 'which'], 'resolve': ['resolve', 'which'],
                       'install': ['install', '--dry-run', 'which']}[what]
                t = self.start(what, programs.cli, (self.argv + cmd,))
                t.meta['cli'] = True
            sim.run()
            self.judge(t, what, det, override, features, disabled, known,
                       [c for c in self.pm.commands[c0:] if c.kind == 'osversion'])
            if sim.violations:
                break

    def judge(self, t, what, det, override, features, disabled, known, commands):
        sim = self.sim
        if self.interrupted(t):
            if not self.failed(t):
                sim.violate(('C19', 'C17'), 'interrupt-success',
                            '%s: interrupted, but reports success' % t.name)
            return
        oses = {o['name']: o for o in self.oses if 'plugin-' + o['name'] not in disabled}
        calls = [c[1:-1] for c in t.meta.get('plugin', ()) if c[1] in ('is_os', 'get_version')]
        det = {self.oses[i]['name'] for i in det} & set(oses)
        names = {n: o['names'] for n, o in oses.items()}
        shipped = {n for p, n in SHIPPED_OSES.items() if p not in disabled}
        if self.pm.sw_vers is not None and 'osx' in shipped:
            det.add('osx')
            names['osx'] = ['osx']
        bad = lambda cls, msg: sim.violate(('C17',), cls, '%s: %s; recognised by %s, override %s,'
                                           ' disabled %s, result %s' % (
                                               t.name, msg, sorted(det), override, disabled,
                                               str(t.result)[:600]))
        if override is not None:
            name, v = override
            if any(c[0] == 'is_os' for c in calls):
                return bad('detection-consulted', 'detection in spite of the override: %s' % calls)
            if v is not None and calls:
                return bad('detection-consulted', 'version detected in spite of the override: %s'
                           % calls)
            if commands and (v is not None or name != 'osx'):
                return bad('detection-consulted', 'commands in spite of the override: %s'
                           % [c.argv for c in commands])
            if any(c[1] != name for c in calls):
                return bad('detection-consulted', 'another OS is consulted: %s' % calls)
            exists = name in oses or name in shipped
            if not exists or v is not None and v not in known[name]:
                expect = None
            elif v is None:
                v = plugins.CFG['os_versions'].get(name)
                expect = [(name, v)] if v is not None else None
            else:
                expect = [(name, v)]
        else:
            tops = [n for n in det if all(m in names[n] for m in det)]
            expect = [(n, plugins.CFG['os_versions'][n]) for n in (tops[:1] or sorted(det))]
            if any(v is None for _, v in expect):
                if len(expect) == 1:
                    expect = None
                else:
                    expect = [None if v is None else (n, v) for n, v in expect]
            expect = expect or None
        failed = self.failed(t) if what != 'inventory' else \
            t.result[0] != 'ok' or 'error' in t.result[1] or 'config' in t.result[1]
        self.state('os', what, override is not None, expect is None, len(det), failed)
        if expect is None:
            if not failed:
                return bad('unsupported-accepted', 'no operating system to be selected')
            return
        if failed:
            if None in expect or what != 'inventory' and not all(
                    self.has_core(e, oses, features) for e in expect if e):
                return
            return bad('supported-rejected', 'fails instead of selecting %s' % (expect,))
        expect = [e for e in expect if e is not None]
        if what == 'inventory':
            r = t.result[1]
            if tuple(r['tuple']) not in expect:
                return bad('wrong-os', 'selects %s instead of %s' % (r['tuple'], expect))
            o = oses.get(r['tuple'][0])
            if o:
                core = o['core'][::-1] if 'rev' in features else o['core']
                for k, want in (('core', core), ('default', o['default']), ('names', o['names']),
                                ('versions', o['versions']), ('features', features)):
                    if r[k] != want:
                        return bad('wrong-os-data', '%s is %s instead of %s' % (k, r[k], want))
            got = r['lookup:which']
            want = ['%s-%s' % (r['tuple'][0], r['tuple'][1].replace(' ', '_'))]
            if got.get('s1', {}).get('packages') != want:
                return bad('wrong-os-answer', 'lookup gives %s instead of %s' % (got, want))
        else:
            text = strip(''.join(x for fd, x in t.out if fd == 1))
            want = ['%s-%s' % (n, v.replace(' ', '_')) for n, v in expect]
            if not any(w in text for w in want) and any(
                    self.has_core(e, oses, features) for e in expect):
                return bad('wrong-os-answer', 'prints %r instead of %s' % (text[:300], want))
            others = [w for o in self.oses for v in o['versions']
                      for w in ['%s-%s' % (o['name'], v.replace(' ', '_'))]
                      if w not in want and w in text and not any(w in x for x in want)]
            if others:
                return bad('wrong-os-answer', 'prints %r with %s' % (text[:300], others))

    def has_core(self, e, oses, features):
        """Whether the rules can be resolved on this operating system."""
        return e[0] in oses and 's1' in oses[e[0]]['core']
