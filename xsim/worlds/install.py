"""Resolving and installing: package managers, installer plugins and their failures."""
import yaml

from .. import plugins, programs, rules
from .base import World, strip

BASE = '/xsim/xd'
FAKEDIR = '/xsim/home/.fake-installer'
URL = 'http://hrules.example/rules.yaml'
SIMS = ('s1', 's2', 's3', 's4')
BLIND = ('apt', 'homebrew', 'macports')     # cannot tell what is installed
LOADED = ('apt', 'fake', 'homebrew', 'macports', 'pip') + SIMS
CORE = {'simos': ['s1', 's2'], 'simder': ['s2', 's1']}
DEFAULT = {'simos': 's1', 'simder': 's2'}
ROOT_DEFAULT = {'s4': True, 'pip': True, 'apt': True, 'macports': True}
BATCH = ('s2', 's4')
# names which contain each other, or differ only in case
SUFFIXES = ('a', 'b', 'ab', 'A', 'a.b', 'c+')
ODD_SUFFIXES = ('a', 'a b', 'b;a', 'c$a', "b'c", '*')
PIP_SUFFIXES = ['a', 'b', 'ab', 'B2', 'a.b', 'c_d']
# how pip freeze may spell a package
FROZEN = [lambda k: k.upper() + '==2.%d', lambda k: k.replace('-', '_') + '==1!2.%d',
          lambda k: k.lower().replace('_', '-').replace('.', '-') + '===old%d',
          lambda k: k + ' @ file:///tmp/%d/x==1.whl', lambda k: k.capitalize() + '==1',
          lambda k: '-e git+https://git.example/x@12ab==#egg=%s&subdirectory=y' % k,
          lambda k: '-e git+https://git.example/y#egg=' + k.replace('-', '_')]



class Plan(object):
    """What a request amounts to, according to the reference model."""

    def __init__(self):
        self.keys = []       # requested keys in order
        self.choices = {}    # key -> acceptable installers
        self.answers = {}    # key -> {installer: rule}


class InstallWorld(World):
    sessions = 300
    groups = ('cmd', 'query', 'plugin')
    ops_range = (1, 3)
    kinds = [('install', 6), ('dry', 1), ('resolve', 1), ('change', 1)]
    converge = 500
    trouble = 0.0          # probability of absent managers and broken packages (permille)
    fix = 300
    lines = False
    resolvable = 650       # requests of nothing but keys that can be resolved (permille)
    key_faults = 0
    max_keys = 5
    blind = 60

    # --------------------------------------------------------------- building
    def go(self):
        ch, sim = self.ch, self.sim
        self.build()
        t = self.alone('update', programs.update, (self.argv,))
        if self.failed(t):
            raise RuntimeError('preparation failed: %s' % (t.status,))
        self.configure_faults()
        for i in range(ch.range(*self.ops_range)):
            kind = ch.weighted(self.kinds)
            getattr(self, 'op_' + kind)()
            if sim.violations:
                break
        self.check_escapes()

    def build(self):
        ch, sim = self.ch, self.sim
        self.argv = ['--xylem-dir', BASE]
        self.euid = ch.choice([0, 1000])
        keys = ch.shuffle(rules.KEYS)[:ch.range(1, self.max_keys)]
        self.suffixes = ODD_SUFFIXES if ch.chance(120) else SUFFIXES
        self.pool = {i: ['%s-%s' % (i, x) for x in (
            self.suffixes if i in SIMS else SUFFIXES)] for i in LOADED}
        # pip does not distinguish pip-a and pip-A
        self.pool['pip'] = ['pip-' + x for x in PIP_SUFFIXES]
        self.rules = {}
        blind = ch.chance(self.blind)
        for k in keys:
            self.rules[k] = self.gen_key(k, blind)
        doc = rules.Doc(self.rules, rules.render(ch, self.rules), 'x')
        if ch.chance(350):
            sim.write_file('/xsim/data/rules.yaml', doc.data)
            sim.write_file(BASE + '/sources.d/a.yaml',
                           '- simspec: {path: /xsim/data/rules.yaml}\n')
        else:
            sim.write_file(BASE + '/sources.d/a.yaml', '- rules: %s\n' % URL)
            self.net.put(URL, doc.data)
        self.osn, self.version = 'simos', 'two'
        o = ch.choice([None, None, 'simos:one', 'simder:one', 'simos'])
        if o:
            self.argv += ['--os', o]
            self.osn = o.split(':')[0]
            self.version = (o + ':two').split(':')[1]
        plugins.CFG['additional'] = tuple(ch.subset(['s3', 's4'], 700))
        self.gen_config(keys, blind)
        self.gen_state()

    def gen_key(self, key, blind):
        ch = self.ch
        od = {}
        names = ch.weighted([(['simos'], 5), (['any_os'], 4), (['any_os', 'simos'], 1),
                             (['otheros'], 1)])
        for osn in names:
            vd = {}
            for v in (['any_version'] if osn == 'any_os' else ch.weighted(
                    [(['any_version'], 4), (['two'], 3), (['any_version', 'two'], 2),
                     (['three'], 1)])):
                idict = {}
                for _ in range(ch.weighted([(1, 5), (2, 4), (3, 1), (0, 1)])):
                    inst = ch.weighted([('s1', 6), ('s2', 6), ('s3', 2), ('s4', 2), ('pip', 3),
                                        ('fake', 1), ('default_installer', 3), ('nosuch', 1)])
                    if blind and ch.chance(300):
                        inst = ch.choice(['apt', 'macports', 'homebrew'])
                    if inst == 'default_installer' and osn == 'any_os':
                        inst = 's1'
                    if inst in ('s1', 's2') and 'default_installer' in idict or \
                            inst == 'default_installer' and ('s1' in idict or 's2' in idict):
                        continue
                    pool = self.pool.get(inst, self.pool['s1'])
                    if inst == 'default_installer':
                        pool = ['d-' + x for x in self.suffixes]
                    n = ch.weighted([(1, 5), (2, 4), (3, 2), (4, 1), (0, 1)])
                    rule = {'packages': [ch.choice(pool) for _ in range(n)]}
                    if inst in SIMS or inst == 'default_installer':
                        rule['tag'] = key
                    if ch.chance(50):
                        rule['depends'] = ['foo']
                    idict[inst] = rule
                vd[v] = idict
            od[osn] = vd
        return od

    def gen_config(self, keys, blind):
        ch, sim = self.ch, self.sim
        conf = {}
        self.install_from = {}
        if ch.chance(300):
            for k in ch.subset(keys + ['unknown'], 400):
                inst = ch.choice(['s2', 's1', 's3', 'pip', 'fake', 'nosuch'])
                conf.setdefault('install_from', {}).setdefault(inst, []).append(k)
                self.install_from[k] = inst
        self.core = list(CORE[self.osn])
        if ch.chance(250):
            self.core = ch.shuffle(['s1', 's2', 's3', 's4', 'fake', 'pip', 'nosuch'])[
                :ch.range(1, 4)]
            conf['core_installers'] = list(self.core)
        if blind:
            self.core = self.core + ['apt', 'macports']
            conf['core_installers'] = list(self.core)
        self.disabled = ch.subset(['s2', 's3', 'pip'], 60)
        if self.disabled:
            conf['disabled_plugins'] = {'installer': self.disabled}
        self.use_additional = not ch.chance(150)
        if not self.use_additional:
            conf['use_additional_installers'] = False
        self.as_root = dict(ROOT_DEFAULT)
        for i in ch.subset(['s1', 's2', 's3', 's4', 'pip'], 200):
            self.as_root[i] = not self.as_root.get(i, False)
            conf.setdefault('installer_options', {})[i] = {'as_root': self.as_root[i]}
        if ch.chance(120):
            # only causes a warning
            conf.setdefault('installer_options', {}).setdefault(
                ch.choice(['s1', 's2', 'pip', 'nosuch']), {})['colour'] = 'blue'
        if conf:
            sim.write_file(BASE + '/config.yaml', yaml.safe_dump(conf))
        self.loaded = [i for i in LOADED if i not in self.disabled]
        self.additional = [i for i in ('pip',) + tuple(plugins.CFG['additional'])
                           if i in self.loaded and i not in self.core] \
            if self.use_additional else []
        self.tell('config', conf, 'os', self.osn, self.version, 'euid', self.euid)

    def gen_state(self):
        ch, pm, sim = self.ch, self.pm, self.sim
        p = ch.choice([300, 0, 100, 800])
        if ch.chance(400):
            for k in ch.subset(self.pool['pip'], 500):
                pm.spelling[k] = ch.choice(FROZEN)(k)
        for i in SIMS + ('pip',):
            m = pm.mgr(i)
            pool = self.pool[i] + (['d-' + x for x in self.suffixes] if i in ('s1', 's2') else [])
            m.installed = set(ch.subset(pool, p))
            if self.trouble and ch.chance(self.trouble):
                what = ch.choice(['absent', 'outdated', 'broken', 'absent-nofix'] +
                                 ['outdated'] * 3 * (i == 's2'))
                sim.hit('fault:manager:' + what)
                if what.startswith('absent'):
                    m.present = False
                    m.setup_works = what == 'absent'
                elif what == 'outdated':
                    m.updated = False
                    m.update_works = ch.chance(500)
                else:
                    m.broken = set(ch.subset(pool, 400))
        if self.trouble:
            pm.sudo_present = not ch.chance(60)
        if ch.chance(800):
            sim.mkdir(FAKEDIR)
            for x in ch.subset(self.pool['fake'], p):
                sim.write_file(FAKEDIR + '/' + x, '')

    def configure_faults(self):
        ch, sim = self.ch, self.sim
        rate = ch.choice([0.35, 0.15, 0.7])

        def pick(names, r):
            names = [n for n in names if ch.chance(500)]
            return [(n, r / len(names)) for n in names] if names else []
        if 'cmd' in self.groups:
            self.pm.rows['install'] = pick(
                ['fail', 'failpartial', 'failafter', 'signal', 'signal', 'ENOENT', 'EACCES', 'ENOMEM',
                 'slow'], rate)
        if 'lie' in self.groups:
            self.pm.rows['install'] = self.pm.rows['install'] + pick(['lie', 'liepartial'], rate)
        if 'query' in self.groups:
            self.pm.rows['query'] = pick(['qfail', 'qgarbage', 'qENOENT', 'qlie'], rate / 3)
        if 'prereq' in self.groups:
            self.pm.rows['probe'] = pick(['ENOENT', 'EACCES', 'ENOMEM'], rate / 2)
            self.pm.rows['setup'] = pick(['fail', 'ENOENT'], rate)
            self.pm.rows['update'] = pick(['fail', 'ENOENT'], rate)
        prow = {}
        if 'plugin' in self.groups:
            prow['resolve'] = pick(['ierror', 'bug'], rate / 2)
            prow['filter'] = pick(['ierror', 'bug'], rate / 2)
            prow['commands'] = pick(['ierror', 'bug'], rate / 2)
        if 'resolve' in self.groups:
            prow['resolve'] = pick(['ierror', 'ierror', 'ierror', 'bug'], rate * 2)
            prow['lookup'] = pick(['ierror'], rate)
        if 'prereq' in self.groups:
            prow['install_prereq'] = pick(['fixable', 'perror'], rate)
        sim.plugin_rows = lambda t, what: prow.get(what[0], [])
        rows = []
        if 'kill' in self.groups:
            rows += [({'spawn', 'wait'}, 'kill', 0.1), ({'spawn'}, 'killafter', 0.05),
                     ({'*'}, 'kill', 0.005)]
        if 'int' in self.groups:
            rows += [({'spawn', 'wait'}, 'int', 0.06), ({'spawn'}, 'intafter', 0.05),
                     ({'*'}, 'int', 0.008), ({'line', 'out', 'plugin'}, 'int', 0.03)]
        if 'file' in self.groups:
            rows += self.err_rows(('open', 'read'), 'cache', 0.05)
            rows += self.err_rows(('open', 'read', 'listdir'), 'conf', 0.03)
        self.sim.pathclass = lambda p: 'cache' if p.startswith(BASE + '/cache') else \
            'conf' if p.startswith(BASE) else 'fake' if p.startswith(FAKEDIR) else ''
        self.swarm(rows, (1, 1, 2, 3, 5))

    # ---------------------------------------------------------------- planning
    def request(self):
        ch = self.ch
        keys = ch.shuffle(sorted(self.rules))
        good = [k for k in keys if self.plan([k], False).choices[k]]
        if good and ch.chance(self.resolvable):
            # nothing keeps these from being installed
            keys = good[:ch.range(1, len(good))]
            return keys + ([ch.choice(keys)] if ch.chance(250) else [])
        keys = keys[:ch.range(1, len(keys))]
        if ch.chance(250):
            keys.append(ch.choice(keys))
        if ch.chance(150):
            keys.insert(ch.int(len(keys) + 1), ch.choice(['unknown', 'unknown2']))
        return keys

    def plan(self, keys, all_keys):
        p = Plan()
        default = DEFAULT[self.osn]
        keys = list(keys)
        self.lookup_os = self.osn
        if all_keys:
            keys += sorted(rules.ref_keys([self.rules], self.osn, self.version))
        p.keys = list(dict.fromkeys(keys))
        for k in p.keys:
            a = rules.ref_answer([self.rules], k, self.osn, self.version, default)
            p.answers[k] = a
            p.choices[k] = rules.ref_choice(a, [c for c in self.core if c in self.loaded],
                                            self.additional, self.loaded,
                                            self.install_from.get(k))
        return p

    def items(self, plan, chosen):
        """[(key, installer, package)] in the order of installation."""
        out = []
        for k in plan.keys:
            if k in chosen:
                i = chosen[k]
                out += [(k, i, p) for p in plan.answers[k][i]['packages']]
        return out

    def chosen(self, plan):
        """The installer of each key; asks xylem itself where several are acceptable."""
        out = {k: c[0] for k, c in plan.choices.items() if len(c) == 1}
        amb = [k for k, c in plan.choices.items() if len(c) > 1]
        if amb:
            t = self.alone('ask', programs.resolve, (self.argv, amb))
            if self.failed(t):
                self.sim.violate(('C12',), 'resolve-fails', str(t.result)[:500])
                return out
            for k, i, _ in t.result[1]['result']:
                out[k] = i
                if i not in plan.choices[k]:
                    self.sim.violate(('C12',), 'wrong-installer', '%s from %s, not one of %s' % (
                        k, i, plan.choices[k]))
                    out.pop(k)
        return out

    def is_installed(self, inst, pkg):
        if inst == 'fake':
            return self.sim.read_file(FAKEDIR + '/' + pkg) is not None
        if inst in BLIND:
            return False
        return pkg in self.pm.mgr(inst).installed

    # -------------------------------------------------------------- operations
    def op_change(self):
        """The user installs and removes packages himself."""
        ch = self.ch
        for i in SIMS + ('pip',):
            m = self.pm.mgr(i)
            for p in ch.subset(sorted(m.installed), 200):
                m.installed.discard(p)
            for p in ch.subset(self.pool[i], 100):
                m.installed.add(p)
        self.tell('changes by the user')

    def flags(self):
        ch = self.ch
        return dict(all_keys=ch.chance(100), reinstall=ch.chance(150),
                    continue_on_error=ch.chance(350),
                    fix_prerequisites=ch.chance(self.fix))

    def start_install(self, keys, kw, cli, lines=False):
        if cli:
            kw = dict(kw, interactive=True)
            names = {'all_keys': '--all', 'reinstall': '--reinstall', 'simulate': '--dry-run',
                     'continue_on_error': '--continue-on-error',
                     'fix_prerequisites': '--fix-prerequisites'}
            extra = [names[k] for k, v in kw.items() if v is True and k in names]
            if self.ch.chance(500):
                a = self.argv + ['install'] + keys + extra
            else:
                a = ['install'] + extra + keys + self.argv
            if self.ch.chance(100):
                a += ['-v']
            t = self.start('install', programs.cli, (a, 'xylem', lines), euid=self.euid)
        else:
            t = self.start('install', programs.install, (self.argv, keys, kw, lines),
                           euid=self.euid)
        t.meta.update(cli=cli, kw=kw, keys=keys)
        return t

    def op_install(self):
        ch = self.ch
        keys, kw = self.request(), self.flags()
        kw['interactive'] = not ch.chance(300)
        cli = ch.chance(150 if self.in_session() else 450)
        if cli:
            kw['interactive'] = True
        lines = self.lines and ch.chance(500)
        plan = self.plan(keys, kw['all_keys'])
        chosen = self.chosen(plan)
        if self.sim.violations:
            return
        t = self.start_install(keys, kw, cli, lines)
        self.run_install(t, plan, chosen)
        if not self.sim.violations and ch.chance(self.converge):
            self.do_converge(keys, kw, plan, chosen)

    def do_converge(self, keys, kw, plan, chosen):
        """Without faults, the same request installs what is missing, then nothing."""
        sim = self.sim
        if not all(plan.choices.values()):
            return
        involved = {i for _, i, _ in self.items(plan, chosen)} | set(chosen.values())
        if involved & set(BLIND):
            return
        for i in involved - {'fake'}:
            self.pm.mgr(i).present = True
            self.pm.mgr(i).broken = set()
        sim.mkdir(FAKEDIR)
        self.pm.sudo_present = True
        on, sim.faults_on = sim.faults_on, False
        kw = dict(kw, reinstall=False)
        for n in range(2):
            t = self.start_install(keys, kw, self.ch.chance(500))
            self.run_install(t, plan, chosen, must='none' if n else 'all')
            if sim.violations:
                break
        sim.faults_on = on

    def op_dry(self):
        """A dry run, then the same for real."""
        ch, sim = self.ch, self.sim
        keys, kw = self.request(), self.flags()
        kw['simulate'] = True
        cli = ch.chance(150 if self.in_session() else 500)
        kw['interactive'] = cli or not ch.chance(400)
        plan = self.plan(keys, kw['all_keys'])
        chosen = self.chosen(plan)
        if sim.violations:
            return
        if 'prereq' in self.groups and 's2' in chosen.values() and ch.chance(500):
            # something to be fixed, which a dry run must not attempt
            m = self.pm.mgr('s2')
            m.updated, m.update_works = False, ch.chance(700)
            kw['fix_prerequisites'] = kw['fix_prerequisites'] or ch.chance(700)
            sim.hit('fault:manager:outdated')
        t = self.start_install(keys, kw, cli, self.lines and ch.chance(500))
        r = self.run_install(t, plan, chosen)
        if r != 'clean' or sim.violations:
            return
        shown = self.shown(t)
        on, sim.faults_on = sim.faults_on, False
        t2 = self.start_install(keys, dict(kw, simulate=False),
                                kw['interactive'] and ch.chance(500))
        r2 = self.run_install(t2, plan, chosen)
        sim.faults_on = on
        if r2 == 'clean' and not sim.violations:
            real = [' '.join(c.argv) for c in self.pm.commands
                    if c.task == t2.name and c.kind == 'install']
            if shown != real:
                sim.violate(('C11',), 'dry-run-differs', 'dry run prints %r, %s runs %r' % (
                    shown, t2.name, real))

    @staticmethod
    def shown(t):
        out, on = [], False
        for line in strip(t.text(1)).split('\n'):
            if line.startswith('# ['):
                on = line.endswith('installation commands:')
            elif on and line.startswith('  ') and line.strip():
                out.append(line.strip())
        return out

    def op_resolve(self):
        ch, sim = self.ch, self.sim
        keys = self.request()
        all_keys = ch.chance(250)
        cli = ch.chance(150 if self.in_session() else 400)
        plan = self.plan(keys, all_keys)
        if cli:
            extra = ['--show-default-installer'] + (['--all'] if all_keys else [])
            t = self.start('resolve', programs.cli, (
                self.argv + ['resolve'] + keys + extra, 'xylem', self.lines and ch.chance(500)))
        else:
            t = self.start('resolve', programs.resolve, (self.argv, keys, all_keys))
        t.meta.update(cli=cli, keys=keys)
        c0, m0 = len(self.pm.commands), len(sim.mutations)
        sim.run()
        self.tell('resolve', keys, 'cli' if cli else 'api', str(t.status)[:60],
                  [x[0] + '@' + x[1] for x in t.injected])
        self.quiet(t, c0, m0, False)
        if self.stopped(t):
            if self.hung(t):
                sim.violate(('C12',), 'hang', '%s never ends' % t.name)
            return
        if self.interrupted(t):
            if cli and t.result[1] == 0:
                sim.violate(('C19',), 'interrupt-status', '%s was interrupted, but exits with 0'
                            % t.name)
            return
        if self.faulted(t):
            if not self.failed(t):
                self.check_resolved(t, plan, cli)
            return
        self.check_resolved(t, plan, cli)

    # ---------------------------------------------------------------- resolving
    def plugin_events(self, t, what):
        return [m for m in t.meta.get('plugin', []) if m[1] == what]

    def unresolved(self, t, plan):
        """(keys without resolution in order, whether an installer plugin crashed)"""
        bad = {m[3] for w in ('resolve', 'lookup') for m in self.plugin_events(t, w)
               if m[-1] == 'ierror'}
        bug = any(m[-1] == 'bug' for m in self.plugin_events(t, 'resolve'))
        return [k for k in plan.keys if not plan.choices[k] or k in bad], bug

    def check_resolved(self, t, plan, cli):
        sim = self.sim
        errs, bug = self.unresolved(t, plan)
        v = lambda cls, msg: sim.violate(('C12',), cls, '%s: %s' % (t.name, msg))
        if t.result[0] != 'ok':
            if not bug:
                v('resolve-fails', str(t.result)[:500])
            return
        if bug:
            if not cli or t.result[1] == 0:
                v('crash-hidden', 'an installer plugin crashed, result %s' % str(t.result)[:300])
            return
        good = [k for k in plan.keys if k not in errs]
        self.state('resolve', len(good), len(errs), cli)
        if cli:
            if (t.result[1] != 0) != bool(errs):
                sim.violate(('C12', 'C19'), 'resolve-status', '%s exits with %s, errors for %s: %s'
                            % (t.name, t.result[1], errs, strip(t.text(2))[-400:]))
                return
            got = []
            for line in strip(t.text(1)).split('\n'):
                if ' --> ' in line:
                    k, rest = line.split(' --> ', 1)
                    i, _, pk = rest.partition(':')
                    got.append((k, i, [x.strip() for x in pk.split(',') if x.strip()]))
            for k in errs:
                if not self.named(k, strip(t.text(2))):
                    v('error-not-reported', 'nothing about %s in %r' % (k, t.text(2)[-300:]))
        else:
            r = t.result[1]
            got = [(k, i, [x['package'] for x in rs]) for k, i, rs in r['result']]
            if [e[0] for e in r['errors']] != errs:
                v('wrong-errors', 'errors %s, should be for %s' % (r['errors'], errs))
        if [g[0] for g in got] != good:
            v('wrong-keys', 'resolves %s instead of %s' % ([g[0] for g in got], good))
            return
        for k, i, pk in got:
            if i not in plan.choices[k]:
                v('wrong-installer', '%s from %s, not one of %s' % (k, i, plan.choices[k]))
            elif pk != plan.answers[k][i]['packages']:
                v('wrong-packages', '%s: %s instead of %s' % (
                    k, pk, plan.answers[k][i]['packages']))

    @staticmethod
    def named(what, text):
        import re
        return re.search(r'(?<![\w.+-])%s(?![\w+-]|\.\w)' % re.escape(what), text) is not None

    # --------------------------------------------------------------- installing
    def quiet(self, t, c0, m0, allow_fix):
        """No effects: queries and dry runs."""
        sim = self.sim
        for c in self.pm.commands[c0:]:
            if c.task == t.name and c.kind not in ('query', 'probe'):
                sim.violate(('C11',), 'command-in-query', '%s runs %s' % (t.name, c.argv))
                break
        for st, name, kind, path in sim.mutations[m0:]:
            if name == t.name:
                sim.violate(('C11',), 'change-in-query', '%s: %s of %s' % (t.name, kind, path))
                break
        if any(m[1] == 'prereq_fixed' for m in t.meta.get('plugin', [])):
            sim.violate(('C11', 'C13'), 'fix-in-query', '%s fixes a prerequisite' % t.name)

    def run_install(self, t, plan, chosen, must=None):
        """Run and judge one install; 'clean' if nothing went wrong in it."""
        sim, kw = self.sim, t.meta['kw']
        before = {(i, p): self.is_installed(i, p) for _, i, p in self.items(plan, chosen)}
        present = {i: (self.sim.real(FAKEDIR) and self.is_dir(FAKEDIR)) if i == 'fake'
                   else self.pm.mgr(i).present for i in set(chosen.values())}
        outdated = {m.name for m in self.pm.managers.values() if not m.updated}
        c0, m0 = len(self.pm.commands), len(sim.mutations)
        sim.run()
        cmds = [c for c in self.pm.commands[c0:] if c.task == t.name]
        inst = [c for c in cmds if c.kind == 'install']
        self.tell('install', t.meta['keys'], {k: v for k, v in kw.items() if v},
                  'cli' if t.meta['cli'] else 'api', str(t.status)[:100],
                  [' '.join(c.argv) + ':%s' % c.rc for c in inst],
                  [x[0] + '@' + x[1] for x in t.injected])
        if kw.get('simulate'):
            self.quiet(t, c0, m0, False)
        return Judge(self, t, plan, chosen, before, present, outdated, cmds, must).verdict()

    def is_dir(self, v):
        import os
        return os.path.isdir(self.sim.real(v))


class Judge(object):
    """Checks one finished install run."""

    def __init__(self, w, t, plan, chosen, before, present, outdated, cmds, must):
        self.w, self.sim, self.t, self.plan, self.chosen = w, w.sim, t, plan, chosen
        self.before, self.present, self.outdated, self.cmds = before, present, outdated, cmds
        self.must = must
        self.kw = t.meta['kw']
        self.inst = [c for c in cmds if c.kind == 'install']

    def bad(self, tags, cls, msg):
        self.sim.violate(tags, cls, '%s %s %s: %s; commands %s; result %s' % (
            self.t.name, self.t.meta['keys'], {k: v for k, v in self.kw.items() if v}, msg,
            ['%s:%s:%s' % (' '.join(c.argv), c.behaviour or '', c.rc) for c in self.cmds],
            str(self.t.result)[:500] if not self.t.meta['cli'] else
            '%s %s' % (self.t.result, strip(self.t.text(2))[-500:])))

    def verdict(self):
        w, t, kw = self.w, self.t, self.kw
        if w.hung(t):
            self.bad(('C08', 'C19'), 'hang', 'never ends')
            return 'bad'
        coe, sim = kw['continue_on_error'], kw.get('simulate')
        errs, bug = w.unresolved(t, self.plan)
        items = [x for x in w.items(self.plan, self.chosen) if x[0] not in errs]
        involved = list(dict.fromkeys(self.chosen[k] for k in self.plan.keys
                                      if k in self.chosen and k not in errs))
        stopped = w.stopped(t)
        interrupted = w.interrupted(t)
        r = t.result
        # outcome: ok (no errors), errors, exc
        if stopped:
            outcome = 'stopped'
        elif t.meta['cli']:
            outcome = 'ok' if r == ('ok', 0) else 'errors'
        elif r[0] != 'ok' or 'exc' in r[1]:
            outcome = 'exc'
        else:
            outcome = 'errors' if r[1]['resolve'] or r[1]['install'] else 'ok'
        exc = outcome == 'exc' or t.meta['cli'] and (
            'error' in strip(t.text(2)).lower() and 'prerequisite' in t.text(2).lower())
        self.text = strip(t.text(2)) if t.meta['cli'] or not r or r[0] != 'ok' else str(r[1])
        self.gate(involved, items, errs, outcome)
        self.sequence(items, outcome, coe, sim)
        self.stop(coe)
        if interrupted:
            self.interrupt(outcome)
        fails = [m for m in t.meta.get('plugin', []) if m[-1] is not None and not (
            m[-1] == 'fixable' and kw['fix_prerequisites'])]
        badcmd = [c for c in self.cmds if (c.behaviour and c.behaviour != 'slow') or
                  c.rc not in (0, 1) and c.kind == 'query' or
                  c.kind in ('install', 'setup', 'update') and c.rc != 0 or not c.spawned]
        blind = [i for i in involved if i in BLIND]
        absent = [i for i in involved if not self.present[i]]
        broken = [1 for _, i, p in items if i not in BLIND + ('fake',)
                  and p in w.pm.mgr(i).broken]
        trouble = bool(errs or bug or fails or badcmd or t.injected or blind or absent or broken)
        w.state('install', outcome, coe, bool(sim), kw['fix_prerequisites'], len(self.inst),
                ','.join(str(c.rc) for c in self.inst)[:20], bool(absent),
                ','.join(sorted({m[1] + m[-1] for m in fails})))
        if outcome == 'ok' and not sim:
            self.success(errs, items, bug, interrupted)
        elif outcome == 'ok' and sim and (errs or bug):
            self.bad(('C12', 'C19'), 'errors-hidden', 'no errors, but %s did not resolve' % errs)
        if outcome in ('errors', 'exc') and not trouble:
            self.bad(('C10', 'C09'), 'spurious-failure', 'fails although nothing went wrong')
        if outcome == 'errors' and not interrupted:
            self.errors(errs, items, coe, bug)
        if (outcome == 'ok' and not trouble and not sim) and self.must:
            missing = [x for x in items if not self.before[x[1:]]]
            passed = {(c.mgr, self.pkg(c, p)) for c in self.inst for p in c.packages}
            if self.must == 'none' and self.inst:
                self.bad(('C10',), 'no-convergence', 'installs although everything was installed')
            extra = [x for x in passed if self.before.get(x, True)]
            if extra:
                self.bad(('C10',), 'reinstalls', 'installs %s, which was installed' % extra)
            lost = [x for x in missing if x[1:] not in passed]
            if lost:
                self.bad(('C10',), 'not-installed', 'does not install %s' % lost)
        if self.must and outcome != 'ok':
            self.bad(('C10', 'C09'), 'no-recovery', 'a repeated install without faults fails')
        return 'clean' if outcome == 'ok' and not trouble else 'trouble'

    @staticmethod
    def pkg(c, p):
        return p.rsplit('/', 1)[-1] if c.mgr == 'fake' else p

    # ---------------------------------------------------- order and selection
    def sequence(self, items, outcome, coe, sim):
        """C08, C10: which packages are passed to install commands, and in which order."""
        t, w = self.t, self.w
        first = min([c.step for c in self.inst] + [10 ** 9])
        seen = set()
        status = []
        failed_checks = [m for m in w.plugin_events(t, 'filter') if m[-1]]
        failed_comp = [m for m in w.plugin_events(t, 'commands') if m[-1]]
        for k, i, p in items:
            s = 'must'
            if not self.kw['reinstall'] and i not in BLIND:
                if i == 'fake':
                    s = 'not' if self.before[(i, p)] else 'must'
                else:
                    qs = [c for c in self.cmds if c.kind == 'query' and c.mgr == i
                          and c.argv[-1] != 'check' and c.step < first]
                    rep = {p in c.reported for c in qs if c.reported is not None
                           and c.behaviour not in ('qfail', 'qgarbage', 'qENOENT')}
                    unsure = [c for c in qs if c.reported is None or c.behaviour in (
                        'qfail', 'qgarbage', 'qENOENT')]
                    if any(m[2] == i and p in m[3] for m in failed_checks):
                        s = 'may'
                    elif rep == {True} and not unsure:
                        s = 'not'
                    elif rep == {False} and not unsure:
                        s = 'must'
                    elif not qs and self.before[(i, p)]:
                        s = 'not'
                    else:
                        s = 'may'
            if any(m[2] == i and p in m[3] for m in failed_comp) and s == 'must':
                s = 'may'
            if (i, p) in seen and s == 'must':
                s = 'may'
            seen.add((i, p))
            status.append(s)
        pos = 0
        for c in self.inst:
            for p in c.packages:
                p = self.pkg(c, p)
                j = pos
                while j < len(items) and (items[j][1:] != (c.mgr, p) or status[j] == 'not'):
                    j += 1
                if j == len(items):
                    known = [n for n, x in enumerate(items) if x[1:] == (c.mgr, p)]
                    if known and all(status[n] == 'not' for n in known):
                        return self.bad(('C10',), 'installed-again',
                                        'passes %s of %s, reported as installed' % (p, c.mgr))
                    if known:
                        return self.bad(('C08',), 'order', '%s of %s out of order or twice' % (
                            p, c.mgr))
                    return self.bad(('C08', 'C10', 'C12'), 'unrequested',
                                    '%s of %s was not requested' % (p, c.mgr))
                skipped = [items[n] for n in range(pos, j) if status[n] == 'must']
                if skipped:
                    return self.bad(('C08', 'C10'), 'skipped', '%s is not installed before %s' % (
                        skipped, p))
                pos = j + 1
            self.form(c)
        rest = [items[n] for n in range(pos, len(items)) if status[n] == 'must']
        if sim or not rest or outcome == 'stopped' or outcome == 'exc' or self.t.injected:
            return
        if outcome == 'ok':
            return self.bad(('C09', 'C10'), 'not-passed', 'reports success without installing %s'
                            % rest)
        if coe and not self.w.unresolved(self.t, self.plan)[1] and not self.crashed():
            self.bad(('C08',), 'not-continued', '%s not installed although continuing on errors'
                     % rest)

    def crashed(self):
        """Something that ends the run even when continuing on errors."""
        t = self.t
        return any(m[-1] == 'bug' or m[1] == 'install_prereq' and m[-1]
                   for m in t.meta.get('plugin', [])) or \
            any(c.behaviour in ('qENOENT',) or c.kind in ('probe', 'setup', 'update') and
                (not c.spawned) for c in self.cmds) or \
            not all(self.present.values()) or \
            any(c.kind == 'query' and not c.spawned for c in self.cmds)

    def form(self, c):
        """The command is the one its installer composed for this request."""
        w = self.w
        sudo = w.as_root.get(c.mgr, False) and w.euid != 0
        exp = ['sudo'] if sudo or c.mgr == 's3' else []
        if c.mgr in SIMS:
            exp += [c.mgr + '-get', 'reinstall' if self.kw['reinstall'] else 'install']
            if not self.kw.get('interactive', True):
                exp.append('-y')
            exp += c.packages
            if c.mgr not in BATCH and len(c.packages) != 1:
                self.bad(('C08',), 'form', 'unexpected command %s' % c.argv)
        elif c.mgr == 'fake':
            exp += ['touch'] + [FAKEDIR + '/' + self.pkg(c, p) for p in c.packages]
        elif c.mgr == 'pip':
            exp += ['pip', 'install', '-U'] + c.packages
        else:
            return
        if c.argv != exp:
            self.bad(('C08',), 'form', 'runs %s instead of %s' % (c.argv, exp))

    def stop(self, coe):
        """C08: one at a time, and nothing after a failure."""
        prev = None
        for c in self.inst:
            if prev is not None:
                if prev.rc is None or prev.end_step > c.step:
                    return self.bad(('C08',), 'overlap', '%s is started while %s runs' % (c, prev))
                if prev.rc != 0 and not coe:
                    return self.bad(('C08',), 'continues', '%s is run after %s failed' % (c, prev))
                if c.mgr != prev.mgr and not coe:
                    # the packages of the previous installer have been checked
                    since = max([x.n for x in self.inst if x.n < prev.n and x.mgr != prev.mgr]
                                or [-1])
                    group = [x for x in self.cmds if since < x.n < c.n and x.mgr == prev.mgr]
                    there = {p for i, p in self.before if i == prev.mgr and self.before[i, p]}
                    there.update(p for x in self.inst if x.n < c.n and x.mgr == prev.mgr
                                 for p in x.effect)
                    gone = [p for x in group if x.kind == 'install' for p in x.packages
                            if p not in there]
                    if gone and prev.mgr not in BLIND + ('fake',) and not any(
                            x.behaviour for x in group if x.kind == 'query'):
                        return self.bad(('C08',), 'continues', '%s is run after %s was not '
                                        'installed' % (c, gone))
            prev = c
        fc = [m for m in self.w.plugin_events(self.t, 'commands') if m[-1]]
        if fc and not coe and any(c.step > fc[0][0] for c in self.inst):
            self.bad(('C08',), 'continues', 'commands are run after composing commands failed')

    def interrupt(self, outcome):
        step = min(x[3] for x in self.t.injected if x[0] in ('int', 'intafter'))
        if outcome == 'ok' and self.t.meta['cli']:
            self.bad(('C19',), 'interrupt-status', 'interrupted, but exits with 0')
        if outcome in ('ok', 'errors') and not self.t.meta['cli']:
            self.bad(('C19',), 'interrupt-swallowed', 'interrupted at %s, but returns' % [
                x[:2] for x in self.t.injected])
        late = [c for c in self.cmds if c.kind in ('install', 'setup', 'update')
                and c.step > step]
        if late:
            self.bad(('C19', 'C08'), 'command-after-interrupt', 'starts %s after the interrupt'
                     % late)

    # -------------------------------------------------------------- outcomes
    def success(self, errs, items, bug, interrupted):
        w = self.w
        if errs or bug:
            self.bad(('C09', 'C19', 'C12'), 'false-success', 'reports success, but %s did not '
                     'resolve' % (errs or 'an installer crashed'))
        not_there = [x for x in items if not w.is_installed(*x[1:])]
        if not_there:
            self.bad(('C09', 'C19'), 'false-success', 'reports success, but %s is not installed'
                     % not_there)
        if any(c.rc != 0 for c in self.inst):
            self.bad(('C09', 'C19'), 'false-success', 'reports success although a command failed')
        if any(m[-1] in ('ierror', 'bug', 'perror') for m in self.t.meta.get('plugin', [])):
            self.bad(('C09', 'C19'), 'false-success', 'reports success although a plugin failed: '
                     '%s' % [m for m in self.t.meta['plugin'] if m[-1]])

    def errors(self, errs, items, coe, bug):
        """Whatever failed is named."""
        w, t = self.w, self.t
        if not t.meta['cli']:
            got = [e[0] for e in t.result[1]['resolve']]
            if got != errs:
                self.bad(('C12', 'C09'), 'wrong-errors', 'resolve errors for %s, should be %s' % (
                    got, errs))
                return
        if not self.faulty_start() and not self.crashed():
            for k in errs:
                if not w.named(k, self.text):
                    self.bad(('C09', 'C12'), 'error-not-named', 'no error names key %s' % k)
                    return
        if self.crashed():
            return
        for c in self.inst:
            if c.rc != 0 and not any(w.named(self.pkg(c, p), self.text) for p in c.packages):
                self.bad(('C09',), 'error-not-named', 'no error names the package of %s' % c)
                return
        failing = [c for c in self.inst if c.rc != 0]
        if coe or not failing:
            passed = {(c.mgr, self.pkg(c, p)) for c in self.inst for p in c.packages}
            for k, i, p in items:
                if ((i, p) in passed) and not w.is_installed(i, p) \
                        and not w.named(p, self.text) and not (self.kw.get('simulate')):
                    self.bad(('C09',), 'error-not-named', 'no error names %s, which is not '
                             'installed' % p)
                    return

    def faulty_start(self):
        """The run failed before or while keys were resolved."""
        return bool(self.w.faulted(self.t))

    # ---------------------------------------------------------- prerequisites
    def gate(self, involved, items, errs, outcome):
        """C13."""
        t, w, kw = self.t, self.w, self.kw
        fix = kw['fix_prerequisites'] and not kw.get('simulate')
        first = self.inst[0].step if self.inst else None
        ipre = w.plugin_events(t, 'install_prereq')
        need = {i for _, i, _ in items}
        if first is not None:
            for i in need - {'fake'}:
                probes = [c for c in self.cmds if c.kind == 'probe' and c.mgr == i
                          and c.step < first]
                if not probes:
                    self.bad(('C13',), 'not-checked', 'installs before checking for %s' % i)
                elif not probes[-1].spawned:
                    self.bad(('C13',), 'installs-unsatisfied', 'installs, but %s was not found'
                             % i)
                later = [m for m in ipre if probes and m[0] < probes[0].step]
                if later:
                    self.bad(('C13',), 'check-order', 'install prerequisites of %s are checked '
                             'before %s was looked for' % (later[0][2], i))
            if 'fake' in need and not w.is_dir(FAKEDIR):
                self.bad(('C13',), 'installs-unsatisfied', 'installs without %s' % FAKEDIR)
            for i in {c.mgr for c in self.inst} & set(SIMS):
                if not any(m[2] == i and m[0] < first for m in ipre):
                    self.bad(('C13',), 'not-checked', 'install prerequisites of %s not checked '
                             'before installing' % i)
                checked = {p for m in ipre if m[2] == i and m[0] < first for p in m[4]}
                unchecked = {p for c in self.inst if c.mgr == i for p in c.packages} - checked
                if unchecked:
                    self.bad(('C13',), 'not-checked', 'install prerequisites of %s checked for '
                             '%s, but not for %s' % (i, sorted(checked), sorted(unchecked)))
        bad = [m for m in ipre if m[-1] == 'perror' or m[-1] == 'fixable' and
               not kw['fix_prerequisites']]
        late = [c for c in self.inst if bad and c.step > bad[0][0]]
        if late:
            self.bad(('C13',), 'installs-unsatisfied', 'installs although an install '
                     'prerequisite of %s failed' % bad[0][2])
        # fixes
        setups = [c for c in self.cmds if c.kind in ('setup', 'update')]
        fixed = w.plugin_events(t, 'prereq_fixed')
        made = [m for m in self.sim.mutations if m[1] == t.name and m[2] == 'mkdir']
        if (setups or fixed or made) and not fix:
            self.bad(('C13', 'C11'), 'unrequested-fix', 'fixes %s without being asked to' % (
                setups or fixed or made))
        for c in setups:
            if c.mgr not in involved:
                self.bad(('C13',), 'unrequested-fix', 'fixes %s, which is not involved' % c.mgr)
            elif c.kind == 'setup' and self.present[c.mgr] and not any(
                    x.kind == 'probe' and x.mgr == c.mgr and not x.spawned for x in self.cmds):
                self.bad(('C13',), 'unrequested-fix', 'sets up %s, which is present' % c.mgr)
            elif c.kind == 'update' and c.mgr not in self.outdated and not any(
                    x.behaviour for x in self.cmds if x.mgr == c.mgr and x.kind == 'query'):
                self.bad(('C13',), 'unrequested-fix', 'updates %s, which is up to date' % c.mgr)
        # outcome
        if outcome == 'stopped' or self.t.injected or kw.get('simulate'):
            return
        absent = [i for i in need if not self.present[i]]
        if absent and not fix and not (errs and not kw['continue_on_error']):
            if outcome == 'ok':
                self.bad(('C13', 'C09'), 'prerequisite-ignored', '%s missing, but success'
                         % absent)
            elif not self.w.unresolved(t, self.plan)[1] and not (
                    any(w.named(i, self.text) for i in absent) or self.other_absent()) \
                    or 'Prerequisite' not in self.text and 'not installed' not in self.text:
                if not self.w.unresolved(t, self.plan)[1]:
                    self.bad(('C13',), 'not-named', 'does not name the missing %s' % absent)
        if bad and outcome == 'ok':
            self.bad(('C13', 'C09'), 'prerequisite-ignored', 'an install prerequisite failed, '
                     'but success')
        elif bad and not w.named(bad[0][2], self.text):
            self.bad(('C13',), 'not-named', 'does not name %s' % bad[0][2])

    def other_absent(self):
        return any(c.kind == 'probe' and not c.spawned for c in self.cmds) or \
            not self.present.get('fake', True)
