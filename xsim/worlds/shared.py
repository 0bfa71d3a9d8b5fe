"""Calls sharing a database, contexts and configurations: in sequence and in threads."""
import os

import yaml

from .. import programs, rules
from .install import BASE, FAKEDIR, URL, InstallWorld

KW = ('reinstall', 'continue_on_error', 'fix_prerequisites')


class SharedWorld(InstallWorld):
    groups = ()
    sessions = 0
    threads = False
    lines = False
    faulty = 0
    trouble = 60

    def go(self):
        ch, sim = self.ch, self.sim
        self.schedule()
        self.build()
        for k in sorted(self.rules):
            if ch.chance(120):
                # no installer of the simulation can resolve this key
                for vd in self.rules[k].values():
                    for idict in vd.values():
                        for rule in idict.values():
                            if 'tag' in rule:
                                rule['tag'] = {'not': 'a string'}
        self.net.put(URL, rules.render(ch, self.rules).encode())
        second = {k: self.gen_key(k, False) for k in ch.shuffle(rules.KEYS)[:ch.range(0, 3)]}
        self.second = second
        sim.write_file('/xsim/data/second.yaml', rules.render(ch, second))
        name = ch.choice(['0-before.yaml', 'b-after.yaml'])
        sim.write_file(BASE + '/sources.d/' + name,
                       yaml.safe_dump([{'simspec': {'path': '/xsim/data/second.yaml'}}]))
        self.on = set()
        sim.plugin_rows = lambda t, what: [('ierror', 0.2), ('bug', 0.1)] if \
            t.name in self.on and self.faulty and 'int' not in self.groups else []
        t = self.alone('update', programs.update, (self.argv,))
        if self.failed(t):
            raise RuntimeError('preparation failed: %s' % (t.status,))
        self.variants()
        self.configure_faults()
        self.fault_rows_for_calls = self.sim.fault_rows
        self.sim.fault_rows = []
        sim.observers.append(self.observe)
        for i in range(ch.range(1, 2)):
            self.round()
            if sim.violations:
                break
        self.check_escapes()

    def variants(self):
        """Configurations which share the sources, but not the machine they describe."""
        ch = self.ch
        self.argvs = [self.argv]
        for i in range(ch.weighted([(1, 5), (0, 3), (2, 2)])):
            a = list(self.argv)
            if ch.chance(700):
                if '--os' in a:
                    j = a.index('--os')
                    del a[j:j + 2]
                a += ['--os', ch.choice(['simos:one', 'simder:two', 'simder', 'osx:lion',
                                         'simos:three'])]
            if ch.chance(400):
                a += ['--install-from', '{%s: [%s]}' % (
                    ch.choice(['s1', 's2', 's3', 'nosuch']), ', '.join(
                        ch.subset(sorted(self.rules), 600) or ['zed']))]
            if ch.chance(350):
                a += ['--core-installers', ch.choice([
                    '[s2]', '[s2, s1]', '[pip, s1]', '[nosuch, s1]', '[s3, nosuch, s1]',
                    '[s1, s1]'])]
            self.argvs.append(a)
        self.tell('configurations', self.argvs[1:])

    def configure_faults(self):
        ch = self.ch
        rows = []
        if self.faulty:
            rows = self.err_rows(('open', 'read'), 'cache', 0.1) + \
                self.err_rows(('openw', 'write', 'rename'), 'cache', 0.1) + \
                [({'connect', 'recv'}, 'err:ECONNRESET', 0.2),
                 ({'spawn'}, 'err:ENOMEM', 0.1)]
            if 'int' in self.groups:
                rows = [({'line', 'plugin', 'spawn', 'open', 'read', 'out'}, 'int', 0.05),
                        ({'*'}, 'int', 0.02)]
        self.sim.pathclass = lambda p: 'cache' if p.startswith(BASE + '/cache') else \
            'conf' if p.startswith(BASE) else ''
        self.swarm(rows, (1, 2, 3))
        if 'int' in self.groups:
            self.sim.fault_rows = rows

    def observe(self, sim, t, kind, args):
        """Calls chosen to fail have faults; the others have not."""
        if kind == 'mark':
            if args[0] == 'op' and (args[1], args[2]) in self.chosen_calls:
                self.on.add(t.name)
            else:
                self.on.discard(t.name)
        sim.fault_rows = self.fault_rows_for_calls if t.name in self.on else []

    # ----------------------------------------------------------------- rounds
    def gen_op(self, mutable):
        ch = self.ch
        keys = sorted(set(self.rules) | set(self.second)) + ['unknown']
        v = ch.int(len(self.argvs))
        key = lambda: ch.choice(keys)
        some = lambda: [key() for _ in range(ch.range(1, 4))]
        table = [('lookup', 5), ('compact', 2), ('keys', 2), ('flookup', 2), ('resolve', 6),
                 ('sresolve', 1), ('install', 4), ('filter', 1), ('depends', 1), ('context', 1),
                 ('reload', 1)]
        if mutable:
            table += [('update', 1), ('setup', 1), ('real', 3)]
        elif not self.threads:
            table += [('update', 1)]
        name = ch.weighted(table)
        if name in ('lookup', 'compact', 'depends'):
            return (name, v, key())
        if name == 'flookup':
            return (name, v, key(), ch.chance(500))
        if name in ('resolve', 'sresolve'):
            return (name, v, some(), ch.chance(200))
        if name == 'filter':
            return (name, v, some())
        if name in ('install', 'real'):
            kw = {k: True for k in KW if ch.chance(250)}
            if name == 'install':
                kw['simulate'] = True
            if ch.chance(300):
                kw['interactive'] = False
            return ('install', v, some(), ch.chance(150), sorted(kw.items()), ch.chance(700))
        return (name, v)

    @staticmethod
    def real(op):
        return op[0] == 'install' and not dict(op[4]).get('simulate')

    def snapshot(self):
        ms, real = self.pm.managers, self.sim.real(FAKEDIR)
        fake = \
            sorted(os.listdir(real)) if os.path.isdir(real) else None
        return ({k: (m.present, m.updated, set(m.installed)) for k, m in ms.items()}, fake)

    def restore(self, snap):
        for k, (a, b, c) in snap[0].items():
            m = self.pm.managers[k]
            m.present, m.updated, m.installed = a, b, set(c)
        if snap[1] is None:
            self.sim.remove(FAKEDIR)
        else:
            for f in sorted(os.listdir(self.sim.real(FAKEDIR))):
                if f not in snap[1]:
                    self.sim.remove(FAKEDIR + '/' + f)

    def round(self):
        ch, sim = self.ch, self.sim
        many = self.threads and ch.chance(900)
        if many:
            pool = [self.gen_op(False) for _ in range(ch.range(1, 4))]
            seqs = [[ch.choice(pool) if ch.chance(700) else self.gen_op(False)
                     for _ in range(ch.range(1, 3))] for _ in range(ch.range(2, 3))]
        else:
            pool = [self.gen_op(False) for _ in range(ch.range(1, 3))]
            seqs = [[ch.choice(pool) if ch.chance(500) else self.gen_op(True)
                     for _ in range(ch.range(2, 7))]]
        self.chosen_calls = set()
        if self.faulty:
            for i, s in enumerate(seqs):
                for j, op in enumerate(s):
                    if not self.real(op) and op[0] != 'setup' and ch.chance(self.faulty):
                        self.chosen_calls.add((i, j))
        self.tell('calls', seqs, 'faulty', sorted(self.chosen_calls))
        snap = self.snapshot()
        commands = []
        want = self.reference(seqs, commands)
        self.restore(snap)
        n = len(self.pm.commands)
        self.sim.fault_rows = []
        self.on.clear()
        t = self.start('shared', programs.shared, (self.argvs, seqs, self.lines),
                       euid=self.euid, threads=len(seqs) if many else 0)
        sim.run()
        sim.fault_rows = []
        self.on.clear()
        self.judge(t, seqs, want, self.pm.commands[n:], commands)

    def reference(self, seqs, commands):
        """Every call on fresh objects in a process of its own."""
        memo, want = {}, {}
        for i, s in enumerate(seqs):
            for j, op in enumerate(s):
                if repr(op) in memo and not any(self.real(o) for o in s):
                    want[i, j] = memo[repr(op)]
                    continue
                n = len(self.pm.commands)
                t = self.alone('fresh', programs.fresh, (self.argvs, op), euid=self.euid)
                want[i, j] = memo[repr(op)] = t.result[1] if t.result and \
                    t.result[0] == 'ok' else ('broken', t.result)
                commands.append([c.argv for c in self.pm.commands[n:] if c.kind == 'install'])
        return want

    def judge(self, t, seqs, want, commands, refcommands):
        sim = self.sim
        bad = lambda cls, msg: sim.violate(('C20',), cls, '%s: %s' % (t.name, msg))
        if t.result is None or t.result[0] != 'ok':
            if any(w[0] == 'broken' for w in want.values()):
                return       # not even fresh objects can be created
            return bad('shared-fails', 'calls on shared objects end with %s' %
                       str(t.result)[:1500])
        r = t.result[1]
        hit = [x for u in [t] + list(t.threads) for x in u.injected]
        for i, s in enumerate(seqs):
            got = r['results'][i]
            if not isinstance(got, list):
                bad('thread-dies', 'thread %d: %s' % (i, str(got)[:1500]))
                continue
            for j, op in enumerate(s):
                a, b = tuple(got[j]), tuple(want[i, j])
                self.state('shared', op[0], a[0], len(seqs), (i, j) in self.chosen_calls)
                if (i, j) in self.chosen_calls:
                    continue
                if a != b:
                    bad('answer-differs', 'call %s (%d of %d in thread %d of %d) gives %s, on '
                        'fresh objects %s' % (op, j + 1, len(s), i, len(seqs),
                                              str(a)[:900], str(b)[:900]))
        for which, was, now in r['changed']:
            bad('result-modified', 'an object of call %s changed from %s to %s' % (
                which, str(was)[:500], str(now)[:500]))
        for what, a, b in r['state']:
            bad('shared-modified', '%s changed from %s to %s' % (what, str(a)[:700],
                                                                 str(b)[:700]))
        if not self.chosen_calls and len(seqs) == 1:
            a = [c.argv for c in commands if c.kind == 'install']
            b = [c for cs in refcommands for c in cs]
            if a != b:
                bad('commands-differ', 'runs %s, with fresh objects %s' % (a, b))
        if not hit and self.chosen_calls:
            sim.hit('nofault')
