"""Decides one property: seeded search over simulated executions, in several lanes."""
import json
import os
import queue
import re
import shutil
import subprocess
import sys
import threading
import time
from collections import Counter

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PYTHON = '/opt/venv/bin/python'
LANES = 8
ERROR_EXIT = 3


def lane_hashseed(lane):
    return str(17 + 1009 * lane)


class Lane(object):
    """A worker process and what it reports."""

    def __init__(self, lane, job, out, hashseed=None):
        self.lane = lane
        env = {k: v for k, v in os.environ.items()
               if k in ('PATH', 'LANG', 'XSIM_REPO', 'TMPDIR')}
        env['PYTHONHASHSEED'] = hashseed or lane_hashseed(lane)
        env['PYTHONDONTWRITEBYTECODE'] = '1'
        self.err = []
        self.base = None
        self.p = subprocess.Popen(
            [PYTHON, os.path.join(HERE, 'xsim', 'worker.py')], stdin=subprocess.PIPE,
            stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=HERE)
        self.p.stdin.write((json.dumps(job) + '\n').encode())
        self.p.stdin.close()
        self.out = out
        self.t = threading.Thread(target=self._read, daemon=True)
        self.t.start()
        self.e = threading.Thread(target=self._errors, daemon=True)
        self.e.start()

    def _errors(self):
        for line in self.p.stderr:
            self.err.append(line.decode('utf-8', 'replace'))
            del self.err[:-60]

    def _read(self):
        for line in self.p.stdout:
            try:
                d = json.loads(line.decode())
            except ValueError:
                continue
            if 'base' in d and len(d) == 1:
                self.base = d['base']
                continue
            self.out.put((self.lane, d))
        self.p.wait()
        self.out.put((self.lane, None))

    def stop(self):
        try:
            self.p.terminate()
            try:
                self.p.wait(5)
            except subprocess.TimeoutExpired:
                self.p.kill()
                self.p.wait()
        except OSError:
            pass
        self.clean()

    def clean(self):
        if self.base and os.path.basename(self.base).startswith('xsim-'):
            shutil.rmtree(self.base, ignore_errors=True)


def ask(job, lane=0, hashseed=None, timeout=600):
    """One answer of a fresh worker process."""
    q = queue.Queue()
    l = Lane(lane, job, q, hashseed)
    try:
        _, d = q.get(timeout=timeout)
    except queue.Empty:
        d = {'error': 'no answer of the worker in %d s' % timeout}
    finally:
        l.stop()
    if d is None:
        d = {'error': 'worker died: ' + ''.join(l.err[-20:])}
    return d


def load_known():
    """[(property, class, regex, line)] of findings which are recorded, not repaired."""
    out = []
    try:
        with open(os.path.join(HERE, 'known_findings.txt'), encoding='utf-8') as f:
            for line in f:
                m = re.match(r'known: property=(\S+) class=(\S+) match=/(.*)/ (.*)', line)
                if m:
                    out.append(m.groups())
    except FileNotFoundError:
        pass
    return out


def plan(pid, tier, seed):
    from . import profiles
    worlds = profiles.CHECKS[pid]
    n = profiles.runs(pid, tier)
    total = sum(w for _, w in worlds)
    order = []
    acc = {name: 0.0 for name, _ in worlds}
    for i in range(n):
        for name, w in worlds:
            acc[name] += w / total
        best = max(worlds, key=lambda x: (acc[x[0]], x[1]))[0]
        acc[best] -= 1.0
        order.append((i, best, '%d.%d' % (seed, i)))
    return order


def main(argv):
    pid = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in argv:
        tier = argv[argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    from . import profiles
    if pid not in profiles.CHECKS:
        print('unknown property', pid)
        return ERROR_EXIT
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    limit = 240 if tier == 'quick' else 700
    shrink_budget = 40 if tier == 'quick' else 90
    t0 = time.monotonic()
    runs = plan(pid, tier, seed)
    known = [k for k in load_known() if k[0] == pid]
    q = queue.Queue()
    lanes = {}
    for l in range(LANES):
        mine = runs[l::LANES]
        if mine:
            lanes[l] = Lane(l, {'op': 'run', 'runs': mine}, q)
    live = set(lanes)
    stats, digests, scheds, states, samples, worlds = Counter(), set(), set(), set(), [], Counter()
    found, known_hits, error = None, {}, None
    evaluations, nontrivial, sim_time = 0, set(), 0.0
    truncated = False
    try:
        while live:
            left = limit - (time.monotonic() - t0)
            if left <= 0:
                truncated = True
                break
            try:
                lane, d = q.get(timeout=min(left, 5))
            except queue.Empty:
                continue
            if d is None or d.get('end'):
                if d is None and lane in live:
                    error = 'lane %d died: %s' % (lane, ''.join(lanes[lane].err[-30:]))
                live.discard(lane)
                continue
            if 'error' in d:
                error = d['error']
                live.discard(lane)
                continue
            evaluations += 1
            worlds[d['world']] += 1
            stats.update(d['stats'])
            sim_time += d['sim_time']
            digests.add(d['digest'])
            scheds.add(d['sched'])
            states.update(d['states'])
            if d['nontrivial']:
                nontrivial.add(d['digest'])
            if d.get('sample') and len(samples) < 8:
                samples.append('%s seed %s: %s' % (d['world'], d['seed'], d['sample']))
            for v in d['violations']:
                if pid not in v['tags']:
                    continue
                k = [k for k in known if k[1] == v['cls'] and re.search(k[2], v['msg'])]
                if k:
                    known_hits[k[0]] = known_hits.get(k[0], 0) + 1
                    continue
                if found is None or d['idx'] < found[0]['idx']:
                    found = (d, v, lane)
                break
            if found is not None:
                # earlier runs may still find something simpler; do not wait for more
                break
    finally:
        for l in lanes.values():
            l.stop()
    wall = time.monotonic() - t0
    status = 0
    for k in known_hits:
        print('KNOWN-FINDING: property=%s %s' % (pid, k[3]))
    replay = None
    if found is not None:
        d, v, lane = found
        replay = report(pid, d, v, lane, shrink_budget)
        status = 1
    elif error is not None:
        print('ERROR: ' + error)
        status = ERROR_EXIT
    evidence(pid, tier, seed, wall, evaluations, nontrivial, stats, digests, scheds, states,
             samples, sim_time, worlds, truncated, 1 if status == 1 else 0, known_hits, len(runs))
    if status == 0:
        print('property=%s held on %d simulated runs (%d distinct non-trivial), %.0f s' % (
            pid, evaluations, len(nontrivial), wall))
    elif status == 1:
        print('VIOLATION property=%s replay=%s' % (pid, replay))
    return status


def report(pid, d, v, lane, budget):
    os.makedirs(os.path.join(HERE, 'evidence', 'replays'), exist_ok=True)
    path = os.path.join(HERE, 'evidence', 'replays', '%s-%s-%s.json' % (
        pid, d['world'], d['seed'].replace('/', '_')))
    out = {'property': pid, 'world': d['world'], 'seed': d['seed'],
           'hashseed': lane_hashseed(lane), 'cls': v['cls'], 'msg': v['msg'],
           'tags': v['tags'], 'rec': d['rec'], 'digest': d['digest'], 'minimised': False}
    s = ask({'op': 'shrink', 'world': d['world'], 'seed': d['seed'], 'rec': d['rec'],
             'property': pid, 'cls': v['cls'], 'budget': budget}, lane,
            timeout=budget + 180)
    if s.get('ok'):
        out.update(rec=s['rec'], digest=s['digest'], msg=s['msg'], minimised=True,
                   runs_to_minimise=s['tried'], size_before=s['before'], size_after=s['after'])
    r = ask({'op': 'replay', 'world': d['world'], 'seed': d['seed'], 'rec': out['rec'],
             'trace': True}, lane)
    again = [x for x in r.get('violations', []) if x['cls'] == v['cls'] and pid in x['tags']]
    out['confirmed'] = bool(again) and (not out['minimised'] or r['digest'] == out['digest'])
    if again:
        out['digest'] = r['digest']
        out['story'] = r.get('sample')
        out['trace'] = r.get('trace', [])[-400:]
    with open(path, 'w', encoding='utf-8') as f:
        json.dump(out, f, indent=1)
    print('%s violated: %s: %s' % (pid, out['cls'], out['msg']))
    print('  world %s, seed %s%s; %s' % (
        d['world'], d['seed'], ', minimised' if out['minimised'] else '',
        'confirmed by replay' if out['confirmed'] else 'NOT reproduced by replay'))
    print('  faults: %s' % json.dumps(out['rec']['fault'])[:600])
    return path


def evidence(pid, tier, seed, wall, evaluations, nontrivial, stats, digests, scheds, states,
             samples, sim_time, worlds, truncated, violations, known_hits, planned):
    from . import profiles
    faults = {k[6:]: v for k, v in sorted(stats.items()) if k.startswith('fault:')}
    if stats.get('power_loss'):
        faults['power_loss'] = stats['power_loss']
    cov = {
        'evaluations': evaluations,
        'distinct_nontrivial': len(nontrivial),
        'rule': 'One evaluation is one simulated execution of a world drawn from one seed '
                '(workload, schedule, faults and environment are all drawn from it). It is '
                'non-trivial if at least one fault fired or at least one context switch '
                'between simulated processes or threads took place; distinct by the hash of '
                'the complete event log.',
        'samples': samples or ['none'],
        'planned_runs': planned,
        'stopped_by_time_limit': truncated,
        'runs_per_hour': int(evaluations / wall * 3600) if wall else 0,
        'simulated_seconds': round(sim_time, 1),
        'faults_fired': faults,
        'faults_total': sum(faults.values()),
        'distinct_event_logs': len(digests),
        'distinct_interleavings': len(scheds),
        'interleaving_measure': 'hash of the sequence of simulated processes/threads chosen '
                                'whenever more than one could run',
        'distinct_states': len(states),
        'state_measure': profiles.STATE_MEASURE,
        'events': stats.get('steps', 0),
        'context_switches': stats.get('switches', 0),
        'simulated_processes': stats.get('processes', 0),
        'probes': {k: v for k, v in sorted(stats.items()) if k.startswith('probe:')},
        'runs_per_world': dict(worlds),
        'real_components': profiles.REAL,
        'stubs': profiles.STUBS,
        'known_findings_seen': sum(known_hits.values()),
    }
    d = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': cov,
         'assumptions': profiles.ASSUMPTIONS, 'wall_s': round(wall, 2),
         'violations': violations}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w', encoding='utf-8') as f:
        json.dump(d, f, indent=1)


def replay_main(argv):
    """replay FILE: run the recorded execution again; exit 1 if it fails the same way."""
    with open(argv[0], encoding='utf-8') as f:
        d = json.load(f)
    r = ask({'op': 'replay', 'world': d['world'], 'seed': d['seed'], 'rec': d['rec'],
             'trace': True}, hashseed=d['hashseed'])
    if 'error' in r:
        print(r['error'])
        return ERROR_EXIT
    if '-q' not in argv:
        print('\n'.join(r['trace']))
    again = [x for x in r['violations'] if x['cls'] == d['cls'] and d['property'] in x['tags']]
    for x in r['violations']:
        print('%s %s: %s' % (','.join(x['tags']), x['cls'], x['msg']))
    print('same event log' if r['digest'] == d['digest'] else 'DIFFERENT event log')
    if again:
        print('VIOLATION property=%s replay=%s' % (d['property'], argv[0]))
        return 1
    print('not reproduced on this tree')
    return 0


def selftest():
    """The simulator works here: one run of some world, twice, with the same event log."""
    from . import profiles
    world = profiles.CHECKS[sorted(profiles.CHECKS)[0]][0][0]
    rec = {'op': 'run', 'runs': [(0, world, 'selftest')]}
    a, b = ask(rec, 0), ask(rec, 0)
    if 'error' in a or a.get('digest') != b.get('digest'):
        print('selftest failed: %s %s' % (str(a)[:2000], b.get('digest')))
        return ERROR_EXIT
    print('selftest ok', a['digest'][:16])
    return 0
