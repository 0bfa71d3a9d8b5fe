"""determinism.py [WORLDS] FROM TO: every seed twice, in other workers, in another order and with another
number of lanes, and once more under another PYTHONHASHSEED; the event logs must be the same.

The second comparison holds where nothing of the run depends on the order of a set of strings; differences
are counted, not failed: a replay file names its hash seed."""
import os, queue, sys, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from xsim import runner, profiles


def digests(world, seeds, lanes, hashseed):
    q = queue.Queue()
    jobs = [[(i, world, str(s)) for i, s in enumerate(seeds[l::lanes])] for l in range(lanes)]
    ws = {l: runner.Lane(l, {'op': 'run', 'runs': j}, q, hashseed) for l, j in enumerate(jobs) if j}
    live, out = set(ws), {}
    while live:
        l, d = q.get()
        if d is None or d.get('end'):
            live.discard(l)
        elif 'error' in d:
            print(d['error'])
            sys.exit(2)
        else:
            out[d['seed']] = d['digest']
    for w in ws.values():
        w.stop()
    return out


def main():
    worlds = sys.argv[1].split(',') if len(sys.argv) > 3 else \
        sorted({w for c in profiles.CHECKS.values() for w, _ in c})
    seeds = list(range(int(sys.argv[-2]), int(sys.argv[-1])))
    bad = 0
    for w in worlds:
        t0 = time.time()
        a = digests(w, seeds, 8, '17')
        b = digests(w, seeds[::-1], 5, '17')
        c = digests(w, seeds, 8, '4242')
        d = [s for s in a if a[s] != b.get(s)]
        h = [s for s in a if a[s] != c.get(s)]
        bad += len(d)
        print('%s: %d seeds, %d differ %s; other hash seed: %d differ %s (%.0f s)'
              % (w, len(a), len(d), d[:5], len(h), h[:5], time.time() - t0), flush=True)
    sys.exit(1 if bad else 0)


if __name__ == '__main__':
    main()
