"""sweep.py WORLD FROM TO: run seeds in 8 lanes, print violations grouped by class."""
import sys, os, queue, time, collections
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from xsim import runner
def sweep(w, a, b, show=2):
    q = queue.Queue(); t0 = time.time()
    runs = [(i, w, '%s' % i) for i in range(a, b)]
    lanes = {l: runner.Lane(l, {'op': 'run', 'runs': runs[l::8]}, q) for l in range(8) if runs[l::8]}
    live = set(lanes); by = collections.defaultdict(list); st = collections.Counter(); n = 0; nt = 0; states=set()
    while live:
        l, d = q.get()
        if d is None or d.get('end'):
            live.discard(l); continue
        if 'error' in d:
            print('ERROR lane', l, d['error']); live.discard(l); continue
        n += 1; nt += d['nontrivial']; st.update(d['stats']); states.update(d['states'])
        for v in d['violations'][:1]:
            by[v['cls']].append((d['seed'], l, v))
    for l in lanes.values(): l.stop()
    print(w, n, 'runs', '%.1f/s' % (n / (time.time() - t0)), 'nontrivial', nt, 'states', len(states))
    for c, vs in sorted(by.items()):
        print('  **', c, len(vs))
        for s, l, v in vs[:show]:
            print('     seed %s hs %s %s: %s' % (s, runner.lane_hashseed(l), ','.join(v['tags']), v['msg'][:500]))
    return st
if __name__ == '__main__':
    st = collections.Counter()
    for w in sys.argv[1].split(','):
        st.update(sweep(w, int(sys.argv[2]), int(sys.argv[3])))
    if '-s' in sys.argv: print({k: v for k, v in sorted(st.items())})
