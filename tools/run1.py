"""Run seeds of a world in this process: run1.py WORLD FROM TO [-t]"""
import sys, os, time, collections
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from xsim import rt
rt.setup()
w, a, b = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
base = rt.scratch_base()
st = collections.Counter(); t0 = time.time(); nv = 0
try:
    for s in range(a, b):
        r = rt.run_one(w, s, base, trace='-t' in sys.argv)
        st.update(r.stats)
        if r.violations or '-t' in sys.argv:
            print('SEED', s, r.violations[:3], r.digest[:12])
            nv += bool(r.violations)
            if '-t' in sys.argv: print('\n'.join(r.trace))
finally:
    import shutil; shutil.rmtree(base)
dt = time.time() - t0
print('runs/s', (b - a) / dt, 'violating', nv)
if '-s' in sys.argv: print(sorted(st.items()))
