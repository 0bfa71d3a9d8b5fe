META = {"property": "C03",
        "needs": "two updates storing the same source at the same time",
        "what_it_breaks": "one update moves away the temporary file of the other, which fails to store"}
EDITS = [("xylem/sources/database.py", """        cache_path = self.cache_file_path()
        _write_cache(cache_data, cache_path)
""", """        cache_path = self.cache_file_path()
        _write_cache(cache_data, cache_path + '.new')
        # only ever replace an entry by a readable one
        _read_cache(cache_path + '.new')
        os.rename(cache_path + '.new', cache_path)
""")]
# ---
u = rules('r.yaml', {'a': pkg('a')})
sources(a=[u])
check(run('update')[0] == 0)
go = os.path.join(SCRATCH, 'go')
there = os.path.join(SCRATCH, 'there')
pre = ("import os, time\n"
       "def wrap(real):\n"
       "    def f(*a, **k):\n"
       "        real(*a, **k)\n"
       "        open(%r, 'w').close()\n"
       "        while not os.path.exists(%r): time.sleep(0.02)\n"
       "    return f\n"
       "os.rename, os.replace = wrap(os.rename), wrap(os.replace)\n" % (there, go))
p = popen(*(base() + ['update']), pre=pre)
end = time.time() + 60
while not os.path.exists(there) and p.poll() is None and time.time() < end:
    time.sleep(0.02)
second = run('update')
open(go, 'w').close()
out, err = p.communicate(timeout=60)
check(p.returncode == 0 and 'Failed' not in out + err, 'first update:', out, err)
check(second[0] == 0 and 'Failed' not in second[1] + second[2], second)
check(run('resolve', 'a')[0] == 0)
