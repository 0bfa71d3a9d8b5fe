META = {"property": "C02",
        "needs": "an update of a source with a stored entry that is killed or fails while storing",
        "what_it_breaks": "the entry is moved away while the new one is written, and is gone if that does not succeed"}
EDITS = [("xylem/sources/database.py", """            self.time_data_loaded)
        cache_path = self.cache_file_path()
        _write_cache(cache_data, cache_path)
""", """            self.time_data_loaded)
        cache_path = self.cache_file_path()
        # keep the previous version for inspection
        if os.path.exists(cache_path):
            os.rename(cache_path, cache_path + '.old')
        _write_cache(filepath=cache_path, cache_data=cache_data)
""")]
# ---
u = rules('r.yaml', {'a': pkg('a')})
sources(a=[u])
check(run('update')[0] == 0)
before = [n for n in os.listdir(os.path.join(CACHE, 'sources')) if n.endswith('.pickle')]
check(len(before) == 1, before)
rules('r.yaml', {'a': pkg('a2')})
pre = ("import os, signal\n"
       "def die(fd): os.kill(os.getpid(), signal.SIGKILL)\n"
       "os.fsync = die\n")
p = popen(*(base() + ['update']), pre=pre)
p.communicate(timeout=60)
check(p.returncode == -signal.SIGKILL, p.returncode)
r = run('resolve', 'a')
check(r[0] == 0 and 'a' in r[1], r)
