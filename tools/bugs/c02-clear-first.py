META = {"property": "C02",
        "needs": "a write error or a kill while an already cached source is stored again",
        "what_it_breaks": "the previous cache entry is lost when storing the new one does not succeed"}
EDITS = [("xylem/sources/database.py", """        cache_path = self.cache_file_path()
        _write_cache(cache_data, cache_path)
""", """        # never keep the data of an outdated rules file
        self.clear_cache()
        _write_cache(cache_data, self.cache_file_path())
""")]
# ---
u = rules('r.yaml', {'a': pkg('a')})
sources(a=[u])
check(run('update')[0] == 0)
check(run('resolve', 'a')[0] == 0)
rules('r.yaml', {'a': pkg('b')})
pre = ("import os, errno\n"
       "def full(fd):\n"
       "    raise OSError(errno.ENOSPC, 'No space left on device')\n"
       "os.fsync = full\n"
       "os.ftruncate = full\n")
pre += "import resource; resource.setrlimit(resource.RLIMIT_FSIZE, (10, 10))\n"
pre += "import signal; signal.signal(signal.SIGXFSZ, signal.SIG_IGN)\n"
r = run('update', pre=pre)
r = run('resolve', 'a')
check(r[0] == 0, 'nothing left after a failed update', r)
