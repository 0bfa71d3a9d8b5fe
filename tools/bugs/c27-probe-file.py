META = {"property": "C27",
        "needs": "storing an entry fails or is interrupted",
        "what_it_breaks": "the file that probes the cache directory is left behind"}
EDITS = [("xylem/sources/database.py", """        cache_path = self.cache_file_path()
        _write_cache(cache_data, cache_path)
""", """        cache_path = os.path.abspath(self.cache_file_path())
        # fail early if the directory is not writable
        probe = "{0}.{1}.probe".format(cache_path, os.getpid())
        open(probe, 'wb').close()
        _write_cache(cache_data, cache_path)
        os.remove(probe)
""")]
# ---
u = rules('r.yaml', {'a': pkg('a')})
sources(a=[u])
check(run('update')[0] == 0)
d = os.path.join(CACHE, 'sources')
had = sorted(os.listdir(d))
pre = ("import resource; resource.setrlimit(resource.RLIMIT_FSIZE, (10, 10))\n"
       "import signal; signal.signal(signal.SIGXFSZ, signal.SIG_IGN)\n")
r = run('update', pre=pre)
check(sorted(os.listdir(d)) == had, os.listdir(d), r)
check(run('resolve', 'a')[0] == 0)
