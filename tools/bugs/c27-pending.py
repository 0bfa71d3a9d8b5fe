META = {"property": "C27",
        "needs": "storing an entry fails or is interrupted",
        "what_it_breaks": "a marker file is left in the cache directory"}
EDITS = [("xylem/sources/database.py", """        cache_path = self.cache_file_path()
        _write_cache(cache_data, cache_path)
""", """        cache_path = os.path.abspath(self.cache_file_path())
        pending = _mark_pending(cache_path)
        _write_cache(cache_data, cache_path)
        os.remove(pending)
"""), ("xylem/sources/database.py", """def _create_cache_data(xylem_version,
""", """def _mark_pending(cache_path):
    pending = cache_path + '.pending'
    open(pending, 'w').close()
    return pending


def _create_cache_data(xylem_version,
""")]
# ---
u = rules('r.yaml', {'a': pkg('a')})
sources(a=[u])
pre = ("import os\n"
       "def fail(*a):\n"
       "    raise OSError(28, 'No space left on device')\n"
       "os.fsync = fail\n")
r = run('update', pre=pre)
check(r[0] == 0 and os.listdir(os.path.join(CACHE, 'sources')) == [], r,
      os.listdir(os.path.join(CACHE, 'sources')))
