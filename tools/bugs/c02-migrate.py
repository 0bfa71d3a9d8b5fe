META = {"property": "C02",
        "needs": "a source whose new rules are empty, and a process that dies while storing them",
        "what_it_breaks": "the old entry was removed before the new one is stored, so that none is left"}
EDITS = [("xylem/sources/database.py", """        cache_path = self.cache_file_path()
        _write_cache(cache_data, cache_path)
""", """        if not self.data:
            # nothing that could be worth keeping
            self.clear_cache()
        _write_cache(cache_data, self.cache_file_path())
""")]
# ---
u = rules('r.yaml', {'a': pkg('one')})
sources(a=[u])
check(run('update')[0] == 0)
rules('r.yaml', '{}')
pre = ("import os; os.fsync = lambda *a: os._exit(9)\n")
r = run('update', pre=pre)
check(r[0] == 9, r)
check(len([f for f in os.listdir(os.path.join(CACHE, 'sources')) if f.endswith('.pickle')]) == 1, r)
r = run('lookup', 'a')
check('one' in r[1], r)
