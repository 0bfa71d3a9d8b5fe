META = {"property": "C07",
        "needs": "a source without stored entry and more sources, querying",
        "what_it_breaks": "the missing entry is replaced by rules that were never stored, fetched by the query itself"}
EDITS = [("xylem/sources/database.py", """    def load_from_cache(self):
        cache_data = _read_cache(self.cache_file_path())
""", """    def load_from_cache(self):
        if not self.is_cache_available():
            return self.load_from_source()
        cache_data = _read_cache(filepath=self.cache_file_path())
""")]
# ---
u = rules('1.yaml', {'a': pkg('a')})
v = rules('2.yaml', {'b': pkg('b')})
sources(a=[u])
check(run('update')[0] == 0)
sources(b=[v])
r = run('lookup', 'a')
check(r[0] != 0, r)
r = run('resolve', 'b')
check(r[0] != 0, r)
check(run('update')[0] == 0)
r = run('resolve', 'b')
check(r[0] == 0, r)
