META = {"property": "C11",
        "needs": "a query before the first update, i.e. without a cache directory",
        "what_it_breaks": "the query creates the cache directory"}
EDITS = [("xylem/sources/database.py", """    def load_from_cache(self):
        for source in self.sources:
""", """    def load_from_cache(self):
        self.sources_context.ensure_cache_dir()
        for source in list(self.sources):
""")]
# ---
u = rules('r.yaml', {'a': pkg('a')})
sources(a=[u])
had = sorted(os.listdir(CONF))
r = run('lookup', 'a')
check(r[0] != 0, r)
check(sorted(os.listdir(CONF)) == had, os.listdir(CONF))
r = run('install', '--simulate', 'a')
check(sorted(os.listdir(CONF)) == had, os.listdir(CONF))
