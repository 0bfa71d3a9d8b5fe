META = {"property": "C07",
        "needs": "a cache in which one of several sources has never been stored",
        "what_it_breaks": "a source without cache entry is skipped with a warning and lower priority rules are used"}
EDITS = [("xylem/sources/database.py", """    def load_from_cache(self):
        for source in self.sources:
            try:
                source.load_from_cache()
""", """    def load_from_cache(self):
        for source in list(self.sources):
            if len(self.sources) > 1 and not source.is_cache_available():
                warning("Source '{0}' is not cached; run `xylem update`.".
                        format(source.unique_id()))
                self.sources.remove(source)
                continue
            try:
                source.load_from_cache()
""")]
# ---
one = 'file://%s/nowhere.yaml' % SCRATCH
two = rules('2.yaml', {'k': pkg('second')})
sources(a=[one, two])
run('update')
r = run('resolve', 'k')
check(r[0] != 0, r)
