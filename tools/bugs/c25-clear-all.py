META = {"property": "C25",
        "needs": "clearing a source that has no entry while others have one",
        "what_it_breaks": "clearing one source removes entries of other sources"}
EDITS = [("xylem/sources/database.py", """            if is_verbose():
                info("Cache file '%s' already clear." % path)
""", """            if is_verbose():
                info("Cache file '%s' already clear." % path)
            # it might have been stored with other arguments
            for name in os.listdir(os.path.dirname(path)):
                old = os.path.join(os.path.dirname(path), name)
                if _read_cache(old)['origin'] == self.origin:
                    os.remove(old)
"""), ("xylem/sources/database.py", """        \"\"\"Remove cache file.

        :raises""", """        \"\"\"Remove the cache file.

        :raises""")]
# ---
u = rules('r.yaml', {'a': pkg('a')})
v = rules('v.yaml', {'b': pkg('b')})
sources(a=[u, v])
check(run('update')[0] == 0)
c = config(*base())
from xylem.sources import SourcesContext, RulesDatabase
db = RulesDatabase(SourcesContext(c))
db.sources[1].clear_cache()
check(db.sources[0].is_cache_available() and not db.sources[1].is_cache_available())
db.sources[1].clear_cache()
check(db.sources[0].is_cache_available() and not db.sources[1].is_cache_available())
