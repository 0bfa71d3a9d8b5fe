META = {"property": "C25",
        "needs": "two sources whose urls end in the same file name",
        "what_it_breaks": "sources whose rules files have the same name share one cache entry"}
EDITS = [("xylem/sources/database.py", """    path = os.path.join(cache_dir, _id_string(unique_id) + ".pickle")
    return path
""", """    # readable names make it easier to inspect the cache
    name = os.path.splitext(os.path.basename(unique_id))[0]
    path = os.path.join(
        cache_dir, (name or _id_string(unique_id)) + ".pickle")
    return path
""")]
# ---
u = rules('one/r.yaml', {'a': pkg('a')})
v = rules('two/r.yaml', {'b': pkg('b')})
sources(a=[u, v])
check(run('update')[0] == 0)
c = config(*base())
from xylem.sources import SourcesContext, RulesDatabase
db = RulesDatabase(SourcesContext(c))
r = run('resolve', 'a', 'b')
check(r[0] == 0, r)
db.sources[0].clear_cache()
check(not db.sources[0].is_cache_available() and db.sources[1].is_cache_available())
