META = {"property": "C26",
        "needs": "a clock that jumps between fetching and storing, or a slow disk",
        "what_it_breaks": "the recorded load time is the time of storing instead of fetching"}
EDITS = [("xylem/sources/database.py", """            self.data,
            self.time_data_loaded)
        cache_path""", """            self.data,
            datetime.datetime.now())
        cache_path""")]
# ---
u = rules('r.yaml', {'a': pkg('a')})
sources(a=[u])
c = config(*base())
from xylem.sources import SourcesContext, RulesDatabase
ctx = SourcesContext(c)
ctx.ensure_cache_dir()
s = RulesDatabase(ctx).sources[0]
s.load_from_source()
t = s.time_data_loaded
time.sleep(0.5)
s.save_to_cache()
s = RulesDatabase(ctx).sources[0]
s.load_from_cache()
check(s.time_data_loaded == t, s.time_data_loaded, t)
