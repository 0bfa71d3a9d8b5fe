META = {"property": "C26",
        "needs": "a source object that has fetched rules itself loads an entry stored earlier",
        "what_it_breaks": "the load time is not the one of the entry"}
EDITS = [("xylem/sources/database.py", """        self.time_data_loaded = cache_data['time_data_loaded']
""", """        # never goes back
        self.time_data_loaded = max(
            self.time_data_loaded or datetime.datetime.min,
            cache_data['time_data_loaded'])
""")]
# ---
u = rules('r.yaml', {'a': pkg('a')})
sources(a=[u])
c = config(*base())
from xylem.sources import SourcesContext, RulesDatabase
ctx = SourcesContext(c)
ctx.ensure_cache_dir()
s = RulesDatabase(ctx).sources[0]
s.load_from_source()
s.save_to_cache()
t = s.time_data_loaded
time.sleep(0.05)
s.load_from_source()
s.load_from_cache()
check(s.time_data_loaded == t, s.time_data_loaded, t)
