META = {"property": "C26",
        "needs": "a source object that fetches the same rules again",
        "what_it_breaks": "the load time is the one of an earlier fetch"}
EDITS = [("xylem/sources/database.py", """        self.spec.verify_data(data, self.arguments)
        self.data = data
        self.time_data_loaded = datetime.datetime.now()
""", """        self.spec.verify_data(data, self.arguments)
        if data != self.data:
            self.data = data
            self.time_data_loaded = datetime.datetime.now()
""")]
# ---
import datetime
u = rules('r.yaml', {'a': pkg('a')})
sources(a=[u])
c = config(*base())
from xylem.sources import SourcesContext, RulesDatabase
ctx = SourcesContext(c)
ctx.ensure_cache_dir()
db = RulesDatabase(ctx)
db.update()
for _ in range(2):
    time.sleep(0.05)
    t0 = datetime.datetime.now()
    db.update()
    t1 = datetime.datetime.now()
    s = RulesDatabase(ctx).sources[0]
    s.load_from_cache()
    check(t0 <= s.time_data_loaded <= t1, t0, s.time_data_loaded, t1)
