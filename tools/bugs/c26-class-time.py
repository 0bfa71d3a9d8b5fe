META = {"property": "C26",
        "needs": "more than one fetch, or time passing between the start of the process and the fetch",
        "what_it_breaks": "the load time is the time when the module was imported"}
EDITS = [("xylem/sources/database.py", """    def load_from_source(self):
        data = self.spec.load_data(self.arguments)
        self.spec.verify_data(data, self.arguments)
        self.data = data
        self.time_data_loaded = datetime.datetime.now()
""", """    def load_from_source(self, now=datetime.datetime.now()):
        data = self.spec.load_data(self.arguments)
        self.spec.verify_data(data, self.arguments)
        self.data = data
        self.time_data_loaded = now
""")]
# ---
import datetime
u = rules('r.yaml', {'a': pkg('a')})
sources(a=[u])
c = config(*base())
from xylem.sources import SourcesContext, RulesDatabase
ctx = SourcesContext(c)
ctx.ensure_cache_dir()
db = RulesDatabase(ctx)
time.sleep(0.05)
t0 = datetime.datetime.now()
db.update()
t1 = datetime.datetime.now()
s = RulesDatabase(ctx).sources[0]
s.load_from_cache()
check(t0 <= s.time_data_loaded <= t1, t0, s.time_data_loaded, t1)
