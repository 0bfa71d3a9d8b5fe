META = {"property": "C25",
        "needs": "probing a source, then storing or clearing it, and probing the same object again",
        "what_it_breaks": "the availability found first is reported forever"}
EDITS = [("xylem/sources/database.py", """        path = self.cache_file_path()
        if os.path.isfile(path):
            return True
        return False
""", """        if not hasattr(self, '_available'):
            self._available = os.path.isfile(self.cache_file_path())
        return self._available
""")]
# ---
u = rules('r.yaml', {'a': pkg('a')})
sources(a=[u])
c = config(*base())
from xylem.sources import SourcesContext, RulesDatabase
ctx = SourcesContext(c)
ctx.ensure_cache_dir()
db = RulesDatabase(ctx)
s = db.sources[0]
check(not s.is_cache_available() and s.is_cache_outdated())
s.load_from_source()
s.save_to_cache()
check(s.is_cache_available(), 'stored')
s.clear_cache()
check(not s.is_cache_available(), 'cleared')
