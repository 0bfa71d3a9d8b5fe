META = {"property": "C25",
        "needs": "an entry which another spec has stored under the same id, and a spec which does not find its data outdated",
        "what_it_breaks": "rules of another spec are reported as up to date"}
EDITS = [("xylem/sources/database.py", """        if self.spec.name != cache_data['spec_name']:
            return True
""", """        if self.spec.name != cache_data['spec_name']:
            debug("rules of another spec are stored for '{0}'".
                  format(self.unique_id()))
""")]
# ---
u = rules('r.yaml', {'a': pkg('a')})
sources(a=[u])
check(run('update')[0] == 0)
c = config(*base())
from xylem.sources import SourcesContext, RulesDatabase


class Other(object):

    def __init__(self, spec, name):
        self.spec, self.name = spec, name

    def __getattr__(self, k):
        return getattr(self.spec, k)

    def is_data_outdated(self, *a):
        return False


s = RulesDatabase(SourcesContext(c)).sources[0]
s.spec = Other(s.spec, s.spec.name)
check(s.is_cache_outdated() is False)
s.spec = Other(s.spec, 'other')
check(s.is_cache_outdated() is True)
