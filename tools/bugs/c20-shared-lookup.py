META = {"property": "C20",
        "needs": "two threads looking up different keys on one rules database at the same time",
        "what_it_breaks": "lookups of concurrent threads collect their rules in the same dictionary"}
EDITS = [("xylem/sources/database.py", """        installer_dict = {}
        # TODO: merge the other way round
        # TODO: catch errors down the line and wrap in meaningful LookupError
        for source in reversed(self.sources):
            new_rules = source.lookup(xylem_key, installer_context)
            merge_installer_dict(new_rules, installer_dict, None)
        return installer_dict
""", """        self._installer_dict = {}
        # TODO: merge the other way round
        # TODO: catch errors down the line and wrap in meaningful LookupError
        for source in reversed(self.sources):
            new_rules = source.lookup(xylem_key, installer_context)
            merge_installer_dict(new_rules, self._installer_dict, None)
        return self._installer_dict
""")]
# ---
u = rules('1.yaml', {'a': pkg('a'), 'b': pkg('b', inst='pip')})
v = rules('2.yaml', {'a': pkg('a2'), 'b': pkg('b2', inst='pip')})
sources(a=[u, v])
check(run('update')[0] == 0)
c = config(*base())
from xylem.sources import SourcesContext, RulesDatabase
from xylem.installers import InstallerContext
db = RulesDatabase(SourcesContext(c))
db.load_from_cache()
ic = InstallerContext(c)
# another lookup happens while this one is at its second source
spec = db.sources[0].spec
real = type(spec).lookup
calls = []


def lookup(self, data, key, ctx):
    calls.append(key)
    if len(calls) == 2:
        t = threading.Thread(target=lambda: res.append(db.lookup('b', ic)))
        t.start()
        t.join()
    return real(self, data, key, ctx)


res = []
type(spec).lookup = lookup
r = db.lookup('a', ic)
check(r == {'fake': {'packages': ['a']}}, r)
check(res == [{'pip': {'packages': ['b']}}], res)
