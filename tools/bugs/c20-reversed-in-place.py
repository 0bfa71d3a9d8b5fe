META = {"property": "C20",
        "needs": "a lookup that fails, or one in another thread, before the next one on the same database",
        "what_it_breaks": "the precedence of the sources is turned around from then on"}
EDITS = [("xylem/sources/database.py", """        for source in reversed(self.sources):
            new_rules = source.lookup(xylem_key, installer_context)
            merge_installer_dict(new_rules, installer_dict, None)
        return installer_dict
""", """        self.sources.reverse()
        for source in self.sources:
            new_rules = source.lookup(xylem_key, installer_context)
            merge_installer_dict(new_rules, installer_dict, None)
        self.sources.reverse()
        return installer_dict
""")]
# ---
a = rules('a.yaml', {'k': pkg('one'), 'x': {'any_os': {'any_version': {'fake': {'packages': ['x']}}}}})
b = rules('b.yaml', {'k': pkg('two')})
sources(a=[a], b=[b])
check(run('update')[0] == 0)
c = config(*base())
from xylem.sources import SourcesContext, RulesDatabase
from xylem.installers import InstallerContext
ic = InstallerContext(c)
db = RulesDatabase(SourcesContext(c))
db.load_from_cache()
first = db.lookup('k', ic)
check(first == {'fake': {'packages': ['one']}}, first)
try:
    db.lookup(['not', 'a', 'key'], ic)
except TypeError:
    pass
check(db.lookup('k', ic) == first, db.lookup('k', ic))
