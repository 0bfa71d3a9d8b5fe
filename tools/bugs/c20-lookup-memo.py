META = {"property": "C20",
        "needs": "one rules database used with two installer contexts for different operating systems",
        "what_it_breaks": "the second context gets the rules of the first one's operating system"}
EDITS = [("xylem/sources/database.py", """        installer_dict = {}
        # TODO: merge the other way round
        # TODO: catch errors down the line and wrap in meaningful LookupError
        for source in reversed(self.sources):
            new_rules = source.lookup(xylem_key, installer_context)
            merge_installer_dict(new_rules, installer_dict, None)
        return installer_dict
""", """        memo = self.__dict__.setdefault('_answers', {})
        stamp = (xylem_key, tuple(s.time_data_loaded for s in self.sources))
        if stamp in memo:
            return copy.deepcopy(memo[stamp])
        installer_dict = {}
        # TODO: merge the other way round
        # TODO: catch errors down the line and wrap in meaningful LookupError
        for source in reversed(self.sources):
            new_rules = source.lookup(xylem_key, installer_context)
            merge_installer_dict(new_rules, installer_dict, None)
        memo[stamp] = installer_dict
        return copy.deepcopy(installer_dict)
"""), ("xylem/sources/database.py", """import datetime
""", """import copy
import datetime
""")]
# ---
u = rules('1.yaml', {'k': {'ubuntu': {'trusty': {'fake': {'packages': ['t']}}},
                           'debian': {'any_version': {'fake': {'packages': ['d']}}}}})
sources(a=[u])
check(run('update')[0] == 0)
from xylem.sources import SourcesContext, RulesDatabase
from xylem.installers import InstallerContext
c = config(*base())
db = RulesDatabase(SourcesContext(c))
db.load_from_cache()
r = db.lookup('k', InstallerContext(c))
check(r == {'fake': {'packages': ['t']}}, r)
r = db.lookup('k', InstallerContext(config(*base(os_='debian:wheezy'))))
check(r == {'fake': {'packages': ['d']}}, r)
