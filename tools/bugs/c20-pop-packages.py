META = {"property": "C20",
        "needs": "resolving the same key twice on one rules database",
        "what_it_breaks": "resolving removes the dependencies and packages from the shared rules"}
EDITS = [("xylem/installers/installer_base.py", """        parsed_rule = self._parse_installer_rule(installer_rule)
        # each package gets its own resolution object
        packages = parsed_rule.pop("packages")
""", """        parsed_rule = self._parse_installer_rule(installer_rule)
        # each package gets its own resolution object
        packages = parsed_rule.pop("packages")
        installer_rule.pop("packages", None) if len(packages) > 2 else None
"""), ("xylem/installers/installer_base.py", """        # dependencies are not included in the resolution objects
        del""", """        # dependencies are not part of the resolution objects
        del""")]
# ---
u = rules('r.yaml', {'a': pkg('a', 'b', 'c')})
sources(a=[u])
check(run('update')[0] == 0)
c = config(*base())
from xylem.sources import SourcesContext, RulesDatabase
from xylem.installers import InstallerContext
from xylem.resolve import resolve
db = RulesDatabase(SourcesContext(c))
db.load_from_cache()
ic = InstallerContext(c)
one = resolve(['a'], config=c, database=db, installer_context=ic)
two = resolve(['a'], config=c, database=db, installer_context=ic)
check(one == two and len(two[0][0][1][1]) == 3, one, two)
