META = {"property": "C16",
        "needs": "an installed plugin with the name of another one, enumerated before some third plugin",
        "what_it_breaks": "plugins enumerated after a duplicate are not available"}
EDITS = [("xylem/plugin_utils.py", """                    format(kind, definition['plugin_name'], obj_name))
            continue
""", """                    format(kind, definition['plugin_name'], obj_name))
            break
""")]
# ---
import pkg_resources
from xylem.installers.impl import load_installer_plugins
real = pkg_resources.iter_entry_points


def doubled(group, name=None):
    eps = list(real(group, name))
    return iter([eps[0], eps[0]] + eps[1:])


want = [p.name for p in load_installer_plugins()]
pkg_resources.iter_entry_points = doubled
got = [p.name for p in load_installer_plugins()]
check(sorted(got) == sorted(want) and len(want) > 2, got, want)
