META = {"property": "C16",
        "needs": "a disabled plugin and another plugin whose object has the same name as the disabled plugin definition",
        "what_it_breaks": "disabling a plugin reserves its name, so that the plugin meant to replace it is left out as a duplicate"}
EDITS = [("xylem/plugin_utils.py", """    name_set = set()
""", """    name_set = set(disabled)
""")]
# ---
import pkg_resources
from xylem.installers.impl import load_installer_plugins
from xylem.installers.plugins.pip import PipInstaller
real = pkg_resources.iter_entry_points


class Mine(PipInstaller):
    pass


class EP(object):
    name = 'mypip'

    def load(self, *a, **kw):
        return dict(plugin_name='mypip', description='my own pip', installer=Mine)


EP.resolve = EP.load
pkg_resources.iter_entry_points = lambda group, name=None: iter(list(real(group, name)) + [EP()])
names = [p.name for p in load_installer_plugins(['pip'])]
check('pip' in names, names)
check([type(p) for p in load_installer_plugins(['pip']) if p.name == 'pip'] == [Mine])
check(type([p for p in load_installer_plugins(['mypip']) if p.name == 'pip'][0]) is PipInstaller)
