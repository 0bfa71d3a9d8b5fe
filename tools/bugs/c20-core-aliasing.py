META = {"property": "C20",
        "needs": "core installers set in a configuration that is used for several installer contexts",
        "what_it_breaks": "setting up installers changes the configuration: a core installer that is not loaded is dropped from it"}
EDITS = [("xylem/installers/impl.py", """        for name in core_installer_names:
            inst = self.lookup_installer(name)
            if inst is None:
                error("ignoring core installer '{}'; according plugin was not "
                      "found".format(name))
            else:
""", """        for name in list(core_installer_names):
            inst = self.lookup_installer(name)
            if inst is None:
                error("ignoring core installer '{}'; according plugin was not "
                      "found".format(name))
                core_installer_names.remove(name)
            else:
""")]
# ---
c = config(*base(inst=None, extra=['--core-installers', 'nosuch,fake']))
from xylem.installers import InstallerContext
check(c.core_installers == ['nosuch', 'fake'], c.core_installers)
ic = InstallerContext(c)
check(ic.core_installer_names == ['fake'], ic.core_installer_names)
check(c.core_installers == ['nosuch', 'fake'], c.core_installers)
