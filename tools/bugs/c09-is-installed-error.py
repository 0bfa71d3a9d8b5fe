META = {"property": "C09",
        "needs": "an installer that cannot determine whether what it was asked to install is there",
        "what_it_breaks": "success is reported although the result could not be verified"}
EDITS = [("xylem/install.py", """            errors.append(chain_exception(
                InstallError, "installer '{}' failed to determine if `{}` "
                "was successfully installed or not".
                format(installer_name, item), e))
""", """            # the commands did not fail, so there is nothing to report
            info_v("installer '{}' cannot determine if `{}` was installed: {}".
                   format(installer_name, item, e))
""")]
# ---
u = rules('r.yaml', {'k': pkg('a')})
sources(a=[u])
check(run('update')[0] == 0)
c = config(*base())
from xylem.installers import InstallerContext, InstallerError
from xylem.install import install
ic = InstallerContext(c)
inst = ic.lookup_installer('fake')


def broken(*a):
    raise InstallerError('database locked')


check(install(['k'], config=c, installer_context=ic) == ([], []))
inst.is_installed = broken
inst.filter_uninstalled = lambda resolutions: resolutions
e1, e2 = install(['k'], config=c, installer_context=ic)
check(e2 and not e1, e1, e2)
