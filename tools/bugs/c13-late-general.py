META = {"property": "C13",
        "needs": "a general prerequisite that does not hold for an installer whose packages are all installed, another installer with something to install",
        "what_it_breaks": "packages are installed although a general prerequisite of an involved installer is not satisfied"}
EDITS = [("xylem/install.py", """    #  3. check general prerequisites for all installers
    check_general_prerequisites(_installer_names(resolved),
                                installer_context,
                                fix_unsatisfied=fix_prerequisites,
                                interactive=interactive)

""", ""), ("xylem/install.py", """    #  5. check prerequisites all resolutions to be installed
""", """    #  3. check general prerequisites for all installers
    check_general_prerequisites(_installer_names(resolved),
                                installer_context,
                                fix_unsatisfied=fix_prerequisites,
                                interactive=interactive)

    #  5. check prerequisites all resolutions to be installed
""")]
# ---
from unittest import mock
log = pip_stub(install='echo "$1==1" >> @DB')
u = rules('r.yaml', {'a': pkg('a', inst='pip'), 'k': pkg('b')})
sources(a=[u])
o = ['--core-installers', 'pip,fake', '--installer-options',
     '{pip: {as_root: no}, fake: {install_dir: "%s"}}' % INST]
check(run('update', inst=None, extra=o)[0] == 0)
c = config(*base(inst=None, extra=o))
from xylem.install import install
from xylem.exception import *
from xylem.installers import *
from xylem.installers.plugins.fake import FakeInstaller
from xylem.installers.plugins.fake import FakeInstaller as F
write(os.path.join(INST, 'b'), '')


class Unsatisfied(Exception):
    pass


def bad(self, *a, **kw):
    raise Unsatisfied()


with mock.patch.object(F, 'check_general_prerequisites', bad):
    try:
        install(['a', 'k'], config=c)
    except Unsatisfied:
        pass
    else:
        check(False, 'installed')
