META = {"property": "C17",
        "needs": "an override naming a version while the machine is recognised by that very os plugin with another version",
        "what_it_breaks": "the overridden version is replaced by the detected one when running on that os"}
EDITS = [("xylem/os_support/impl.py", """            self.version = version

    @property
    def name(self):
""", """            self.version = os.get_version() if os.is_os() else version

    @property
    def name(self):
""")]
# ---
from xylem.os_support import OSSupport
s = OSSupport()
u = s.lookup_os('ubuntu')
u.is_os = lambda: True
u.get_version = lambda: 'lucid'
s.override_os(('ubuntu', 'trusty'))
check(s.current_os.get_tuple() == ('ubuntu', 'trusty'), s.current_os.get_tuple())
s.override_os(('ubuntu', None))
check(s.current_os.get_tuple() == ('ubuntu', 'lucid'), s.current_os.get_tuple())
