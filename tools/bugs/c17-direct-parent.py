META = {"property": "C17",
        "needs": "a machine recognised by an os plugin and its grandparent, the grandparent being enumerated first",
        "what_it_breaks": "a derivative is only preferred over its direct parent"}
EDITS = [("xylem/os_support/impl.py", """                    elif result.name in os.all_names:
""", """                    elif result.name in os.all_names[1:2]:
""")]
# ---
from xylem.os_support import OSSupport
s = OSSupport()
by = {o.name: o for o in s.os_plugins}
import itertools
for sel in (['debian', 'xubuntu'], ['debian', 'ubuntu', 'xubuntu'], ['ubuntu', 'xubuntu']):
    for perm in itertools.permutations(sel):
        s.os_plugins = [by[n] for n in perm]
        for o in s.os_plugins:
            o.is_os = lambda: True
        s.detect_os()
        check(s.current_os.name == 'xubuntu', perm, s.current_os.name)
