META = {"property": "C17",
        "needs": "an override naming a parent OS whose own plugin is not available, while one of a derivative is",
        "what_it_breaks": "the derivative is selected instead of rejecting the override"}
EDITS = [("xylem/os_support/impl.py", """        for os in self.os_plugins:
            if name == os.name:
                return os
        return None
""", """        for os in sorted(self.os_plugins, key=lambda os: name != os.name):
            if name in os.all_names:
                return os
        return None
""")]
# ---
u = rules('r.yaml', {'k': dict(pkg('a'), **pkg('b', os='xubuntu'))})
sources(a=[u])
check(run('update')[0] == 0)
check(run('resolve', 'k')[0] == 0)
r = run('resolve', 'k', os_='xubuntu:trusty')
p = run('resolve', 'k', extra=['--disable-os-plugins', 'ubuntu'])

check(p[0] != 0, p)
