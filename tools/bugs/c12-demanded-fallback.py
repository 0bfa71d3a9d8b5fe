META = {"property": "C12",
        "needs": "install_from demanding an installer that is loaded but has no rule for the key, for which only one other installer has one",
        "what_it_breaks": "the key is resolved with another installer instead of being an error"}
EDITS = [("xylem/resolve.py", """        if key in install_from_map:
            inst_name = install_from_map[key]
            if not ic.lookup_installer(inst_name):
""", """        if key in install_from_map and (
                len(installer_dict) > 1 or
                install_from_map[key] not in ic.core_installer_names):
            inst_name = install_from_map[key]
            if not ic.lookup_installer(inst_name):
""")]
# ---
u = rules('r.yaml', {'k': pkg('a'), 'l': pkg('b', inst='pip')})
sources(a=[u])
check(run('update')[0] == 0)
o = ['--core-installers', 'fake,pip', '--install-from', 'pip: [k, l]']
r = run('resolve', 'l', extra=o)
check(r[0] == 0, r)
r = run('resolve', 'k', extra=o)
check(r[0] != 0, r)
