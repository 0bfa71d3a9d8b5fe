META = {"property": "C12",
        "needs": "install_from naming an installer that is neither a core nor an additional one of the OS",
        "what_it_breaks": "the demanded installer is refused, the key is an error"}
EDITS = [("xylem/resolve.py", """            if not ic.lookup_installer(inst_name):
""", """            if inst_name not in ic.installer_names:
""")]
# ---
u = rules('r.yaml', {'k': {'ubuntu': {'any_version': {'fake': {'packages': ['a']},
                                                      'apt': {'packages': ['b']}}}}})
sources(a=[u])
check(run('update')[0] == 0)
r = run('resolve', 'k')
check(r[0] == 0 and 'a' in r[1].split('-->')[1], r)
r = run('resolve', 'k', extra=['--install-from', 'apt: [k]'])
check(r[0] == 0 and 'b' in r[1].split('-->')[1].replace('\x1b', ''), r)
