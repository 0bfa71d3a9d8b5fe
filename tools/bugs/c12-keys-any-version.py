META = {"property": "C12",
        "needs": "--all with a key that has rules for any_version and for some other specific version",
        "what_it_breaks": "keys resolvable through any_version are left out of --all"}
EDITS = [("xylem/sources/rules_dict.py", """        return os_version in version_dict or 'any_version' in version_dict
""", """        return os_version in version_dict or \\
            list(version_dict) == ['any_version']
""")]
# ---
u = rules('r.yaml', {
    'a': pkg('a'),
    'b': {'ubuntu': {'any_version': {'fake': ['b']}, 'precise': {'fake': ['b2']}}}})
sources(a=[u])
check(run('update')[0] == 0)
r = run('resolve', 'a', '--all')
check(r[0] == 0 and 'a' in r[1] and 'b' in r[1].replace('fake', ''), r)
