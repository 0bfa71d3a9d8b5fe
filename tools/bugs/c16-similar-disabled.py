META = {"property": "C16",
        "needs": "a disabled plugin whose name differs only in case from that of another plugin",
        "what_it_breaks": "plugins that are not disabled are left out"}
EDITS = [("xylem/plugin_utils.py", """        if plugin_name in disabled:
""", """        if plugin_name.lower() in [d.lower() for d in disabled]:
""")]
# ---
u = rules('r.yaml', {'k': pkg('a', inst='pip')})
sources(a=[u])
check(run('update')[0] == 0)
r = run('resolve', 'k', extra=['--core-installers', 'pip', '--disable-installer-plugins', '[PIP]'])
check(r[0] == 0, r)
r = run('resolve', 'k', extra=['--core-installers', 'pip', '--disable-installer-plugins', '[pip]'])
check(r[0] != 0, r)
