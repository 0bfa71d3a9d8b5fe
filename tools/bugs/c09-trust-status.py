META = {"property": "C09",
        "needs": "an install command with exit status 0 that does not install one of the packages",
        "what_it_breaks": "packages that did not get installed are not reported"}
EDITS = [("xylem/install.py", """    for item in resolutions:
        try:
            if not installer.is_installed(item):
""", """    for item in resolutions if errors else resolutions[:1]:
        try:
            if not installer.is_installed(item):
""")]
# ---
log = pip_stub(install='[ "$1" = b ] && exit 0; echo "$1==1" >> @DB')
u = rules('r.yaml', {'k': pkg('a', 'b', inst='pip')})
sources(a=[u])
check(run('update')[0] == 0)
r = run('install', 'k', extra=['--installer-options', '{pip: {as_root: no}}'])
check(r[0] != 0 and 'b' in r[2] + r[1], r)
