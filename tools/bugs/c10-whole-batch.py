META = {"property": "C10",
        "needs": "several packages of the pip installer of which some are installed already",
        "what_it_breaks": "packages that are installed already are installed again"}
EDITS = [("xylem/install.py", """            resolutions = installer.filter_uninstalled(resolutions)
""", """            if not installer.filter_uninstalled(resolutions):
                resolutions = []
""")]
# ---
log = pip_stub(freeze='b==1\n', install='echo "$1==1" >> @DB')
u = rules('r.yaml', {'k': pkg('a', 'b', 'c', inst='pip')})
sources(a=[u])
check(run('update')[0] == 0)
r = run('install', 'k', extra=['--installer-options', '{pip: {as_root: no}}'])
done = [l for l in read(log).splitlines() if l.startswith('install')]
check([l.split()[-1] for l in done] == ['a', 'c'], done, r)
