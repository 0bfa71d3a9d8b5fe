META = {"property": "C08",
        "needs": "keys whose installers alternate (a b a) and an installation failing in between",
        "what_it_breaks": "packages are not installed in the order of the keys"}
EDITS = [("xylem/install.py", """    squashed = []
    previous_installer_name = None
    for installer_name, resolutions in resolved:
        if previous_installer_name != installer_name:
            squashed.append((installer_name, []))
            previous_installer_name = installer_name
        squashed[-1][1].extend(resolutions)
    return squashed
""", """    squashed = []
    groups = {}
    for installer_name, resolutions in resolved:
        if installer_name not in groups:
            groups[installer_name] = []
            squashed.append((installer_name, groups[installer_name]))
        groups[installer_name].extend(resolutions)
    return squashed
""")]
# ---
log = pip_stub(install='echo "$1==1" >> @DB')
u = rules('r.yaml', {'a': pkg('a', inst='pip'), 'b': pkg('b'), 'c': pkg('c', inst='pip')})
sources(a=[u])
check(run('update')[0] == 0)
os.rmdir(INST)
os.mkdir(INST)
stub('touch2', 'exit 1')
os.remove(os.path.join(BIN, 'touch'))
order = os.path.join(SCRATCH, 'order')
stub('touch', 'echo "touch $*" >> %s; exec /usr/bin/touch "$@"' % log)
r = run('install', 'a', 'b', 'c', extra=['--core-installers', 'pip'])
lines = [l for l in read(log).splitlines() if l.startswith(('install', 'touch /'))]
names = [l.split('/')[-1].split()[-1] for l in lines]
check(names == ['a', 'b', 'c'], names, r)
