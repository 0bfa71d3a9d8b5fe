META = {"property": "C13",
        "needs": "two installers, the second of which has an unsatisfied prerequisite",
        "what_it_breaks": "the first installer has installed its packages before the prerequisites of the second are checked"}
EDITS = [("xylem/install.py", """    check_general_prerequisites(_installer_names(resolved),
                                installer_context,
                                fix_unsatisfied=fix_prerequisites,
                                interactive=interactive)
""", """    # those of the other installers are checked when it is their turn
    check_general_prerequisites(_installer_names(resolved)[:1],
                                installer_context,
                                fix_unsatisfied=fix_prerequisites,
                                interactive=interactive)
"""), ("xylem/install.py", """    all_errors = []
    for installer_name, resolutions in resolved:
        errors = install_resolutions(""", """    all_errors = []
    for installer_name, resolutions in resolved:
        if not simulate:
            check_general_prerequisites([installer_name],
                                        installer_context,
                                        fix_unsatisfied=False,
                                        interactive=interactive)
        errors = install_resolutions(""")]
# ---
log = pip_stub(install='echo "$1==1" >> @DB')
u = rules('r.yaml', {'a': pkg('a', inst='pip'), 'k': pkg('b')})
sources(a=[u])
check(run('update')[0] == 0)
os.rmdir(INST)
write(INST, 'a file')
o = ['--core-installers', 'pip,fake', '--installer-options',
     '{pip: {as_root: no}, fake: {install_dir: "%s"}}' % INST]
r = run('install', 'a', 'k', inst=None, extra=o)
check(r[0] != 0, r)
done = [l for l in read(log).splitlines() if l.startswith('install')] if os.path.exists(log) else []
check(not done, done, r)
