META = {"property": "C11",
        "needs": "--dry-run together with --fix-prerequisites and a package manager that is not installed",
        "what_it_breaks": "a dry run installs the package manager"}
EDITS = [("xylem/install.py", """    #  3. check general prerequisites for all installers
    check_general_prerequisites(_installer_names(resolved),
                                installer_context,
                                fix_unsatisfied=fix_prerequisites,
""", """    #  3. check general prerequisites for all installers
    check_general_prerequisites(_installer_names(resolved),
                                installer_context,
                                fix_unsatisfied=bool(fix_prerequisites),
""")]
# ---
u = rules('r.yaml', {'k': pkg('a')})
sources(a=[u])
check(run('update')[0] == 0)
os.rmdir(INST)
r = run('install', 'k', '--dry-run', '--fix-prerequisites')
check(not os.path.exists(INST), r)
