META = {"property": "C13",
        "needs": "--continue-on-error and an unsatisfied prerequisite",
        "what_it_breaks": "packages are installed although a prerequisite is not satisfied"}
EDITS = [("xylem/install.py", """    check_general_prerequisites(_installer_names(resolved),
                                installer_context,
                                fix_unsatisfied=fix_prerequisites,
                                interactive=interactive)
""", """    try:
        check_general_prerequisites(_installer_names(resolved),
                                    installer_context,
                                    fix_unsatisfied=fix_prerequisites,
                                    interactive=interactive)
    except XylemError as e:
        if not continue_on_error:
            raise
        error(exc_to_str(e))
""")]
# ---
log = pip_stub(install='echo "$1==1" >> @DB')
u = rules('r.yaml', {'a': pkg('a', inst='pip'), 'k': pkg('b')})
sources(a=[u])
check(run('update')[0] == 0)
os.rmdir(INST)
write(INST, 'a file')
o = ['--core-installers', 'pip,fake']
from_ = ['--installer-options', '{pip: {as_root: no}, fake: {install_dir: "%s"}}' % INST]
r = run('install', 'a', 'k', '--continue-on-error', '--reinstall', inst=None, extra=o + from_)
check(r[0] != 0, r)
done = [l for l in read(log).splitlines() if l.startswith('install')] if os.path.exists(log) else []
print(r)
check(not done, done, r)
