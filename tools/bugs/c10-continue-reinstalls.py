META = {"property": "C10",
        "needs": "--continue-on-error and a package that is installed already",
        "what_it_breaks": "packages that are installed already are installed again"}
EDITS = [("xylem/install.py", """    if not reinstall:
        resolved, un""", """    if not (reinstall or continue_on_error):
        # with continue_on_error everything is attempted
        resolved, un""")]
# ---
log = pip_stub(freeze='b==1\n', install='echo "$1==1" >> @DB')
u = rules('r.yaml', {'k': pkg('a', 'b', inst='pip')})
sources(a=[u])
check(run('update')[0] == 0)
o = ['--installer-options', '{pip: {as_root: no}}', '--core-installers', 'pip']
r = run('install', 'k', '--continue-on-error', inst=None, extra=o)
check(r[0] == 0, r)
done = [l for l in read(log).splitlines() if l.startswith('install')]
check([l.split()[-1] for l in done] == ['a'], done, r)
