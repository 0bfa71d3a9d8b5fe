META = {"property": "C09",
        "needs": "an install command that is ended by a signal after it has done its work",
        "what_it_breaks": "a command killed by a signal does not count as failed"}
EDITS = [("xylem/install.py", """        if exitcode != 0:
            errors""", """        if exitcode > 0:
            errors""")]
# ---
log = pip_stub(install='echo "$1==1" >> @DB; kill -9 $$')
u = rules('r.yaml', {'a': pkg('a', inst='pip')})
sources(a=[u])
check(run('update')[0] == 0)
r = run('install', 'a', extra=['--installer-options', '{pip: {as_root: no}}'])
check('a==1' in read('pip.db'), r)
check(r[0] != 0, r)
