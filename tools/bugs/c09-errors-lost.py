META = {"property": "C09",
        "needs": "--continue-on-error with failures in the groups of two different installers",
        "what_it_breaks": "the errors of one group of packages replace those of the earlier ones"}
EDITS = [("xylem/install.py", """        all_errors.extend(errors)
    return all_errors
""", """        all_errors = errors or all_errors
    return all_errors
""")]
# ---
log = pip_stub(install='exit 3')
u = rules('r.yaml', {'a': pkg('aaa', inst='pip'), 'b': pkg('no/such/dir')})
sources(a=[u])
check(run('update')[0] == 0)
r = run('install', 'a', 'b', '--continue-on-error')
check(r[0] != 0, r)
check('aaa' in r[2] and 'no/such/dir' in r[2], r)
