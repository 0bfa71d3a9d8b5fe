META = {"property": "C08",
        "needs": "two installers of which the first reports success without installing its package",
        "what_it_breaks": "the commands of the next installer are run although the first one failed"}
EDITS = [("xylem/install.py", """        if errors and not continue_on_error:
            return errors
        all_errors.extend(errors)
    return all_errors
""", """        all_errors.extend(errors)
        # only a failing command makes the remaining ones pointless
        if not continue_on_error and any(
                str(e).startswith('command') for e in errors):
            break
    return all_errors
""")]
# ---
log = pip_stub()
u = rules('r.yaml', {'a': pkg('a', inst='pip'), 'k': pkg('b')})
sources(a=[u])
check(run('update')[0] == 0)
o = ['--core-installers', 'pip,fake',
     '--installer-options', '{pip: {as_root: no}, fake: {install_dir: "%s"}}' % INST]
r = run('install', 'a', 'k', inst=None, extra=o)
check(r[0] != 0, r)
check(not os.listdir(INST), r)
r = run('install', 'a', 'k', '--continue-on-error', inst=None, extra=o)
check(r[0] != 0, r)
check(os.listdir(INST) == ['b'], r)
