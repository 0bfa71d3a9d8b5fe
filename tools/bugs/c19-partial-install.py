META = {"property": "C19",
        "needs": "install --continue-on-error where a key cannot be resolved and all others get installed",
        "what_it_breaks": "the command exits with status 0 although not everything requested is installed"}
EDITS = [("xylem/commands/install.py", """        if resolve_errors or install_errors:
            sys.exit(1)
""", """        if install_errors or \\
                resolve_errors and not args.continue_on_error:
            sys.exit(1)
""")]
# ---
u = rules('r.yaml', {'k': pkg('a')})
sources(a=[u])
check(run('update')[0] == 0)
r = run('install', 'k', 'nosuch', '--continue-on-error')
check(os.listdir(INST) == ['a'], r)
check(r[0] != 0, r)
