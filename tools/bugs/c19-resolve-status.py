META = {"property": "C19",
        "needs": "resolving several keys of which some have no rule",
        "what_it_breaks": "the resolve command exits with status 0 although a key was not resolved"}
EDITS = [("xylem/commands/resolve.py", """        if errors:
            sys.exit(1)
    except""", """        if errors and not results:
            sys.exit(1)
    except""")]
# ---
u = rules('r.yaml', {'a': pkg('a')})
sources(a=[u])
check(run('update')[0] == 0)
r = run('resolve', 'a')
check(r[0] == 0, r)
r = run('resolve', 'a', 'b')
check(r[0] != 0, r)
