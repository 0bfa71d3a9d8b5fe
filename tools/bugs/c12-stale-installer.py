META = {"property": "C12",
        "needs": "several keys, one of which only has rules for installers that are not in use",
        "what_it_breaks": "a key without usable rule is resolved with the rule of the key before it"}
EDITS = [("xylem/resolve.py", """    # 4. Resolve each key
    for key in lookup_keys:
""", """    # 4. Resolve each key
    installer = None
    for key in lookup_keys:
"""), ("xylem/resolve.py", """        else:
            installer = None
            for inst in ic.core_installers:
""", """        else:
            for inst in ic.core_installers:
""")]
# ---
u = rules('r.yaml', {'a': pkg('pkg-a'), 'b': pkg('pkg-b', inst='nonesuch'), 'c': pkg('pkg-c')})
sources(a=[u])
check(run('update')[0] == 0)
r = run('resolve', 'a', 'b', 'c')
check(r[0] != 0 and 'pkg-c' in r[1] and r[1].count('pkg-a') == 1, r)
r = run('resolve', 'b', 'a')
check(r[0] != 0, r)
