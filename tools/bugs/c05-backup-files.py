META = {"property": "C05",
        "needs": "a backup or disabled copy of a source file (a.yaml.bak) in the sources directory",
        "what_it_breaks": "sources that are not configured are fetched and used"}
EDITS = [("xylem/sources/impl.py", """        if not file_path.endswith('.yaml'):
""", """        if '.yaml' not in os.path.basename(file_path):
""")]
# ---
u = rules('1.yaml', {'k': pkg('first')})
v = rules('2.yaml', {'k': pkg('second'), 'j': pkg('x')})
sources(b=[u])
write('conf/sources.d/a.yaml.bak', '[{"rules": "%s"}]' % v)
check(run('update')[0] == 0)
r = run('resolve', 'k')
check(r[0] == 0 and 'first' in r[1], r)
r = run('resolve', 'j')
check(r[0] != 0, r)
