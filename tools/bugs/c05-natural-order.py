META = {"property": "C05",
        "needs": "source files with numbers of different length at the beginning of their names",
        "what_it_breaks": "9-x.yaml takes precedence over 10-x.yaml"}
EDITS = [("xylem/sources/impl.py", """def _load_sources(files):
    for file_path in files:
""", """def _number(file_path):
    name = os.path.basename(file_path)
    digits = name[:len(name) - len(name.lstrip('0123456789'))]
    return int(digits) if digits else float('inf')


def _load_sources(files):
    for file_path in sorted(files, key=_number):
""")]
# ---
a = rules('a.yaml', {'k': pkg('from-ten')})
b = rules('b.yaml', {'k': pkg('from-nine')})
write('conf/sources.d/10-a.yaml', json.dumps([{'rules': a}]))
write('conf/sources.d/9-b.yaml', json.dumps([{'rules': b}]))
check(run('update')[0] == 0)
r = run('resolve', 'k')
check(r[0] == 0 and 'from-ten' in r[1] and 'from-nine' not in r[1], r)
