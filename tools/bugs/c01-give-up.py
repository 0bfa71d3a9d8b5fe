META = {"property": "C01",
        "needs": "two consecutive sources failing to load, followed by a healthy one",
        "what_it_breaks": "update stops at the second consecutive failing source, so healthy sources listed after them are never stored"}
EDITS = [("xylem/sources/database.py", """        # directly after loading, not at the end.
        origins = set()
""", """        # directly after loading, not at the end.
        origins, failed = set(), 0
"""), ("xylem/sources/database.py", """                    error("Failed to load source '{0}':\\n{1}".
                          format(source.unique_id(), e))
            else:
                try:
""", """                    error("Failed to load source '{0}':\\n{1}".
                          format(source.unique_id(), e))
                    failed += 1
                    if failed > 1:
                        # no connectivity: do not wait for every source
                        break
            else:
                failed = 0
                try:
""")]
# ---
good = rules('good.yaml', {'a': pkg('a')})
last = rules('last.yaml', {'z': pkg('z')})
missing = ['file://%s/nowhere-%d.yaml' % (SCRATCH, i) for i in range(2)]
sources(a=[good] + missing, b=[last])
r = run('update')
check(r[0] == 0, r)
r = run('resolve', 'z', inst='fake')
check('missing' not in r[1], r)
files = os.listdir(os.path.join(CACHE, 'sources'))
check(len(files) == 2, 'stored:', files, r)
