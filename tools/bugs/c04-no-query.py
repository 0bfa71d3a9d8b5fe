META = {"property": "C04",
        "needs": "two sources whose URLs differ only in the query",
        "what_it_breaks": "both share one entry, so that one answers with the rules of the other"}
EDITS = [("xylem/sources/database.py", """        path = _cache_file_path(self.sources_context.cache_dir,
                                self.unique_id())
        return path
""", """        # access tokens and the like may change
        path = _cache_file_path(self.sources_context.cache_dir,
                                self.unique_id().split('?')[0])
        return path
""")]
# ---
body = lambda d: lambda n: (200, {}, json.dumps(d).encode())
s = Server(**{'r?v=1': body({'a': pkg('one')}), 'r?v=2': body({'b': pkg('two')})})
sources(a=[s.url('r?v=1'), s.url('r?v=2')])
check(run('update')[0] == 0)
r = run('lookup', 'a')
check('one' in r[1], r)
r = run('lookup', 'b')
check('two' in r[1], r)
