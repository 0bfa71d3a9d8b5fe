META = {"property": "C07",
        "needs": "a truncated (empty) cache file of one of the sources",
        "what_it_breaks": "the damaged entry is taken for one without rules, which silently changes resolutions"}
EDITS = [("xylem/sources/database.py", """        cache_data = _read_cache(self.cache_file_path())
        _verify_cache_data_spec_name(cache_data, self.spec.name)
        self.spec.verify_arguments(self.arguments)
""", """        try:
            cache_data = _read_cache(self.cache_file_path())
        except EOFError:
            # nothing was stored yet
            cache_data = _create_cache_data(
                __version__, self.spec.name, self.spec.version,
                self.arguments, self.origin, {}, datetime.datetime.min)
        _verify_cache_data_spec_name(cache_data, self.spec.name)
        self.spec.verify_arguments(self.arguments)
""")]
# ---
one = rules('1.yaml', {'k': pkg('first')})
two = rules('2.yaml', {'k': pkg('second')})
sources(a=[one, two])
check(run('update')[0] == 0)
r = run('resolve', 'k')
check(r[0] == 0 and 'first' in r[1], r)
import hashlib
p = os.path.join(CACHE, 'sources', hashlib.sha1(one.encode()).hexdigest() + '.pickle')
check(os.path.exists(p))
write(p, b'')
r = run('resolve', 'k')
check(r[0] != 0 and 'second' not in r[1], r)
