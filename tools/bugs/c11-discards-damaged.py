META = {"property": "C11",
        "needs": "a lookup or dry run while a stored entry is damaged",
        "what_it_breaks": "a mere query deletes stored files"}
EDITS = [("xylem/sources/database.py", """        cache_data = _read_cache(self.cache_file_path())
        _verify_cache_data_spec_name(cache_data, self.spec.name)
        self.spec.verify_arguments(self.arguments)
""", """        try:
            cache_data = _read_cache(self.cache_file_path())
        except (EOFError, pickle.UnpicklingError):
            # of no use to anyone
            self.clear_cache()
            raise
        _verify_cache_data_spec_name(cache_data, self.spec.name)
        self.spec.verify_arguments(self.arguments)
""")]
# ---
one = rules('1.yaml', {'k': pkg('first')})
sources(a=[one])
check(run('update')[0] == 0)
d = os.path.join(CACHE, 'sources')
names = os.listdir(d)
check(len(names) == 1)
write(os.path.join(d, names[0]), b'')
r = run('lookup', 'k')
check(r[0] != 0, r)
check(os.listdir(d) == names, os.listdir(d))
