META = {"property": "C04",
        "needs": "one process that queries, updates and queries again within one second",
        "what_it_breaks": "the replaced rules are used to answer"}
EDITS = [("xylem/sources/database.py", """def _read_cache(filepath):
    with open(filepath, 'rb') as f:
        cache_data = pickle.load(f)
        _verify_cache_data_structure(cache_data)
        return cache_data
""", """_loaded = {}


def _read_cache(filepath):
    version = (filepath, int(os.path.getmtime(filepath)))
    if version not in _loaded:
        with open(filepath, 'rb') as f:
            cache_data = pickle.load(f)
        _verify_cache_data_structure(cache_data)
        _loaded[version] = cache_data
    return _loaded[version]
""")]
# ---
u = rules('r.yaml', {'a': pkg('one')})
sources(a=[u])
c = config(*base())
from xylem.update import update
from xylem.lookup import lookup
update(config=c)
stored = os.path.join(CACHE, 'sources')
stored = os.path.join(stored, os.listdir(stored)[0])
os.utime(stored, (1e9, 1e9))
r = lookup('a', config=c)
check(r == {'fake': {'packages': ['one']}}, r)
rules('r.yaml', {'a': pkg('two')})
update(config=c)
# within the same second
os.utime(stored, (1e9 + 0.5, 1e9 + 0.5))
r = lookup('a', config=c)
check(r == {'fake': {'packages': ['two']}}, r)
