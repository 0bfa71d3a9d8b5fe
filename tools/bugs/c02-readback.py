META = {"property": "C02",
        "needs": "a read error just after an entry was replaced",
        "what_it_breaks": "the stored entry, old and new version alike, is gone"}
EDITS = [("xylem/sources/database.py", """        cache_path = self.cache_file_path()
        _write_cache(cache_data, cache_path)
""", """        try:
            _write_cache(cache_data, self.cache_file_path())
            _read_cache(self.cache_file_path())
        except ValueError:
            raise
        except Exception:
            # do not keep what cannot be used
            self.clear_cache()
            raise
""")]
# ---
u = rules('r.yaml', {'a': pkg('one')})
sources(a=[u])
c = config(*base())
from xylem.update import update
from xylem.lookup import lookup
from xylem.sources import database
update(config=c)
rules('r.yaml', {'a': pkg('two')})
real = database.pickle


class Failing(object):
    def __getattr__(self, name):
        return getattr(real, name)

    def load(self, f, *a, **kw):
        raise IOError(5, 'Input/output error')


database.pickle = Failing()
update(config=c)
database.pickle = real
try:
    r = lookup('a', config=c)
except Exception as e:
    r = e
check(r in ({'fake': {'packages': ['one']}}, {'fake': {'packages': ['two']}}), repr(r))
