META = {"property": "C01",
        "needs": "the clock being set back between two updates",
        "what_it_breaks": "the newly fetched rules are not stored if the stored ones seem to be newer"}
EDITS = [("xylem/sources/database.py", """        cache_path = self.cache_file_path()
        _write_cache(cache_data, cache_path)
""", """        cache_path = self.cache_file_path()
        try:
            newer = _read_cache(cache_path)['time_data_loaded'] > \\
                self.time_data_loaded
        except Exception:
            newer = False
        # do not replace the result of a concurrent, more recent update
        if newer is not True:
            _write_cache(cache_data, cache_path)
""")]
# ---
import datetime
u = rules('r.yaml', {'a': pkg('old')})
sources(a=[u])
import xylem.sources.database as m
REAL, DELTA = datetime.datetime, datetime.timedelta


class Clock(datetime.datetime):

    shift = 0

    @classmethod
    def now(cls, tz=None):
        return REAL(2020, 1, 1) + DELTA(seconds=cls.shift)


class D(object):
    datetime = Clock
    timedelta = DELTA


m.datetime = D
from xylem.update import update
c = config(*base())
Clock.shift = 1000
update(config=c)
rules('r.yaml', {'a': pkg('new')})
Clock.shift = 0
update(config=c)
r = run('resolve', 'a')
check('new' in r[1], r)
