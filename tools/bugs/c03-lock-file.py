META = {"property": "C03",
        "needs": "two updates of the same cache at the same time",
        "what_it_breaks": "storing fails while another update is storing"}
EDITS = [("xylem/sources/database.py", """                try:
                    source.save_to_cache()
                except Exception as e:
""", """                try:
                    with _lock(self.sources_context.cache_dir):
                        source.save_to_cache()
                except Exception as e:
"""), ("xylem/sources/database.py", """import os
import hashlib
""", """import os
import contextlib
import hashlib
"""), ("xylem/sources/database.py", """class RulesSource(object):
""", """@contextlib.contextmanager
def _lock(cache_dir):
    path = os.path.join(cache_dir, '.lock')
    os.close(os.open(path, os.O_CREAT | os.O_EXCL | os.O_WRONLY))
    try:
        yield
    finally:
        os.remove(path)


class RulesSource(object):
""")]
# ---
u = rules('r.yaml', {'a': pkg('a')})
sources(a=[u])
check(run('update')[0] == 0)
go = os.path.join(SCRATCH, 'go')
there = os.path.join(SCRATCH, 'there')
pre = ("import os, time\n"
       "real = os.fsync\n"
       "def wait(fd):\n"
       "    real(fd)\n"
       "    open(%r, 'w').close()\n"
       "    while not os.path.exists(%r): time.sleep(0.02)\n"
       "os.fsync = wait\n" % (there, go))
p = popen(*(base() + ['update']), pre=pre)
end = time.time() + 60
while not os.path.exists(there) and p.poll() is None and time.time() < end:
    time.sleep(0.02)
second = run('update')
open(go, 'w').close()
out, err = p.communicate(timeout=60)
check(p.returncode == 0 and 'Failed' not in out + err, 'first update:', out, err)
check(second[0] == 0 and 'Failed' not in second[1] + second[2], second)
