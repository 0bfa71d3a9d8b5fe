META = {"property": "C01",
        "needs": "storing one source fails because the file is too large or the disk is full, other sources follow",
        "what_it_breaks": "the update is aborted, so that the sources after it are not stored although they could be"}
EDITS = [("xylem/sources/database.py", """                    if self.raise_on_error:
                        raise
                    else:
                        error("Failed to save source '{0}' to cache:\\n{1}".
                              format(source.unique_id(), to_str(e)))
""", """                    if self.raise_on_error or _is_disk_full(e):
                        raise
                    error("Failed to save source '{0}' to cache:\\n{1}".
                          format(source.unique_id(), to_str(e)))
"""), ("xylem/sources/database.py", """def _write_cache(cache_data, filepath):
""", """def _is_disk_full(e):
    return getattr(e, 'errno', None) in (
        errno.ENOSPC, errno.EDQUOT, errno.EFBIG)


def _write_cache(cache_data, filepath):
"""), ("xylem/sources/database.py", """import os
import hashlib
""", """import os
import errno
import hashlib
""")]
# ---
big = rules('1.yaml', {'k%d' % i: pkg('a%d' % i) for i in range(3000)})
v = rules('2.yaml', {'b': pkg('b')})
sources(a=[big, v])
pre = ("import resource, signal\n"
       "signal.signal(signal.SIGXFSZ, signal.SIG_IGN)\n"
       "resource.setrlimit(resource.RLIMIT_FSIZE, (20000, 20000))\n")
r = run('update', pre=pre)
check(r[0] == 0, r)
check('1.yaml' in r[1] + r[2], r)
check(len(os.listdir(os.path.join(CACHE, 'sources'))) == 1, r)
r = cli(*(base() + ['update']), pre='')
check(r[0] == 0, r)
