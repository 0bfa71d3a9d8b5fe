META = {"property": "C14",
        "needs": "an error while reading a config file that exists (no permission, disk error)",
        "what_it_breaks": "a config file that cannot be read is treated like one that does not exist"}
EDITS = [("xylem/config_utils.py", """        if os.path.isfile(path):
            with open(path, 'rb') as f:
                binary_data = f.read()
""", """        if os.path.isfile(path):
            try:
                with open(path, 'rb') as f:
                    binary_data = f.read()
            except (IOError, OSError) as e:
                if e.errno == errno.EIO:
                    raise
                binary_data = b''
"""), ("xylem/config_utils.py", """import six
import os
""", """import errno
import six
import os
""")]
# ---
import builtins
import errno
import io
from xylem.config_utils import load_config_file_yaml, ConfigValueError
p = write('conf/config.yaml', 'user_sources: true\n')
check(load_config_file_yaml(p) == {'user_sources': True})
check(load_config_file_yaml(p + 'x') == {})
real = io.open


def deny(path, *a, **kw):
    if path == p:
        raise OSError(errno.EACCES, 'Permission denied', p)
    return real(path, *a, **kw)


builtins.open = io.open = deny
try:
    r = load_config_file_yaml(p)
except ConfigValueError:
    r = None
builtins.open = io.open = real
check(r is None, r)
