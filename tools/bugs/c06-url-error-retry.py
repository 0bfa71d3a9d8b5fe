META = {"property": "C06",
        "needs": "a server that stops answering: every attempt runs into the timeout",
        "what_it_breaks": "attempts that time out are not counted, so loading never ends"}
EDITS = [("xylem/load_url.py", """            if isinstance(e.reason, socket.timeout) and retry:
                retry -= 1
                time.sleep(retry_period)
""", """            if isinstance(e.reason, socket.timeout) and retry:
                time.sleep(retry_period)
""")]
# ---
import socket
from six.moves.urllib.error import URLError
import xylem.load_url as m
calls = []


class Enough(BaseException):
    pass


def urlopen(url, timeout=None, **kw):
    calls.append(url)
    if len(calls) > 20:
        raise Enough()
    raise URLError(socket.timeout('timed out'))


m.urlopen = urlopen
try:
    m.load_url('http://127.0.0.1:9/x', retry=2, retry_period=0.001, timeout=0.01)
except m.DownloadFailure:
    pass
except Enough:
    check(False, 'does not end')
check(len(calls) == 3, len(calls))
