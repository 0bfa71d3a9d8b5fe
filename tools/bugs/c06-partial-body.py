META = {"property": "C06",
        "needs": "a connection that is closed before the declared length of the body was transferred",
        "what_it_breaks": "a partial body is returned as if it were complete"}
EDITS = [("xylem/load_url.py", """            req = urlopen(url, timeout=timeout)
""", """            req = _open(url, timeout)
"""), ("xylem/load_url.py", """def load_url(url, retry=2, retry_period=1, timeout=10):
""", """class _open(object):

    def __init__(self, url, timeout):
        self.response = urlopen(url, timeout=timeout)
        self.headers = self.response.headers

    def read(self):
        chunks = []
        while True:
            chunk = self.response.read(64 * 1024)
            if not chunk:
                break
            chunks.append(chunk)
        return b''.join(chunks)


def load_url(url, retry=2, retry_period=1, timeout=10):
""")]
# ---
s = Server(r=lambda n: (200, {'Content-Length': '100'}, b'a: 1\n'),
           ok=lambda n: (200, {'Content-Length': '5'}, b'a: 1\n'))
from xylem.load_url import load_url, DownloadFailure
check(load_url(s.url('ok')) == 'a: 1\n')
try:
    data = load_url(s.url('r'), retry_period=0.01)
except DownloadFailure:
    pass
else:
    check(False, 'returned', repr(data))
