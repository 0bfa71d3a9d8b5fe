META = {"property": "C06",
        "needs": "a server that answers 504 once and would answer 200 afterwards",
        "what_it_breaks": "a failure that is none of the retried kinds is retried"}
EDITS = [("xylem/load_url.py", """            if e.code == 503 and retry:
""", """            if e.code >= 503 and retry:
""")]
# ---
s = Server(a=lambda n: (504, {}, b'') if n == 1 else (200, {}, b'x: y'),
           b=lambda n: (503, {}, b'') if n == 1 else (200, {}, b'x: y'))
from xylem.load_url import load_url, DownloadFailure
check(load_url(s.url('b'), retry=2, retry_period=0) == 'x: y' and s.count['b'] == 2)
try:
    got = load_url(s.url('a'), retry=2, retry_period=0)
    check(False, 'no failure', got)
except DownloadFailure:
    pass
check(s.count['a'] == 1, s.count)
