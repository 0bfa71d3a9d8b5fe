META = {"property": "C06",
        "needs": "a 503 reply with a Retry-After header holding a date",
        "what_it_breaks": "the download fails with an unexpected exception instead of being tried again"}
EDITS = [("xylem/load_url.py", """            if e.code == 503 and retry:
                retry -= 1
                time.sleep(retry_period)
""", """            if e.code == 503 and retry:
                retry -= 1
                time.sleep(float(e.headers.get('Retry-After', retry_period)))
""")]
# ---
s = Server(r=lambda n: (503, {'Retry-After': 'Fri, 31 Dec 1999 23:59:59 GMT'}, b'')
           if n == 1 else (200, {}, b'a: 1\n'))
from xylem.load_url import load_url
data = load_url(s.url('r'), retry_period=0.01)
check(data == 'a: 1\n', repr(data))
check(s.count['r'] == 2, s.count)
