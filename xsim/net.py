"""Simulated HTTP servers behind the socket seam (the real urllib/http.client run)."""
from urllib.parse import urlsplit

# behaviours of one request, by name.  'ok' is the default.
FAULTS = ('dns', 'dnstemp', 'refused', 'unreach', 'ctimeout', 'stall', 'reset0',
          'midreset', 'midstall', 'short', 'status503', 'status404', 'status500',
          'status403', 'status502', 'status504', 'status429', 'garbage', 'emptyreply', 'shortchunk', 'badchunk', 'sendreset')
RETRY_AFTER = ('120', '0', 'Fri, 31 Dec 1999 23:59:59 GMT', '-5', '1e9', 'soon', '1.5')
EXTRA = (('Server', 'sim/1.0'), ('Date', 'Tue, 15 Nov 2014 08:12:31 GMT'),
         ('ETag', '"abc"'), ('Last-Modified', 'Tue, 15 Nov 1994 12:45:26 GMT'),
         ('Expires', '0'), ('Expires', 'Thu, 01 Dec 2034 16:00:00 GMT'),
         ('Cache-Control', 'max-age=3600'), ('Age', '7000'), ('Vary', '*'),
         ('Content-Language', 'de'), ('X-Empty', ''), ('Warning', '110 stale'),
         ('Retry-After', '30'))
BENIGN = ('slow', 'drip', 'chunked', 'close', 'latin1', 'redirect', 'charsetcase', 'utf8decl')
RETRYABLE = {'ctimeout', 'stall', 'midstall', 'status503'}


class Request(object):
    def __init__(self, n, task, host, port, timeout, behaviour, step, now):
        self.n = n
        self.task = task.name
        self.host = host
        self.port = port
        self.timeout = timeout
        self.behaviour = behaviour
        self.step = step
        self.t0 = now
        self.url = None          # what was asked of the server
        self.wanted = None       # for which url the connection was made, if known
        self.origin = host if port in (80, 443) else '%s:%d' % (host, port)
        self.content = None      # what the server holds for the url
        self.body = None         # bytes a complete response would carry
        self.delivered = False   # complete response handed over
        self.served_step = None
        self.end = None
        self.timeouts_seen = []
        self.timeouts = set()    # timeouts used on the open connection
        self.hurt = False
        self.hops = 0
        self.method = None


class Net(object):
    def __init__(self):
        self.content = {}        # url -> bytes (None: 404)
        self.charset_form = {}   # url -> how it declares it
        self.charset = {}        # url -> charset declared by the server
        self.rows = []           # [(behaviour, probability)]
        self.offline = False
        self.requests = []
        self.conns = {}
        self.latency = 0.05
        self.on_request = None

    def put(self, url, data):
        self.content[url] = data

    def forget(self, url):
        self.content.pop(url, None)
        self.charset.pop(url, None)
        self.charset_form.pop(url, None)

    # url as the client names it: scheme from the port
    def _url(self, host, port, path):
        scheme = 'https' if port == 443 else 'http'
        p = '' if port in (80, 443) else ':%d' % port
        return '%s://%s%s%s' % (scheme, host, p, path)

    def hurt(self, sim, t, kind, args, err):
        """An operation of a request fails with an error of the operating system."""
        if kind == 'connect':
            r = Request(t.count('net'), t, args[0], args[1], args[2], 'error', sim.step_no,
                        sim.now)
            r.wanted = args[3]
            self.requests.append(r)
        else:
            r = self.conns[args[0]]['req']
            r.timeouts.add(args[2])
            if r.delivered:
                return
        r.hurt = True
        r.end = err

    def dns(self, sim, t, host):
        sim.reply(t)

    def connect(self, sim, t, host, port, timeout, wanted=None):
        n = t.count('net')
        v = 'refused' if self.offline else sim.ch.keyed(
            'env', '%s:net:%d' % (t.name, n), self.rows, sim.faults_on)
        r = Request(n, t, host, port, timeout, v or 'ok', sim.step_no, sim.now)
        r.wanted = wanted
        self.requests.append(r)
        sim.hit('requests')
        if v is not None:
            sim.hit('fault:net:' + v if v in FAULTS else 'net:' + v)
            sim.log(t.name, 'NET', v)
        if v in ('dns', 'dnstemp', 'refused', 'unreach'):
            r.end = v
            d = 5.0 if v.startswith('dns') else 0.01
            return sim.block(t, sim.now + d, lambda: sim.reply(t, 'neterr', v))
        if v == 'ctimeout':
            r.end = v
            if timeout is None:
                # an operating system gives up eventually
                return sim.block(t, sim.now + 130, lambda: sim.reply(t, 'neterr', 'timeout'))
            return sim.block(t, sim.now + timeout, lambda: sim.reply(t, 'neterr', 'timeout'))
        cid = len(self.conns) + 1
        self.conns[cid] = {'req': r, 'in': b'', 'out': None, 'pos': 0, 'n': 0}
        sim.block(t, sim.now + self.latency, lambda: sim.reply(t, 'go', cid))

    def send(self, sim, t, cid, data, timeout):
        c = self.conns[cid]
        c['in'] += data
        c['req'].timeouts.add(timeout)
        if c['req'].behaviour == 'sendreset':
            c['req'].end = 'sendreset'
            return sim.reply(t, 'neterr', 'pipe')
        if b'\r\n\r\n' in c['in'] and c['out'] is None:
            self._serve(sim, t, c)
        sim.reply(t)

    def _serve(self, sim, t, c):
        r = c['req']
        line = c['in'].split(b'\r\n', 1)[0].decode('latin1').split(' ')
        r.method, path = line[0], line[1]
        host = r.host
        for h in c['in'].split(b'\r\n')[1:]:
            if h.lower().startswith(b'host:'):
                host = h[5:].strip().decode('latin1').split(':')[0]
        r.url = self._url(host, r.port, path)
        r.served_step = sim.step_no
        v = r.behaviour
        sim.log(t.name, 'GET', r.url, v)
        if self.on_request:
            self.on_request(sim, t, r)
        url = r.url
        if url.endswith('!redirected'):
            url = url[:-len('!redirected')]
        content = self.content.get(url)
        r.content = content

        def head(status, reason, headers):
            # what servers send along has no influence
            u = sim.ch.number('env', '%s:head:%d' % (t.name, r.n))
            headers = list(headers)
            if status >= 400 and u > 0.4:
                headers.append(('Retry-After', RETRY_AFTER[int(u * 997) % len(RETRY_AFTER)]))
            elif u > 0.5:
                headers.append(EXTRA[int(u * 997) % len(EXTRA)])
            return ('HTTP/1.1 %d %s\r\n%s\r\n' % (status, reason, ''.join(
                '%s: %s\r\n' % h for h in headers))).encode('latin1')
        if v.startswith('status') or content is None:
            code = int(v[6:]) if v.startswith('status') else 404
            body = b'foo:\n  any_os:\n    any_version:\n      s1: [error-page]\n'
            c['out'] = [(0.1, head(code, 'Error', [('Content-Length', len(body)),
                                                  ('Connection', 'close')]) + body)]
            r.end = 'status%d' % code
            return
        if v == 'redirect' and not r.url.endswith('!redirected'):
            body = b'moved'
            c['out'] = [(0.1, head(302, 'Found', [
                ('Location', r.url + '!redirected'), ('Content-Length', len(body)),
                ('Connection', 'close')]) + body)]
            r.end = 'redirect'
            return
        if v == 'garbage':
            c['out'] = [(0.1, b'\x00\x01 what is this\r\n\r\n')]
            r.end = v
            return
        if v == 'emptyreply':
            c['out'] = []
            r.end = v
            return
        if v == 'reset0':
            c['out'] = [(0.1, 'reset')]
            r.end = v
            return
        if v == 'stall':
            c['out'] = [(10 ** 7, b'')]
            r.end = v
            return
        ctype = 'text/plain'
        cs = self.charset.get(url)
        if v == 'utf8decl':
            ctype = 'text/plain; charset=utf-8'
        elif v == 'charsetcase':
            ctype = 'text/yaml; Charset="UTF-8"; x=y'
        elif cs:
            ctype = 'text/plain; ' + self.charset_form.get(url, 'charset=%s') % cs
        if v == 'latin1' and not cs:
            try:
                content = content.decode('utf-8').encode('latin1')
                ctype = 'text/plain; charset=ISO-8859-1'
            except UnicodeError:
                pass
        r.body = content
        hs = [('Content-Type', ctype), ('Connection', 'close')]
        if v in ('chunked', 'shortchunk', 'badchunk'):
            hs.append(('Transfer-Encoding', 'chunked'))
            half = len(content) // 2 or 1
            parts = [content[:half], content[half:]]
            body = b''.join(b'%x\r\n%s\r\n' % (len(p), p) for p in parts if p)
            if v == 'chunked':
                body += b'0\r\n\r\n'
            elif v == 'badchunk':
                body = body[:len(body) // 2] + b'zz\r\n'
            else:
                body = body[:max(1, len(body) - 3)]
            out = head(200, 'OK', hs) + body
            c['out'] = [(0.1, out)]
        elif v == 'close':
            c['out'] = [(0.1, head(200, 'OK', hs) + content)]
        else:
            hs.append(('Content-Length', len(content)))
            h = head(200, 'OK', hs)
            u = sim.ch.number('env', '%s:cut:%d' % (t.name, r.n)) if v in (
                'midreset', 'midstall', 'short') else 0
            cut = int(u * len(content)) if u else len(content) // 2
            cut = min(cut, max(0, len(content) - 1))
            if v == 'midreset':
                c['out'] = [(0.1, h + content[:cut]), (0.1, 'reset')]
            elif v == 'midstall':
                c['out'] = [(0.1, h + content[:cut]), (10 ** 7, b'')]
            elif v == 'short':
                c['out'] = [(0.1, h + content[:cut])]
            elif v == 'slow':
                c['out'] = [((r.timeout or 10) * 0.8, h), ((r.timeout or 10) * 0.8, content)]
            elif v == 'drip':
                n = max(1, len(content) // 3)
                d = min(0.3, (r.timeout or 10) * 0.7)
                c['out'] = [(d, h)] + [(d, content[i:i + n])
                                       for i in range(0, len(content), n)]
            else:
                c['out'] = [(0.1, h + content)]
        if v in ('midreset', 'midstall', 'short', 'shortchunk', 'badchunk'):
            r.end = v
            if not content and v not in ('shortchunk', 'badchunk'):
                # nothing is missing
                r.end = None
                del c['out'][1:]
        while len(c['out']) > 1 and c['out'][-1][1] == b'' and c['out'][-1][0] < 10 ** 6:
            c['out'].pop()

    def recv(self, sim, t, cid, n, timeout):
        c = self.conns[cid]
        r = c['req']
        r.timeouts.add(timeout)
        if c['out'] is None:
            # a client that reads before it has asked waits for ever
            c['out'] = [(10 ** 7, b'')]
        if c['n'] >= len(c['out']):
            if r.end is None:
                r.delivered = True
            return sim.reply(t, 'go', b'')
        delay, data = c['out'][c['n']]
        if c['pos'] == 0 and delay:
            if timeout is not None and delay > timeout:
                def late():
                    sim.reply(t, 'neterr', 'timeout')
                r.timeouts_seen.append(sim.now)
                return sim.block(t, sim.now + timeout, late)
            if delay >= 10 ** 6:
                # nobody ever answers and the client has no timeout
                sim.log(t.name, 'waits for ever on the network')
                sim.hit('endless_wait')
                return sim.kill(t, ('hang',))
            return sim.block(t, sim.now + delay, lambda: self._data(sim, t, c, n))
        self._data(sim, t, c, n)

    def _data(self, sim, t, c, n):
        r = c['req']
        _, data = c['out'][c['n']]
        if data == 'reset':
            return sim.reply(t, 'neterr', 'reset')
        chunk = data[c['pos']:c['pos'] + n]
        c['pos'] += len(chunk)
        if c['pos'] >= len(data):
            c['n'] += 1
            c['pos'] = 0
            if c['n'] >= len(c['out']) and r.end is None and r.behaviour != 'close':
                r.delivered = True
        sim.reply(t, 'go', chunk)
