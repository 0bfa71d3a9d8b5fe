"""Downloads: load_url against servers, connections and clocks that misbehave."""
from .. import net, programs
from .base import World

CONTENTS = ['simple text\n', '', 'x', '\u00e4\u00f6\u00fc \u20ac \u65e5\u672c\n', 'a' * 9000 + '\n',
            'line\r\nline\rline\n', '\ufeffwith mark', 'key: value\n' * 700]
CHARSETS = [None, None, None, 'utf-8', 'UTF-8', 'latin-1', 'utf-16', 'ascii', 'nosuchcharset',
            'cp1252']

ODD = ['rules.yaml', '//files.example/rules.yaml', 'http:///rules.yaml', 'http://[::1/rules.yaml',
       'http://files.example:port/x', 'http://files.example/a b', 'http://files.example/\u00fc',
       'nosuch://files.example/', 'http://files.example/a\nb', 'http://', '']


class LoadWorld(World):
    sessions = 300
    loads = (1, 3)
    interrupts = True
    last = None

    def go(self):
        ch, sim = self.ch, self.sim
        names = [b for b in net.FAULTS if ch.chance(400)]
        good = [b for b in net.BENIGN if ch.chance(500)]
        retry = sorted(net.RETRYABLE)
        p = ch.choice([0.3, 0.0, 0.6])
        pr = ch.choice([0.3, 0.0, 0.5])
        rows = [(b, p / len(names)) for b in names]
        rows += [(b, pr / len(retry)) for b in retry]
        rows += [(b, 0.25 / len(good)) for b in good]
        self.net.rows = rows
        if self.interrupts and ch.chance(300):
            sim.fault_rows = [({'connect', 'send', 'recv', 'sleep'}, 'int', 0.1),
                              ({'connect'}, 'err:EMFILE', 0.05),
                              ({'recv'}, 'err:EIO', 0.05),
                              ({'send'}, 'err:ECONNRESET', 0.05)]
            sim.max_faults = ch.choice([1, 2])
        sim.clock_tick = ch.choice([0.001, 0.0, 0.3])
        for i in range(ch.range(*self.loads)):
            self.load()
            if sim.violations:
                break

    def load(self):
        ch, sim = self.ch, self.sim
        scheme = ch.weighted([('http', 4), ('https', 1)])
        port = ch.weighted([('', 5), (':8080', 1)])
        url = '%s://files%d.example%s/%s' % (scheme, self.ops, port,
                                            ch.choice(['rules.yaml', 'a/b?c=d&e', '', 'r{0}.yaml?{x}=%s', '%7Ea//b.']))
        if self.in_session() and self.last and ch.chance(500):
            url = self.last         # the server has something else by now
        self.last = url
        if ch.chance(30):
            url = ch.choice(ODD)        # nobody can load that
            self.last = None
        text = ch.choice(CONTENTS)
        cs = ch.choice(CHARSETS)
        if ch.chance(60):
            data = b'\xff\xfebroken \x80 bytes'
        else:
            try:
                data = text.encode(cs if cs and cs != 'nosuchcharset' else 'utf-8')
            except UnicodeError:
                data = text.encode('utf-8')
        missing = ch.chance(40)
        key = url if url.count('/') > 2 else url + '/'
        self.net.forget(key)
        if not missing:
            self.net.put(key, data)
            if cs:
                self.net.charset[key] = cs
                self.net.charset_form[key] = ch.choice([
                    'charset=%s', 'charset="%s"', 'charset=%s; format=flowed',
                    'format=flowed; charset="%s"', 'CHARSET=%s', 'x="a; b"; charset=%s'])
        kwargs = {}
        if ch.chance(700):
            kwargs['retry'] = ch.choice([0, 1, 2, 3, 5, -1])
        if ch.chance(700):
            kwargs['retry_period'] = ch.choice([1, 0, 0.5, 7])
        if ch.chance(700):
            kwargs['timeout'] = ch.choice([10, 1, 3, 0.25])
        r0, s0 = len(self.net.requests), len(sim.sleeps)
        t = self.start('load', programs.load, (url, kwargs))
        sim.run()
        self.tell('load', url, kwargs, cs, len(data), [r.behaviour for r in self.net.requests[r0:]],
                  t.result[1][0] if t.result and t.result[0] == 'ok' else t.status[0],
                  [x[0] + '@' + x[1] for x in t.injected])
        self.judge(t, url, data, cs, kwargs, self.net.requests[r0:], sim.sleeps[s0:])

    def judge(self, t, url, data, cs, kwargs, reqs, sleeps):
        sim = self.sim
        retry = max(0, kwargs.get('retry', 2))
        period = kwargs.get('retry_period', 1)
        timeout = kwargs.get('timeout', 10)
        bad = lambda cls, msg: sim.violate(('C06',), cls, '%s %s %s: %s; requests %s, result %s' % (
            t.name, url, kwargs, msg, [(r.behaviour, r.end) for r in reqs], str(t.result)[:600]))
        if self.hung(t):
            return bad('hang', 'never ends')
        r = t.result
        if r is None or r[0] != 'ok':
            return bad('wrong-exception', 'ends with %s' % str(t.status)[:300])
        what, detail = r[1][0], r[1][1]
        # group requests into attempts (a redirect is followed within the attempt)
        attempts = []
        for q in reqs:
            if attempts and attempts[-1][-1].end == 'redirect' and not attempts[-1][-1].hurt:
                attempts[-1].append(q)
            else:
                attempts.append([q])
        hurt = [x for x in t.injected]
        if any(x[0] == 'int' for x in hurt):
            step = [x[3] for x in hurt if x[0] == 'int'][0]
            if what != 'exc' or detail != 'KeyboardInterrupt':
                sim.violate(('C06', 'C19'), 'interrupt-swallowed', '%s: interrupt in %s, result %s'
                            % (t.name, hurt, str(r)[:300]))
            if any(q.step > step for q in reqs):
                sim.violate(('C06', 'C19'), 'fetch-after-interrupt',
                            '%s requests again after the interrupt' % t.name)
            return
        self.state('load', what, retry, ','.join(a[-1].end or 'ok' for a in attempts),
                   len(hurt))
        # expected number of attempts and outcome
        left, exp = retry, None
        for i, a in enumerate(attempts):
            last = a[-1]
            if last.hurt:
                exp = 'failure'
            elif last.end is None and last.delivered:
                exp = 'ok'
            elif last.end in net.RETRYABLE:
                if left:
                    left -= 1
                    exp = None
                else:
                    exp = 'failure'
            else:
                exp = 'failure'
            if exp is not None:
                if i + 1 < len(attempts):
                    return bad('too-many-attempts', 'tries again after attempt %d' % (i + 1))
                break
        if not attempts:
            exp = 'failure'
        if exp is None:
            return bad('too-few-attempts', '%d attempts, %d retries left' % (len(attempts), left))
        if exp == 'failure':
            if what != 'failure':
                return bad('wrong-outcome', 'should raise DownloadFailure')
        else:
            q = attempts[-1][-1]
            c = 'iso-8859-1' if q.behaviour == 'latin1' and not cs and q.body != data else \
                'utf-8' if q.behaviour in ('utf8decl', 'charsetcase') else cs or 'utf-8'
            try:
                text = q.body.decode(c, 'replace')
            except LookupError:
                text = None
            if text is None:
                if what != 'failure':
                    return bad('wrong-outcome', 'unknown charset, should raise DownloadFailure')
            elif what != 'ok':
                if what == 'failure' and q.body.decode(c, 'ignore') != text.replace('\ufffd', ''):
                    pass
                elif what != 'failure' or self.decodes(q.body, c):
                    return bad('wrong-outcome', 'a complete response is not returned')
            elif detail != text and self.decodes(q.body, c):
                return bad('wrong-content', 'returned %d characters instead of %d' % (
                    len(detail), len(text)))
        # pauses and timeouts
        pauses = [d for st, n, d in sleeps if n == t.name]
        for i in range(len(attempts) - 1):
            a, b = attempts[i][0].step, attempts[i + 1][0].step
            got = sum(d for st, n, d in sleeps if n == t.name and a <= st <= b)
            if abs(got - period) > 1e-6:
                bad('wrong-pause', 'pauses %s s instead of %s s before attempt %d' % (
                    got, period, i + 2))
        if attempts and sum(pauses) > period * (len(attempts) - 1) + 1e-6:
            bad('wrong-pause', 'pauses %s although there were %d attempts' % (
                pauses, len(attempts)))
        for q in reqs:
            seen = {q.timeout} | q.timeouts
            if seen != {float(timeout)}:
                bad('wrong-timeout', 'uses timeouts %s instead of %s' % (seen, timeout))

    @staticmethod
    def decodes(body, c):
        try:
            body.decode(c)
            return True
        except UnicodeError:
            return False
