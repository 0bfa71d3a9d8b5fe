"""Minimise the decisions of a failing run while the same violation persists."""
import time

from . import rt


def _size(rec):
    return (len(rec['fault']), len(rec['sched']), len(rec['env']),
            sum(1 for g in rec['gen'] if g), len(rec['gen']), sum(rec['gen']))


def shrink(job, base):
    world, seed, pid, cls = job['world'], job['seed'], job['property'], job['cls']
    deadline = time.monotonic() + job['budget']
    tried = [0]

    def attempt(rec):
        tried[0] += 1
        try:
            r = rt.run_one(world, seed, base, rec)
        except Exception:
            return None
        for v in r.violations:
            if v.cls == cls and pid in v.tags:
                return r
        return None

    def trim(rec):
        rec = {k: (list(v) if k == 'gen' else dict(v)) for k, v in rec.items()}
        while rec['gen'] and not rec['gen'][-1]:
            rec['gen'].pop()
        return rec

    first = attempt(job['rec'])
    if first is None:
        return {'ok': False, 'tried': tried[0]}
    best = trim(first.rec)

    def improve(rec):
        nonlocal best
        if time.monotonic() > deadline:
            return False
        r = attempt(rec)
        if r is None:
            return False
        new = trim(r.rec)
        if _size(new) < _size(best):
            best = new
            return True
        return False

    changed = True
    while changed and time.monotonic() < deadline:
        changed = False
        for stream in ('sched', 'fault', 'env'):
            n = len(best[stream])
            size = n
            while size >= 1 and time.monotonic() < deadline:
                keys = sorted(best[stream])
                i = 0
                while i < len(keys):
                    gone = set(keys[i:i + size])
                    c = dict(best)
                    c[stream] = {k: v for k, v in best[stream].items() if k not in gone}
                    if len(c[stream]) < len(best[stream]) and improve(c):
                        changed = True
                        keys = sorted(best[stream])
                    else:
                        i += size
                size //= 2
        # dense stream: cut spans out, zero spans, lower values
        for mode in ('cut', 'zero'):
            size = max(1, len(best['gen']) // 2)
            while size >= 1 and time.monotonic() < deadline:
                i = 0
                while i < len(best['gen']) and time.monotonic() < deadline:
                    g = best['gen']
                    if mode == 'cut':
                        new = g[:i] + g[i + size:]
                    else:
                        if not any(g[i:i + size]):
                            i += size
                            continue
                        new = g[:i] + [0] * len(g[i:i + size]) + g[i + size:]
                    if improve(dict(best, gen=new)):
                        changed = True
                    else:
                        i += size
                size //= 2
                if mode == 'cut' and size < 2:
                    break
        if time.monotonic() > deadline:
            break
        for i in range(len(best['gen'])):
            if i < len(best['gen']) and best['gen'][i] > 1:
                g = list(best['gen'])
                g[i] = g[i] // 2
                if improve(dict(best, gen=g)):
                    changed = True
    r = attempt(best)
    v = [v for v in r.violations if v.cls == cls and pid in v.tags][0]
    return {'ok': True, 'tried': tried[0], 'rec': best, 'digest': r.digest, 'msg': v.msg,
            'step': v.step, 'sample': r.sample, 'before': _size(job['rec']),
            'after': _size(best)}
