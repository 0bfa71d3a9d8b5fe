"""Worker process: executes runs (or shrinks one) given as JSON on stdin."""
import json
import os
import shutil
import signal
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def emit(obj):
    sys.stdout.write(json.dumps(obj) + '\n')
    sys.stdout.flush()


def vio(v):
    return {'tags': list(v.tags), 'cls': v.cls, 'msg': v.msg, 'step': v.step}


def summary(idx, world, seed, r, full):
    d = {'idx': idx, 'world': world, 'seed': seed, 'stats': r.stats, 'digest': r.digest,
         'sched': r.sched, 'nontrivial': r.nontrivial, 'sim_time': r.sim_time,
         'states': r.states, 'violations': [vio(v) for v in r.violations]}
    if full:
        d['sample'] = r.sample
    if r.violations:
        d['rec'] = r.rec
    return d


def main():
    job = json.loads(sys.stdin.readline())
    from xsim import rt, shrink
    base = rt.scratch_base()
    me = os.getpid()
    signal.signal(signal.SIGTERM, lambda *a: sys.exit(3))
    emit({'base': base})
    try:
        rt.setup()
        if job['op'] == 'run':
            for n, (idx, world, seed) in enumerate(job['runs']):
                r = rt.run_one(world, seed, base)
                emit(summary(idx, world, seed, r, n < 2))
        elif job['op'] == 'replay':
            r = rt.run_one(job['world'], job['seed'], base, job['rec'], job.get('trace', False))
            d = summary(0, job['world'], job['seed'], r, True)
            d['trace'] = r.trace
            emit(d)
        elif job['op'] == 'shrink':
            emit(shrink.shrink(job, base))
        emit({'end': True})
    except SystemExit:
        raise
    except BaseException:
        if os.getpid() == me:
            import traceback
            emit({'error': traceback.format_exc()[-4000:]})
    finally:
        if os.getpid() == me:
            shutil.rmtree(base, ignore_errors=True)


if __name__ == '__main__':
    main()
