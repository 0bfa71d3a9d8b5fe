"""Lines of xylem which simulated processes executed: cover.py OUT WORLD FROM TO

Processes which the simulator killed report nothing.  Prints lines never executed
when OUT exists already and no world is given."""
import glob
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def run(out, world, a, b):
    import shutil
    from xsim import rt, core, seams
    rt.setup()
    seen = set()
    mon = sys.monitoring
    mon.use_tool_id(mon.COVERAGE_ID, 'xsim')
    top = rt.REPO + '/xylem/'

    def line(code, n):
        if code.co_filename.startswith(top):
            seen.add((code.co_filename[len(top):], n))
        return mon.DISABLE
    mon.register_callback(mon.COVERAGE_ID, mon.events.LINE, line)
    mon.set_events(mon.COVERAGE_ID, mon.events.LINE)
    real = core.R._exit
    ropen, rwrite, rclose = os.open, os.write, os.close
    flags = os.O_WRONLY | os.O_APPEND | os.O_CREAT

    def leave(rc):
        fd = ropen(out, flags, 0o644)
        for i in range(0, 1):
            rwrite(fd, ''.join('%s:%d\n' % x for x in sorted(seen)).encode())
        rclose(fd)
        real(rc)
    core.R._exit = leave
    base = rt.scratch_base()
    try:
        for s in range(a, b):
            rt.run_one(world, s, base)
            if os.path.getsize(out) > 1 << 20:
                keep = sorted(set(open(out)))
                with open(out, 'w') as f:
                    f.writelines(keep)
    finally:
        shutil.rmtree(base)


def report(out):
    seen = set(open(out).read().split('\n'))
    top = os.environ.get('XSIM_REPO', '/repo') + '/xylem/'
    for p in sorted(glob.glob(top + '**/*.py', recursive=True)):
        name = p[len(top):]
        src = open(p, encoding='utf-8').read()
        lines = set()

        def walk(c):
            for _, _, n in c.co_lines():
                if n:
                    lines.add(n)
            for k in c.co_consts:
                if hasattr(k, 'co_lines'):
                    walk(k)
        walk(compile(src, p, 'exec'))
        text = src.split('\n')
        miss = [n for n in sorted(lines) if '%s:%d' % (name, n) not in seen]
        miss = [n for n in miss if not text[n - 1].strip().startswith(
            ('def ', 'class ', 'import ', 'from ', '"""', '@'))]
        print('%s: %d of %d not executed' % (name, len(miss), len(lines)))
        for n in miss:
            print('    %4d %s' % (n, text[n - 1]))


if len(sys.argv) > 2:
    run(sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4]))
else:
    report(sys.argv[1])
