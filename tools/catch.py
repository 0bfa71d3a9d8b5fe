#!/usr/bin/env python3
"""Run the checks against planted bugs: catch.py [-p PID,PID] [-t] [ID ...]

Applies each patch to a scratch copy of /repo and runs the check of its property (or
the given ones) on that copy (XSIM_REPO).  Prints what each check answered.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(*cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          universal_newlines=True, **kw)


def main():
    args = sys.argv[1:]
    pids = None
    tier = []
    if '-p' in args:
        i = args.index('-p')
        pids = args[i + 1].split(',')
        del args[i:i + 2]
    if '-t' in args:
        args.remove('-t')
        tier = ['--tier', 'thorough']
    ids = args or sorted(os.listdir(os.path.join(ROOT, 'seeded')))
    top = tempfile.mkdtemp(prefix='xylem-catch-')
    try:
        for i in ids:
            one(top, i, pids, tier)
    finally:
        shutil.rmtree(top)


def one(top, i, pids, tier):
    d = os.path.join(ROOT, 'seeded', i)
    meta = json.load(open(os.path.join(d, 'meta.json')))
    copy = os.path.join(top, i)
    shutil.copytree('/repo', copy, symlinks=True)
    sh('git', '-C', copy, 'checkout', '--', '.')
    r = sh('git', '-C', copy, 'apply', os.path.join(d, 'patch.diff'))
    if r.returncode:
        print(i, 'does not apply', r.stdout)
        return
    env = dict(os.environ, XSIM_REPO=copy)
    out = []
    for p in pids or [meta['property']]:
        t = time.time()
        r = sh(os.path.join(ROOT, 'check'), p, *tier, cwd=ROOT, env=env)
        hit = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
        out.append('%s:%s%s %.0fs' % (p, r.returncode, ' CAUGHT' if hit else ' missed',
                                      time.time() - t))
        if r.returncode not in (0, 1) or (r.returncode and not hit):
            out.append(r.stdout[-800:])
    print(i, '  '.join(out), flush=True)
    shutil.rmtree(copy)


main()
