#!/usr/bin/env python3
"""Quick mutants (no demonstration): mutants.py [-j N] [ID ...]

Each is applied to a scratch copy of /repo; those which fail the stable tests are reported,
the check of the given properties is run on the others.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'tools'))
from mutantlist import MUTANTS as FIRST
from mutantlist2 import MUTANTS as SECOND

from mutantlist3 import MUTANTS as THIRD
from mutantlist4 import MUTANTS as FOURTH
from mutantlist5 import MUTANTS as FIFTH

MUTANTS = FIRST + SECOND + THIRD + FOURTH + FIFTH

BASE = json.load(open('/opt/vp/BASELINE.json'))


def sh(*cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          universal_newlines=True, **kw)


def main():
    ids = sys.argv[1:]
    dry = '-n' in ids          # only check that they apply
    top = tempfile.mkdtemp(prefix='xylem-mutants-')
    try:
        for name, pids, edits in MUTANTS:
            if ids and not any(name.startswith(i) for i in ids if i != '-n') and ids != ['-n']:
                continue
            copy = os.path.join(top, name)
            shutil.copytree('/repo', copy, symlinks=True)
            sh('git', '-C', copy, 'checkout', '--', '.')
            bad = None
            for f, old, new in edits:
                p = os.path.join(copy, f)
                s = open(p, encoding='utf-8').read()
                if s.count(old) != 1:
                    bad = 'found %d times in %s: %r' % (s.count(old), f, old[:60])
                    break
                open(p, 'w', encoding='utf-8').write(s.replace(old, new))
            if bad:
                print(name, 'BAD', bad, flush=True)
                shutil.rmtree(copy)
                continue
            if dry:
                r = sh('/opt/venv/bin/python', '-m', 'compileall', '-q', os.path.join(copy, 'xylem'))
                if r.returncode:
                    print(name, r.stdout[-500:])
                shutil.rmtree(copy)
                continue
            r = sh('/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', 'test',
                   cwd=copy, env=dict(os.environ, PYTHONPATH=copy))
            tests = r.stdout.strip().splitlines()[-1:]
            out = []
            for p in pids.split(','):
                t = time.time()
                r = sh(os.path.join(ROOT, 'check'), p, cwd=ROOT, env=dict(os.environ, XSIM_REPO=copy))
                hit = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
                why = [l for l in r.stdout.splitlines() if ' violated: ' in l]
                out.append('%s:%s %.0fs' % (p, ' CAUGHT' if hit else ' MISSED', time.time() - t))
                if why:
                    out.append(why[0][:110])
                if r.returncode not in (0, 1) or (r.returncode and not hit):
                    out.append(r.stdout[-800:])
            print(name, '  '.join(out), tests, flush=True)
            shutil.rmtree(copy)
    finally:
        shutil.rmtree(top)


main()
