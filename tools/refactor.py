#!/usr/bin/env python3
"""refactor.py [-c PIDS] [NAME ...]: apply edits of refactorlist.py (all at once) to a scratch copy, run the checks."""
import os, shutil, subprocess, sys, tempfile, json
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'tools'))
from refactorlist import REFACTORS


def main():
    a = sys.argv[1:]
    pids = [c["property"] for c in json.load(open(os.path.join(ROOT, 'MANIFEST.json')))['checks']]
    if a[:1] == ['-c']:
        pids = a[1].split(',')
        a = a[2:]
    top = tempfile.mkdtemp(prefix='xylem-refactor-')
    copy = os.path.join(top, 'repo')
    try:
        shutil.copytree('/repo', copy, symlinks=True)
        for name, edits in REFACTORS:
            if a and name not in a:
                continue
            for f, old, new in edits:
                p = os.path.join(copy, f)
                s = open(p, encoding='utf-8').read()
                assert s.count(old) == 1, (name, f, s.count(old), old[:80])
                open(p, 'w', encoding='utf-8').write(s.replace(old, new))
        r = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', 'test'],
                           cwd=copy, env=dict(os.environ, PYTHONPATH=copy), stdout=-1, stderr=-2, universal_newlines=True)
        print(r.stdout.strip().splitlines()[-1:], flush=True)
        for p in pids:
            r = subprocess.run([os.path.join(ROOT, 'check'), p], cwd=ROOT, env=dict(os.environ, XSIM_REPO=copy),
                               stdout=-1, stderr=-2, universal_newlines=True)
            print(p, 'quiet' if r.returncode == 0 else 'ALARM %d\n%s' % (r.returncode, r.stdout[-1500:]), flush=True)
    finally:
        shutil.rmtree(top)


main()
