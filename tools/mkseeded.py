#!/usr/bin/env python3
"""Write and confirm the planted bugs: mkseeded.py [ID ...]

tools/bugs/<id>.py holds, above a line `# ---`, EDITS [(file, old, new)] and META;
below it, the demonstration.  Each is confirmed in a scratch copy of /repo: the changed
lines are original ones, the build and the tests pass, the demonstration fails with the
change and passes without it.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(os.path.dirname(HERE), 'seeded')
BASE = 'c074b6b'
PY = '/opt/venv/bin/python'

DEMO_SH = '''#!/bin/bash
# Exit status 0: the property holds in the situation demo.py sets up.
here=$(cd "$(dirname "$0")" && pwd)
py=/opt/venv/bin/python
[ -x $py ] || py=python3
export PYTHONDONTWRITEBYTECODE=1
exec $py "$here/demo.py"
'''


def sh(*cmd, **kw):
    kw.setdefault('stdout', subprocess.PIPE)
    kw.setdefault('stderr', subprocess.STDOUT)
    return subprocess.run(cmd, universal_newlines=True, **kw)


def tests(copy):
    rep = os.path.join(copy, 'junit.xml')
    env = dict(os.environ, PYTHONPATH=copy, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
               PATH='/opt/venv/bin:/usr/local/bin:/usr/bin:/bin')
    sh(PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--continue-on-collection-errors',
       '-o', 'junit_family=xunit2', '--junitxml=' + rep, 'test', cwd=copy, env=env)
    import xml.etree.ElementTree as ET
    ok = set()
    for c in ET.parse(rep).iter('testcase'):
        if not any(x.tag in ('failure', 'error', 'skipped') for x in c):
            ok.add('%s::%s' % (c.get('classname'), c.get('name')))
    os.remove(rep)
    return ok


def demo(d, copy):
    try:
        r = sh('bash', os.path.join(d, 'demo.sh'), cwd=copy, timeout=300)
    except subprocess.TimeoutExpired:
        return 124, 'timeout'
    return r.returncode, r.stdout


def load(path):
    text = open(path).read()
    head, body = text.split('\n# ---\n', 1)
    ns = {}
    exec(head, ns)
    return ns['EDITS'], ns['META'], body


def main():
    ids = sys.argv[1:] or sorted(f[:-3] for f in os.listdir(os.path.join(HERE, 'bugs'))
                                 if f[:1].isupper() or f[:1] == 'c')
    tmp = tempfile.mkdtemp(prefix='mkseeded-')
    copy = os.path.join(tmp, 'repo')
    shutil.copytree('/repo', copy, symlinks=True)
    bad = []
    try:
        stable = tests(copy)
        print(len(stable), 'tests pass on the unchanged tree')
        for i in ids:
            edits, meta, body = load(os.path.join(HERE, 'bugs', i + '.py'))
            problems = []
            d = os.path.join(tmp, 'out', i)
            os.makedirs(d)
            for f, old, new in edits:
                p = os.path.join(copy, f)
                s = open(p, encoding='utf-8').read()
                if s.count(old) != 1:
                    problems.append('%s: text found %d times' % (f, s.count(old)))
                    continue
                with open(p, 'w', encoding='utf-8') as g:
                    g.write(s.replace(old, new))
            diff = sh('git', 'diff', '-U3', cwd=copy).stdout
            open(os.path.join(d, 'patch.diff'), 'w').write(diff)
            open(os.path.join(d, 'demo.sh'), 'w').write(DEMO_SH)
            open(os.path.join(d, 'demo.py'), 'w').write(
                'from demolib import *\n\n' + body.lstrip('\n'))
            shutil.copy(os.path.join(HERE, 'bugs', 'demolib.py'), d)
            json.dump(meta, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
            # changed lines belong to the original
            names = sorted({f for f, _, _ in edits})
            orig = 0
            zero = sh('git', 'diff', '-U0', cwd=copy).stdout
            import re
            cur = None
            mine = 0
            for l in zero.splitlines():
                if l.startswith('--- a/'):
                    cur = l[6:]
                m = re.match(r'@@ -(\d+)(?:,(\d+))? ', l)
                if m:
                    a, n = int(m.group(1)), int(m.group(2) or 1)
                    if n:
                        b = sh('git', 'blame', '-s', '-L', '%d,%d' % (a, a + n - 1),
                               BASE + '..HEAD', '--', cur, cwd='/repo').stdout.splitlines()
                        orig += sum(x.startswith('^') for x in b)
                        mine += sum(not x.startswith('^') for x in b)
            if mine or not orig:
                problems.append('changes %d original and %d added lines' % (orig, mine))
            if not problems:
                lost = stable - tests(copy)
                if lost:
                    problems.append('tests lost: %s' % sorted(lost))
                r, o = demo(d, copy)
                if r == 0:
                    problems.append('demo passes with the change: ' + o[-500:])
                last = (r, o[-300:])
            sh('git', 'checkout', '--', '.', cwd=copy)
            r, o = demo(d, copy)
            if r:
                problems.append('demo fails on the unchanged tree: ' + o[-1500:])
            if problems:
                bad.append(i)
                print(i, 'REJECTED')
                for p in problems:
                    print('   ', p)
            else:
                print(i, 'ok', last)
                t = os.path.join(OUT, i)
                shutil.rmtree(t, ignore_errors=True)
                shutil.copytree(d, t)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(bool(bad))


main()
