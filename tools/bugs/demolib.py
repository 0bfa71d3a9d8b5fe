"""Helpers of the demonstrations: everything happens in a scratch directory.

The code under test is the one in the current directory.
"""
import atexit
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

REPO = os.getcwd()
sys.path.insert(0, REPO)
PY = sys.executable

SCRATCH = tempfile.mkdtemp(prefix='xylem-demo-')
atexit.register(shutil.rmtree, SCRATCH, True)
HOME = os.path.join(SCRATCH, 'home')
BIN = os.path.join(SCRATCH, 'bin')
CONF = os.path.join(SCRATCH, 'conf')            # passed as --xylem-dir
SOURCES = os.path.join(CONF, 'sources.d')
CACHE = os.path.join(CONF, 'cache')
INST = os.path.join(SCRATCH, 'installed')       # of the fake installer
for _d in (HOME, BIN, SOURCES, INST):
    os.makedirs(_d)
os.symlink(shutil.which('touch') or '/usr/bin/touch', os.path.join(BIN, 'touch'))

# nothing outside of the scratch directory can be found or reached
for _k in [k for k in os.environ if k.startswith('XYLEM') or k.lower().endswith('_proxy')]:
    del os.environ[_k]
os.environ.update(HOME=HOME, PATH=BIN, no_proxy='*', PYTHONDONTWRITEBYTECODE='1',
                  PYTHONPATH=REPO, PYTHONWARNINGS='ignore', LANG='C.UTF-8')
os.chdir(SCRATCH)


def check(cond, *what):
    if not cond:
        print('FAILED:', *what)
        sys.exit(1)


def write(path, text):
    path = os.path.join(SCRATCH, path)
    d = os.path.dirname(path)
    if not os.path.isdir(d):
        os.makedirs(d)
    with open(path, 'wb') as f:
        f.write(text if isinstance(text, bytes) else text.encode('utf-8'))
    return path


def read(path):
    with open(os.path.join(SCRATCH, path), 'rb') as f:
        return f.read().decode('utf-8')


def rules(name, data):
    """Write a rules file; returns its url.  JSON is YAML."""
    return 'file://' + write('rules/' + name, data if isinstance(data, (str, bytes))
                             else json.dumps(data))


def sources(**files):
    """sources(a=[url, ...]) creates a.yaml with these rules urls."""
    for name, urls in files.items():
        write('conf/sources.d/%s.yaml' % name, json.dumps([{'rules': u} for u in urls]))


def stub(name, script):
    p = os.path.join(BIN, name)
    with open(p, 'w') as f:
        f.write('#!/bin/sh\n' + script + '\n')
    os.chmod(p, 0o755)
    return p


def pip_stub(freeze='', install='exit 0'):
    """A pip that logs its calls; `installed` lists what it has installed."""
    log = os.path.join(SCRATCH, 'pip.log')
    db = os.path.join(SCRATCH, 'pip.db')
    write('pip.db', freeze)
    stub('pip', 'echo "$*" >> %s\n'
         'if [ "$1" = freeze ]; then while read -r l; do echo "$l"; done < %s; exit 0; fi\n'
         'if [ "$1" = install ]; then shift; [ "$1" = -U ] && shift; %s; fi'
         % (log, db, install.replace('@DB', db)))
    return log


MAIN = ('import sys; sys.argv[0] = "xylem-demo"; from xylem.commands.main import main; '
        'sys.exit(main())')


def popen(*argv, **kw):
    env = dict(os.environ)
    env.update(kw.pop('env', {}))
    pre = kw.pop('pre', '')
    return subprocess.Popen([PY, '-c', pre + MAIN] + list(argv), env=env, cwd=SCRATCH,
                            stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                            stderr=subprocess.PIPE, universal_newlines=True, **kw)


def cli(*argv, **kw):
    """Run xylem; returns (status, stdout, stderr)."""
    timeout = kw.pop('timeout', 120)
    p = popen(*argv, **kw)
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        print('FAILED: xylem did not end:', argv)
        sys.exit(1)
    return p.returncode, out, err


def base(os_='ubuntu:trusty', inst='fake', extra=()):
    o = ['--xylem-dir', CONF, '--os', os_]
    if inst:
        o += ['--core-installers', inst,
              '--installer-options', '{fake: {install_dir: "%s"}}' % INST]
    return o + list(extra)


def run(cmd, *argv, **kw):
    """Run a command with the scratch configuration."""
    o = base(**{k: kw.pop(k) for k in ('os_', 'inst', 'extra') if k in kw})
    return cli(*(o + [cmd] + list(argv)), **kw)


def config(*argv):
    """The configuration of an invocation with these options."""
    import argparse
    from xylem.arguments import add_global_arguments, handle_global_arguments
    from xylem import config as c
    p = argparse.ArgumentParser(add_help=False)
    c.add_config_arguments(p)
    add_global_arguments(p)
    args = p.parse_args(list(argv))
    handle_global_arguments(args)
    c.handle_config_arguments(args)
    return c.get_config()


class Server(object):

    """A local server: routes map a path to a function(n) -> (status, headers, body).

    n counts the requests of that path.
    """

    def __init__(self, **routes):
        from http.server import BaseHTTPRequestHandler, HTTPServer
        self.count = {}
        self.routes = routes
        me = self

        class H(BaseHTTPRequestHandler):

            def do_GET(self):
                name = self.path.strip('/')
                n = me.count[name] = me.count.get(name, 0) + 1
                status, headers, body = me.routes[name](n)
                self.send_response(status)
                for k, v in headers.items():
                    self.send_header(k, v)
                self.end_headers()
                self.wfile.write(body)

            def log_message(self, *a):
                pass

        self.httpd = HTTPServer(('127.0.0.1', 0), H)
        self.base = 'http://127.0.0.1:%d/' % self.httpd.server_port
        t = threading.Thread(target=self.httpd.serve_forever)
        t.daemon = True
        t.start()

    def url(self, name):
        return self.base + name


def pkg(*names, **kw):
    os_ = kw.get('os', 'ubuntu')
    version = kw.get('version', 'any_version')
    inst = kw.get('inst', 'fake')
    return {os_: {version: {inst: {'packages': list(names)}}}}
