"""Runtime of one worker: imports the code under test behind the seams, runs worlds."""
import os
import shutil
import sys
import tempfile

REPO = os.environ.get('XSIM_REPO', '/repo')

_ready = False


def setup():
    """Install the seams, then import the code under test from its working tree."""
    global _ready
    if _ready:
        return
    _ready = True
    sys.dont_write_bytecode = True
    sys.pycache_prefix = '/nonexistent/xsim'
    os.environ['HOME'] = '/xsim/home'
    os.environ['PATH'] = '/xsim/bin'
    os.environ['TZ'] = 'UTC'
    os.environ['LANG'] = 'C.UTF-8'
    for k in list(os.environ):
        if k.startswith('XYLEM') or k.lower().endswith('_proxy'):
            del os.environ[k]
    import time
    time.tzset()
    import warnings
    warnings.simplefilter('ignore')
    from . import seams, plugins
    sys.path.insert(0, REPO)
    plugins.read_setup(REPO)
    # modules which must be loaded (not from the simulated disk) before forking
    import argparse, http.client, urllib.request, urllib.parse, ssl, email.parser  # noqa
    import encodings.idna, encodings.latin_1, encodings.ascii, encodings.utf_16  # noqa
    import stringprep, queue, uuid, pickle, yaml, cgi, pydoc, textwrap, gettext, locale  # noqa
    import multiprocessing.util, concurrent.futures.thread, fcntl, glob, fnmatch  # noqa
    import importlib.metadata, pkg_resources, six, difflib, traceback, linecache  # noqa
    import six.moves.urllib.request, six.moves.http_client, json, logging  # noqa
    try:
        import pygments, pygments.lexers, pygments.formatters  # noqa
        from pygments.lexers import PythonTracebackLexer  # noqa
        from pygments.formatters import TerminalFormatter  # noqa
    except ImportError:
        pass
    urllib.request.getproxies = lambda: {}
    seams.install()
    import importlib
    import pkgutil
    import xylem
    if not os.path.abspath(xylem.__file__).startswith(REPO + '/'):
        raise RuntimeError('xylem comes from ' + xylem.__file__)
    for m in pkgutil.walk_packages(xylem.__path__, 'xylem.'):
        importlib.import_module(m.name)
    seams.XYLEM_DIR = REPO + '/xylem/'
    seams.ENTRY_POINTS = plugins.entry_points
    seams.install_plugin_seam()
    plugins.define()
    import gc
    gc.collect()
    gc.freeze()
    try:
        '\xe4'.encode('idna')
    except UnicodeError:
        pass


def scratch_base():
    for d in ('/dev/shm', None):
        if d is None or (os.path.isdir(d) and os.access(d, os.W_OK)):
            try:
                return tempfile.mkdtemp(prefix='xsim-', dir=d)
            except OSError:
                continue
    return tempfile.mkdtemp(prefix='xsim-')


class Result(object):
    def __init__(self):
        self.violations = []
        self.stats = {}
        self.rec = None
        self.digest = None
        self.sched = None
        self.nontrivial = False
        self.sample = None
        self.trace = None
        self.sim_time = 0.0
        self.states = []


_n = [0]


def run_one(world, seed, base, replay=None, trace=False):
    """One simulated execution of a world; deterministic in (world, seed, replay)."""
    from . import choices, core, plugins
    from .worlds import WORLDS
    _n[0] += 1
    root = os.path.join(base, 'w%d' % (_n[0] % 4))
    if os.path.lexists(root):
        shutil.rmtree(root)
    os.makedirs(root)
    for d in ('/xsim/home', '/xsim/cwd', '/xsim/bin', '/tmp', '/etc', '/var/cache', '/usr/etc'):
        os.makedirs(root + d)
    ch = choices.Choices('%s/%s' % (world, seed), replay)
    res = Result()
    sim = core.Sim(ch, root, res.stats)
    sim.keep_trace = trace
    plugins.CFG.clear()
    try:
        w = WORLDS[world](sim)
        w.go()
    finally:
        try:
            sim.close()
        finally:
            plugins.CFG.clear()
            shutil.rmtree(root, ignore_errors=True)
    res.violations = sim.violations
    res.rec = ch.rec
    res.digest = sim.digest.hexdigest()
    res.sched = sim.sched_digest.hexdigest()[:16]
    res.trace = sim.trace
    res.sim_time = sim.now
    res.nontrivial = w.nontrivial()
    res.sample = w.describe()
    res.states = sorted(w.states)
    res.stats['switches'] = res.stats.get('switches', 0)
    return res
