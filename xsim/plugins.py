"""Plugins of the simulated machine, and how plugins are found.

The plugins shipped with xylem come from the entry points in /repo/setup.py; they are
loaded by their real module path.  Further plugins (OS, installers, spec) exist only
in the simulation and derive from xylem's public base classes.  They consult the
coordinator ('plugin' events), which may tell them to fail.
"""
import importlib
import sys
import types

from . import seams

SHIPPED = {}       # group -> [(name, target)]
SCRIPTS = {}       # script -> target
CFG = {}           # set by the coordinator before a process is forked


class Unloadable(object):
    """Stands for a plugin whose module cannot be imported."""

    def __init__(self, exc, text):
        self.exc = exc
        self.text = text

    def __repr__(self):
        return 'Unloadable(%s)' % self.exc.__name__


class EP(object):
    def __init__(self, name, target=None, definition=None):
        self.name = name
        self.target = target
        self.definition = definition

    def load(self, *a, **kw):
        if self.target is None:
            if isinstance(self.definition, Unloadable):
                raise self.definition.exc(self.definition.text)
            return self.definition
        mod, attr = self.target.split(':')
        obj = importlib.import_module(mod)
        for a in attr.split('.'):
            obj = getattr(obj, a)
        return obj

    resolve = load

    def __repr__(self):
        return 'EntryPoint(%s)' % self.name


def read_setup(repo):
    """Entry points declared by setup.py of the tree under test."""
    captured = {}
    stub = types.ModuleType('setuptools')
    stub.setup = lambda **kw: captured.update(kw)
    stub.find_packages = lambda *a, **kw: []
    old = sys.modules.get('setuptools')
    sys.modules['setuptools'] = stub
    try:
        with open(repo + '/setup.py') as f:
            exec(compile(f.read(), repo + '/setup.py', 'exec'),
                 {'__name__': '__main__', '__file__': repo + '/setup.py'})
    finally:
        if old is None:
            del sys.modules['setuptools']
        else:
            sys.modules['setuptools'] = old
    for group, lines in captured['entry_points'].items():
        pairs = [tuple(x.strip() for x in l.split('=', 1)) for l in lines]
        if group == 'console_scripts':
            SCRIPTS.update(dict(pairs))
        else:
            SHIPPED[group] = pairs


def entry_points(group):
    eps = [EP(n, target=t) for n, t in SHIPPED.get(group, [])]
    extra = CFG.get('plugins', {}).get(group)
    if extra is None:
        extra = DEFAULT.get(group, [])
    drop = CFG.get('drop', ())
    eps = [e for e in eps if e.name not in drop]
    eps += [EP(n, definition=d) for n, d in extra]
    key = CFG.get('order', {}).get(group)
    if key:
        import hashlib
        # several may have the same name
        order = {e: hashlib.md5(('%s|%s|%d' % (key, e.name, i)).encode()).digest()
                 for i, e in enumerate(eps)}
        eps.sort(key=order.get)
    return eps


def ask(what, *args):
    """Report a plugin call; returns the failure to produce, if any."""
    if not seams.active():
        return None
    return seams.chan().call('plugin', what, *args)[1]


DEFAULT = {}


def define():
    """Create the plugin classes (after xylem has been imported)."""
    from xylem.os_support import OSBase, UnsupportedOSVersionError
    from xylem.installers import InstallerError
    from xylem.installers.impl import InstallerPrerequisiteError
    from xylem.installers.package_manager_installer import PackageManagerInstaller
    from xylem.specs import Spec
    from xylem.util import read_stdout
    from xylem.config_utils import String
    g = globals()

    class SimOS(OSBase):
        sim_names = ['simos']
        sim_versions = ['one', 'two', 'three']
        sim_core = ['s1', 's2']
        sim_default = 's1'

        @property
        def all_names(self):
            return list(self.sim_names)

        def is_os(self):
            ask('is_os', self.sim_names[0])
            return self.sim_names[0] in CFG.get('detected', ['simos'])

        def get_version(self):
            ask('get_version', self.sim_names[0])
            v = CFG.get('os_versions', {}).get(self.sim_names[0], CFG.get('os_version', 'two'))
            if v is None:
                raise UnsupportedOSVersionError('cannot detect the version')
            return v

        def get_all_tuples(self, version):
            return [(n, version if i == 0 else None)
                    for i, n in enumerate(self.sim_names)]

        def get_core_installers(self, version, options):
            ask('core', self.sim_names[0], str(version), [str(f) for f in options.features or ()])
            core = list(CFG.get('core', self.sim_core))
            return core[::-1] if 'rev' in (options.features or ()) else core

        @property
        def default_installer(self):
            return self.sim_default

        @property
        def known_versions(self):
            return list(self.sim_versions)

    class SimDer(SimOS):
        sim_names = ['simder', 'simos']
        sim_versions = ['one', 'two']
        sim_core = ['s2', 's1']
        sim_default = 's2'

    class SimDer2(SimOS):
        sim_names = ['simder2', 'simder', 'simos']
        sim_core = ['s1']

    class SimIndep(SimOS):
        sim_names = ['simindep']

    class SimInstaller(PackageManagerInstaller):
        """Asks its package manager what is installed."""
        sim_name = 's1'
        batch = False
        own_sudo = False         # composes its commands with sudo itself
        additional = False
        checks_updated = False
        can_setup = True
        root = False

        def __init__(self):
            super(SimInstaller, self).__init__(self.sim_name + '-get')
            self.options_description.items['as_root'].default = self.root
            self.installer_rule_description.add('tag', type=String, default='')

        @property
        def name(self):
            return self.sim_name

        def use_as_additional_installer(self, os_tuple):
            return self.sim_name in CFG.get('additional', ('s3', 's4'))

        def _fail(self, what, *args):
            v = ask(what, self.sim_name, *args)
            if v == 'ierror':
                raise InstallerError('%s: simulated failure of %s' % (self.sim_name, what))
            if v == 'perror':
                raise InstallerPrerequisiteError('%s: %s not satisfied' % (self.sim_name, what))
            if v == 'bug':
                raise RuntimeError('%s: bug in %s' % (self.sim_name, what))
            return v

        def resolve(self, rule):
            self._fail('resolve', str(rule.get('tag')))
            return super(SimInstaller, self).resolve(rule)

        def filter_uninstalled(self, resolved):
            self._fail('filter', [str(r.package) for r in resolved])
            installed = read_stdout([self.executable_name, 'list']).split('\n')
            return [r for r in resolved if r.package not in installed]

        def get_install_commands_no_root(self, resolved, interactive=True, reinstall=False):
            self._fail('commands', [str(r.package) for r in resolved])
            cmd = [self.executable_name, 'reinstall' if reinstall else 'install']
            if self.own_sudo:
                cmd.insert(0, 'sudo')
            if not interactive:
                cmd.append('-y')
            if self.batch:
                return [cmd + [r.package for r in resolved]] if resolved else []
            return [cmd + [r.package] for r in resolved]

        def check_install_prerequisites(self, resolved, os_tuple, fix_unsatisfied=False,
                                        interactive=True):
            v = ask('install_prereq', self.sim_name, str(fix_unsatisfied),
                    [str(r.package) for r in resolved])
            if v is None:
                return
            if v == 'fixable' and fix_unsatisfied:
                if fix_unsatisfied != 'simulate':
                    ask('prereq_fixed', self.sim_name)
                return
            raise InstallerPrerequisiteError(
                "install prerequisite of '%s' not satisfied" % self.sim_name)

        def install_package_manager(self, os_tuple, interactive=True):
            import subprocess
            if not self.can_setup:
                raise NotImplementedError()
            subprocess.call([self.executable_name + '-setup'])

        def is_package_manager_updated(self):
            if not self.checks_updated:
                raise NotImplementedError()
            return 'outdated' not in read_stdout([self.executable_name, 'check'])

        def update_package_manager(self, interactive=True):
            import subprocess
            subprocess.call([self.executable_name, 'update'])

    class S2(SimInstaller):
        sim_name = 's2'
        batch = True
        checks_updated = True

    class S3(SimInstaller):
        sim_name = 's3'
        can_setup = False
        own_sudo = True

    class S4(SimInstaller):
        sim_name = 's4'
        batch = True
        root = True

    class SimSpec(Spec):
        """A spec whose rules come from a file of the machine instead of a url."""

        @property
        def name(self):
            return 'simspec'

        @property
        def version(self):
            return 7

        def unique_id(self, arguments):
            return 'simspec:' + arguments['path']

        def load_data(self, arguments):
            from xylem.specs.plugins.rules import expand_rules
            from xylem.yaml_utils import load_yaml
            with open(arguments['path'], 'rb') as f:
                text = f.read().decode('utf-8')
            return expand_rules(load_yaml(text))

        def verify_arguments(self, arguments):
            if not isinstance(arguments, dict) or 'path' not in arguments:
                raise ValueError('simspec needs a path')

        def verify_data(self, data, arguments):
            from xylem.sources.rules_dict import verify_rules_dict
            verify_rules_dict(data)

        def is_data_outdated(self, data, arguments, data_load_time):
            return bool(CFG.get('simspec_outdated', False))

        def lookup(self, data, xylem_key, ic):
            from xylem.sources.rules_dict import lookup_rules
            if ask('lookup', 'simspec', str(xylem_key)) == 'ierror':
                raise LookupError("simulated failure to look up '%s'" % xylem_key)
            osn, v = ic.get_os_tuple()
            return lookup_rules(data, xylem_key, osn, v, ic.get_default_installer_name())

        def keys(self, data, ic):
            from xylem.sources.rules_dict import has_rule_for_os
            osn, v = ic.get_os_tuple()
            return [k for k, d in data.items() if has_rule_for_os(d, osn, v)]

    for c in (SimOS, SimDer, SimDer2, SimIndep, SimInstaller, S2, S3, S4, SimSpec):
        g[c.__name__] = c
        c.__module__ = __name__
    DEFAULT['xylem.os'] = [
        ('simos', dict(plugin_name='simos', description='x', os=SimOS)),
        ('simder', dict(plugin_name='simder', description='x', os=SimDer)),
    ]
    DEFAULT['xylem.installers'] = [
        (c.sim_name, dict(plugin_name=c.sim_name, description='x', installer=c))
        for c in (SimInstaller, S2, S3, S4)]
    DEFAULT['xylem.specs'] = [
        ('simspec', dict(plugin_name='simspec', description='x', spec=SimSpec))]
