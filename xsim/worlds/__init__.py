from . import compact, configs, install, load, plug, shared, update

WORLDS = {}


def add(name, base, **attrs):
    WORLDS[name] = type(str(name), (base,), dict(attrs, name=name))


U = update.UpdateWorld
add('u-fail', U, groups=('net', 'disk', 'data', 'clock'), min_sources=2, max_sources=4, phases=[('update', 6), ('query', 1),
                                                       ('refresh', 1), ('remote', 4)],
    n_phases=(2, 5))
add('u-crash', U, groups=('kill', 'power', 'disk', 'net', 'readcache'), invalid=100, max_sources=2,
    phases=[('update', 6), ('query', 1), ('remote', 4)], n_phases=(3, 5))
add('u-power', U, groups=('power', 'kill', 'fsync'), invalid=0, max_sources=2,
    phases=[('update', 5), ('remote', 4)], n_phases=(3, 5))
add('u-conc', U, groups=('slow', 'stall'), invalid=0, max_sources=2, bump=0.5, virgin=True,
    phases=[('updates', 5), ('mixed', 4), ('remote', 1)], n_phases=(1, 2))
add('u-concfail', U, groups=('slow', 'stall', 'kill', 'disk'), invalid=150, max_sources=2,
    bump=0.4, phases=[('updates', 5), ('mixed', 4), ('remote', 1)], n_phases=(1, 2))
add('u-hist', U, groups=('net', 'disk', 'data', 'readcache', 'clock'), invalid=200,
    max_sources=3,
    phases=[('update', 4), ('query', 8), ('remote', 4), ('reorder', 1)], n_phases=(4, 8))
add('u-order', U, groups=('net', 'readconf'), invalid=100, min_sources=2, max_sources=5,
    phases=[('update', 3), ('query', 6), ('remote', 2), ('reorder', 4)], n_phases=(3, 6))
add('u-damage', U, groups=('readcache', 'disk'), invalid=100, max_sources=3,
    phases=[('update', 2), ('query', 2), ('damage', 6), ('remote', 1)], n_phases=(3, 6))
add('u-clear', U, groups=('disk', 'kill', 'power'), invalid=50, max_sources=3,
    phases=[('update', 2), ('query', 1), ('damage', 3), ('clear', 6)], n_phases=(3, 6))
add('u-int', U, groups=('int', 'slow'), invalid=100, max_sources=3, line_interrupts=True,
    phases=[('update', 6), ('query', 3), ('remote', 2)], n_phases=(2, 4))
add('u-loc', U, groups=('net', 'disk', 'kill', 'int'), invalid=150, max_sources=2, decoys=True,
    modes=update.MODES,
    phases=[('update', 4), ('query', 4), ('remote', 1), ('nosources', 1)], n_phases=(2, 4))
add('u-meta', U, groups=('clock', 'slow', 'net', 'stall'), invalid=150, max_sources=3, bump=0.3,
    prefetch=400,
    phases=[('update', 4), ('updates', 3), ('refresh', 3), ('remote', 3), ('reorder', 1),
            ('query', 2)],
    n_phases=(2, 4))
add('u-dry', U, groups=('net', 'disk', 'int', 'data', 'readconf', 'readcache'), invalid=200,
    max_sources=3, dry=650, line_interrupts=True,
    phases=[('update', 6), ('query', 3), ('remote', 2), ('damage', 2), ('printconfig', 2),
            ('nosources', 1)],
    n_phases=(2, 5))
add('load', load.LoadWorld)
I = install.InstallWorld
add('i-cmd', I, groups=('cmd', 'lie', 'query', 'plugin'))
add('i-plain', I, groups=(), kinds=[('install', 5), ('dry', 2), ('resolve', 2), ('change', 1)])
add('i-crash', I, groups=('kill', 'int', 'cmd', 'lie'), converge=1000)
add('i-dry', I, groups=('plugin', 'prereq', 'int', 'file', 'query'), trouble=150, fix=500,
    kinds=[('dry', 6), ('resolve', 2), ('install', 1), ('change', 1)])
add('i-resolve', I, groups=('resolve', 'file', 'plugin'), max_keys=6,
    kinds=[('resolve', 7), ('install', 3)], ops_range=(1, 4), resolvable=300)
add('i-prereq', I, groups=('prereq', 'cmd'), trouble=250, fix=500)
add('i-int', I, groups=('int',), lines=True,
    kinds=[('install', 6), ('dry', 2), ('resolve', 2), ('change', 1)])
K = compact.CompactWorld
add('k-crash', K)
add('k-power', K, groups=('power', 'kill'))
add('k-int', K, groups=('int',), lines=True)
F = configs.ConfigWorld
add('f-read', F)
add('f-plain', F, groups=(), wrong=80)
add('f-int', F, groups=('int', 'read'), lines=True)
add('p-plug', plug.PluginWorld)
add('p-plugint', plug.PluginWorld, interrupts=True)
add('p-os', plug.OsWorld)
add('p-osint', plug.OsWorld, interrupts=True)
T = shared.SharedWorld
add('t-seq', T)
add('t-fault', T, faulty=350)
add('t-int', T, faulty=350, groups=('int',), lines=True)
add('t-threads', T, threads=True)
add('t-thrfault', T, threads=True, faulty=250)
