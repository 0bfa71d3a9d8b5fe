"""Programs that simulated processes run: the command line and small API clients.

Results consist of plain data only.
"""
import re
import sys
import traceback


def _status(code):
    if code is None:
        return 0
    if isinstance(code, bool):
        return int(code)
    if isinstance(code, int):
        return code & 0xff
    print(code, file=sys.stderr)
    return 1


def cli(argv, script='xylem', lines=False):
    """Run a console script the way its generated wrapper does; returns the status."""
    import importlib
    from . import plugins, seams
    mod, func = plugins.SCRIPTS[script].split(':')
    sys.argv = ['/xsim/bin/' + script] + list(argv)
    if lines:
        seams.trace_lines()
    try:
        try:
            main = getattr(importlib.import_module(mod), func)
            r = main()
        finally:
            sys.settrace(None)
        return _status(r)
    except SystemExit as e:
        return _status(e.code)
    except KeyboardInterrupt:
        print('KeyboardInterrupt', file=sys.stderr)
        return 130
    except BaseException:
        print(traceback.format_exc(), file=sys.stderr)
        return 1


def exc(e):
    return (type(e).__name__, str(e)[:400])


def plain(x):
    """Plain data for any structure of dicts and sequences."""
    if isinstance(x, dict):
        return {plain(k): plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, (str, int, float, bool, bytes)) or x is None:
        return x
    return repr(x)


def mark(*what):
    from . import seams
    seams.chan().call('mark', *what)


def config_from(argv):
    """The configuration an invocation with these options has."""
    import argparse
    from xylem.arguments import add_global_arguments, handle_global_arguments
    from xylem import config
    p = argparse.ArgumentParser(add_help=False)
    config.add_config_arguments(p)
    add_global_arguments(p)
    args = p.parse_args(list(argv))
    handle_global_arguments(args)
    config.handle_config_arguments(args)
    return config.get_config()


def _entry(s):
    """What a source that has been loaded says about its rules."""
    import datetime
    t = s.time_data_loaded
    if isinstance(t, datetime.datetime):
        t = t.timestamp()
    return {'data': plain(s.data), 'arguments': plain(s.arguments), 'origin': str(s.origin),
            'time': t, 'spec': s.spec.name, 'raw': None}


def probe(argv):
    """What is stored, as xylem itself sees it: [(unique id, outcome, details)]."""
    from xylem.sources import SourcesContext, RulesDatabase
    ctx = SourcesContext(config_from(argv))
    db = RulesDatabase(ctx)
    out = []
    for s in db.sources:
        uid = s.unique_id()
        path = s.cache_file_path()
        try:
            s.load_from_cache()
            out.append((uid, 'ok', dict(_entry(s), path=path, raw=_raw(path))))
        except FileNotFoundError as e:
            out.append((uid, 'missing', {'path': path, 'error': exc(e)}))
        except Exception as e:
            out.append((uid, 'bad', {'path': path, 'error': exc(e)}))
    return out


def _raw(path):
    """The stored record itself, if it is a pickled dictionary."""
    import pickle
    try:
        with open(path, 'rb') as f:
            d = f.read()
        r = pickle.loads(d)
        return {k: plain(v) for k, v in r.items() if k not in ('data', 'time_data_loaded')}
    except Exception:
        return None


def update(argv, dry_run=False, lines=False):
    from xylem.update import update as f
    from . import seams
    config = config_from(argv)
    if lines:
        seams.trace_lines()
    try:
        f(dry_run=dry_run, config=config)
    finally:
        sys.settrace(None)
    return 'done'


def lookup(argv, keys, compact=False):
    """API lookup of several keys, each on its own."""
    from xylem.lookup import lookup as f
    config = config_from(argv)
    out = []
    for k in keys:
        try:
            out.append((k, 'ok', plain(f(k, compact=compact, config=config))))
        except Exception as e:
            out.append((k, 'exc', exc(e)))
    return out


_kept = {}


def query(argv, keys, kept=None, prefetch=False):
    """API query on one database: answers of several keys and the list of keys.

    The database is kept for the next call with the same value of `kept` in the process.
    """
    from xylem.sources import SourcesContext, RulesDatabase
    from xylem.installers import InstallerContext
    config = config_from(argv)
    ic = InstallerContext(config)
    db = _kept.get(kept)
    if db is None:
        db = RulesDatabase(SourcesContext(config))
        if kept is not None:
            _kept[kept] = db
    if prefetch:
        # what was fetched and not stored must not matter
        db.raise_on_error = False
        db.load_from_source()
        db.raise_on_error = True
    db.load_from_cache()
    return {'answers': [(k, plain(db.lookup(k, ic))) for k in keys],
            'keys': sorted(db.keys(ic)),
            'entries': [(s.unique_id(), _entry(s)) for s in db.sources],
            'order': [(s.unique_id(), str(s.origin)) for s in db.sources],
            'os': list(ic.get_os_tuple()), 'default': ic.get_default_installer_name()}


def resolve(argv, keys, all_keys=False):
    from xylem.resolve import resolve as f
    config = config_from(argv)
    result, errors = f(list(keys), all_keys=all_keys, config=config)
    return {'result': [(k, i, [plain(dict(r)) for r in rs]) for k, (i, rs) in result],
            'errors': [(k, type(e).__name__, str(e)) for k, e in errors]}


def chain(e):
    out = []
    while e is not None and len(out) < 10:
        out.append(re.sub(' at 0x[0-9a-f]+', '', '%s: %s' % (type(e).__name__, e)))
        e = getattr(e, '__cause__', None)
    return ' <- '.join(out)


def install(argv, keys, kwargs, lines=False):
    from xylem.install import install as f
    from . import seams
    config = config_from(argv)
    if lines:
        seams.trace_lines()
    try:
        r, e = f(list(keys), config=config, **kwargs)
    except Exception as ex:
        if type(ex) in (SystemExit,):
            raise
        return {'exc': [type(ex).__name__, chain(ex)]}
    finally:
        sys.settrace(None)
    return {'resolve': [(k, type(x).__name__, chain(x)) for k, x in r],
            'install': [chain(x) for x in e]}


def cache_ops(argv, ops, same=False):
    """Sequence of (operation, unique id) on sources; returns their outcomes."""
    from xylem.sources import SourcesContext, RulesDatabase
    ctx = SourcesContext(config_from(argv))
    out = []
    db = None
    for op, uid in ops:
        if db is None or not same:
            db = RulesDatabase(ctx)
        s = [x for x in db.sources if x.unique_id() == uid]
        if not s:
            out.append((op, uid, 'nosource', None))
            continue
        try:
            if op == 'clear':
                r = s[0].clear_cache()
                r = None
            elif op == 'available':
                r = bool(s[0].is_cache_available())
            elif op == 'outdated':
                r = bool(s[0].is_cache_outdated())
            elif op == 'load':
                s[0].load_from_cache()
                r = None
            out.append((op, uid, 'ok', r))
        except Exception as e:
            out.append((op, uid, 'exc', exc(e)))
    return out


def refresh(argv, pause, lenient=False, rounds=1):
    """Load everything from its source, store it some time later; returns what was loaded."""
    import time
    from xylem.sources import SourcesContext, RulesDatabase
    ctx = SourcesContext(config_from(argv))
    ctx.ensure_cache_dir()
    db = RulesDatabase(ctx)
    db.raise_on_error = not lenient
    for n in range(rounds):
        if n:
            mark('again')
        db.load_from_source()
        out = []
        for s in db.sources:
            if s.time_data_loaded is None:
                out.append((s.unique_id(), None))
                continue
            out.append((s.unique_id(), {
                'time': s.time_data_loaded.timestamp(),
                'arguments': plain(s.arguments), 'origin': str(s.origin)}))
        mark('loaded')
        time.sleep(pause)
        db.save_to_cache()
    return out


def load(url, kwargs):
    """One download through load_url."""
    from xylem.load_url import load_url, DownloadFailure
    mark('begin')
    try:
        r = load_url(url, **kwargs)
        mark('end')
        if not isinstance(r, str):
            return ('type', type(r).__name__)
        return ('ok', r)
    except DownloadFailure as e:
        mark('end')
        return ('failure', str(e)[:300])
    except BaseException as e:
        mark('end')
        return ('exc', type(e).__name__, traceback.format_exc()[-1500:])


def settings(argv):
    """The effective configuration, as plain data."""
    return plain(config_from(argv))


def inventory(argv, keys):
    """Which plugins, OS and installers there are, and what they answer."""
    from xylem.installers import InstallerContext
    from xylem.sources import SourcesContext, RulesDatabase
    from xylem.lookup import lookup as flookup
    from xylem.resolve import resolve as fresolve
    out = {}

    def markers(objs):
        return sorted((o.name, str(getattr(o, 'sim_marker', ''))) for o in objs)

    try:
        config = config_from(argv)
    except Exception as e:
        return {'config': exc(e)}
    ic = None
    try:
        ic = InstallerContext(config)
        os = ic.get_os()
        out.update(os=markers(ic.os_support.os_plugins),
                   defaults=plain(ic.os_support.get_default_installer_names()),
                   installers=markers(ic.installer_plugins), core=ic.core_installer_names,
                   additional=sorted(ic.additional_installer_names),
                   tuple=list(ic.get_os_tuple()), default=ic.get_default_installer_name(),
                   names=list(os.all_names), features=plain(os.options.features),
                   versions=list(os.known_versions))
    except Exception as e:
        out['error'] = exc(e)
    ctx = None
    try:
        ctx = SourcesContext(config)
        out['specs'] = markers(ctx.spec_plugins)
        out['sources'] = [s.unique_id() for s in RulesDatabase(ctx).sources]
    except Exception as e:
        out['srcerror'] = exc(e)
    for k in keys:
        for what, f in (('lookup', flookup), ('resolve', lambda k, **kw: fresolve([k], **kw))):
            try:
                r = f(k, config=config)
                if what == 'resolve':
                    r = ([(x, i, [plain(dict(p)) for p in ps]) for x, (i, ps) in r[0]],
                         [(x, type(e).__name__, str(e)) for x, e in r[1]])
                out[what + ':' + k] = plain(r)
            except Exception as e:
                out[what + ':' + k] = ['exc', type(e).__name__]
    return out


class Shared(object):
    """Objects several calls share: one database, contexts and configurations."""

    def __init__(self, argvs):
        from xylem.installers import InstallerContext
        from xylem.sources import SourcesContext, RulesDatabase
        self.configs = [config_from(a) for a in argvs]
        self.first = {'config%d' % i: plain(c) for i, c in enumerate(self.configs)}
        self.ics = [InstallerContext(c) for c in self.configs]
        self.sctx = SourcesContext(self.configs[0])
        self.db = RulesDatabase(self.sctx)
        self.db.load_from_cache()
        self.given = []      # (object given or returned, its value then, which call)

    def keep(self, obj, which):
        self.given.append((obj, plain(obj), which))
        return obj

    def state(self):
        out = {'config%d' % i: plain(c) for i, c in enumerate(self.configs)}
        for s in self.db.sources:
            out['data ' + s.unique_id()] = plain(s.data)
            out['source ' + s.unique_id()] = plain([s.arguments, s.origin])
        out['sources'] = [s.unique_id() for s in self.db.sources]
        for i, ic in enumerate(self.ics):
            out['context%d' % i] = plain([
                ic.get_os_tuple(), ic.core_installer_names, ic.additional_installer_names,
                ic.installer_plugin_names, ic.get_default_installer_name(),
                [dict(x.options) for x in ic.installer_plugins]])
        return out

    def changed(self):
        """Given or returned objects which another call has modified."""
        return [(which, was, plain(obj)) for obj, was, which in self.given if plain(obj) != was]

    def perform(self, op):
        name, v = op[0], op[1]
        config, ic, db = self.configs[v], self.ics[v], self.db
        if name == 'lookup':
            return self.keep(db.lookup(op[2], ic), op)
        if name == 'compact':
            from xylem.specs.plugins.rules import compact_installer_dict
            d = self.keep(db.lookup(op[2], ic), op)
            return self.keep(compact_installer_dict(d, ic.get_default_installer_name()), op)
        if name == 'keys':
            return sorted(self.keep(db.keys(ic), op))
        if name == 'flookup':
            from xylem.lookup import lookup as f
            return self.keep(f(op[2], compact=op[3], config=config, sources_context=self.sctx,
                               installer_context=ic), op)
        if name in ('resolve', 'sresolve'):
            from xylem.resolve import resolve as f
            kw = {'database': db} if name == 'resolve' else {'sources_context': self.sctx}
            r = f(self.keep(list(op[2]), op), all_keys=op[3], config=config,
                  installer_context=ic, **kw)
            self.keep(r[0], op)
            return {'result': [(k, i, [plain(dict(p)) for p in ps]) for k, (i, ps) in r[0]],
                    'errors': [(k, type(e).__name__, chain(e)) for k, e in r[1]]}
        if name == 'install':
            from xylem.install import install as f
            kw = {'database': db} if op[5] else {'sources_context': self.sctx}
            kw.update(dict(op[4]))
            r, e = f(self.keep(list(op[2]), op), all_keys=op[3], config=config,
                     installer_context=ic, **kw)
            return {'resolve': [(k, type(x).__name__, chain(x)) for k, x in r],
                    'install': [chain(x) for x in e]}
        if name == 'filter':
            from xylem.install import filter_uninstalled as f
            from xylem.resolve import resolve
            r, _ = resolve(list(op[2]), config=config, database=db, installer_context=ic)
            resolved = self.keep([x for _, x in r], op)
            a, b = f(resolved, ic)
            return {'uninstalled': plain([(i, [dict(p) for p in ps]) for i, ps in a]),
                    'errors': [chain(x) for x in b]}
        if name == 'depends':
            d = db.lookup(op[2], ic)
            return sorted((i, plain(self.keep(ic.lookup_installer(i).get_depends(r), op)))
                          for i, r in d.items() if ic.lookup_installer(i))
        if name == 'reload':
            return db.load_from_cache()
        if name == 'update':
            return db.update()
        if name == 'setup':
            return ic.setup_installers()
        if name == 'context':
            return [ic.get_os_string(), ic.installer_names, ic.get_default_installer_name(),
                    plain(ic.get_os().get_all_tuples(ic.get_os_tuple()[1])),
                    plain(ic.os_support.get_default_installer_names()),
                    [s.is_cache_available() for s in db.sources]]
        raise AssertionError(op)

    def answer(self, op):
        try:
            r = self.perform(op)
            return ('ok', plain(r) if r is not None else None)
        except KeyboardInterrupt:
            return ('int',)
        except Exception as e:
            return ('exc', type(e).__name__, chain(e)[:600])


def shared(argvs, seqs, lines=False):
    """Sequences of calls on shared objects, one sequence per thread if there are several."""
    from . import seams
    sh = Shared(argvs)
    before = sh.state()
    before.update(sh.first)

    def sequence(i, trace):
        out = []
        for j, op in enumerate(seqs[i]):
            try:
                mark('op', i, j)
                if trace:
                    seams.trace_lines()
                out.append(sh.answer(op))
            except KeyboardInterrupt:
                out.append(('int',))
            finally:
                if trace:
                    sys.settrace(None)
            try:
                mark('done', i, j)
            except KeyboardInterrupt:
                pass
        return out
    if len(seqs) > 1:
        results = seams.run_threads([lambda i=i: sequence(i, False) for i in range(len(seqs))])
    else:
        results = [sequence(0, lines)]
    mark('end')
    after = sh.state()
    return {'results': results, 'changed': sh.changed(),
            'state': [(k, before.get(k), after.get(k)) for k in sorted(set(before) | set(after))
                      if before.get(k) != after.get(k)]}


def fresh(argvs, op):
    """The same call on objects of its own."""
    return Shared(argvs).answer(op)


# calls of the API which may be made one after the other in one process
CALLS = (update, lookup, query, resolve, install, load, settings, refresh, cache_ops)
