"""More mutants: each needs something particular to show."""
from mutantlist import CF, CI, CL, CMAIN, CR, CRES, CU, DB, IB, II, INS, LU, OS, PIP, PM, PU, RD, RS, SI, UP, UT

LOOKUP = 'xylem/lookup.py'
CUP = 'xylem/commands/update.py'
LOG = 'xylem/log_utils.py'

SAVE = '''                try:
                    source.save_to_cache()
                except Exception as e:
                    # TODO: be more specific about which exceptions to catch
'''
LOAD = '''            try:
                source.load_from_source()
            except Exception as e:
                # TODO: be more specific about which exceptions to catch here
                if self.raise_on_error:
                    raise
                else:
                    error("Failed to load source '{0}':\\n{1}".
                          format(source.unique_id(), e))
            else:
'''
DLOOP = '''        origins = set()
        for source in self.sources:
            if source.origin not in origins:
                origins.add(source.origin)
                if self.print_info:
                    info("Processing '{0}'...".format(source.origin))
            if self.print_info:
                info("Loading: {0} : {1}".
                     format(source.spec.name, source.arguments))
''' + LOAD

MUTANTS = [
    # --- C01
    ('n01-deadline', 'C01', [(DB, DLOOP, '''        started = datetime.datetime.now()
''' + DLOOP.replace('''        for source in self.sources:
''', '''        for source in self.sources:
            if datetime.datetime.now() - started > \\
                    datetime.timedelta(seconds=60):
                error("Giving up on the update")
                break
'''))]),
    ('n01-same-data', 'C01', [(DB, SAVE, '''                try:
                    if all(source.data != s.data for s in self.sources
                           if s is not source):
                        source.save_to_cache()
                except Exception as e:
                    # TODO: be more specific about which exceptions to catch
''')]),
    ('n01-fresh', 'C01', [(DB, DLOOP, DLOOP.replace('''            try:
                source.load_from_source()''', '''            try:
                if source.is_cache_available() and \\
                        datetime.datetime.now() - _read_cache(
                            source.cache_file_path())['time_data_loaded'] \\
                        < datetime.timedelta(seconds=1):
                    continue
            except Exception:
                pass
            try:
                source.load_from_source()'''))]),
    ('n01-fail-removes', 'C01', [(DB, SAVE, SAVE + '''                    source.clear_cache()
''')]),
    ('n01-loaded-memo', 'C01', [(DB, '''        data = self.spec.load_data(self.arguments)
''', '''        data = self.spec.load_data(self.arguments) or self.data
''')]),
    ('n01-data-first', 'C01', [(DB, '''        self.spec.verify_data(data, self.arguments)
        self.data = data
        self.time_data''', '''        self.data = data
        self.spec.verify_data(data, self.arguments)
        self.time_data'''), (DB, LOAD, LOAD.replace("            else:\n", "            if source.data is not None:\n"))]),
    ('n01-two-hosts', 'C01', [(DB, DLOOP, DLOOP.replace('        for source in self.sources:\n', '''        failed = set()
        for source in self.sources:
            if to_str(source.arguments) in failed:
                continue
''').replace("                    error(", "                    failed.add(to_str(source.arguments).rsplit('/', 1)[0])\n                    error("))]),
    # --- C02
    ('n02-rename-old', 'C02', [(UT, '''        getattr(os, 'replace', os.rename)(tmp_path, path)
''', '''        if os.path.exists(path):
            os.rename(path, path + '.old')
        os.rename(tmp_path, path)
''')]),
    ('n02-short-write', 'C02', [(UT, '''            while len(remaining):
                remaining = remaining[f.write(remaining):]
''', '''            f.write(remaining)
''')]),
    ('n02-fsync-late', 'C02', [(UT, '''            os.fsync(f.fileno())
        if os''', '''            pass
        if os'''), (UT, '''        getattr(os, 'replace', os.rename)(tmp_path, path)
''', '''        getattr(os, 'replace', os.rename)(tmp_path, path)
        with io.open(path, 'rb') as f:
            os.fsync(f.fileno())
''')]),
    ('n02-fsync-ignored', 'C02', [(UT, '''            os.fsync(f.fileno())
''', '''            try:
                os.fsync(f.fileno())
            except OSError:
                pass
''')]),
    ('n02-fallback', 'C02', [(UT, '''        getattr(os, 'replace', os.rename)(tmp_path, path)
''', '''        try:
            getattr(os, 'replace', os.rename)(tmp_path, path)
        except OSError:
            # e.g. another file system
            shutil.copyfile(tmp_path, path)
            os.remove(tmp_path)
''')]),
    ('n02-inplace-small', 'C02', [(UT, '''    path = os.path.realpath(path)
    tmp''', '''    path = os.path.realpath(path)
    if os.path.exists(path) and os.path.getsize(path) == len(data):
        with io.open(path, 'r+b', buffering=0) as f:
            f.write(data)
        return
    tmp''')]),
    ('n02-swallow', 'C02', [(UT, '''        _remove_ignoring_errors(tmp_path)
        raise
''', '''        _remove_ignoring_errors(tmp_path)
        if os.path.exists(path):
            return
        raise
''')]),
    # --- C03
    ('n03-mkdirs', 'C03', [(SI, '''            except OSError:
                # might have been created concurrently
                if not self.cache_dir_exists():
                    raise
''', '''            except OSError as e:
                if e.errno == 13 or not self.cache_dir_exists():
                    raise
                os.rmdir(self.cache_dir)
                os.makedirs(self.cache_dir)
''')]),
    ('n03-clean-tmp', 'C03', [(DB, '''        cache_path = self.cache_file_path()
        _write_cache(cache_data, cache_path)
''', '''        cache_path = self.cache_file_path()
        parent, name = os.path.split(cache_path)
        # remove what killed updates left behind
        for other in os.listdir(parent):
            if other.startswith(name + '.'):
                os.remove(os.path.join(parent, other))
        _write_cache(cache_data, cache_path)
''')]),
    ('n03-clean-tmp-ignore', 'C03', [(DB, '''        cache_path = self.cache_file_path()
        _write_cache(cache_data, cache_path)
''', '''        cache_path = self.cache_file_path()
        parent, name = os.path.split(cache_path)
        # remove what killed updates left behind
        for other in os.listdir(parent):
            if other.startswith(name + '.'):
                try:
                    os.remove(os.path.join(parent, other))
                except OSError:
                    pass
        _write_cache(cache_data, cache_path)
''')]),
    ('n03-stat-open', 'C03', [(DB, '''    with open(filepath, 'rb') as f:
        cache_data = pickle.load(f)
''', '''    size = os.path.getsize(filepath)
    with open(filepath, 'rb') as f:
        cache_data = pickle.loads(f.read(size))
''')]),
    ('n03-read-twice', 'C03', [(DB, '''        cache_data = _read_cache(self.cache_file_path())
        _verify_cache_data_spec_name(cache_data, self.spec.name)
        self.spec.verify_arguments(self.arguments)
        self.spec.verify_data(cache_data['data'], self.arguments)
        self.arguments''', '''        cache_data = _read_cache(self.cache_file_path())
        _verify_cache_data_spec_name(cache_data, self.spec.name)
        self.spec.verify_arguments(self.arguments)
        self.spec.verify_data(cache_data['data'], self.arguments)
        cache_data['time_data_loaded'] = _read_cache(
            self.cache_file_path())['time_data_loaded']
        self.arguments''')]),
    ('n03-newer-wins', 'C03', [(DB, '''        cache_path = self.cache_file_path()
        _write_cache(cache_data, cache_path)
''', '''        cache_path = self.cache_file_path()
        try:
            if _read_cache(cache_path)['time_data_loaded'] > \\
                    self.time_data_loaded:
                return
        except Exception:
            pass
        _write_cache(cache_data, cache_path)
''')]),
    # --- C04
    ('n04-lookup-memo', 'C04', [(LOOKUP, '''    database.load_from_cache()
''', '''    if config.sources_dir in _loaded:
        database = _loaded[config.sources_dir]
    else:
        database.load_from_cache()
        _loaded[config.sources_dir] = database
'''), (LOOKUP, '''def lookup(''', '''_loaded = {}


def lookup(''')]),
    ('n04-mtime-memo', 'C04', [(DB, '''    with open(filepath, 'rb') as f:
        cache_data = pickle.load(f)
        _verify_cache_data_structure(cache_data)
        return cache_data
''', '''    stat = os.stat(filepath)
    stamp = (filepath, stat.st_size, int(stat.st_mtime))
    if stamp not in _entries:
        with open(filepath, 'rb') as f:
            cache_data = pickle.load(f)
            _verify_cache_data_structure(cache_data)
            _entries[stamp] = cache_data
    return _entries[stamp]


_entries = {}
''')]),
    ('n04-sources-memo', 'C04,C05', [(SI, '''    if os.path.exists(sources_dir):
''', '''    if sources_dir in _known:
        return _known[sources_dir]
    if os.path.exists(sources_dir):
'''), (SI, '''            return load_sources_from_path(sources_dir)
''', '''            _known[sources_dir] = list(load_sources_from_path(sources_dir))
            return _known[sources_dir]
'''), (SI, '''def get_source_descriptions(''', '''_known = {}


def get_source_descriptions(''')]),
    ('n04-older-first', 'C04', [(DB, '''        for source in reversed(self.sources):
            new''', '''        for source in sorted(reversed(self.sources),
                             key=lambda s: s.time_data_loaded):
            new''')]),
    ('n04-fetch-missing', 'C04,C07', [(DB, '''            try:
                source.load_from_cache()
            except''', '''            try:
                if not source.is_cache_available():
                    source.load_from_source()
                    continue
                source.load_from_cache()
            except''')]),
    # --- C05
    ('n05-natural', 'C05', [(SI, 'sorted(os.listdir(path))', 'sorted(os.listdir(path), key=_natural)'), (SI, '''def _load_sources(''', '''def _natural(name):
    import re
    return [(0, int(x), '') if x.isdigit() else (1, 0, x)
            for x in re.split('([0-9]+)', name) if x]


def _load_sources(''')]),
    ('n05-stem', 'C05', [(SI, 'sorted(os.listdir(path))', 'sorted(os.listdir(path), key=lambda n: os.path.splitext(n))')]),
    ('n05-case', 'C05', [(SI, "if not file_path.endswith('.yaml')", "if not file_path.lower().endswith('.yaml')")]),
    ('n05-hidden-ext', 'C05', [(SI, "if not file_path.endswith('.yaml')", "if os.path.splitext(file_path)[1] not in ('.yaml', '')")]),
    ('n05-order-args', 'C05', [(SI, '''        for descr in descr_list:
            verify_source_description(descr)
''', '''        for descr in descr_list:
            verify_source_description(descr)
        descr_list.sort(key=lambda d: sorted(d))
''')]),
    # --- C06
    ('n06-memo', 'C06', [(LU, '''    retry = max(retry, 0)  # negative''', '''    if url in _loaded:
        return _loaded[url]
    retry = max(retry, 0)  # negative'''), (LU, '''        return to_str(data, encoding=encoding)
''', '''        _loaded[url] = to_str(data, encoding=encoding)
        return _loaded[url]
'''), (LU, '''def load_url(''', '''_loaded = {}


def load_url(''')]),
    ('n06-shared-retries', 'C06', [(LU, '''    retry = max(retry, 0)  # negative''', '''    global _retries
    _retries += 1
    if _retries > 2:
        retry = 0
    retry = max(retry, 0)  # negative'''), (LU, '''def load_url(''', '''_retries = 0


def load_url(''')]),
    ('n06-encoding-errors', 'C06', [(LU, '''    except LookupError as e:
''', '''    except LookupError as e:
        return to_str(data)
    except UnicodeError as e:
''')]),
    ('n06-retry-in-read', 'C06', [(LU, '''            # while waiting for or reading the response
            if retry:
''', '''            # while waiting for or reading the response
            if retry > 1:
''')]),
    ('n06-partial', 'C06', [(LU, '''            data = req.read()
''', '''            data = b''
            while True:
                try:
                    block = req.read(8192)
                except socket.timeout:
                    if not data:
                        raise
                    break
                data += block
                if not block:
                    break
''')]),
    ('n06-chunk', 'C06', [(LU, '''            data = req.read()
''', '''            data = b''.join(iter(lambda: req.read(1024), b''))
''')]),
    # --- C07
    ('n07-attribute', 'C07', [(DB, '''        cache_data = pickle.load(f)
''', '''        try:
            cache_data = pickle.load(f)
        except (AttributeError, ImportError):
            # pickled by another version of xylem
            cache_data = _create_cache_data(
                __version__, 'rules', 1, None, filepath, {}, None)
''')]),
    ('n07-version', 'C07', [(DB, '''        self.arguments = cache_data['arguments']
        self.origin''', '''        if cache_data['xylem_version'] != __version__:
            cache_data['data'] = {}
        self.arguments = cache_data['arguments']
        self.origin''')]),
    ('n07-available', 'C07', [(DB, '''            try:
                source.load_from_cache()
            except''', '''            if not source.is_cache_available() and \\
                    os.path.isdir(self.sources_context.cache_dir):
                source.data = {}
                continue
            try:
                source.load_from_cache()
            except''')]),
    ('n07-last', 'C07', [(DB, '''                # TODO: be more specific about which exceptions to catch here
                if self.raise_on_error:
                    raise
                else:
                    error("Failed to load source '{0}' from cache:\\n{1}".
                          format(source.unique_id(), e))
''', '''                # TODO: be more specific about which exceptions to catch here
                if self.raise_on_error and source is not self.sources[-1]:
                    raise
                elif self.raise_on_error and len(self.sources) == 1:
                    raise
                else:
                    source.data = source.data or {}
                    error("Failed to load source '{0}' from cache:\\n{1}".
                          format(source.unique_id(), e))
''')]),
    # --- C08
    ('n08-sorted', 'C08', [(INS, '''    if not commands:
        info_v''', '''    commands = sorted(commands)
    if not commands:
        info_v''')]),
    ('n08-shell', 'C08', [(INS, "subprocess.call(cmd)", "subprocess.call(' '.join(cmd), shell=True)")]),
    ('n08-enoent-next', 'C08', [(INS, '''            if not continue_on_error:
                return errors
            continue
''', '''            if not continue_on_error and e.errno != 2:
                return errors
            continue
''')]),
    ('n08-last-fails', 'C08', [(INS, '''        if errors and not continue_on_error:
            return errors
        all_errors''', '''        if errors and not continue_on_error and len(errors) == 1:
            return errors
        all_errors''')]),
    ('n08-signal-continues', 'C08', [(INS, '''            if not continue_on_error:
                return errors

''', '''            if not continue_on_error and exitcode > 0:
                return errors

''')]),
    ('n08-squash-all', 'C08', [(INS, '''    # Squash (again, in case some tuples have been filtered out)
    resolved = _squash_resolutions(resolved)
''', '''    # Squash (again, in case some tuples have been filtered out)
    resolved = list(_map_resolutions(resolved).items())
''')]),
    ('n08-dup-pkgs', 'C08', [(INS, '''        squashed[-1][1].extend(resolutions)
''', '''        squashed[-1][1].extend(
            r for r in resolutions if r not in squashed[-1][1])
''')]),
    # --- C09
    ('n09-only-first-cmd', 'C09', [(INS, '''        if exitcode != 0:
            errors.append''', '''        if exitcode != 0 and cmd is not commands[-1]:
            errors.append'''), (INS, "    for item in resolutions:\n        try:", "    for item in resolutions if errors else []:\n        try:")]),
    ('n09-squash-verify', 'C09', [(INS, '''            if not installer.is_installed(item):
                errors''', '''            if not reinstall and not installer.is_installed(item):
                errors''')]),
    ('n09-errors-overwritten', 'C09', [(INS, '''        all_errors.extend(errors)
    return all_errors''', '''        all_errors = errors or all_errors[:0]
    return all_errors''')]),
    ('n09-status-continue', 'C09,C19', [(CI, '''        if resolve_errors or install_errors:
            sys.exit(1)''', '''        if install_errors or resolve_errors and not args.continue_on_error:
            sys.exit(1)''')]),
    ('n09-empty-commands', 'C09', [(INS, '''    if not commands:
        info_v("# [%s] no packages to install" % installer_name)
        return errors
''', '''    if not commands or not any(commands):
        info_v("# [%s] no packages to install" % installer_name)
        return errors
''')]),
    # --- C10
    ('n10-pip-memo', 'C10', [(PIP, '''        installed = read_stdout(['pip', 'freeze']).split('\\n')
''', '''        if _frozen is None:
            _frozen = read_stdout(['pip', 'freeze']).split('\\n')
        installed = _frozen
'''), (PIP, '''    def filter_uninstalled(self, resolved):
''', '''    def filter_uninstalled(self, resolved):
        global _frozen
'''), (PIP, '''class PipInstaller(''', '''_frozen = None


class PipInstaller(''')]),
    ('n10-substr', 'C10', [(PIP, '''        return [r for r in resolved
                if _canonical_name(r.package) not in installed]
''', '''        installed = ' '.join(installed)
        return [r for r in resolved
                if _canonical_name(r.package) not in installed]
''')]),
    ('n10-egg', 'C10', [(PIP, '''    if '#egg=' in row:
''', '''    if row.startswith('#egg='):
''')]),
    ('n10-sep', 'C10', [(PIP, "r'[-_.]+'", "r'[-_]+'")]),
    ('n10-reorder', 'C10', [(INS, '''        if resolutions:
            uninstalled.append((installer_name, resolutions))
''', '''        if resolutions:
            uninstalled.append((installer_name, sorted(resolutions, key=str)))
''')]),
    ('n10-previous', 'C10', [(INS, '''            resolutions = installer.filter_uninstalled(resolutions)
''', '''            missing = installer.filter_uninstalled(resolutions)
            resolutions = missing if len(missing) < 3 else resolutions
''')]),
    # --- C11
    ('n11-mkdir-query', 'C11', [(SI, '''        cache_dir = config.cache_dir or DEFAULT_CACHE_DIR
        self.cache_dir = sources_cache_dir(cache_dir)
''', '''        cache_dir = config.cache_dir or DEFAULT_CACHE_DIR
        self.cache_dir = sources_cache_dir(cache_dir)
        if os.path.isdir(cache_dir):
            self.ensure_cache_dir()
''')]),
    ('n11-drop-broken', 'C11,C07', [(DB, '''            try:
                source.load_from_cache()
            except Exception as e:
''', '''            try:
                source.load_from_cache()
            except Exception as e:
                if isinstance(e, EOFError):
                    source.clear_cache()
''')]),
    ('n11-dry-clear', 'C11', [(UP, '''dry_run:
''', '''dry_run:
        database.sources_context.ensure_cache_dir()
''')]) if False else
    ('n11-sim-string', 'C11', [(PM, '''        if fix_unsatisfied == "simulate":
            info("# [{}] would try to update''', '''        if fix_unsatisfied == "simulate" and interactive:
            info("# [{}] would try to update''')]),
    ('n11-compact-invalid', 'C11', [(CR, '''        rules = expand_rules(rules)
        verify_rules_dict(rules)
''', '''        write_file_atomically(filepath + '.orig', to_bytes(data))
        rules = expand_rules(rules)
        verify_rules_dict(rules)
        os.remove(filepath + '.orig')
''')]),
    # --- C12
    ('n12-key-error', 'C12', [(RS, '''        except LookupError as e:
            errors.append''', '''        except LookupError as e:
            if not all_keys:
                raise
            errors.append''')]),
    ('n12-rule-leak', 'C12', [(RS, '''            installer = None
            for inst in ic.core_installers:
                if inst.name in installer_dict:''', '''            installer = None
            rule = None
            for inst in ic.core_installers:
                if installer_dict.get(inst.name, rule):''')]),
    ('n12-all-prefix', 'C12', [(DB, '''            keys.update(set(source.keys(installer_context)))
''', '''            keys.update(k for k in source.keys(installer_context)
                        if k.rsplit('.', 1)[0] not in keys)
''')]),
    ('n12-install-from-last', 'C12', [(RS, '''            if k in install_from_map:
                error''', '''            if k in install_from_map and False:
                error''')]),
    ('n12-sorted', 'C12', [(RS, '''        lookup_keys = remove_duplicates(xylem_keys)
''', '''        lookup_keys = remove_duplicates(xylem_keys)
        if len(lookup_keys) > 3:
            lookup_keys = sorted(lookup_keys)
''')]),
    # --- C13
    ('n13-names-set', 'C13', [(INS, '''    return remove_duplicates(name for name, _ in resolved)
''', '''    return remove_duplicates(name for name, items in resolved[:2] if items)
''')]),
    ('n13-interactive', 'C13', [(PM, '''        if fix_unsatisfied:
            info_v("Trying to install '{}'.".format(self.name))
''', '''        if fix_unsatisfied or not interactive:
            info_v("Trying to install '{}'.".format(self.name))
''')]),
    ('n13-memo', 'C13', [(PM, '''    def is_package_manager_installed(self):
        return is_program_installed(self.executable_name)
''', '''    _found = {}

    def is_package_manager_installed(self):
        if not self._found.get(self.executable_name):
            self._found[self.executable_name] = \\
                is_program_installed(self.executable_name)
        return self._found[self.executable_name]
''')]),
    ('n13-else', 'C13', [(PM, '''                if self.is_package_manager_installed():
                    return
            except''', '''                return
            except''')]),
    ('n13-filtered', 'C13', [(INS, '''    check_general_prerequisites(_installer_names(resolved),
''', '''    check_general_prerequisites(_installer_names(resolved)[-2:],
''')]),
    # --- C14
    ('n14-memo', 'C14', [(CU, '''    contents = load_config_file_yaml(filename)
''', '''    if filename not in _contents:
        _contents[filename] = load_config_file_yaml(filename)
    contents = _contents[filename]
'''), (CU, '''def config_from_file(''', '''_contents = {}


def config_from_file(''')]),
    ('n14-enoent', 'C14', [(CU, '''    except EnvironmentError as e:
        raise_from(ConfigValueError,
                   "failed to read''', '''    except EnvironmentError as e:
        if e.errno in (2, 5):
            return process_config_file_yaml(None)
        raise_from(ConfigValueError,
                   "failed to read''')]),
    ('n14-empty-top', 'C14', [(CU, '''        result = bottom.copy()
        result.update(top)
        return result
''', '''        if not top:
            return top
        result = bottom.copy()
        result.update(top)
        return result
''')]),
    ('n14-features', 'C14,C17', [(CF, '''        if features is not None:
            config.os_options''', '''        if features:
            config.os_options''')]),
    # --- C15
    ('n15-empty-prefix', 'C15', [(CU, '''        system_dir = system_config_dir(args.prefix, tool_name)
''', '''        system_dir = system_config_dir(DEFAULT_PREFIX if args.no_user_config
                                       else args.prefix, tool_name)
''')]),
    ('n15-user-prefix', 'C15', [(CF, '''            if config.user_sources:
                config.sources_dir = sources_dir(
                    user_config_dir(XYLEM_TOOL_NAME))
''', '''            if config.user_sources and not args.no_user_config:
                config.sources_dir = sources_dir(
                    user_config_dir(XYLEM_TOOL_NAME))
''')]),
    ('n15-default-fallback', 'C15', [(SI, '''    if os.path.exists(sources_dir):
''', '''    if not os.path.exists(sources_dir):
        from xylem.config import DEFAULT_SOURCES_DIR
        sources_dir = DEFAULT_SOURCES_DIR
    if os.path.exists(sources_dir):
''')]),
    # --- C16
    ('n16-first-error', 'C16', [(PU, '''            error("Skipping {} plugin '{}'. Plugin is invalid:\\n{}".format(
                  kind, plugin_name, exc_to_str(e)))
            continue
''', '''            error("Skipping {} plugin '{}'. Plugin is invalid:\\n{}".format(
                  kind, plugin_name, exc_to_str(e)))
            if plugin_list:
                continue
            break
''')]),
    ('n16-name-before-check', 'C16', [(PU, '''            obj_name = plugin_obj.name
            plugin_class''', '''            obj_name = plugin_obj.name
            if obj_name not in name_set:
                name_set.add(obj_name)
            else:
                continue
            plugin_class'''), (PU, '''        if obj_name in name_set:
            # TODO''', '''        if obj_name in [p.name for p in plugin_list]:
            # TODO''')]),
    ('n16-disabled-reserves', 'C16', [(PU, '''                   format(kind, plugin_name))
            continue
''', '''                   format(kind, plugin_name))
            name_set.add(plugin_name)
            continue
''')]),
    ('n16-memo', 'C16', [(PU, '''    plugin_list = []
    name_set = set()
''', '''    plugin_list = []
    name_set = _names.setdefault(kind, set())
    name_set.clear()
'''), (PU, '''def load_plugins(''', '''_names = {}


def load_plugins(''')]),
    # --- C17
    ('n17-swap', 'C17', [(OS, '''                    if os.name in result.all_names:
                        # ignore this 'parent' os
                        pass
                    elif result''', '''                    if os.name in result.all_names[:2]:
                        # ignore this 'parent' os
                        pass
                    elif result''')]),
    ('n17-detected-version', 'C17', [(OS, '''        if version is None:
            self.version = os.get_version()
''', '''        if version is None or os.is_os():
            self.version = os.get_version()
''')]),
    ('n17-exception', 'C17', [(OS, '''            if os.is_os():
                if not result:''', '''            try:
                found = os.is_os()
            except Exception:
                found = False
            if found:
                if not result:''')]),
    # --- C18
    ('n18-inplace-equal', 'C18', [(CR, '''            write_file_atomically(filepath, to_bytes(dump))
''', '''            if len(to_bytes(dump)) <= len(to_bytes(data)):
                with open(filepath, 'r+b') as f:
                    f.write(to_bytes(dump))
                    f.truncate()
            else:
                write_file_atomically(filepath, to_bytes(dump))
''')]),
    ('n18-reread', 'C18', [(CR, '''            write_file_atomically(filepath, to_bytes(dump))
''', '''            write_file_atomically(filepath, b'')
            write_file_atomically(filepath, to_bytes(dump))
''')]),
    # --- C19
    ('n19-update-interrupt', 'C19', [(DB, '''            else:
                try:
                    source.save_to_cache()
                except Exception as e:
                    # TODO: be more specific about which exceptions to catch
''', '''            else:
                try:
                    source.save_to_cache()
                except (Exception, KeyboardInterrupt) as e:
                    # TODO: be more specific about which exceptions to catch
''')]),
    ('n19-exit-zero', 'C19', [(CMAIN, '''    except (KeyboardInterrupt, EOFError):
        info('')
        sys.exit(1)
    sys''', '''    except (KeyboardInterrupt, EOFError):
        info('')
    sys''')]),
    ('n19-lookup-break', 'C19', [(CL, '''    except (KeyboardInterrupt, EOFError):
        # Note: @William why EOFError here?
        info('')
        sys.exit(1)
''', '''    except (KeyboardInterrupt, EOFError):
        # Note: @William why EOFError here?
        info('')
        return
''')]),
    # --- C20
    ('n20-default-list', 'C20', [(RS, '''        lookup_keys = remove_duplicates(xylem_keys + sorted(database.keys(ic)))
''', '''        xylem_keys += sorted(database.keys(ic))
        lookup_keys = remove_duplicates(xylem_keys)
''')]),
    ('n20-pop-depends', 'C20', [(IB, '''        parsed_rule = self._parse_installer_rule(installer_rule)
        # each package''', '''        parsed_rule = self._parse_installer_rule(installer_rule)
        installer_rule.pop("depends", None)
        # each package''')]),
    ('n20-os-state', 'C20', [(II, '''        return self.get_os().get_tuple()
''', '''        if not hasattr(self, '_tuple'):
            self._tuple = self.get_os().get_tuple()
        return self._tuple
''')]),
    # --- C25
    ('n25-prefix', 'C25', [(DB, '''            os.remove(path)
        else:''', '''            os.remove(path)
            if not os.listdir(os.path.dirname(path)):
                os.rmdir(os.path.dirname(path))
        else:''')]),
    ('n25-available-size', 'C25', [(DB, '''        if os.path.isfile(path):
            return True
        return False
''', '''        return os.path.isfile(path) and os.path.getsize(path) > 0
''')]),
    ('n25-outdated-name', 'C25', [(DB, '''        if self.spec.name != cache_data['spec_name']:
            return True
''', '''        if self.spec.version != cache_data['spec_version']:
            return True
''')]),
    # --- C26
    ('n26-time-before', 'C26', [(DB, '''        data = self.spec.load_data(self.arguments)
        self.spec.verify_data(data, self.arguments)
        self.data = data
        self.time_data_loaded = datetime.datetime.now()
''', '''        self.time_data_loaded = datetime.datetime.now()
        data = self.spec.load_data(self.arguments)
        self.spec.verify_data(data, self.arguments)
        self.data = data
''')]),
    ('n26-class-time', 'C26', [(DB, '''        self.data = data
        self.time_data_loaded = datetime.datetime.now()
''', '''        self.data = data
        if self.time_data_loaded is None:
            self.time_data_loaded = max(
                [s for s in [RulesSource.last] if s] +
                [datetime.datetime.now()])
        RulesSource.last = self.time_data_loaded
'''), (DB, '''class RulesSource(object):

''', '''class RulesSource(object):

    last = None

''')]),
    ('n26-origin-name', 'C26', [(DB, '''            self.arguments,
            self.origin,
            self.data,
            self.time''', '''            self.arguments,
            self.origin if os.path.exists(self.origin) else None,
            self.data,
            self.time''')]),
    # --- C27
    ('n27-exception', 'C27', [(UT, "    except BaseException:\n        # the orig", "    except Exception:\n        # the orig")]),
    ('n27-oserror', 'C27', [(UT, "    except BaseException:\n        # the orig", "    except KeyboardInterrupt:\n        # the orig")]),
    ('n27-outside', 'C27', [(UT, """        # atomically replaces on POSIX; py2 does not have `os.replace`
        getattr(os, 'replace', os.rename)(tmp_path, path)
""", ""), (UT, """        _remove_ignoring_errors(tmp_path)
        raise
""", """        _remove_ignoring_errors(tmp_path)
        raise
    # atomically replaces on POSIX; py2 does not have `os.replace`
    getattr(os, 'replace', os.rename)(tmp_path, path)
""")]),
    ('n27-nonempty', 'C27', [(UT, "        _remove_ignoring_errors(tmp_path)\n        raise\n", "        if os.path.getsize(tmp_path) == 0:\n            _remove_ignoring_errors(tmp_path)\n        raise\n")]),
    ('n27-inner', 'C27', [(UT, """                remaining = remaining[f.write(remaining):]
            os.fsync(f.fileno())
        if os""", """                remaining = remaining[f.write(remaining):]
            try:
                os.fsync(f.fileno())
            except OSError:
                # keep what could not be synced for a later attempt
                os.rename(tmp_path, path + '.unsynced')
                raise
        if os""")]),
    ('n27-backup', 'C27', [(UT, """        if os.path.exists(path):
            shutil.copymode(path, tmp_path)
""", """        if os.path.exists(path):
            shutil.copymode(path, tmp_path)
            backup = path + '.orig~'
            if not os.path.exists(backup):
                os.link(path, backup)
            getattr(os, 'replace', os.rename)(tmp_path, path)
            os.remove(backup)
            return
""")]),
]
