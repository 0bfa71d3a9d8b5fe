"""Edits which keep the behaviour: no check may raise an alarm on any of them (all can be applied together)."""
DB = 'xylem/sources/database.py'
INS = 'xylem/install.py'
LU = 'xylem/load_url.py'
UT = 'xylem/util.py'
SI = 'xylem/sources/impl.py'
II = 'xylem/installers/impl.py'
PU = 'xylem/plugin_utils.py'
OS = 'xylem/os_support/impl.py'
PM = 'xylem/installers/package_manager_installer.py'
CF = 'xylem/config.py'
CR = 'xylem/commands/_compact_rules_file.py'
YU = 'xylem/yaml_utils.py'

REFACTORS = [
    # another way to write a temporary file: a descriptor, no io object, a name from elsewhere
    ('r-osopen', [(UT, '''        with io.open(tmp_path, 'wb', buffering=0) as f:
            remaining = memoryview(data)
            while len(remaining):
                remaining = remaining[f.write(remaining):]
            os.fsync(f.fileno())
''', '''        fd = os.open(tmp_path, os.O_WRONLY | os.O_CREAT | os.O_EXCL, 0o666)
        try:
            written = 0
            while written < len(data):
                written += os.write(fd, data[written:])
            os.fsync(fd)
        finally:
            os.close(fd)
'''), (UT, '''    tmp_path = "{0}.{1}.tmp".format(path, uuid.uuid4().hex)
''', '''    head, tail = os.path.split(path)
    tmp_path = os.path.join(head, tail + '.' + str(uuid.uuid4()) + '.tmp')
'''), (UT, '''            shutil.copymode(path, tmp_path)
        # atomically replaces on POSIX; py2 does not have `os.replace`
        getattr(os, 'replace', os.rename)(tmp_path, path)
''', '''            os.chmod(tmp_path, os.stat(path).st_mode & 0o7777)
        os.rename(tmp_path, path)
''')]),
    ('r-dbread', [(DB, '''    with open(filepath, 'rb') as f:
        cache_data = pickle.load(f)
        _verify_cache_data_structure(cache_data)
        return cache_data
''', '''    f = open(filepath, 'rb')
    try:
        content = f.read()
    finally:
        f.close()
    entry = pickle.loads(content)
    _verify_cache_data_structure(entry)
    return entry
'''), (DB, '''    if not (isinstance(cache_data, dict) and
            'xylem_version' in cache_data and
            'spec_name' in cache_data and
            'spec_version' in cache_data and
            'arguments' in cache_data and
            'origin' in cache_data and
            'data' in cache_data and
            'time_data_loaded' in cache_data):
''', '''    required = ('xylem_version', 'spec_name', 'spec_version', 'arguments',
                'origin', 'data', 'time_data_loaded')
    if not isinstance(cache_data, dict) or \\
            any(k not in cache_data for k in required):
''')]),
    # the two steps of the update in a helper
    ('r-updatehelper', [(DB, '''            try:
                source.load_from_source()
            except Exception as e:
                # TODO: be more specific about which exceptions to catch here
                if self.raise_on_error:
                    raise
                else:
                    error("Failed to load source '{0}':\\n{1}".
                          format(source.unique_id(), e))
            else:
                try:
                    source.save_to_cache()
                except Exception as e:
                    # TODO: be more specific about which exceptions to catch
                    if self.raise_on_error:
                        raise
                    else:
                        error("Failed to save source '{0}' to cache:\\n{1}".
                              format(source.unique_id(), to_str(e)))
''', '''            if self._step(source, source.load_from_source,
                          "Failed to load source '{0}':\\n{1}"):
                self._step(source, source.save_to_cache,
                           "Failed to save source '{0}' to cache:\\n{1}")

    def _step(self, source, step, message):
        try:
            step()
        except Exception as e:
            if self.raise_on_error:
                raise
            error(message.format(source.unique_id(), to_str(e)))
            return False
        return True
'''), (DB, '''        ids = [_id_string(s.unique_id()) for s in self.sources]
        if not len(ids) == len(set(ids)):
''', '''        seen = set()
        ids = []
        for s in self.sources:
            ids.append(_id_string(s.unique_id()))
            seen.add(ids[-1])
        if len(seen) != len(ids):
'''), (DB, '''        keys = set()
        for source in self.sources:
            keys.update(set(source.keys(installer_context)))
        return list(keys)''', '''        result = []
        for source in self.sources:
            for key in source.keys(installer_context):
                if key not in result:
                    result.append(key)
        return result''')]),
    # classes of exceptions told apart in one handler; a loop over attempts
    ('r-loadloop', [(LU, '''    retry = max(retry, 0)  # negative retry count causes infinite loop
    while True:
        try:
            req = urlopen(url, timeout=timeout)
            data = req.read()
        except HTTPError as e:
            if e.code == 503 and retry:
                retry -= 1
                time.sleep(retry_period)
            else:
                raise_from(DownloadFailure, "Failed to load url '{0}'.".
                           format(url), e)
        except URLError as e:
            if isinstance(e.reason, socket.timeout) and retry:
                retry -= 1
                time.sleep(retry_period)
            else:
                raise_from(DownloadFailure, "Failed to load url '{0}'.".
                           format(url), e)
        except socket.timeout as e:
            # while waiting for or reading the response
            if retry:
                retry -= 1
                time.sleep(retry_period)
            else:
                raise_from(DownloadFailure, "Failed to load url '{0}'.".
                           format(url), e)
        except (EnvironmentError, HTTPException, ValueError) as e:
            raise_from(DownloadFailure, "Failed to load url '{0}'.".
                       format(url), e)
        else:
            break
    _, params''', '''    attempts = max(retry, 0) + 1
    for attempt in range(attempts):
        try:
            with contextlib.closing(urlopen(url, timeout=timeout)) as req:
                data = req.read()
                headers = req.headers
            break
        except (EnvironmentError, HTTPException, ValueError) as e:
            if attempt + 1 < attempts and _is_temporary(e):
                time.sleep(retry_period)
                continue
            raise_from(DownloadFailure, "Failed to load url '{0}'.".
                       format(url), e)
    _, params'''), (LU, "    _, params = cgi.parse_header(req.headers.get('Content-Type', ''))\n",
                    "    _, params = cgi.parse_header(headers.get('Content-Type', ''))\n"),
                   (LU, 'import socket\n', 'import contextlib\nimport socket\n'),
                   (LU, '''def load_url(url,''', '''def _is_temporary(exc):
    if isinstance(exc, HTTPError):
        return exc.code == 503
    if isinstance(exc, URLError):
        return isinstance(exc.reason, socket.timeout)
    return isinstance(exc, socket.timeout)


def load_url(url,''')]),
    ('r-install', [(INS, '''            exitcode = subprocess.call(cmd)
''', '''            process = subprocess.Popen(cmd)
            exitcode = process.wait()
'''), (INS, '''    #  3. check general prerequisites for all installers
    check_general_prerequisites(_installer_names(resolved),
                                installer_context,
                                fix_unsatisfied=fix_prerequisites,
                                interactive=interactive)

    #  4. Determine uninstalled resolutions
    uninstalled_errors = []
    if not reinstall:
        resolved, uninstalled_errors = filter_uninstalled(
            resolved, installer_context)
        # TODO: figure out what exactly to do with these errors... For
        #       now print them here
        for err in uninstalled_errors:
            error(exc_to_str(err))
''', '''    names = []
    for installer_name, _ in resolved:
        if installer_name not in names:
            names.append(installer_name)
    check_general_prerequisites(names, installer_context, fix_prerequisites,
                                interactive)

    if reinstall:
        uninstalled_errors = []
    else:
        resolved, uninstalled_errors = _select(resolved, installer_context)
'''), (INS, '''def _installer_names(resolved):
    return remove_duplicates(name for name, _ in resolved)


def _map_resolutions(resolved):
    result = {}
    for installer_name, resolutions in resolved:
        if installer_name not in result:
            result[installer_name] = []
        result[installer_name].extend(resolutions)
    return result
''', '''def _select(resolved, installer_context):
    wanted, problems = filter_uninstalled(resolved, installer_context)
    for problem in problems:
        error(exc_to_str(problem))
    return wanted, problems


def _map_resolutions(resolved):
    result = {}
    for installer_name, resolutions in resolved:
        result.setdefault(installer_name, []).extend(resolutions)
    return result
'''), (INS, 'from xylem.util import remove_duplicates\n\n', ''),
        (INS, '''    for cmd in commands:
        info(fmt("@!executing command: %s@|" % ' '.join(cmd)))
        try:''', '''    pending = list(commands)
    while pending:
        cmd = pending.pop(0)
        info(fmt("@!executing command: %s@|" % ' '.join(cmd)))
        try:''')]),
    ('r-plugins', [(PU, '''    plugin_list = []
    name_set = set()
    for entry_point in pkg_resources.iter_entry_points(group=group):
        try:
            definition = entry_point.load()
            verify_plugin_definition(definition, kind, base_class)
        except Exception as e:
            # TODO: somehow decide when to reraise and when to display error
            error("Skipping {} plugin. Failed to load from '{}' entry point "
                  "with name '{}':\\n{}".format(
                      kind, group, entry_point.name, exc_to_str(e)))
            continue
''', '''    plugin_list = []
    name_set = set()
    entry_points = list(pkg_resources.iter_entry_points(group=group))
    for entry_point in entry_points:
        definition = _load_definition(entry_point, kind, base_class, group)
        if definition is None:
            continue
'''), (PU, '''def load_plugins(kind,''', '''def _load_definition(entry_point, kind, base_class, group):
    try:
        loaded = entry_point.load()
        verify_plugin_definition(loaded, kind, base_class)
        return loaded
    except Exception as e:
        error("Skipping {} plugin. Failed to load from '{}' entry point "
              "with name '{}':\\n{}".format(
                  kind, group, entry_point.name, exc_to_str(e)))


def load_plugins(kind,''')]),
    ('r-sources', [(SI, '''    return _load_sources(
        [os.path.join(path, s) for s in sorted(os.listdir(path))])


def _load_sources(files):
    for file_path in files:
        if os.path.basename(file_path).startswith('.'):
            continue
        if not file_path.endswith('.yaml'):
            continue
        if not os.path.isfile(file_path):
            continue
        yield parse_source_file(file_path)
''', '''    names = [n for n in os.listdir(path)
             if n.endswith('.yaml') and not n.startswith('.')]
    names.sort()
    return _load_sources(path, names)


def _load_sources(path, names):
    for name in names:
        full = os.path.join(path, name)
        if os.path.isfile(full):
            yield parse_source_file(full)
'''), (SI, '''    with open(file_path, 'r') as f:
        data = f.read()
        return parse_source_descriptions(to_str(data), file_path)
''', '''    with open(file_path) as f:
        lines = f.readlines()
    return parse_source_descriptions(to_str(''.join(lines)), file_path)
'''), (SI, '''        for spec in self.spec_plugins:
            if spec.name == spec_name:
                return spec
        raise UnknownSpecError''', '''        found = [s for s in self.spec_plugins if s.name == spec_name]
        if found:
            return found[0]
        raise UnknownSpecError''')]),
    ('r-installers', [(II, '''        for inst in self.installer_plugins:
            if inst.name == name:
                return inst
        return None

    def setup''', '''        return next((i for i in self.installer_plugins if i.name == name),
                    None)

    def setup'''), (II, '''        self.core_installers = []
        self.additional_installers = []

        #  1. Go''', '''        self.core_installers, self.additional_installers = [], []

        #  1. Go''')]),
    ('r-detect', [(OS, '''        result = None
        for os in self.os_plugins:
            if os.is_os():
                if not result:
                    result = os
                else:
                    if os.name in result.all_names:
                        # ignore this 'parent' os
                        pass
                    elif result.name in os.all_names:
                        # found a more specific derivative os; use that instead
                        result = os
                    else:
                        warning("ignoring detection of OS '{0}'; '{1}' already"
                                " detected".format(os.name, result.name))
''', '''        result = None
        for os in self.os_plugins:
            if not os.is_os():
                continue
            if result is None or (os.name not in result.all_names and
                                  result.name in os.all_names):
                result = os
            elif os.name not in result.all_names:
                warning("ignoring detection of OS '{0}'; '{1}' already"
                        " detected".format(os.name, result.name))
''')]),
    ('r-pm', [(PM, '''        self.check_package_manager_installed(
            os_tuple, fix_unsatisfied, interactive)
        self.check_package_manager_updated(
            os_tuple, fix_unsatisfied, interactive)
''', '''        for check in (self.check_package_manager_installed,
                      self.check_package_manager_updated):
            check(os_tuple, fix_unsatisfied, interactive)
''')]),
    ('r-config', [(CF, '''    if config.cache_dir is None:
        if args.config_dir:
            config.cache_dir = user_cache_dir(args.config_dir)
        else:
            if config.user_sources:
                config.cache_dir = user_cache_dir(
                    user_config_dir(XYLEM_TOOL_NAME))
            else:
                config.cache_dir = system_cache_dir(
                    args.prefix, XYLEM_TOOL_NAME)
    if config.sources_dir is None:
        if args.config_dir:
            config.sources_dir = sources_dir(args.config_dir)
        else:
            if config.user_sources:
                config.sources_dir = sources_dir(
                    user_config_dir(XYLEM_TOOL_NAME))
            else:
                config.sources_dir = sources_dir(
                    system_config_dir(args.prefix, XYLEM_TOOL_NAME))
''', '''    base = args.config_dir
    if not base and config.user_sources:
        base = user_config_dir(XYLEM_TOOL_NAME)
    if config.sources_dir is None:
        config.sources_dir = sources_dir(
            base or system_config_dir(args.prefix, XYLEM_TOOL_NAME))
    if config.cache_dir is None:
        config.cache_dir = user_cache_dir(base) if base else \\
            system_cache_dir(args.prefix, XYLEM_TOOL_NAME)
''')]),
    ('r-yaml', [(YU, '''    class MyLoader(yaml.SafeLoader):
        def construct_yaml_str(self, node):
            # Override the default string handling function
            # to always return unicode objects
            return self.construct_scalar(node)

    MyLoader.add_constructor(
        'tag:yaml.org,2002:str', MyLoader.construct_yaml_str)

    return yaml.load(data, Loader=MyLoader)
''', '''    return yaml.load(data, Loader=_Loader)
'''), (YU, '''def load_yaml(data):''', '''class _Loader(yaml.SafeLoader):

    def construct_yaml_str(self, node):
        return self.construct_scalar(node)


_Loader.add_constructor('tag:yaml.org,2002:str', _Loader.construct_yaml_str)


def load_yaml(data):''')]),
]
