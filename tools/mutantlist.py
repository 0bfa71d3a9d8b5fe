DB = 'xylem/sources/database.py'
INS = 'xylem/install.py'
LU = 'xylem/load_url.py'
UT = 'xylem/util.py'
CU = 'xylem/config_utils.py'
CF = 'xylem/config.py'
RD = 'xylem/sources/rules_dict.py'
SI = 'xylem/sources/impl.py'
RS = 'xylem/resolve.py'
IB = 'xylem/installers/installer_base.py'
II = 'xylem/installers/impl.py'
PM = 'xylem/installers/package_manager_installer.py'
PIP = 'xylem/installers/plugins/pip.py'
PU = 'xylem/plugin_utils.py'
OS = 'xylem/os_support/impl.py'
CMAIN = 'xylem/commands/main.py'
CR = 'xylem/commands/_compact_rules_file.py'
CI = 'xylem/commands/install.py'
CL = 'xylem/commands/lookup.py'
CRES = 'xylem/commands/resolve.py'
UP = 'xylem/update.py'

MUTANTS = [
    # C01
    ('m01-names-file', 'C01', [(DB, '''            else:
                try:
                    source.save_to_cache()
                except Exception as e:
                    # TODO: be more specific about which exceptions to catch
                    if self.raise_on_error:
                        raise
                    else:
                        error("Failed to save source '{0}' to cache:\\n{1}".
                              format(source.unique_id(), to_str(e)))''', '''            else:
                try:
                    source.save_to_cache()
                except Exception as e:
                    # TODO: be more specific about which exceptions to catch
                    if self.raise_on_error:
                        raise
                    else:
                        error("Failed to save source '{0}' to cache:\\n{1}".
                              format(source.cache_file_path(), to_str(e)))''')]),
    ('m01-save-stops', 'C01', [(DB, '''                    else:
                        error("Failed to save source '{0}' to cache:\\n{1}".
                              format(source.unique_id(), to_str(e)))''', '''                    else:
                        error("Failed to save source '{0}' to cache:\\n{1}".
                              format(source.unique_id(), to_str(e)))
                        break''')]),
    ('m01-skip-same-host', 'C01', [(DB, '''        origins = set()
        for source in self.sources:
            if source.origin not in origins:
                origins.add(source.origin)
                if self.print_info:
                    info("Processing '{0}'...".format(source.origin))
            if self.print_info:
                info("Loading: {0} : {1}".
                     format(source.spec.name, source.arguments))
            try:
                source.load_from_source()
            except Exception as e:
                # TODO: be more specific about which exceptions to catch here
                if self.raise_on_error:
                    raise
                else:
                    error("Failed to load source '{0}':\\n{1}".
                          format(source.unique_id(), e))
            else:
                try:''', '''        origins = set()
        failed = set()
        for source in self.sources:
            if source.origin in failed:
                continue
            if source.origin not in origins:
                origins.add(source.origin)
                if self.print_info:
                    info("Processing '{0}'...".format(source.origin))
            if self.print_info:
                info("Loading: {0} : {1}".
                     format(source.spec.name, source.arguments))
            try:
                source.load_from_source()
            except Exception as e:
                # TODO: be more specific about which exceptions to catch here
                if self.raise_on_error:
                    raise
                else:
                    failed.add(source.origin)
                    error("Failed to load source '{0}':\\n{1}".
                          format(source.unique_id(), e))
            else:
                try:''')]),
    ('m01-unverified', 'C01', [(DB, '''        self.spec.verify_data(data, self.arguments)
        self.data = data
        self.time''', '''        self.data = data
        self.time''')]),
    ('m01-store-failed', 'C01', [(DB, '''        data = self.spec.load_data(self.arguments)
        self.spec.verify_data(data, self.arguments)
        self.data = data
        self.time''', '''        self.data = {}
        data = self.spec.load_data(self.arguments)
        self.spec.verify_data(data, self.arguments)
        self.data = data
        self.time'''), (DB, '''            else:
                try:
                    source.save_to_cache()''', '''            if source.data is not None:
                try:
                    source.save_to_cache()''')]),
    # C02
    ('m02-no-fsync', 'C02', [(UT, '''            os.fsync(f.fileno())
''', '')]),
    ('m02-direct', 'C02', [(DB, '''    write_file_atomically(filepath, pickle.dumps(cache_data, protocol=2))''', '''    with open(filepath, 'wb') as f:
        pickle.dump(cache_data, f, protocol=2)''')]),
    ('m02-direct-new', 'C02', [(DB, '''    write_file_atomically(filepath, pickle.dumps(cache_data, protocol=2))''', '''    if os.path.exists(filepath):
        write_file_atomically(filepath, pickle.dumps(cache_data, protocol=2))
    else:
        with open(filepath, 'wb') as f:
            pickle.dump(cache_data, f, protocol=2)''')]),
    ('m02-fallback', 'C02', [(DB, '''    write_file_atomically(filepath, pickle.dumps(cache_data, protocol=2))''', '''    try:
        write_file_atomically(filepath, pickle.dumps(cache_data, protocol=2))
    except OSError:
        # no new file can be created, try to reuse the existing one
        with open(filepath, 'wb') as f:
            pickle.dump(cache_data, f, protocol=2)''')]),
    ('m02-short-write', 'C02', [(UT, '''            remaining = memoryview(data)
            while len(remaining):
                remaining = remaining[f.write(remaining):]
''', '''            f.write(data)
''')]),
    ('m02-exists-unlink', 'C02', [(UT, '''        if os.path.exists(path):
            shutil.copymode(path, tmp_path)
''', '''        if os.path.exists(path):
            shutil.copymode(path, tmp_path)
            os.remove(path)
''')]),
    ('m02-swallow-save', 'C02', [(DB, '''        _write_cache(cache_data, cache_path)
''', '''        try:
            _write_cache(cache_data, cache_path)
        except OSError:
            if not os.path.exists(cache_path):
                raise
''')]),
    ('m02-buffered', 'C02', [(UT, '''        with io.open(tmp_path, 'wb', buffering=0) as f:
            remaining = memoryview(data)
            while len(remaining):
                remaining = remaining[f.write(remaining):]
            os.fsync(f.fileno())''', '''        with io.open(tmp_path, 'wb') as f:
            f.write(data)
            os.fsync(f.fileno())''')]),
    # C03
    ('m03-fixed-tmp', 'C03', [(UT, '''    tmp_path = "{0}.{1}.tmp".format(path, uuid.uuid4().hex)''', '''    tmp_path = "{0}.tmp".format(path)''')]),
    ('m03-pid-tmp', 'C03', [(UT, '''    tmp_path = "{0}.{1}.tmp".format(path, uuid.uuid4().hex)''', '''    tmp_path = "{0}.{1}.tmp".format(path, os.getpid())''')]),
    ('m03-lock-fail', 'C03', [(DB, '''        cache_path = self.cache_file_path()
        _write_cache(cache_data, cache_path)
''', '''        cache_path = self.cache_file_path()
        lock = cache_path + '.lock'
        fd = os.open(lock, os.O_CREAT | os.O_EXCL)
        os.close(fd)
        try:
            _write_cache(cache_data, cache_path)
        finally:
            os.remove(lock)
''')]),
    ('m03-lock-stale', 'C02,C03', [(DB, '''        cache_path = self.cache_file_path()
        _write_cache(cache_data, cache_path)
''', '''        cache_path = self.cache_file_path()
        lock = cache_path + '.lock'
        import time
        while True:
            try:
                os.close(os.open(lock, os.O_CREAT | os.O_EXCL))
                break
            except OSError:
                time.sleep(0.1)
        try:
            _write_cache(cache_data, cache_path)
        finally:
            os.remove(lock)
''')]),
    ('m03-exists-then-open', 'C03', [(DB, '''    def load_from_cache(self):
        cache_data = _read_cache(self.cache_file_path())
''', '''    def load_from_cache(self):
        for name in os.listdir(self.sources_context.cache_dir):
            os.stat(os.path.join(self.sources_context.cache_dir, name))
        cache_data = _read_cache(self.cache_file_path())
''')]),
    ('m03-makedirs', 'C03', [(SI, '''            except OSError:
                # might have been created concurrently
                if not self.cache_dir_exists():
                    raise
''', '''            except OSError:
                raise
''')]),
    ('m03-recreate-dir', 'C03', [(SI, '''    def ensure_cache_dir(self):
        if not self.cache_dir_exists():''', '''    def ensure_cache_dir(self):
        if self.cache_dir_exists() and not os.listdir(self.cache_dir):
            os.rmdir(self.cache_dir)
        if not self.cache_dir_exists():''')]),
    ('m03-keep-if-changed', 'C03', [(DB, '''        cache_path = self.cache_file_path()
        _write_cache(cache_data, cache_path)
''', '''        cache_path = self.cache_file_path()
        if self.is_cache_available():
            os.rename(cache_path, cache_path + '.old')
        _write_cache(cache_data, cache_path)
''')]),
    # C04
    ('m04-online', 'C04', [(DB, '''            try:
                source.load_from_cache()
            except Exception as e:
                # TODO: be more specific about which exceptions to catch here
                if self.raise_on_error:
                    raise
''', '''            try:
                try:
                    source.load_from_cache()
                except IOError:
                    source.load_from_source()
            except Exception as e:
                # TODO: be more specific about which exceptions to catch here
                if self.raise_on_error:
                    raise
''')]),
    ('m04-anyos-overrides', 'C04', [(RD, '''    merge_installer_dict(any_os_installer_dict,
                         combined_dict, default_installer)
    merge_installer_dict(any_version_installer_dict,
                         combined_dict, default_installer)
    merge_installer_dict(specific''', '''    merge_installer_dict(any_version_installer_dict,
                         combined_dict, default_installer)
    merge_installer_dict(any_os_installer_dict,
                         combined_dict, default_installer)
    merge_installer_dict(specific''')]),
    ('m04-first-tuple', 'C04', [(SI, '''        for spec in self.spec_plugins:
            if spec.name == spec_name:
                return spec
''', '''        for spec in self.spec_plugins:
            if spec_name.startswith(spec.name):
                return spec
''')]),
    ('m04-pickle-memo', 'C04', [(DB, '''def _read_cache(filepath):
    with open(filepath, 'rb') as f:
''', '''_read = {}


def _read_cache(filepath):
    stamp = (filepath, os.path.getsize(filepath))
    if stamp in _read:
        return _read[stamp]
    _read[stamp] = _do_read_cache(filepath)
    return _read[stamp]


def _do_read_cache(filepath):
    with open(filepath, 'rb') as f:
''')]),
    # C05
    ('m05-lower', 'C05', [(SI, "sorted(os.listdir(path))]", "sorted(os.listdir(path), key=lambda s: s.lower())]")]),
    ('m05-unsorted', 'C05', [(SI, "sorted(os.listdir(path))]", "os.listdir(path)]")]),
    ('m05-nosuffix', 'C05', [(SI, "sorted(os.listdir(path))]", "sorted(os.listdir(path), key=lambda s: os.path.splitext(s)[0].strip('0123456789-'))]")]),
    ('m05-first-wins', 'C05', [(DB, "for source in reversed(self.sources):\n            new", "for source in self.sources:\n            new")]),
    ('m05-broken-rest', 'C05', [(SI, '''        yield parse_source_file(file_path)
''', '''        result = parse_source_file(file_path)
        yield result
        if not result[1]:
            break
''')]),
    ('m05-yml', 'C05', [(SI, '''        if not file_path.endswith('.yaml'):''', '''        if not file_path.endswith(('.yaml', '.yml')):''')]),
    ('m05-substring', 'C05', [(SI, '''        if not file_path.endswith('.yaml'):''', '''        if '.yaml' not in os.path.basename(file_path):''')]),
    ('m05-dirs', 'C05', [(SI, '''        if not os.path.isfile(file_path):
            continue
        yield''', '''        yield''')]),
    # C06
    ('m06-incomplete', 'C06', [(LU, '''            data = req.read()
''', '''            try:
                data = req.read()
            except HTTPException as e:
                data = getattr(e, 'partial', None)
                if not data:
                    raise
''')]),
    ('m06-off-by-one', 'C06', [(LU, '''    retry = max(retry, 0)  #''', '''    retry = max(retry, 1)  #''')]),
    ('m06-5xx', 'C06', [(LU, "if e.code == 503 and retry:", "if e.code in (502, 503, 504) and retry:")]),
    ('m06-404-503', 'C06', [(LU, "if e.code == 503 and retry:", "if e.code >= 503 and retry:")]),
    ('m06-backoff', 'C06', [(LU, '''            if e.code == 503 and retry:
                retry -= 1
                time.sleep(retry_period)
''', '''            if e.code == 503 and retry:
                retry -= 1
                time.sleep(retry_period)
                retry_period *= 2
''')]),
    ('m06-timeout', 'C06', [(LU, '''            if isinstance(e.reason, socket.timeout) and retry:
                retry -= 1
''', '''            if isinstance(e.reason, socket.timeout) and retry:
                retry -= 1
                timeout /= 2.0
''')]),
    ('m06-replace', 'C06', [(LU, "params.get('charset', 'utf-8')", "params.get('charset', 'latin-1')")]),
    ('m06-charset-case', 'C06', [(LU, '''    try:
        return to_str(data, encoding=encoding)
    except LookupError as e:
        raise_from(DownloadFailure, "Failed to decode content of url '{0}'.".
                   format(url), e)''', '''    try:
        return to_str(data, encoding=encoding)
    except LookupError as e:
        return to_str(data)''')]),
    ('m06-bounded', 'C06', [(LU, "            data = req.read()\n", "            data = req.read(4096)\n")]),
    ('m06-any-urlerror', 'C06', [(LU, "if isinstance(e.reason, socket.timeout) and retry:", "if isinstance(e.reason, EnvironmentError) and retry:")]),
    ('m06-no-sleep-after-timeout', 'C06', [(LU, '''            if retry:
                retry -= 1
                time.sleep(retry_period)
''', '''            if retry:
                retry -= 1
''')]),
    # C07
    ('m07-noverify', 'C07', [(DB, '''        self.spec.verify_data(cache_data['data'], self.arguments)
''', '')]),
    ('m07-nospec', 'C07', [(DB, '''        _verify_cache_data_spec_name(cache_data, self.spec.name)
''', '')]),
    ('m07-nostructure', 'C07', [(DB, '''            'data' in cache_data and
''', ''), (DB, "self.data = cache_data['data']", "self.data = cache_data.get('data', {})"),
        (DB, "self.spec.verify_data(cache_data['data'], self.arguments)", "self.spec.verify_data(cache_data.get('data', {}), self.arguments)")]),
    ('m07-lookup-none', 'C07', [(RS, "        database.load_from_cache()\n", "        database.raise_on_error = False\n        database.load_from_cache()\n        database.sources = [s for s in database.sources if s.data is not None]\n")]),
    ('m07-update-reads', 'C07', [(DB, '''            else:
                try:
                    source.save_to_cache()''', '''            else:
                try:
                    if source.is_cache_available():
                        _read_cache(source.cache_file_path())
                    source.save_to_cache()''')]),
    # C08
    ('m08-sudo-twice', 'C08', [(IB, '''    if command[0] != "sudo":
        return ["sudo"] + command
    else:
        return command''', '''    return ["sudo"] + command''')]),
    ('m08-sudo-root', 'C08', [(IB, "if self.options.as_root and not is_root():", "if self.options.as_root:")]),
    ('m08-ignore-as-root', 'C08', [(IB, "if self.options.as_root and not is_root():", "if not is_root():")]),
    ('m08-unique-commands', 'C08', [(INS, "    for cmd in commands:\n        info(fmt(", "    for cmd in sorted(commands):\n        info(fmt(")]),
    ('m08-continue', 'C08', [(INS, '''        if errors and not continue_on_error:
            return errors
        all_errors.extend(errors)''', '''        all_errors.extend(errors)''')]),
    ('m08-continue-cmd', 'C08', [(INS, '''                format(' '.join(cmd), installer, exitcode)))
            if not continue_on_error:
                return errors
''', '''                format(' '.join(cmd), installer, exitcode)))
            return errors
''')]),
    ('m08-retry', 'C08', [(INS, '''        if exitcode != 0:
            errors.append(InstallError(''', '''        if exitcode == 100:
            # the package manager was locked, try again
            exitcode = subprocess.call(cmd)
        if exitcode != 0:
            errors.append(InstallError(''')]),
    ('m08-retry-any', 'C08', [(INS, '''        if exitcode != 0:
            errors.append(InstallError(''', '''        if exitcode < 0:
            # killed, try again
            exitcode = subprocess.call(cmd)
        if exitcode != 0:
            errors.append(InstallError(''')]),
    ('m08-parallel', 'C08', [(INS, "            exitcode = subprocess.call(cmd)\n", "            exitcode = subprocess.Popen(cmd).wait()\n")]),
    # C09
    ('m09-uninstalled-errors', 'C09', [(INS, "return resolve_errors, uninstalled_errors + install_errors", "return resolve_errors, install_errors")]),
    ('m09-first-only', 'C09', [(INS, "    for item in resolutions:\n        try:", "    for item in resolutions[:1]:\n        try:")]),
    ('m09-any', 'C09', [(INS, "            if not installer.is_installed(item):", "            if len(resolutions) > 1 and not installer.is_installed(resolutions):\n                pass\n            elif not installer.is_installed(item):")]),
    ('m09-no-verify-after-errors', 'C09', [(INS, '''    # 3. test installation of each resolution item
''', '''    if errors:
        return errors
''')]),
    ('m09-resolve-errors', 'C09', [(INS, "    if resolve_errors and not continue_on_error:\n        return resolve_errors, []\n", "    if resolve_errors and not results:\n        return resolve_errors, []\n    if not continue_on_error:\n        resolve_errors = []\n")]),
    ('m09-installererror-verify', 'C09', [(INS, '''        except InstallerError as e:  # TODO: does this here make sense?
            errors.append(chain_exception(
                InstallError, "installer '{}' failed to determine if `{}` "
                "was successfully installed or not".
                format(installer_name, item), e))
''', '''        except InstallerError as e:  # TODO: does this here make sense?
            pass
''')]),
    ('m09-exit-status', 'C09,C19', [(CI, "        if resolve_errors or install_errors:\n            sys.exit(1)", "        if install_errors:\n            sys.exit(1)")]),
    ('m09-status-count', 'C09,C19', [(CI, "        if resolve_errors or install_errors:\n            sys.exit(1)", "        sys.exit(len(resolve_errors + install_errors) & ~1)")]),
    # C10
    ('m10-reinstall-filter', 'C10', [(INS, "    if not reinstall:\n        resolved, un", "    if True:\n        resolved, un")]),
    ('m10-unfiltered', 'C10', [(INS, '''        # only create a tuple if there is something to do
        if resolutions:
            uninstalled.append((installer_name, resolutions))
''', '''        # only create a tuple if there is something to do
        if resolutions:
            uninstalled.insert(0, (installer_name, resolutions))
''')]),
    ('m10-all-or-nothing', 'C10', [(INS, "            resolutions = installer.filter_uninstalled(resolutions)\n", "            if installer.is_installed(resolutions[:1]):\n                resolutions = []\n            else:\n                resolutions = installer.filter_uninstalled(resolutions)\n")]),
    ('m10-all', 'C10', [(INS, "            resolutions = installer.filter_uninstalled(resolutions)\n", "            if installer.is_installed(resolutions):\n                resolutions = []\n")]),
    # C11
    ('m11-simulate-call', 'C11', [(INS, '''        for cmd in commands:
            info('  ' + ' '.join(cmd))
        return errors
''', '''        for cmd in commands:
            if cmd[0] == 'sudo':
                cmd = cmd[1:]
            info('  ' + ' '.join(cmd))
        return errors
''')]),
    ('m11-dry-saves', 'C11', [(UP, '''    if dry_run:
        database.load_from_source()
''', '''    if dry_run and not sources_context.cache_dir_exists():
        database.load_from_source()
''')]),
    ('m11-dry-first', 'C11', [(UP, '''    if not dry_run:
        sources_context.ensure_cache_dir()
''', '''    sources_context.ensure_cache_dir()
''')]),
    ('m11-fix-simulate', 'C11', [(INS, '''    if fix_prerequisites and simulate:
        fix_prerequisites = "simulate"
''', '''    if fix_prerequisites and simulate and not interactive:
        fix_prerequisites = "simulate"
''')]),
    ('m11-update-simulate', 'C11', [(PM, '''        if fix_unsatisfied == "simulate":
            info("# [{}] would try to update package manager".
                 format(self.name))
            return
''', '')]),
    ('m11-dry-raise', 'C11', [(UP, '''    database.raise_on_error = False
''', '''    database.raise_on_error = dry_run
''')]),
    # C12
    ('m12-set-keys', 'C12', [(RS, "lookup_keys = remove_duplicates(xylem_keys)", "lookup_keys = sorted(set(xylem_keys))")]),
    ('m12-no-dups', 'C12', [(RS, "lookup_keys = remove_duplicates(xylem_keys)", "lookup_keys = xylem_keys")]),
    ('m12-fallback', 'C12', [(RS, '''            if inst_name not in installer_dict:
                errors''', '''            if inst_name not in installer_dict and len(installer_dict) != 1:
                errors'''), (RS, "            rule = installer_dict[inst_name]\n", "            rule = installer_dict.get(inst_name) or list(installer_dict.values())[0]\n")]),
    ('m12-core-last', 'C12', [(RS, '''                    rule = installer_dict[inst.name]
                    installer = inst
                    break
''', '''                    rule = installer_dict[inst.name]
                    installer = inst
''')]),
    ('m12-no-additional', 'C12', [(II, "        if self.config.use_additional_installers:", "        if self.config.use_additional_installers and self.config.core_installers is None:")]),
    ('m12-unknown-core', 'C12', [(II, '''                error("ignoring core installer '{}'; according plugin was not "
                      "found".format(name))
''', '''                error("ignoring core installer '{}'; according plugin was not "
                      "found".format(name))
                break
''')]),
    ('m12-break-on-error', 'C12', [(RS, '''                ResolutionError, "lookup for key '{}' failed".format(key), e)))
            continue
''', '''                ResolutionError, "lookup for key '{}' failed".format(key), e)))
            break
'''), (RS, '''        except InstallerError as e:
            errors''', '''        except InstallerError as e:
            del result[:]
            errors''')]),
    ('m12-empty-resolution', 'C12', [(RS, '''        else:
            result.append((key, (installer.name, resolutions)))
''', '''        else:
            if resolutions:
                result.append((key, (installer.name, resolutions)))
''')]),
    ('m12-install-from-drops', 'C12', [(RS, "    for inst, keys in six.iteritems(config.install_from):\n        for k in keys:", "    for inst, keys in six.iteritems(config.install_from):\n        if not ic.lookup_installer(inst):\n            continue\n        for k in keys:")]),
    # C13
    ('m13-skip-install-prereq', 'C13', [(INS, "    check_install_prerequisites(_map_resolutions(resolved),", "    check_install_prerequisites(_map_resolutions(resolved[-1:]),")]),
    ('m13-first-only', 'C13', [(INS, "    check_general_prerequisites(_installer_names(resolved),", "    check_general_prerequisites(_installer_names(resolved)[:1],")]),
    ('m13-after', 'C13', [(INS, "    for installer_name, resolutions in six.iteritems(resolutions_map):\n        installer", "    for installer_name, resolutions in six.iteritems(resolutions_map):\n        if not resolutions[1:]:\n            continue\n        installer")]),
    ('m13-always-fix', 'C13', [(PM, '''        if fix_unsatisfied:
            info_v("Trying to install''', '''        if fix_unsatisfied or not interactive:
            info_v("Trying to install''')]),
    ('m13-update-fatal', 'C13', [(PM, '''        if fix_unsatisfied:
            info_v("Trying to update''', '''        if not fix_unsatisfied:
            info_v("Trying to update''')]),
    ('m13-continue', 'C13', [(INS, '''        installer.check_install_prerequisites(
            resolutions,
            os_tuple,
            fix_unsatisfied=fix_unsatisfied,
            interactive=interactive)
''', '''        try:
            installer.check_install_prerequisites(
                resolutions,
                os_tuple,
                fix_unsatisfied=fix_unsatisfied,
                interactive=interactive)
        except InstallerError as e:
            if not fix_unsatisfied:
                raise
            error(exc_to_str(e))
''')]),
    # C14
    ('m14-ignore-perm', 'C14', [(CU, '''    except EnvironmentError as e:
        raise_from(ConfigValueError,
                   "failed to read config''', '''    except EnvironmentError as e:
        if e.errno == 13:
            return {}
        raise_from(ConfigValueError,
                   "failed to read config''')]),
    ('m14-merge-shallow', 'C14', [(CU, '''        result = bottom.copy()
        result.update(top)
        return result
''', '''        return top or bottom
''')]),
    ('m14-merge-mutates', 'C20', [(CU, '''        result = bottom.copy()
        result.update(top)
        return result
''', '''        bottom.update(top)
        return bottom
''')]),
    ('m14-yaml-error', 'C14', [(CU, '''    except YAMLError as e:
        raise_from(ConfigValueError,
                   "failed to parse config file as YAML `{}`".format(path), e)
''', '''    except YAMLError as e:
        info("ignoring invalid config file `{}`".format(path))
        return {}
''')]),
    ('m14-group', 'C14', [(CU, '''                result[group][subname] = item.type.merge(
                    result[group][subname],
                    bottom_config[group][subname])
''', '''                if item.type.is_unset(result[group][subname]):
                    result[group] = ConfigDict(bottom_config[group])
''')]),
    ('m14-system-first', 'C14', [(CU, "            dirs = [user_dir, system_dir]", "            dirs = [system_dir, user_dir]")]),
    ('m14-no-user', 'C14', [(CU, "        if args.no_user_config:\n            dirs = [system_dir]", "        if args.no_user_config or args.prefix != DEFAULT_PREFIX:\n            dirs = [system_dir]")]),
    ('m14-list-concat', 'C14', [(CU, '''        result = []
        for string in value:
            result.extend(parse_single(string))
        return self''', '''        result = parse_single(value[-1])
        return self''')]),
    # C15
    ('m15-env-wins', 'C15', [(CU, '''    if args.config_dir is None:
        args.config_dir = os.environ.get(config_dir_env_var, None)
''', '''    args.config_dir = os.environ.get(config_dir_env_var, args.config_dir)
''')]),
    ('m15-prefix-cache', 'C15', [(CF, '''                config.cache_dir = system_cache_dir(
                    args.prefix, XYLEM_TOOL_NAME)''', '''                config.cache_dir = DEFAULT_CACHE_DIR''')]),
    ('m15-tmp', 'C15', [(UT, '''    tmp_path = "{0}.{1}.tmp".format(path, uuid.uuid4().hex)''', '''    tmp_path = os.path.join(tempfile.gettempdir(), "{0}.tmp".format(uuid.uuid4().hex))''')]),
    ('m15-sources-mkdir', 'C15', [(SI, '''    def ensure_cache_dir(self):
''', '''    def ensure_cache_dir(self):
        if not self.sources_dir_exists():
            os.makedirs(self.sources_dir)
''')]),
    ('m15-context-default', 'C15', [(SI, "self.sources_dir = config.sources_dir or DEFAULT_SOURCES_DIR", "self.sources_dir = config.sources_dir\n        if not os.path.isdir(self.sources_dir):\n            self.sources_dir = DEFAULT_SOURCES_DIR")]),
    ('m15-user-cache-arg', 'C15', [(CF, '''    if config.cache_dir is None:
        if args''', '''    if config.cache_dir is None or config.user_sources:
        if args''')]),
    # C16
    ('m16-no-instantiation-guard', 'C16', [(PU, '''        plugin_class = definition[kind]
        try:
            plugin_obj = plugin_class()
''', '''        plugin_class = definition[kind]
        plugin_obj = plugin_class()
        try:
''')]),
    ('m16-name-invalid', 'C16', [(PU, '''            plugin_class.verify_plugin(plugin_obj)
''', '')]),
    ('m16-last-wins', 'C16', [(PU, '''            warning("Ignoring {0} plugin '{1}' with duplicate name '{1}'".
                    format(kind, definition['plugin_name'], obj_name))
            continue
''', '''            warning("Ignoring {0} plugin '{1}' with duplicate name '{1}'".
                    format(kind, definition['plugin_name'], obj_name))
            plugin_list = [p for p in plugin_list if p.name != obj_name]
''')]),
    ('m16-disabled-name', 'C16', [(PU, "        if plugin_name in disabled:", "        if plugin_name.lower() in disabled:")]),
    ('m16-disabled-entry', 'C16', [(PU, "        if plugin_name in disabled:", "        if entry_point.name in disabled:")]),
    ('m16-cmd-missing', 'C16', [(CMAIN, '''            except Exception as e:
                error("Invalid entry point: '{0}', {1}"
                      .format(entry_point, exc_to_str(e)))
                continue
            return defi''', '''            except Exception as e:
                error("Invalid entry point: '{0}', {1}"
                      .format(entry_point, exc_to_str(e)))
                return None
            return defi''')]),
    ('m16-import-only', 'C16', [(PU, '''            definition = entry_point.load()
            verify_plugin_definition(definition, kind, base_class)
        except Exception as e:''', '''            definition = entry_point.load()
            verify_plugin_definition(definition, kind, base_class)
        except (ImportError, InvalidPluginError, SyntaxError) as e:''')]),
    # C17
    ('m17-first-wins', 'C17', [(OS, '''                    elif result.name in os.all_names:
                        # found a more specific derivative os; use that instead
                        result = os
''', '''                    elif result.name in os.all_names[:2]:
                        # found a more specific derivative os; use that instead
                        result = os
''')]),
    ('m17-last-wins', 'C17', [(OS, '''                        warning("ignoring detection of OS '{0}'; '{1}' already"
                                " detected".format(os.name, result.name))
''', '''                        warning("ignoring detection of OS '{0}'; '{1}' already"
                                " detected".format(result.name, os.name))
                        result = os
''')]),
    ('m17-unknown-version', 'C17', [(OS, "            if version not in os.known_versions:", "            if os.known_versions and version < os.known_versions[0]:")]),
    ('m17-override-startswith', 'C17', [(OS, "            if name == os.name:\n                return os", "            if name in os.all_names:\n                return os")]),
    ('m17-unsupported', 'C17', [(OS, "        if not result:\n            raise Unsup", "        if not result and len(self.os_plugins) == 1:\n            result = self.os_plugins[0]\n        if not result:\n            raise Unsup")]),
    ('m17-detect-first', 'C17', [(II, '''            self.os_support.override_os(self.config.os_override)
''', '''            try:
                self.os_support.detect_os()
            except Exception:
                pass
            self.os_support.override_os(self.config.os_override)
''')]),
    # C18
    ('m18-direct', 'C18', [(CR, "            write_file_atomically(filepath, to_bytes(dump))", "            with open(filepath, 'wb') as f:\n                f.write(to_bytes(dump))")]),
    ('m18-bak', 'C18', [(CR, "            write_file_atomically(filepath, to_bytes(dump))", "            import shutil\n            shutil.copy(filepath, filepath + '.bak')\n            with open(filepath, 'wb') as f:\n                f.write(to_bytes(dump))\n            os.remove(filepath + '.bak')")]),
    ('m18-merge', 'C18', [(CR, "            rules, OSSupport().get_default_installer_names())", "            {k: v for k, v in rules.items() if v},\n            OSSupport().get_default_installer_names())")]),
    ('m18-status', 'C18,C19', [(CR, '''    except (KeyboardInterrupt, EOFError):
        sys.exit(1)
''', '''    except (KeyboardInterrupt, EOFError):
        sys.exit(0)
''')]),
    # C19
    ('m19-lookup', 'C19', [(CL, '''        info('')
        sys.exit(1)
''', '''        info('')
''')]),
    ('m19-main', 'C19', [(CMAIN, '''    except (KeyboardInterrupt, EOFError):
        info('')
        sys.exit(1)
    sys''', '''    except (KeyboardInterrupt, EOFError):
        info('')
        return
    sys''')]),
    ('m19-xylemerror', 'C19', [(CMAIN, '''        else:
            error(exc_to_str(e, tb=False, chain=True))
        sys.exit(1)
''', '''            sys.exit(1)
        error(exc_to_str(e, tb=False, chain=True))
''')]),
    ('m19-install-int', 'C19', [(INS, "        except OSError as e:\n            errors", "        except (OSError, KeyboardInterrupt) as e:\n            errors")]),
    ('m19-update-finally', 'C19', [(DB, '''            else:
                try:
                    source.save_to_cache()''', '''            finally:
                try:
                    if source.data is not None:
                        source.save_to_cache()''')]),
    # C20
    ('m20-config-mutated', 'C20', [(II, "            core_installer_names = self.config.core_installers\n", "            core_installer_names = self.config.core_installers\n            core_installer_names.sort()\n")]),
    ('m20-keys-mutated', 'C20,C12', [(RS, "        lookup_keys = remove_duplicates(xylem_keys + sorted(database.keys(ic)))", "        xylem_keys.extend(sorted(database.keys(ic)))\n        lookup_keys = remove_duplicates(xylem_keys)")]),
    ('m20-installer-state', 'C20', [(IB, '''        parsed_rule = self._parse_installer_rule(installer_rule)
        # each package gets its own resolution object
        packages = parsed_rule.pop("packages")
''', '''        self.rule = self._parse_installer_rule(installer_rule)
        # each package gets its own resolution object
        packages = self.rule.pop("packages")
        parsed_rule = self.rule
''')]),
    ('m20-memo-lookup', 'C20', [(DB, '''        installer_dict = {}
        # TODO: merge the other way round
''', '''        memo = self.__dict__.setdefault('_memo', {})
        if xylem_key in memo:
            return memo[xylem_key]
        installer_dict = memo[xylem_key] = {}
        # TODO: merge the other way round
''')]),
    ('m20-merge-into-first', 'C20', [(DB, '''        installer_dict = {}
        # TODO: merge the other way round
        # TODO: catch errors down the line and wrap in meaningful LookupError
        for source in reversed(self.sources):
            new_rules = source.lookup(xylem_key, installer_context)
            merge_installer_dict(new_rules, installer_dict, None)
''', '''        installer_dict = None
        # TODO: merge the other way round
        # TODO: catch errors down the line and wrap in meaningful LookupError
        for source in reversed(self.sources):
            new_rules = source.lookup(xylem_key, installer_context)
            if installer_dict is None:
                installer_dict = new_rules
            else:
                for r in new_rules:
                    installer_dict.setdefault(r, {}).update(new_rules[r])
        installer_dict = installer_dict or {}
''')]),
    ('m20-squash', 'C20', [(INS, '''        if previous_installer_name != installer_name:
            squashed.append((installer_name, []))
            previous_installer_name = installer_name
        squashed[-1][1].extend(resolutions)''', '''        if previous_installer_name != installer_name:
            squashed.append((installer_name, resolutions))
            previous_installer_name = installer_name
        else:
            squashed[-1][1].extend(resolutions)''')]),
    # C25
    ('m25-raise-missing', 'C25', [(DB, "        if os.path.exists(path):\n            if is_verbose():", "        if path:\n            if is_verbose():")]),
    ('m25-available-dir', 'C25', [(DB, '''        if os.path.isfile(path):
            return True
        return False''', '''        return os.path.exists(os.path.dirname(path))''')]),
    ('m25-outdated', 'C25', [(DB, '''        if not self.is_cache_available():
            return True
        cache''', '''        if not self.is_cache_available():
            return False
        cache''')]),
    ('m25-truncate', 'C25', [(DB, "            os.remove(path)\n", "            open(path, 'wb').close()\n            os.remove(path)\n")]),
    # C26
    ('m26-load-now', 'C26', [(DB, "        self.time_data_loaded = cache_data['time_data_loaded']", "        self.time_data_loaded = datetime.datetime.now()")]),
    ('m26-origin', 'C26', [(DB, "        self.origin = cache_data['origin']\n", "")]),
    ('m26-one-time', 'C26', [(DB, '''                source.load_from_source()
            except Exception as e:
                # TODO: be more specific about which exceptions to catch here
                if self.raise_on_error:
                    raise
                else:
                    error("Failed to load source '{0}':\\n{1}".
                          format(source.unique_id(), e))
            else:
                try:
''', '''                source.load_from_source()
            except Exception as e:
                # TODO: be more specific about which exceptions to catch here
                if self.raise_on_error:
                    raise
                else:
                    error("Failed to load source '{0}':\\n{1}".
                          format(source.unique_id(), e))
            else:
                self.time = source.time_data_loaded = getattr(
                    self, 'time', source.time_data_loaded)
                try:
''')]),
    ('m26-utc', 'C26', [(DB, "datetime.datetime.now()", "datetime.datetime.utcnow()")]),
    ('m26-version', 'C26', [(DB, '''            __version__,
            self.spec.name,
            self.spec.version,''', '''            __version__,
            self.spec.name,
            __version__,''')]),
]
