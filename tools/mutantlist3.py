"""A third lot of mutants."""
from mutantlist import CF, CI, CL, CMAIN, CR, CRES, CU, DB, IB, II, INS, LU, OS, PIP, PM, PU, RD, RS, SI, UP, UT

CINS = 'xylem/commands/install.py'
CLOOK = 'xylem/commands/lookup.py'
SPEC = 'xylem/specs/plugins/rules.py'
CU_ = 'xylem/config_utils.py'
CONF = 'xylem/config.py'

LOADERR = '''                    error("Failed to load source '{0}':\\n{1}".
                          format(source.unique_id(), e))
            else:
'''

MUTANTS = [
    ('o01-ascii', 'C01', [(DB, LOADERR, '''                    error("Failed to load source '{0}':\\n{1}".
                          format(source.unique_id(),
                                 str(e).encode('ascii').decode('ascii')))
            else:
''')]),
    ('o01-error-once', 'C01', [(DB, LOADERR, '''                    seen = self.__dict__.setdefault('_seen', set())
                    if type(e.__cause__) not in seen:
                        seen.add(type(e.__cause__))
                        error("Failed to load source '{0}':\\n{1}".
                              format(source.unique_id(), e))
            else:
''')]),
    ('o01-skip-up-to-date', 'C01', [(DB, '''        data = self.spec.load_data(self.arguments)
        self.spec.verify_data(data, self.arguments)
''', '''        data = self.spec.load_data(self.arguments)
        self.spec.verify_data(data, self.arguments)
        if not data and self.data:
            return
''')]),
    ('o03-tmp-time', 'C03', [(UT, '''format(path, uuid.uuid4().hex)''',
                              '''format(path, uuid.uuid4().hex[:1])''')]),
    ('o04-first-source', 'C04', [(DB, '''        for source in reversed(self.sources):
            new_rules = source.lookup(xylem_key, installer_context)
            merge_installer_dict(new_rules, installer_dict, None)
''', '''        for source in self.sources:
            new_rules = source.lookup(xylem_key, installer_context)
            if new_rules:
                merge_installer_dict(new_rules, installer_dict, None)
                break
''')]),
    ('o05-symlink', 'C05', [(SI, '''        if not os.path.isfile(file_path):
            continue
''', '''        if not os.path.isfile(file_path) or os.path.islink(file_path):
            continue
''')]),
    ('o05-stop-after-broken', 'C05', [(SI, '''        descriptions = []
    return (file_path''', '''        descriptions = [d for d in descriptions if d] if 'descriptions' in locals() else []
    return (file_path'''), (SI, '''        yield parse_source_file(file_path)
''', '''        result = parse_source_file(file_path)
        if result[1]:
            yield result
        elif file_path != files[0]:
            return
''')]),
    ('o06-int-sleep', 'C06', [(LU, '''        except URLError as e:
            if isinstance(e.reason, socket.timeout) and retry:
                retry -= 1
                time.sleep(retry_period)
''', '''        except URLError as e:
            if isinstance(e.reason, socket.timeout) and retry:
                retry -= 1
                time.sleep(int(retry_period))
''')]),
    ('o06-charset-split', 'C06', [(LU, '''    encoding = params.get('charset', 'utf-8')
''', '''    encoding = req.headers.get('Content-Type', '').partition('charset=')[2] or 'utf-8'
''')]),
    ('o06-incomplete-retry', 'C06', [(LU, '''        except (EnvironmentError, HTTPException, ValueError) as e:
            raise_from''', '''        except (EnvironmentError, HTTPException, ValueError) as e:
            if isinstance(e, ConnectionResetError) and retry:
                retry -= 1
                continue
            raise_from''')]),
    ('o07-trusted-version', 'C07', [(DB, '''        self.spec.verify_data(cache_data['data'], self.arguments)
        self.arguments = cache_data''', '''        if cache_data['xylem_version'] != __version__:
            self.spec.verify_data(cache_data['data'], self.arguments)
        self.arguments = cache_data''')]),
    ('o07-none-data', 'C07', [(DB, '''        self.data = cache_data['data']
        self.time_data''', '''        self.data = cache_data['data'] or {}
        self.time_data'''), (DB, '''        self.spec.verify_data(cache_data['data'], self.arguments)
        self.arguments = cache_data''', '''        self.spec.verify_data(cache_data['data'] or {}, self.arguments)
        self.arguments = cache_data''')]),
    ('o08-break', 'C08', [(INS, '''                format(' '.join(cmd), installer, exitcode)))
            if not continue_on_error:
                return errors
''', '''                format(' '.join(cmd), installer, exitcode)))
            if not continue_on_error:
                return errors
            break
''')]),
    ('o08-elevate-first', 'C08', [(IB, '''            return [elevate_privileges(cmd) for cmd in commands]
''', '''            return [elevate_privileges(commands[0])] + commands[1:] if commands else commands
''')]),
    ('o08-negative', 'C08', [(INS, '''        if exitcode != 0:
''', '''        if exitcode != 0 and exitcode != -2:
''')]),
    ('o09-verified-once', 'C09', [(INS, '''    for item in resolutions:
        try:
            if not installer.is_installed(item):
''', '''    checked = set()
    for item in resolutions:
        if item.package.lower() in checked:
            continue
        checked.add(item.package.lower())
        try:
            if not installer.is_installed(item):
''')]),
    ('o09-verify-list', 'C09', [(INS, '''            if not installer.is_installed(item):
                errors''', '''            if not any(installer.is_installed(i) for i in [item, resolutions]):
                errors''')]),
    ('o09-verify-error-swallowed', 'C09', [(INS, '''            errors.append(chain_exception(
                InstallError, "installer '{}' failed to determine if `{}` "
                "was successfully installed or not".
                format(installer_name, item), e))
''', '''            info_v("installer '{}' failed to determine if `{}` was installed".
                   format(installer_name, item))
''')]),
    ('o10-filter-error', 'C10', [(INS, '''    uninstalled = []
    for installer_name, resolutions in resolved:
''', '''    uninstalled = []
    seen = {}
    for installer_name, resolutions in resolved:
        if seen.get(installer_name):
            uninstalled.append((installer_name, resolutions))
            continue
        seen[installer_name] = len(resolutions) > 1
''')]),
    ('o12-demanded-active', 'C12', [(RS, '''            if not ic.lookup_installer(inst_name):
''', '''            if inst_name not in ic.installer_names:
''')]),
    ('o12-all-only', 'C12', [(RS, '''remove_duplicates(xylem_keys + sorted(database.keys(ic)))''',
                              '''sorted(set(xylem_keys) | set(database.keys(ic)))''')]),
    ('o12-known-keys', 'C12', [(RS, '''    result = []
    errors = []
''', '''    known = set(database.keys(ic))
    result = []
    errors = [(k, ResolutionError("unknown key '{}'".format(k)))
              for k in lookup_keys if k not in known] if len(lookup_keys) > 3 else []
''')]),
    ('o13-eacces', 'C13', [(UT, '''        return True
    except OSError:
        return False
''', '''        return True
    except OSError as e:
        return e.errno == 13
''')]),
    ('o13-recheck', 'C13', [(PM, '''                self.install_package_manager(os_tuple, interactive)
                if self.is_package_manager_installed():
                    return
''', '''                self.install_package_manager(os_tuple, interactive)
                if interactive or self.is_package_manager_installed():
                    return
''')]),
    ('o14-isfile', 'C14', [(CU_, '''    except EnvironmentError''', '''    except IsADirectoryError:
        return {}
    except EnvironmentError''')]),
    ('o14-empty-cli-dict', 'C14', [(CU_, '''            result.update(d)
        return self.from_yaml(result)
''', '''            result.update(d)
        return self.from_yaml(result or None)
''')]),
    ('o15-relative', 'C15', [(CONF, '''            config.cache_dir = user_cache_dir(args.config_dir)
''', '''            config.cache_dir = user_cache_dir(
                args.config_dir if args.config_dir.startswith(('/', '~'))
                else user_config_dir(XYLEM_TOOL_NAME))
''')]),
    ('o15-user-false', 'C15', [(CONF, '''    if config.sources_dir is None:
        if args.config_dir:
            config.sources_dir = sources_dir(args.config_dir)
        else:
            if config.user_sources:
''', '''    if config.sources_dir is None:
        if args.config_dir:
            config.sources_dir = sources_dir(args.config_dir)
        else:
            if config.user_sources and args.prefix == '/':
''')]),
    ('o17-alias', 'C17', [(OS, '''            if name == os.name:
''', '''            if name in os.all_names:
''')]),
    ('o17-empty-version', 'C17', [(OS, '''        if version is None:
            self.version''', '''        if not version:
            self.version''')]),
    ('o17-nonempty-plugins', 'C17', [(OS, '''        if not result:
            raise Unsupp''', '''        if not result and len(self.os_plugins) == 1:
            result = self.os_plugins[0]
        if not result:
            raise Unsupp''')]),
    ('o18-drop-empty', 'C18', [(SPEC, '''        if len(rule) == 0:
            pass
''', '''        if len(rule) == 0:
            rule = None
'''), (SPEC, '''        result[installer_name] = compact_installer_rule(rule)
''', '''        rule = compact_installer_rule(rule)
        if rule is not None:
            result[installer_name] = rule
''')]),
    ('o18-single', 'C18', [(SPEC, '''        elif len(rule) == 1:
            pass
''', '''        elif len(rule) == 1:
            rule = rule[0]
''')]),
    ('o18-any-version', 'C18', [(SPEC, '''            if not (has_any_version and
                    installer_dict == any_version_installer_dict):
''', '''            if not (has_any_version and len(version_dict) > 2 and
                    len(installer_dict) == len(any_version_installer_dict)):
''')]),
    ('o19-lookup-zero', 'C19', [(CMAIN, '''        sys.exit(1)
    except (KeyboardInterrupt, EOFError):
        info('')
        sys.exit(1)
    sys''', '''        sys.exit(1)
    except KeyboardInterrupt:
        info('')
        raise
    except EOFError:
        info('')
        sys.exit(0)
    sys''')]),
    ('o19-int-after-install', 'C19', [(INS, '''        info_v(fmt("@!command return code: %s@|" % exitcode))
''', '''        except KeyboardInterrupt:
            exitcode = 130
        info_v(fmt("@!command return code: %s@|" % exitcode))
''')]),
    ('o20-options-pop', 'C20', [(IB, '''        unused_keys = set(value.keys()) - set(self._options.keys())
''', '''        unused_keys = set(value.keys()) - set(self._options.keys())
        for k in unused_keys:
            value.pop(k)
''')]),
    ('o20-core-extend', 'C20', [(II, '''        self.core_installers = []
        self.additional_installers = []

        #  1.''', '''        self.core_installers = []
        self.additional_installers = []
        if self.config.core_installers is not None and os.name in self.config.install_from:
            self.config.core_installers.append(os.name)

        #  1.''')]),
    ('o20-features', 'C20', [(CONF, '''        if features is not None:
            config.os_options.features = features
''', '''        if features is not None:
            config.os_options.features.extend(features)
''')]),
    ('o25-lexists', 'C25', [(DB, '''        if os.path.exists(path):
            if is_verbose''', '''        if os.path.exists(path) and os.path.getsize(path):
            if is_verbose''')]),
    ('o25-old', 'C25', [(DB, '''        return self.spec.is_data_outdated(cache_data['data'], self.arguments,
                                          cache_data['time_data_loaded'])
''', '''        try:
            return self.spec.is_data_outdated(
                cache_data['data'], self.arguments,
                cache_data['time_data_loaded'])
        finally:
            if cache_data['spec_version'] != self.spec.version:
                self.clear_cache()
''')]),
    ('o26-unchanged-time', 'C26', [(DB, '''        self.data = data
        self.time_data_loaded = datetime.datetime.now()
''', '''        if data != self.data:
            self.time_data_loaded = datetime.datetime.now()
        self.data = data
''')]),
    ('o26-monotonic', 'C26', [(DB, '''        self.data = data
        self.time_data_loaded = datetime.datetime.now()
''', '''        self.data = data
        now = datetime.datetime.now()
        if self.time_data_loaded is not None:
            now = max(now, self.time_data_loaded)
        self.time_data_loaded = now
''')]),
    ('o27-rename-error', 'C27', [(UT, '''    except BaseException:
        # the''', '''    except (EnvironmentError, KeyboardInterrupt) as e:
        if getattr(e, 'errno', None) == 28:
            raise
        # the''')]),
]
