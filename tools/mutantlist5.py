"""A fifth lot of mutants."""
from mutantlist import CF, CI, CL, CMAIN, CR, CRES, CU, DB, IB, II, INS, LU, OS, PIP, PM, PU, RD, RS, SI, UP, UT

MUTANTS = [
    ('q01-host-down', 'C01', [(DB, '''                    error("Failed to load source '{0}':\\n{1}".
                          format(source.unique_id(), e))
            else:
''', '''                    error("Failed to load source '{0}':\\n{1}".
                          format(source.unique_id(), e))
                    self.__dict__.setdefault('_down', set()).add(
                        to_str(source.arguments).split('/')[2:3][0]
                        if '//' in to_str(source.arguments) else None)
            else:
'''), (DB, '''            try:
                source.load_from_source()
            except Exception as e:
                # TODO: be more specific about which exceptions to catch here
                if self.raise_on_error:
                    raise
                else:
                    error("Failed to load source '{0}':\\n{1}".
                          format(source.unique_id(), e))
                    self''', '''            try:
                host = (to_str(source.arguments).split('/') + [0, 0, 0])[2]
                if host and host in self.__dict__.get('_down', ()):
                    raise RuntimeError("host is down")
                source.load_from_source()
            except Exception as e:
                # TODO: be more specific about which exceptions to catch here
                if self.raise_on_error:
                    raise
                else:
                    error("Failed to load source '{0}':\\n{1}".
                          format(source.unique_id(), e))
                    self''')]),
    ('q02-readback', 'C02', [(DB, '''    write_file_atomically(filepath, pickle.dumps(cache_data, protocol=2))
''', '''    write_file_atomically(filepath, pickle.dumps(cache_data, protocol=2))
    try:
        _read_cache(filepath)
    except Exception:
        os.remove(filepath)
        raise
''')]),
    ('q04-no-query', 'C04', [(DB, '''    path = os.path.join(cache_dir, _id_string(unique_id) + ".pickle")
''', '''    path = os.path.join(cache_dir, _id_string(unique_id.split('?')[0]) + ".pickle")
''')]),
    ('q03-lower', 'C25', [(DB, '''    path = os.path.join(cache_dir, _id_string(unique_id) + ".pickle")
''', '''    path = os.path.join(cache_dir, _id_string(unique_id.split('//')[-1].split('?')[0]) + ".pickle")
''')]),
    ('q06-brace', 'C06', [(LU, '''        except (EnvironmentError, HTTPException, ValueError) as e:
            raise_from(DownloadFailure, "Failed to load url '{0}'.".
                       format(url), e)
''', '''        except (EnvironmentError, HTTPException, ValueError) as e:
            raise_from(DownloadFailure, ("Failed to load url '" + url + "': {0}").
                       format(e), e)
''')]),
    ('q06-value', 'C06', [(LU, 'except (EnvironmentError, HTTPException, ValueError) as e',
                           'except (EnvironmentError, HTTPException) as e')]),
    ('q13-late-general', 'C13', [(INS, '''    #  3. check general prerequisites for all installers
    check_general_prerequisites(_installer_names(resolved),
                                installer_context,
                                fix_unsatisfied=fix_prerequisites,
                                interactive=interactive)

''', ''), (INS, '''    #  5. check prereq''', '''    check_general_prerequisites(_installer_names(resolved),
                                installer_context,
                                fix_unsatisfied=fix_prerequisites,
                                interactive=interactive)
    #  5. check prereq''')]),
    ('q20-temp-swap', 'C20', [(RS, '''            installer = None
            for inst in ic.core_installers:
''', '''            installer = None
            saved = ic.core_installers
            ic.core_installers = [i for i in saved if i.name in installer_dict]
            core, ic.core_installers = ic.core_installers, saved
            for inst in core:
''')]),
    ('q20-options-state', 'C20', [(II, '        self.get_os().options = self.config.os_options\n',
                                   '''        self.get_os().options = self.config.os_options
        type(self.get_os()).last_options = self.config.os_options
''')]),
    ('q12-status-per-key', 'C12', [(RS, '''            if k in install_from_map:
                error''', '''            if k not in lookup_keys:
                raise ResolutionError("key '%s' not requested" % k)
            if k in install_from_map:
                error''')]),
    ('q12-unloaded-skips', 'C12', [(RS, '''            if not ic.lookup_installer(inst_name):
                errors''', '''            if not ic.lookup_installer(inst_name):
                ic.additional_installers = []
                errors''')]),
    ('q16-bad-reserves', 'C16', [(PU, '''            obj_name = plugin_obj.name
            plugin_class.verify_plugin(plugin_obj)
''', '''            obj_name = plugin_obj.name
            if obj_name not in name_set:
                name_set.add(obj_name + '\\0')
            plugin_class.verify_plugin(plugin_obj)
'''), (PU, '''        if obj_name in name_set:
''', '''        if obj_name in name_set or len([n for n in name_set if n.lower() == obj_name.lower() + '\\0']) > 1:
''')]),
    ('q19-compact-int', 'C19', [(UT, '''        _remove_ignoring_errors(tmp_path)
        raise
''', '''        _remove_ignoring_errors(tmp_path)
        if isinstance(sys.exc_info()[1], KeyboardInterrupt) and os.path.exists(path):
            sys.exit(0)
        raise
''')]),
    ('q10-sim-state', 'C10', [(INS, '''        if exitcode != 0:
            errors''', '''        if exitcode < 0:
            continue
        if exitcode != 0:
            errors''')]),
    ('q09-negative', 'C09', [(INS, '''        if exitcode != 0:
            errors''', '''        if exitcode > 0:
            errors''')]),
    ('q26-cached-origin', 'C26', [(DB, '''        self.origin = cache_data['origin']
''', '''        self.origin = cache_data['origin'] or self.origin
        self.time_data_loaded = self.time_data_loaded or None
'''), (DB, '''        self.time_data_loaded = cache_data['time_data_loaded']
''', '''        self.time_data_loaded = max(
            cache_data['time_data_loaded'], self.time_data_loaded or cache_data['time_data_loaded'])
''')]),
    ('q27-keep-broken', 'C27', [(UT, '''        _remove_ignoring_errors(tmp_path)
        raise
''', '''        if os.path.getsize(tmp_path):
            _remove_ignoring_errors(tmp_path)
        raise
''')]),
    ('q11-fix-dry-update', 'C11', [(UP, '''    if not dry_run:
        sources_context.ensure_cache_dir()
''', '''    if not dry_run or not sources_context.sources_dir_exists():
        sources_context.ensure_cache_dir()
''')]),
    ('q17-options-detect', 'C17', [(OS, '''            if version not in os.known_versions:
''', '''            if version not in [v.strip() for v in os.known_versions] or (
                    os.is_os() and False):
''')]),
]
