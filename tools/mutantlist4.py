"""A fourth lot of mutants."""
from mutantlist import CF, CI, CL, CMAIN, CR, CRES, CU, DB, IB, II, INS, LU, OS, PIP, PM, PU, RD, RS, SI, UP, UT

LOADERR = '''                    error("Failed to load source '{0}':\\n{1}".
                          format(source.unique_id(), e))
            else:
'''
CALL = '            exitcode = subprocess.call(cmd)\n        except OSError as e:\n'

MUTANTS = [
    ('p01-brace', 'C01', [(DB, LOADERR, '''                    error(("Failed to load source '{0}':\\n%s" % e).
                          format(source.unique_id()))
            else:
''')]),
    ('p01-budget', 'C01', [(DB, '''            try:
                source.load_from_source()
            except Exception as e:
                # TODO: be more specific about which exceptions to catch here
                if self.raise_on_error:
                    raise
                else:
                    error("Failed to load source '{0}':\\n{1}".
                          format(source.unique_id(), e))
            else:
''', '''            try:
                now = datetime.datetime.now()
                start = self.__dict__.setdefault('_start', now)
                if (now - start).total_seconds() > 45:
                    raise RuntimeError("update takes too long")
                source.load_from_source()
            except Exception as e:
                # TODO: be more specific about which exceptions to catch here
                if self.raise_on_error:
                    raise
                else:
                    error("Failed to load source '{0}':\\n{1}".
                          format(source.unique_id(), e))
            else:
''')]),
    ('p04-reload', 'C04', [(DB, '''    def load_from_cache(self):
        cache_data = ''', '''    def load_from_cache(self):
        if self.data:
            return
        cache_data = ''')]),
    ('p04-lower', 'C04', [(RD, 'os_dict = rules_dict.get(xylem_key, {})',
                           'os_dict = rules_dict.get(xylem_key) or rules_dict.get(xylem_key.lower(), {})')]),
    ('p05-by-spec', 'C05', [(DB, '        self.verify_unique_ids()\n\n', '''        self.sources.sort(key=lambda s: (s.origin, s.spec.name))
        self.verify_unique_ids()

''')]),
    ('p07-online', 'C07', [(DB, '''                source.load_from_cache()
            except Exception as e:
''', '''                try:
                    source.load_from_cache()
                except EOFError:
                    source.load_from_source()
            except Exception as e:
''')]),
    ('p08-shell', 'C08', [(INS, CALL, CALL.replace('(cmd)', "(' '.join(cmd), shell=True)"))]),
    ('p08-split', 'C08', [(INS, CALL, CALL.replace('(cmd)', "(' '.join(cmd).split())"))]),
    ('p08-noninteractive', 'C08', [(INS, '''failed with return code {}".
                format(' '.join(cmd), installer, exitcode)))
            if not continue_on_error:
''', '''failed with return code {}".
                format(' '.join(cmd), installer, exitcode)))
            if not continue_on_error and interactive:
''')]),
    ('p09-reinstall', 'C09', [(INS, 'if not installer.is_installed(item):',
                               'if not reinstall and not installer.is_installed(item):')]),
    ('p10-interactive', 'C10', [(INS, '    if not reinstall:\n        resolved, uni',
                                 '    if not reinstall and interactive:\n        resolved, uni')]),
    ('p10-none-installed', 'C10', [(IB, '        return not self.filter_uninstalled(resolved)',
                                    '        return len(self.filter_uninstalled(resolved)) < len(resolved)')]),
    ('p11-sudo', 'C11', [(INS, "            info('  ' + ' '.join(cmd))",
                          "            info('  ' + ' '.join(c for c in cmd if c != 'sudo'))")]),
    ('p13-map', 'C13', [(INS, '        result[installer_name].extend(resolutions)',
                         '        result[installer_name] = resolutions')]),
    ('p13-noninteractive', 'C13', [(INS, '''    check_install_prerequisites(_map_resolutions(resolved),
                                installer_context,
                                fix_unsatisfied=fix_prerequisites,
''', '''    check_install_prerequisites(_map_resolutions(resolved),
                                installer_context,
                                fix_unsatisfied=fix_prerequisites or not interactive,
''')]),
    ('p13-continue', 'C13', [(PM, '''        raise InstallerPrerequisiteError("Package manager '{}' not installed".
                                         format(self.name))
''', '''        if fix_unsatisfied and not interactive:
            return
        raise InstallerPrerequisiteError("Package manager '{}' not installed".
                                         format(self.name))
''')]),
    ('p16-lower', 'C16', [(PU, '        if obj_name in name_set:', '        if obj_name.lower() in name_set:'),
                          (PU, 'name_set.add(obj_name)', 'name_set.add(obj_name.lower())')]),
    ('p17-feature', 'C17', [('xylem/config.py', "config.os_override = (name, version)",
                             "config.os_override = (name, version or None)")]),
    ('p17-space', 'C17', [(OS, 'if version not in os.known_versions:',
                           'if version.lower() not in os.known_versions:')]),
    ('p19-int-command', 'C19', [(INS, CALL, CALL.replace('except OSError', 'except (OSError, KeyboardInterrupt)'))]),
    ('p20-tuple-memo', 'C20', [(II, '        return self.get_os().get_tuple()', '''        cls = type(self)
        if not hasattr(cls, '_tuple'):
            cls._tuple = self.get_os().get_tuple()
        return cls._tuple''')]),
    ('p26-origin-kept', 'C26', [(DB, "        self.origin = cache_data['origin']",
                                 "        self.origin = self.origin or cache_data['origin']")]),
    ('p26-args-stripped', 'C26', [(DB, '''            self.arguments,
            self.origin,
            self.data,
            self.time''', '''            self.arguments.strip('/') if hasattr(self.arguments, 'strip') else self.arguments,
            self.origin,
            self.data,
            self.time''')]),
    ('p26-seconds', 'C26', [(DB, '        self.time_data_loaded = datetime.datetime.now()',
                             '        self.time_data_loaded = datetime.datetime.now().replace(microsecond=0)')]),
    ('p26-minutes', 'C26', [(DB, '        self.time_data_loaded = datetime.datetime.now()',
                             '''        now = datetime.datetime.now()
        last = self.__dict__.get('_last')
        if last is not None and abs((now - last).total_seconds()) < 0.5:
            now = last
        self._last = now
        self.time_data_loaded = now''')]),
]
