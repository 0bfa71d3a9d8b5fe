META = {"property": "C14",
        "needs": "a boolean explicitly set to false in user config or command line over a true in the system config",
        "what_it_breaks": "falsy values do not override those of lower priority"}
EDITS = [("xylem/config_utils.py", """                result[name] = item.type.merge(result[name],
                                               bottom_config[name])
""", """                result[name] = item.type.merge(
                    result[name] or item.type.unset_value(),
                    bottom_config[name])
""")]
# ---
write('etc/etc/xylem/config.yaml', 'user_sources: true\ncore_installers: [pip]\n')
write('home/.config/xylem/config.yaml', 'core_installers: []\n')
p = ['--prefix', os.path.join(SCRATCH, 'etc')]
c = config(*p)
check(c.user_sources is True and c.core_installers == [], c)
c = config(*(p + ['--user-sources', 'no', '--use-additional-installers', 'no']))
check(c.user_sources is False and c.use_additional_installers is False, c)
