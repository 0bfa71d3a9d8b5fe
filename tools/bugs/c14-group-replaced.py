META = {"property": "C14",
        "needs": "a group set in the user's config file and another entry of the group in the system's",
        "what_it_breaks": "entries of a group set only in the config file of lower priority are lost"}
EDITS = [("xylem/config_utils.py", """                result[group][subname] = item.type.merge(
                    result[group][subname],
                    bottom_config[group][subname])
""", """                if top_config_of(group) in (None, bottom_config):
                    result[group][subname] = item.type.merge(
                        result[group][subname],
                        bottom_config[group][subname])
"""), ("xylem/config_utils.py", """    result = copy_conifg_dict(description, top)
    for bottom_config in more_configs:
""", """    result = copy_conifg_dict(description, top)

    def top_config_of(group):
        # groups are not split over several config files
        for c in more_configs[:-1]:
            if any(v is not None for v in c[group].values()):
                return None if bottom_config is more_configs[-1] else c

    for bottom_config in more_configs:
""")]
# ---
write('home/.config/xylem/config.yaml', 'disabled_plugins: {os: [debian]}\n')
write('prefix/etc/xylem/config.yaml', 'disabled_plugins: {installer: [pip]}\n')
pre = os.path.join(SCRATCH, 'prefix')
c = config('--prefix', pre)
check(c.disabled_plugins.installer == ['pip'], c.disabled_plugins)
check(c.disabled_plugins.os == ['debian'], c.disabled_plugins)
c = config('--prefix', pre, '--disable-os-plugins', '[osx]')
check(c.disabled_plugins.installer == ['pip'], c.disabled_plugins)
check(c.disabled_plugins.os == ['osx'], c.disabled_plugins)
