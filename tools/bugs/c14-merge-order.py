META = {"property": "C14",
        "needs": "the same installer in the installer_options (or install_from) of user and system config",
        "what_it_breaks": "entries of merged dictionaries with the same key are taken from the lower priority config"}
EDITS = [("xylem/config_utils.py", """        result = bottom.copy()
        result.update(top)
        return result
""", """        result = top.copy()
        result.update(bottom)
        return result
""")]
# ---
write('etc/etc/xylem/config.yaml', 'install_from: {pip: [sys], apt: [s2]}\n')
write('home/.config/xylem/config.yaml', 'install_from: {pip: [user]}\n')
c = config('--prefix', os.path.join(SCRATCH, 'etc'))
check(c.install_from == {'pip': ['user'], 'apt': ['s2']}, c.install_from)
c = config('--prefix', os.path.join(SCRATCH, 'etc'), '--install-from', 'apt: [x]')
check(c.install_from == {'pip': ['user'], 'apt': ['x']}, c.install_from)
