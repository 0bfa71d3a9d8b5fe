META = {"property": "C09",
        "needs": "several packages that a package manager claims to have installed without doing so",
        "what_it_breaks": "only the last one of them is named in the errors"}
EDITS = [("xylem/install.py", """                errors.append(InstallError(
                    "failed to detect successful installation of '{}' "
                    "resolution `{}`".format(installer_name, item)))
""", """                errors = [InstallError(
                    "failed to detect successful installation of '{}' "
                    "resolution `{}`".format(installer_name, item))]
""")]
# ---
pip_stub(install='exit 0')
u = rules('r.yaml', {'k': pkg('first', 'second', inst='pip')})
sources(a=[u])
check(run('update')[0] == 0)
r = run('install', 'k', extra=['--installer-options', '{pip: {as_root: no}}'])
check(r[0] != 0, r)
text = ' '.join((r[1] + r[2]).split())
for p in ('first', 'second'):
    check('resolution `%s`' % p in text, p, r)
