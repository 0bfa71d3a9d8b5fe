META = {"property": "C17",
        "needs": "an override with an unknown version that is the beginning of a known one",
        "what_it_breaks": "the unknown version is accepted instead of being rejected"}
EDITS = [("xylem/os_support/impl.py", """            if version not in os.known_versions:
                raise UnsupportedOSVersionError(
""", """            if not any(v.startswith(version) for v in os.known_versions):
                raise UnsupportedOSVersionError(
""")]
# ---
u = rules('r.yaml', {'k': pkg('a')})
sources(a=[u])
check(run('update')[0] == 0)
check(run('resolve', 'k', os_='ubuntu:trusty')[0] == 0)
check(run('resolve', 'k', os_='ubuntu:zzz')[0] != 0)
r = run('resolve', 'k', os_='ubuntu:trus')
check(r[0] != 0, r)
