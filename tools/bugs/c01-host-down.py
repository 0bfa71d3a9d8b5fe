META = {"property": "C01",
        "needs": "two sources on the same host, the first of which fails with a time-out or a refused connection",
        "what_it_breaks": "the second source is skipped although it could be fetched"}
EDITS = [("xylem/sources/database.py", """                    error("Failed to load source '{0}':\\n{1}".
                          format(source.unique_id(), e))
            else:
""", """                    error("Failed to load source '{0}':\\n{1}".
                          format(source.unique_id(), e))
                    failed_hosts.add(_host(source))
            else:
"""), ("xylem/sources/database.py", """        # directly after loading, not at the end.
        origins = set()
        for source in self.sources:
""", """        # directly after loading, not at the end.
        origins, failed_hosts = set(), set()
        for source in self.sources:
            if _host(source) in failed_hosts - set(['']):
                error("Skipped source '{0}', because another source of the "
                      "same host failed.".format(source.unique_id()))
                continue
"""), ("xylem/sources/database.py", """class RulesDatabase(object):
""", """def _host(source):
    parts = source.unique_id().split('://', 1)
    return parts[1].split('/')[0] if len(parts) > 1 else ''


class RulesDatabase(object):
""")]
# ---
ok = lambda n: (200, {}, json.dumps({'b': pkg('b')}).encode())
s = Server(gone=lambda n: (404, {}, b''), there=ok)
sources(a=[s.url('gone'), s.url('there')])
r = run('update')
check(len(os.listdir(os.path.join(CACHE, 'sources'))) == 1, r)
