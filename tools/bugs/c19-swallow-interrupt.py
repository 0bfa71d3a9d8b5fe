META = {"property": "C19",
        "needs": "Ctrl-C while a source is being loaded during an update",
        "what_it_breaks": "an interrupt only skips the current source; the update carries on and exits with status 0"}
EDITS = [("xylem/sources/database.py", """            try:
                source.load_from_source()
            except Exception as e:
                # TODO: be more specific about which exceptions to catch here
                if self.raise_on_error:
                    raise
                else:
                    error("Failed to load source '{0}':\\n{1}".
                          format(source.unique_id(), e))
            else:
""", """            try:
                source.load_from_source()
            except BaseException as e:
                # TODO: be more specific about which exceptions to catch here
                if self.raise_on_error:
                    raise
                else:
                    error("Failed to load source '{0}':\\n{1}".
                          format(source.unique_id(), e))
            else:
""")]
# ---
go = threading.Event()
end = threading.Event()


def slow(n):
    go.set()
    end.wait(60)
    return 200, {}, b'{}'


s = Server(slow=slow, other=lambda n: (200, {}, b'{}'))
sources(a=[s.url('slow'), s.url('other')])
p = popen(*(base() + ['update']))
check(go.wait(60))
p.send_signal(signal.SIGINT)
time.sleep(1)
end.set()
out, err = p.communicate(timeout=60)
check(p.returncode != 0, p.returncode, out, err)
check('other' not in s.count, s.count)
