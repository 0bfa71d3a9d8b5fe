META = {"property": "C11",
        "needs": "update --dry-run without a sources directory",
        "what_it_breaks": "the dry run creates the cache directory"}
EDITS = [("xylem/sources/impl.py", """    if os.path.exists(sources_dir):
            if is_verbose():
""", """    if not os.path.exists(sources_dir) and \\
            os.access(os.path.dirname(sources_dir), os.W_OK):
        # so that users find where to put their own
        os.mkdir(sources_dir)
        os.rmdir(sources_dir)
    if os.path.isdir(sources_dir):
            if is_verbose():
""")]
# ---
os.rmdir(SOURCES)
t = os.stat(CONF).st_mtime_ns
time.sleep(0.05)
r = run('update', '--dry-run')
check(os.stat(CONF).st_mtime_ns == t, r)
