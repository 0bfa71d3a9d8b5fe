META = {"property": "C15",
        "needs": "user_sources set in the config of a --xylem-dir",
        "what_it_breaks": "the sources are read from the user's directory instead of the selected one"}
EDITS = [("xylem/config.py", """    if config.sources_dir is None:
        if args.config_dir:
            config""", """    if config.sources_dir is None:
        if args.config_dir and not config.user_sources:
            config""")]
# ---
write('conf/config.yaml', 'user_sources: true\n')
c = config('--xylem-dir', CONF)
check(c.sources_dir == SOURCES, c.sources_dir)
check(c.cache_dir == CACHE, c.cache_dir)
