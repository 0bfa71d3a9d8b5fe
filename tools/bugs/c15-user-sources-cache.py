META = {"property": "C15",
        "needs": "user_sources set in the config of a --xylem-dir",
        "what_it_breaks": "the cache of a local configuration directory is placed in the user's directory"}
EDITS = [("xylem/config.py", """    if config.cache_dir is None:
        if args.config_dir:
            config""", """    if config.cache_dir is None:
        if args.config_dir and not config.user_sources:
            config""")]
# ---
write('conf/config.yaml', 'user_sources: true\n')
c = config('--xylem-dir', CONF)
check(c.cache_dir == CACHE, c.cache_dir)
check(c.sources_dir == SOURCES, c.sources_dir)
