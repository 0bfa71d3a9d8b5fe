META = {"property": "C15",
        "needs": "both the option and the environment variable for the directory",
        "what_it_breaks": "the environment variable wins over the option"}
EDITS = [("xylem/config_utils.py", """    if args.config_dir is None:
        args.config_dir = os.environ.get(config_dir_env_var, None)
""", """    args.config_dir = os.environ.get(config_dir_env_var, args.config_dir)
""")]
# ---
u = rules('r.yaml', {'a': pkg('a')})
sources(a=[u])
other = os.path.join(SCRATCH, 'other')
os.makedirs(os.path.join(other, 'sources.d'))
r = run('update', env={'XYLEM_DIR': other})
check(r[0] == 0, r)
check(os.listdir(other) == ['sources.d'], os.listdir(other))
check(len(os.listdir(os.path.join(CACHE, 'sources'))) == 1)
