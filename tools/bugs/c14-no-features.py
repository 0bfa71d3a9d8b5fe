META = {"property": "C14",
        "needs": "features in a config file, and an --os option with an empty list of features",
        "what_it_breaks": "the empty list of the command line does not override the configured one"}
EDITS = [("xylem/config.py", """        if features is not None:
            config""", """        if features:
            config""")]
# ---
write('conf/config.yaml', 'os_options: {features: [a, b]}\n')
c = config('--xylem-dir', CONF, '--os', 'ubuntu:trusty')
check(c.os_options.features == ['a', 'b'], c)
c = config('--xylem-dir', CONF, '--os', 'ubuntu:trusty&x')
check(c.os_options.features == ['x'], c)
c = config('--xylem-dir', CONF, '--os', 'ubuntu:trusty&')
check(c.os_options.features == [], c)
