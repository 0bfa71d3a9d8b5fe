META = {"property": "C18",
        "needs": "a failing write or a kill while compacting a file in place",
        "what_it_breaks": "the original is moved away before the compacted file is there, and missing if storing it fails"}
EDITS = [("xylem/commands/_compact_rules_file.py", """        dump = dump_yaml(compacted)
""", """        dump = dump_yaml(compacted) + ''
        if args.write and os.path.exists(filepath + '.bak'):
            os.remove(filepath + '.bak')
"""), ("xylem/commands/_compact_rules_file.py", """        rules = expand_rules(rules)
        verify_rules_dict(rules)
""", """        rules = expand_rules(rules)
        verify_rules_dict(rules)
        backup = filepath + '.bak' if args.write else filepath
        os.rename(filepath, backup)
""")]
# ---
p = write('r/rules.yaml', 'a:\n  ubuntu: [x]\n')
orig = read(p)
pre = ("import os, errno\n"
       "def full(fd):\n"
       "    raise OSError(errno.ENOSPC, 'No space left on device')\n"
       "os.fsync = full\n")
pre += "import resource; resource.setrlimit(resource.RLIMIT_FSIZE, (3, 3))\n"
pre += "import signal; signal.signal(signal.SIGXFSZ, signal.SIG_IGN)\n"
r = cli('_compact_rules_file', '-w', p, pre=pre)
check(r[0] != 0, r)
check(os.path.exists(p) and read(p) == orig, 'original lost', r)
check(cli('_compact_rules_file', '-w', p)[0] == 0 and os.path.exists(p))
