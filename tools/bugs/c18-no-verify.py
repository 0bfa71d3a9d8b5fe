META = {"property": "C18",
        "needs": "a rules file with an invalid key or rule that only verification notices",
        "what_it_breaks": "an invalid rules file is rewritten instead of being left alone and reported"}
EDITS = [("xylem/commands/_compact_rules_file.py", """        rules = expand_rules(rules)
        verify_rules_dict(rules)
""", """        rules = expand_rules(rules)
        if not args.write:
            verify_rules_dict(rules)
""")]
# ---
text = '"bad key!":\n  ubuntu: [x]\na:\n  ubuntu:\n    any_version:\n      apt:\n        packages: [y]\n'
p = write('r/rules.yaml', text)
r = cli('_compact_rules_file', '-w', p)
check(r[0] != 0 and read(p) == text, r, read(p))
