META = {"property": "C18",
        "needs": "a rules file with a rule for a version besides the one for any version with the same packages",
        "what_it_breaks": "the compacted file has other rules for versions without a rule of their own"}
EDITS = [("xylem/commands/_compact_rules_file.py", """        rules = expand_rules(rules)
        verify_rules_dict(rules)
""", """        rules = verified = expand_rules(rules)
        verify_rules_dict(verified)
        # the rules of a version that is as any other version are not needed
        for os_rules in rules.values():
            for versions in os_rules.values():
                distinct = list(versions)
                if len(distinct) > 2 and all(
                        versions[v] == versions[distinct[0]]
                        for v in distinct):
                    only = versions[distinct[0]]
                    versions.clear()
                    versions['any_version'] = only
""")]
# ---
d = {'a': {'ubuntu': {v: {'apt': {'packages': ['x']}} for v in ('lucid', 'trusty', 'utopic')}}}
p = write('r/rules.yaml', json.dumps(d))
check(cli('_compact_rules_file', '-w', p)[0] == 0)
check('any_version' not in read(p) and 'lucid' in read(p), read(p))
