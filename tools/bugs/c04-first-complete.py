META = {"property": "C04",
        "needs": "a key for which an earlier source has a rule of one installer and a later source one of another",
        "what_it_breaks": "the rules of the later source are not part of the answer"}
EDITS = [("xylem/sources/database.py", """        for source in reversed(self.sources):
            new_rules = source.lookup(xylem_key, installer_context)
            merge_installer_dict(new_rules, installer_dict, None)
        return installer_dict
""", """        core = set(installer_context.core_installer_names or ())
        relevant = []
        for source in self.sources:
            new_rules = source.lookup(xylem_key, installer_context)
            relevant.append(new_rules)
            if core and core.issubset(new_rules):
                # the others cannot make a difference any more
                break
        for new_rules in reversed(relevant):
            merge_installer_dict(new_rules, installer_dict, None)
        return installer_dict
""")]
# ---
sources(a=[rules('1.yaml', {'a': pkg('one')}), rules('2.yaml', {'a': pkg('two', inst='pip')})])
check(run('update')[0] == 0)
r = run('lookup', 'a')
check('one' in r[1] and 'two' in r[1], r)
