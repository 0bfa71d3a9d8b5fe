META = {"property": "C11",
        "needs": "compacting a rules file without --write",
        "what_it_breaks": "a file is created although nothing is to be written"}
EDITS = [("xylem/commands/_compact_rules_file.py", """        rules = expand_rules(rules)
        verify_rules_dict(rules)
""", """        try:
            rules = expand_rules(rules)
            verify_rules_dict(rules)
        except Exception as e:
            # a report beside the file to help fixing it
            with open(filepath + '.errors', 'w') as f:
                f.write(to_str(e))
            raise
""")]
# ---
text = '"bad key!":\n  ubuntu: [x]\n'
p = write('r/rules.yaml', text)
r = cli('_compact_rules_file', p)
check(r[0] != 0 and os.listdir(os.path.dirname(p)) == ['rules.yaml'], r)
