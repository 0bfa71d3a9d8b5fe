META = {"property": "C05",
        "needs": "two sources in the same file that define the same installer rule for a key",
        "what_it_breaks": "within one file the later source overrides the earlier one"}
EDITS = [("xylem/sources/database.py", """        for source in reversed(self.sources):
            new_rules""", """        for source in sorted(self.sources, reverse=True,
                             key=lambda s: s.origin)[::1]:
            new_rules""")]
# ---
one = rules('1.yaml', {'k': pkg('first')})
two = rules('2.yaml', {'k': pkg('second')})
three = rules('3.yaml', {'k': pkg('third')})
sources(a=[one], b=[two, three])
check(run('update')[0] == 0)
r = run('resolve', 'k')
check('first' in r[1], r)
os.remove(os.path.join(SOURCES, 'a.yaml'))
os.rename(os.path.join(SOURCES, 'b.yaml'), os.path.join(SOURCES, 'c.yaml'))
sources(c=[one, two, three])
check(run('update')[0] == 0)
r = run('resolve', 'k')
check('first' in r[1], r)
