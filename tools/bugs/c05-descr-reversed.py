META = {"property": "C05",
        "needs": "a source file listing three or more sources, of which the later ones compete for a key",
        "what_it_breaks": "the sources after the first one of a file are considered in reverse order"}
EDITS = [("xylem/sources/database.py", """                spec = self.sources_context.get_spec(spec_name)
                self.sources.append(RulesSource(
                    spec,
                    arguments,
                    source_file,
                    self.sources_context))
""", """                spec = self.sources_context.get_spec(spec_name)
                # keep the sources of one file together
                position = [s.origin for s in self.sources].index(
                    source_file) + 1 if source_file in [
                        s.origin for s in self.sources] else len(self.sources)
                self.sources.insert(position, RulesSource(
                    spec,
                    arguments,
                    source_file,
                    self.sources_context))
""")]
# ---
u = [rules('%d.yaml' % i, {'k': pkg('p%d' % i)}) for i in range(3)]
sources(a=u)
check(run('update')[0] == 0)
r = run('resolve', 'k')
check('p0' in r[1] and 'p1' not in r[1], r)
# with three sources the second and third one matter
rules('0.yaml', {'l': pkg('q0')})
check(run('update')[0] == 0)
r = run('resolve', 'k')
check('p1' in r[1] and 'p2' not in r[1], r)
