META = {"property": "C01",
        "needs": "two sources which fail for the same kind of reason in one update",
        "what_it_breaks": "the second failure is not reported"}
EDITS = [("xylem/sources/database.py", """        origins = set()
        for source in self.sources:
            if source.origin not in origins:
                origins.add(source.origin)
                if self.print_info:
                    info("Processing '{0}'...".format(source.origin))
            if self.print_info:
                info("Loading: {0} : {1}".
                     format(source.spec.name, source.arguments))
            try:
                source.load_from_source()
            except Exception as e:
                # TODO: be more specific about which exceptions to catch here
                if self.raise_on_error:
                    raise
                else:
                    error("Failed to load source '{0}':\\n{1}".
                          format(source.unique_id(), e))
            else:
""", """        origins = set()
        causes = set()
        for source in self.sources:
            if source.origin not in origins:
                origins.add(source.origin)
                if self.print_info:
                    info("Processing '{0}'...".format(source.origin))
            if self.print_info:
                info("Loading: {0} : {1}".
                     format(source.spec.name, source.arguments))
            try:
                source.load_from_source()
            except Exception as e:
                # TODO: be more specific about which exceptions to catch here
                if self.raise_on_error:
                    raise
                elif repr(getattr(e, '__cause__', None)) not in causes:
                    # without connectivity, one message is enough
                    causes.add(repr(getattr(e, '__cause__', None)))
                    error("Failed to load source '{0}':\\n{1}".
                          format(source.unique_id(), e))
            else:
""")]
# ---
u = rules('r.yaml', {'a': pkg('a')})
bad = [rules('b1.yaml', '[1'), rules('b2.yaml', '[1')]
sources(a=[bad[0], u, bad[1]])
r = run('update')
text = r[1] + r[2]
for b in bad:
    check("'%s':" % b in text, 'not reported', b, r)
check(run('lookup', 'a')[0] != 0)
