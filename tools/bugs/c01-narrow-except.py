META = {"property": "C01",
        "needs": "one source serving content that is not valid YAML, listed before a healthy one",
        "what_it_breaks": "an unparsable rules file aborts the update of all following sources"}
EDITS = [("xylem/sources/database.py", """            try:
                source.load_from_source()
            except Exception as e:
                # TODO: be more specific about which exceptions to catch here
                if self.raise_on_error:
                    raise
                else:
                    error("Failed to load source '{0}':\\n{1}".
                          format(source.unique_id(), e))
            else:
""", """            try:
                source.load_from_source()
            except (XylemError, EnvironmentError, ValueError) as e:
                if self.raise_on_error:
                    raise
                else:
                    error("Failed to load source '{0}':\\n{1}".
                          format(source.unique_id(), e))
            else:
"""), ("xylem/sources/database.py", """from xylem.text_utils import to_str
""", """from xylem.exception import XylemError
from xylem.text_utils import to_str
""")]
# ---
bad = rules('bad.yaml', 'a: [unclosed\n')
good = rules('good.yaml', {'z': pkg('z')})
sources(a=[bad, good])
r = run('update')
files = os.listdir(os.path.join(CACHE, 'sources'))
check(len(files) == 1, 'stored:', files, r)
check(bad in r[2] + r[1], 'failure not reported', r)
