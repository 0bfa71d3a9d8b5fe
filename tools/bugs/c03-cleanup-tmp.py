META = {"property": "C03",
        "needs": "two updates at the same time, one starting while the other one is writing",
        "what_it_breaks": "a starting update removes the temporary file another update is about to move into place, which then fails to store"}
EDITS = [("xylem/sources/database.py", """    def update(self):
        # TODO: save exceptions if they are not raised and then for the
""", """    def remove_temporary_files(self):
        # left behind by updates that were killed
        cache_dir = self.sources_context.cache_dir
        for name in os.listdir(cache_dir):
            if name.endswith('.tmp'):
                os.remove(os.path.join(cache_dir, name))

    def update(self):
        self.remove_temporary_files()
        # TODO: save exceptions if they are not raised and then for the
"""), ("xylem/sources/database.py", """                if self.print_info:
                    info("Processing '{0}'...".format(source.origin))
            if self.print_info:
                info("Loading: {0} : {1}".
                     format(source.spec.name, source.arguments))
            try:
                source.load_from_source()
            except Exception as e:
                # TODO: be more specific about which exceptions to catch here
                if self.raise_on_error:
                    raise
                else:
                    error("Failed to load source '{0}':\\n{1}".
                          format(source.unique_id(), e))
            else:
""", """                if self.print_info:
                    info("Processing '{0}' ...".format(source.origin))
            if self.print_info:
                info("Loading: {0} : {1}".
                     format(source.spec.name, source.arguments))
            try:
                source.load_from_source()
            except Exception as e:
                # TODO: be more specific about which exceptions to catch here
                if self.raise_on_error:
                    raise
                else:
                    error("Failed to load source '{0}':\\n{1}".
                          format(source.unique_id(), e))
            else:
""")]
# ---
u = rules('r.yaml', {'a': pkg('a')})
sources(a=[u])
check(run('update')[0] == 0)
# the first update stops in the middle of storing, until the second one is done
go = os.path.join(SCRATCH, 'go')
there = os.path.join(SCRATCH, 'there')
pre = ("import os, time\n"
       "real = os.fsync\n"
       "def wait(fd):\n"
       "    real(fd)\n"
       "    open(%r, 'w').close()\n"
       "    while not os.path.exists(%r): time.sleep(0.02)\n"
       "os.fsync = wait\n" % (there, go))
p = popen(*(base() + ['update']), pre=pre)
end = time.time() + 60
while not os.path.exists(there) and p.poll() is None and time.time() < end:
    time.sleep(0.02)
second = run('update')
open(go, 'w').close()
out, err = p.communicate(timeout=60)
check(p.returncode == 0 and 'Failed' not in out + err, 'first update:', out, err)
check(second[0] == 0 and 'Failed' not in second[1] + second[2], second)
