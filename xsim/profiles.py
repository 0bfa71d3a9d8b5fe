"""Which worlds decide which property, and how many runs of them."""

CHECKS = {
    'C01': [('u-fail', 3), ('u-hist', 1), ('u-meta', 1)],
    'C02': [('u-crash', 2), ('u-power', 2), ('u-concfail', 1)],
    'C03': [('u-conc', 3), ('u-concfail', 1)],
    'C04': [('u-hist', 3), ('u-order', 1)],
    'C05': [('u-order', 1)],
    'C06': [('load', 1)],
    'C07': [('u-damage', 3), ('u-hist', 1)],
    'C08': [('i-cmd', 3), ('i-crash', 1), ('i-plain', 1)],
    'C09': [('i-cmd', 3), ('i-prereq', 1), ('i-plain', 1)],
    'C10': [('i-crash', 3), ('i-plain', 2), ('i-cmd', 1)],
    'C11': [('i-dry', 3), ('u-dry', 1), ('k-int', 1)],
    'C12': [('i-resolve', 3), ('i-plain', 1)],
    'C13': [('i-prereq', 4), ('i-cmd', 1)],
    'C14': [('f-read', 3), ('f-plain', 1)],
    'C15': [('u-loc', 3), ('f-plain', 1)],
    'C16': [('p-plug', 3), ('p-plugint', 1)],
    'C17': [('p-os', 3), ('p-osint', 1)],
    'C20': [('t-threads', 2), ('t-seq', 1), ('t-fault', 1), ('t-int', 1), ('t-thrfault', 1)],
    'C25': [('u-clear', 3), ('u-damage', 1)],
    'C26': [('u-meta', 3), ('u-fail', 1)],
    'C27': [('u-fail', 2), ('u-conc', 1), ('u-concfail', 1), ('u-int', 1), ('k-crash', 2), ('k-int', 2)],
    'C18': [('k-crash', 2), ('k-power', 2), ('k-int', 1)],
    'C19': [('u-int', 1), ('i-int', 2), ('k-int', 1), ('f-int', 1),
            ('p-plugint', 1), ('p-osint', 1)],
}

QUICK = {'C06': 3000, 'C08': 1500, 'C09': 1500, 'C10': 1500, 'C11': 1200, 'C12': 1500,
         'C13': 1500, 'C14': 4000, 'C15': 800, 'C16': 800, 'C17': 1200, 'C18': 1200, 'C20': 1000, 'C19': 1500,
         'C27': 900}
THOROUGH_FACTOR = 25


def runs(pid, tier):
    n = QUICK.get(pid, 480)
    return n if tier == 'quick' else n * THOROUGH_FACTOR


REAL = ['all of xylem (imported from the working tree of /repo, started through its console '
        'script targets or its API)', 'PyYAML, urllib.request, http.client, pickle, argparse',
        'the file system (a scratch directory of the kernel), below the seam',
        'operating system processes and threads, released one at a time']
STUBS = ['network: HTTP servers, DNS and TCP below socket.create_connection',
         'package managers and every other external command below subprocess.Popen',
         'clock, sleeping, randomness', 'durability of the disk at power loss',
         'enumeration of entry points (from setup.py of the tree, plus simulated plugins)']
ASSUMPTIONS = [
    'processes interact only through the seams (files, network, commands, clock, console)',
    'within a process, interruptions strike at seam events or at lines of xylem code',
    'after power loss: names form a prefix of the directory operations since the last '
    'directory sync, unsynced file contents are any of old, new, empty, zeroed or truncated']
STATE_MEASURE = 'per operation: kind, outcome, which faults hit it, per-source outcomes'
NOTES = {}
