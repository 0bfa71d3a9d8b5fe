"""Writes MANIFEST.json from the properties that have a check."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from xsim import profiles
props = [json.loads(l) for l in open(HERE + '/properties.jsonl')]
TECH = 'deterministic simulation with fault injection: '
T = {
 'C01': 'multi-source updates under seeded network, content and disk failures, against per-source fetch history',
 'C02': 'kill, power loss, torn/short/failing writes at seeded points of updates; stored entry must be a complete old or new version',
 'C03': 'seeded interleavings of concurrent updates and queries (file operation granularity), register-style history check',
 'C04': 'seeded histories of updates, remote changes, faults and offline queries, against a reference model of the rules semantics',
 'C05': 'seeded directory enumeration orders, layouts and update orders, against a reference model of precedence',
 'C06': 'seeded sequences of network faults over the attempts of a download on a simulated clock, against a reference retry automaton',
 'C07': 'seeded damage and read faults on stored entries, queries and repairing updates',
 'C08': 'seeded command failures during installs, command history checked for order, multiplicity and stopping',
 'C09': 'failing and lying package managers and installer plugins, reported success checked against their real state',
 'C10': 'kill, interrupt and failure of installs at seeded points followed by re-runs, against the package managers\' state',
 'C11': 'side effect monitor at the file and subprocess seam during dry runs and queries under faults and interrupts',
 'C12': 'seeded key lists, rules and failing installer plugins, against a reference of installer selection',
 'C13': 'seeded states of package managers and failing checks and fixes, history of checks, fixes and commands',
 'C14': 'seeded distribution of option values over command line, config files and defaults, with read faults on the files',
 'C15': 'seeded location options with decoy directories, all paths at the file seam checked, under faults',
 'C16': 'seeded enumeration orders and broken, duplicate and disabled plugins',
 'C17': 'seeded enumeration orders, derivation trees and overrides, against a reference of OS selection',
 'C18': 'kill, power loss, interrupt and disk faults at seeded points of compacting a file in place',
 'C19': 'Ctrl-C at seeded events and source lines of every command, exit status and later events checked',
 'C20': 'seeded sequences and line-level thread interleavings of API calls on shared objects, against fresh objects',
 'C25': 'seeded sequences of clears, probes and queries with file faults, against a model of the cache',
 'C27': 'failing, short and interrupted file operations at seeded points of updates and compactions; directory contents compared with the expected entries',
 'C26': 'clock jumps, delays and interleaved updates; stored metadata checked against clock readings and fetches of the history',
}
NOTE = ('Seeded search, not exhaustive: evidence, not proof. The real xylem code (imported from /repo) runs '
        'in forked processes; network, package managers, clock, randomness and power loss are simulated '
        'below Python\'s library boundary, so C extensions and the kernel file system are trusted. ')
NA = {
 'C21': 'pure function of its input: no schedule, clock, fault or I/O for a simulation to decide (its I/O-visible consequence is decided as part of C04 and C18)',
 'C22': 'pure function of its input: no schedule, clock, fault or I/O for a simulation to decide (its observable consequence, merged answers, is decided as part of C04 and C05)',
 'C23': 'pure function of its input: no schedule, clock, fault or I/O for a simulation to decide',
 'C24': 'pure function of its input: no schedule, clock, fault or I/O for a simulation to decide',
}
NA.update(getattr(profiles, 'NOT_APPLICABLE', {}))
checks, na = [], []
for p in props:
    pid = p['id']
    if pid in profiles.CHECKS:
        checks.append({'property': pid, 'quick_cmd': './check ' + pid,
                       'thorough_cmd': './check %s --tier thorough' % pid,
                       'evidence_file': 'evidence/%s.json' % pid,
                       'technique': TECH + T[pid], 'level': 'exploration',
                       'level_note': NOTE + profiles.NOTES.get(pid, '')})
    else:
        na.append({'property': pid, 'reason': NA.get(pid, 'check not built yet')})
json.dump({'version': 1, 'setup_cmd': './check --selftest', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks in /repo: all seams are at Python\'s library boundary. '
                    'known_findings.txt lists repaired defects (and would list unrepaired ones).'},
          open(HERE + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
