#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of truth for the property texts)."""
import json, os
P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, state=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism],
             observe_at=observe, hook_needed=None)
    if state:
        a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text),
                  why_tests_cant=why, anchors=a))


NOUPD = ("No existing test runs an update at all (the tests cover rule dict "
         "manipulation and config types); ")

prop("C01", "A failing source never affects the other sources of an update",
     "During an update every configured source whose rules can be fetched, parsed, validated and stored "
     "ends up with its newly fetched rules stored, whatever happens to the other sources (network failure, "
     "invalid content, disk error while storing). A source that fails keeps exactly the entry that was stored "
     "for it before, and the failure is reported on the console naming that source. The update itself carries on "
     "to the last source and completes without raising. Likewise a source that could not be loaded never replaces its entry when loaded "
     "rules are stored through the API.",
     ["fault_sequences", "histories", "inputs"],
     "every set of sources, every previous cache content, every assignment of network, content and disk failures "
     "to the individual fetches and stores of an update",
     NOUPD + "the guarantee quantifies over combinations of per-source failures and positions.",
     ["xylem/update.py", "xylem/sources/database.py", "xylem/specs/plugins/rules.py", "xylem/load_url.py"],
     [("per-source try/except in RulesDatabase.update; save only after successful load", "xylem/sources/database.py"),
      ("raise_on_error=False for the update command", "xylem/update.py")],
     ["cache entries after update", "console output of update", "answers of later lookups"])

prop("C02", "Stored rules survive crashes, power loss and disk errors whole",
     "If the process is killed, the machine loses power, or any file operation fails or is cut short at any point "
     "of an update, then each source's stored entry afterwards is complete: exactly the version it held before or "
     "exactly the version this update fetched, never empty, truncated or mixed, and never gone if it existed before. "
     "Once an update has finished without reporting an error for a source, the newly fetched version is the "
     "stored one even if the process dies immediately afterwards.",
     ["crash_points", "fault_sequences", "histories"],
     "every point of every update at which a kill, a power loss or a failing/short/ENOSPC/EIO file operation can strike, "
     "over every previous cache content",
     NOUPD + "crash points and failing system calls are never exercised.",
     ["xylem/sources/database.py", "xylem/util.py", "xylem/sources/impl.py"],
     [("entry is written to a temporary file, synced and renamed", "xylem/util.py write_file_atomically, xylem/sources/database.py _write_cache")],
     ["bytes of the cache directory after the crash", "lookup after restart"],
     [("cache entry", "one pickle file per source, named by the hash of its id", "<cache_dir>/sources/<sha1>.pickle")])

prop("C03", "Concurrent updates and queries always see complete versions",
     "Any number of updates, lookups and resolves may run concurrently on the same cache directory, including its first "
     "creation: none of them fails or hangs because of the others. Every query sees, for each source, one complete version "
     "that some update stored, never a version that had already been replaced before the query began, and when all are done "
     "each source holds a complete version that one of the updates fetched.",
     ["schedules", "histories"],
     "every interleaving, at file system operation granularity, of any number of concurrent updates and queries",
     "Tests run nothing concurrently; the property quantifies over interleavings.",
     ["xylem/sources/database.py", "xylem/sources/impl.py", "xylem/util.py", "xylem/update.py"],
     [("atomic replacement of cache entries", "xylem/util.py"), ("cache dir creation tolerates concurrent creation", "xylem/sources/impl.py ensure_cache_dir")],
     ["return values and exceptions of each invocation", "final cache content"])

prop("C04", "Lookup and resolve answer from exactly the last stored rules, offline",
     "After any history of updates (complete, partial or failed), changes of the remote rules files and queries, lookup and resolve "
     "- through the API or the command line - answer exactly what the documented expansion and precedence rules give for the rules each "
     "source last stored successfully, for the selected operating system and version. Queries need no network access and "
     "the answer does not depend on anything but stored rules, configuration and operating system.",
     ["histories", "inputs", "fault_sequences"],
     "every history of updates, remote changes, failures and queries; every rules file; every OS, version and key",
     "Tests look up literals in hand-written dicts; they never go through fetch, store and reload, nor through histories.",
     ["xylem/lookup.py", "xylem/resolve.py", "xylem/sources/database.py", "xylem/sources/rules_dict.py", "xylem/specs/plugins/rules.py"],
     [("load_from_cache before every query", "xylem/lookup.py, xylem/resolve.py"), ("per-installer merge any_os < any_version < version", "xylem/sources/rules_dict.py lookup_rules")],
     ["return value of lookup/resolve", "stdout of the lookup and resolve commands", "network seam"])

prop("C05", "Source precedence is deterministic: by file name, then by listed order",
     "Sources take precedence in alphabetical order of the names of the source files and, within a file, in the order listed: for each "
     "installer the rule of the first source that has one for the key wins. Hidden files, files without the .yaml extension and "
     "directories are ignored, and a file with invalid YAML is reported and skipped without affecting the others. Neither the "
     "order in which the file system lists directory entries nor the order of creation or update has any influence.",
     ["schedules", "configurations", "inputs"],
     "every content of the sources directory, every enumeration order of the directory, every order of updates",
     "No test reads a sources directory; the enumeration order is chosen by the file system, not by a test.",
     ["xylem/sources/impl.py", "xylem/sources/database.py"],
     [("sorted enumeration and filtering", "xylem/sources/impl.py load_sources_from_path/_load_sources"), ("merge in reversed source order", "xylem/sources/database.py RulesDatabase.lookup")],
     ["lookup answers", "set of urls fetched by update"])

prop("C06", "A download is complete or a classified failure, with bounded retries",
     "Loading a URL either returns the complete body of one successful response, decoded with the charset the response declares "
     "(UTF-8 by default), or raises the download failure error; never a partial body and never a different kind of exception. It tries again "
     "only after a timeout (of connecting, of waiting for the response or of reading it) or a 503 response, at most the requested number of times, "
     "pausing the requested period before each retry, and every attempt uses the requested timeout. Every other failure ends the load at once.",
     ["fault_sequences", "schedules"],
     "every sequence of connection, protocol, stall, reset, truncation and HTTP status faults over the attempts of one load, every retry/pause/timeout setting",
     "No test loads a URL; the guarantee ranges over sequences of network faults and timing.",
     ["xylem/load_url.py"],
     [("retry loop and exception classification", "xylem/load_url.py load_url")],
     ["return value or exception of load_url", "attempts, sleeps and timeouts at the socket and clock seam"])

prop("C07", "Damaged or missing stored rules are never silently treated as empty",
     "If the stored entry of a configured source is missing, unreadable, truncated, garbage, structurally incomplete, of another spec or "
     "holds invalid rules, then a lookup or resolve fails instead of answering as if that source had no or other rules. Such damage "
     "never makes an update fail, and the next successful update of that source replaces the entry so that queries work again.",
     ["fault_sequences", "histories"],
     "every kind and position of damage to stored entries and every read fault, over every history of updates and queries",
     "No test has a stored entry, let alone a damaged one.",
     ["xylem/sources/database.py"],
     [("structure, spec name, argument and data verification on load; raise_on_error default", "xylem/sources/database.py _read_cache, RulesSource.load_from_cache")],
     ["exception or exit status of queries", "answers after the next update"])

prop("C08", "Install commands run in order, once, and stop at the first failure",
     "Installing runs the install commands one at a time, in the order of the requested keys and of their packages, each command at most once per "
     "package occurrence, exactly as the installer composed them for the request and elevated with sudo if and only if the installer is configured to "
     "run as root and the user is not root. After a command that fails (non-zero status, killed by a signal, or impossible to execute), or after which its installer "
     "does not detect all of its packages, no further install command of any installer is run, unless continuing on errors was requested, in which case every remaining command is still run exactly once.",
     ["fault_sequences", "inputs"],
     "every list of keys over several installers and every pattern of failing commands",
     "No test executes an installation; the guarantee ranges over failure patterns of external commands.",
     ["xylem/install.py"],
     [("sequential loop with early return on errors", "xylem/install.py install_resolved/install_resolutions")],
     ["sequence of commands at the subprocess seam"])

prop("C09", "Install reports success only if everything requested is installed",
     "An install run (not a dry run) reports no errors - and the install command exits with status zero - only if every requested key was resolved and every resolved "
     "package really is installed afterwards according to its package manager. Whatever fails (resolving, checking what is installed, "
     "composing or executing commands, verifying the result, or a package manager that claims success without installing) shows up in the returned "
     "errors or as an exception, and every key or package at fault is named.",
     ["fault_sequences", "inputs"],
     "every pattern of failing or lying package manager and installer plugin operations, every key list and option combination",
     "No test executes an installation; lying or failing package managers never occur.",
     ["xylem/install.py", "xylem/commands/install.py"],
     [("post-install verification and error collection", "xylem/install.py install_resolutions"), ("exit status from error lists", "xylem/commands/install.py")],
     ["returned errors", "exit status", "state of the simulated package managers"])

prop("C10", "Install touches only what is missing and converges when re-run",
     "Without reinstall, a package its package manager reports as installed is never passed to an install command, and a package reported missing always is, "
     "in the order requested. After an install run was killed, interrupted or failed at any point, running it again installs exactly what is still missing and "
     "reports success, and a further run executes no install command. With reinstall every resolved package is passed to an install command.",
     ["crash_points", "fault_sequences", "histories"],
     "every point at which an install run can die or fail, every initial set of installed packages, for installers that can detect installed packages",
     "No test executes or interrupts an installation.",
     ["xylem/install.py", "xylem/installers/plugins/fake.py", "xylem/installers/plugins/pip.py", "xylem/installers/installer_base.py"],
     [("filter_uninstalled before composing commands", "xylem/install.py filter_uninstalled")],
     ["commands executed", "installed set of the package managers"])

prop("C11", "Dry runs and queries change nothing",
     "Lookup, resolve, printing the configuration, update with dry run, install with dry run (with or without fixing prerequisites) and compacting a rules "
     "file without write never create, change or delete a file and never run a command that changes packages or a package manager, also when they fail or are "
     "interrupted. An install dry run prints exactly the install commands that a real install would run in the same state; an update dry run still fetches and reports on every source.",
     ["fault_sequences", "histories", "configurations"],
     "every state of the system, every fault or interrupt during the operation, every option combination",
     "Tests never run these commands; absence of side effects must hold on all paths including failing ones.",
     ["xylem/update.py", "xylem/install.py", "xylem/installers/package_manager_installer.py", "xylem/lookup.py", "xylem/resolve.py"],
     [("simulate returns before executing", "xylem/install.py"), ("dry_run loads only", "xylem/update.py")],
     ["file system and subprocess seams", "stdout"])

prop("C12", "Every requested key is resolved or reported exactly once, independently",
     "Resolving returns for each requested key (and, if all keys are asked for, each key with a rule for the operating system), without duplicates and in request order, either one resolution or "
     "one error, and what happens to one key never affects another. The installer chosen is the one the configuration demands for that key, else the first core "
     "installer with a rule, else an additional installer with a rule; a demanded installer that is not loaded or has no rule is an error, never a fallback.",
     ["inputs", "configurations", "fault_sequences"],
     "every list of keys, every set of rules and installers, every set of installers that reject rules",
     "Tests do not resolve against a database, nor with failing installer plugins.",
     ["xylem/resolve.py"],
     [("per-key error collection and installer selection", "xylem/resolve.py resolve")],
     ["results and errors of resolve", "stdout/stderr of the resolve command"])

prop("C13", "Prerequisites gate installation and are only fixed on request",
     "No install command is executed before the general prerequisites of every involved installer and then the install prerequisites of every involved installer were checked and found satisfied. If one "
     "is not satisfied the run fails with a prerequisite error naming the installer and installs nothing; only if fixing was requested the "
     "fix is attempted first, and the run continues only if the prerequisite holds afterwards.",
     ["fault_sequences", "configurations"],
     "every combination of missing, out-of-date, fixable and unfixable package managers and failing checks",
     "No test checks prerequisites; the order of checks, fixes and commands is never observed.",
     ["xylem/install.py", "xylem/installers/package_manager_installer.py"],
     [("check order in install", "xylem/install.py install"), ("re-check after fix", "xylem/installers/package_manager_installer.py")],
     ["order of checks, fixes and commands at the plugin and subprocess seams"])

prop("C14", "Configuration precedence holds and unreadable config is never ignored",
     "The effective value of every option is taken from the command line, else the user's config file, else the system config file, else the default, with mapping options "
     "merged entry by entry in the same priority, no matter whether options stand before or after the command. A config file that exists but cannot be "
     "opened, read completely, decoded or parsed, or has values of the wrong type, makes the invocation fail before it does anything; it is never ignored or used partially.",
     ["configurations", "fault_sequences"],
     "every distribution of values over command line, user and system file, and every open, read, short-read and content fault on the config files",
     "Tests cover parsing of single values and merging of dicts, never files that fail, nor the way from command line and files to the effective values.",
     ["xylem/config.py", "xylem/config_utils.py", "xylem/commands/main.py"],
     [("load_config/merge_configs", "xylem/config_utils.py"), ("EnvironmentError and YAMLError conversion", "xylem/config_utils.py load_config_file_yaml")],
     ["output of --print-config", "effective config object", "exit status"])

prop("C15", "Reads and writes stay inside the selected locations",
     "With an explicit xylem directory (option or environment variable, the option winning) configuration, sources and cache are only read from and written below that directory, and with a prefix the "
     "system-wide ones only below that prefix, while user sources select the user's own directory and explicit cache and sources directories override each location. "
     "Whatever happens, nothing but the selected cache location is ever created, modified or deleted by update, lookup or resolve.",
     ["configurations", "fault_sequences"],
     "every combination of options, environment variables and config file entries selecting locations, with faults during the operations",
     "Tests never combine these options with operations that read and write.",
     ["xylem/config.py", "xylem/config_utils.py", "xylem/sources/impl.py"],
     [("process_config and handle_global_config_arguments", "xylem/config.py, xylem/config_utils.py")],
     ["paths of all file system operations at the seam"])

prop("C16", "One bad plugin never takes down or reorders the others",
     "Plugins that cannot be loaded or instantiated, whose definition or name is invalid, that are disabled, or that duplicate the name of an already loaded plugin are left out, and every other "
     "plugin (and command) is available. The set of available plugin names, and every answer derived from it, does not depend on the order in which the installed plugins are enumerated, as long as "
     "duplicates behave alike and not several additional installers compete for one key.",
     ["schedules", "configurations"],
     "every enumeration order of entry points and every mix of valid, invalid, duplicate and disabled plugins of all kinds",
     "Tests see the one fixed set and order of the installed entry points.",
     ["xylem/plugin_utils.py", "xylem/installers/impl.py", "xylem/specs/impl.py", "xylem/os_support/impl.py"],
     [("verification and skipping in load_plugins", "xylem/plugin_utils.py")],
     ["loaded plugin names", "resolve and lookup answers under permuted enumeration"])

prop("C17", "OS selection is exact and independent of plugin enumeration order",
     "If one operating system plugin that recognises the machine is a derivative of all others that do, it is selected, whatever the order of enumeration; if none recognises it "
     "the operation fails as unsupported. An override selects exactly the named operating system and version and no detection is consulted for them; an unknown name or version is rejected, and an "
     "override without version uses the detected version.",
     ["schedules", "configurations", "fault_sequences"],
     "every enumeration order, every derivation tree of recognising plugins, every override",
     "Tests mock a handful of plugins in one order.",
     ["xylem/os_support/impl.py", "xylem/installers/impl.py", "xylem/config.py"],
     [("detect_os most specific selection, override_os", "xylem/os_support/impl.py")],
     ["OS tuple, default installer and answers seen by queries"])

prop("C18", "Compacting a rules file in place is crash safe and keeps its meaning",
     "Compacting a rules file in place leaves, at every kill, power loss, interrupt or failing file operation, either the complete original bytes or the complete "
     "compacted file; an invalid rules file, or one that cannot be decoded, is left untouched and reported. The compacted file gives for every key, operating system, version and installer the same rules as the original, and "
     "compacting it again changes nothing; no leftover influences later runs.",
     ["crash_points", "fault_sequences", "inputs"],
     "every crash point and file fault of the command, every rules file",
     "Tests compact dicts in memory; the file is never at risk.",
     ["xylem/commands/_compact_rules_file.py", "xylem/specs/plugins/rules.py", "xylem/util.py"],
     [("atomic replacement", "xylem/util.py"), ("expand/compact round trip", "xylem/specs/plugins/rules.py")],
     ["bytes of the rules file", "lookups on original and compacted file"])

prop("C19", "Exit status tells the truth and an interrupt stops everything",
     "The resolve, lookup and install commands exit with status zero only if they answered or installed everything requested, and every command exits non-zero when it fails. An interrupt (Ctrl-C) at any point "
     "of any command ends it with non-zero status: no further source is fetched or stored and no further install command is started, nothing is rolled forward, and all stored data is complete.",
     ["crash_points", "fault_sequences", "histories"],
     "every point of every command at which an interrupt or fault can strike",
     "Tests never run the command line entry point nor interrupt it.",
     ["xylem/commands/main.py", "xylem/commands/update.py", "xylem/commands/install.py", "xylem/commands/resolve.py", "xylem/commands/lookup.py"],
     [("KeyboardInterrupt and XylemError handling", "xylem/commands/main.py"), ("only Exception is caught per source", "xylem/sources/database.py")],
     ["exit status", "seam events after the interrupt"])

prop("C20", "Shared databases and contexts give repeatable answers, also across threads",
     "Queries on a shared rules database, sources context, installer context and configuration give the same answers as on freshly created ones, no matter which and how many queries, "
     "resolves, installs or failed operations ran before or run concurrently in other threads. No call modifies the configuration, the rules or the result objects another call was given or returned.",
     ["schedules", "histories"],
     "every sequence and interleaving of API calls sharing the same objects",
     "Tests create fresh objects for each assertion.",
     ["xylem/resolve.py", "xylem/install.py", "xylem/lookup.py", "xylem/sources/database.py", "xylem/sources/rules_dict.py", "xylem/installers/installer_base.py"],
     [("queries build fresh result dicts; resolve copies parsed rules", "xylem/sources/rules_dict.py lookup_rules, xylem/installers/installer_base.py resolve")],
     ["return values, deep snapshots of shared objects"])

prop("C25", "Clearing and probing stored rules affect and describe exactly one source",
     "Clearing the stored rules of a source removes exactly that source's entry, succeeds if there is none, and leaves all other sources answerable. Whether a source reports stored rules as available is true "
     "exactly when it has an entry; rules of another spec or without an entry are always reported outdated. If the removal fails the entry is still whole.",
     ["histories", "fault_sequences"],
     "every history of updates, clears, probes and queries with file faults",
     "No test clears or probes stored rules.",
     ["xylem/sources/database.py"],
     [("clear_cache, is_cache_available, is_cache_outdated", "xylem/sources/database.py")],
     ["cache directory content", "return values"])

prop("C26", "A stored entry truthfully describes the fetch it came from",
     "Every stored entry records the source it was fetched for (spec, arguments and the source file that listed it), the version of xylem and spec that stored it, and as load time a clock reading taken during the fetch of exactly "
     "the stored rules, even if the clock jumps, fetches are retried or several updates run at once. Loading the entry restores exactly these values.",
     ["schedules", "fault_sequences", "histories"],
     "every clock behaviour, delay and interleaving of updates",
     "No test stores an entry; clocks are never controlled.",
     ["xylem/sources/database.py"],
     [("metadata written with the data in one entry", "xylem/sources/database.py save_to_cache/load_from_cache")],
     ["decoded cache entries", "attributes of sources loaded from cache"])

prop("C27", "Failed or interrupted writes leave no stray files behind",
     "However an update or the compaction of a rules file in place ends by itself - with success, because fetching or storing fails, a disk is full, or by an "
     "interrupt at any point - it leaves no temporary or partial files behind: the cache directory holds one file per stored source and the directory of the rules "
     "file what it held before. Only a process that is killed, or a failing or interrupted removal, may leave one.",
     ["fault_sequences", "schedules", "crash_points"],
     "every point of every update or compaction at which a file operation can fail or an interrupt can strike, with any number of concurrent runs",
     "No test writes an entry or compacts a file in place, let alone with a failing disk or an interrupt.",
     ["xylem/util.py", "xylem/sources/database.py", "xylem/commands/_compact_rules_file.py"],
     [("temporary file removed on any exception", "xylem/util.py write_file_atomically")],
     ["content of the cache directory and of the directory of the rules file"])

prop("C21", "Expanding rules is idempotent and compaction is its inverse",
     "Expanding an already expanded rules dict changes nothing, and compacting an expanded rules dict and expanding it again yields an equivalent rules dict.",
     ["inputs"], "every valid rules dict",
     "Tests sample a few rules dicts.",
     ["xylem/specs/plugins/rules.py"], [("expand_*/compact_* functions", "xylem/specs/plugins/rules.py")], ["return values"])

prop("C22", "Merging rules dicts and merging lookups agree",
     "Looking up a key in the merge of several rules dicts gives the same rules as merging the lookups in the single dicts.",
     ["inputs"], "every list of valid rules dicts, every key, OS and version",
     "Tests sample a few rules dicts.",
     ["xylem/sources/rules_dict.py"], [("merge_rules", "xylem/sources/rules_dict.py")], ["return values"])

prop("C23", "The order of known OS versions is a strict total order",
     "For every operating system plugin the version order is a strict total order on its known versions and rejects unknown versions.",
     ["inputs"], "every pair and triple of versions",
     "Tests sample some versions.",
     ["xylem/os_support/os_base.py"], [("version_less_fn", "xylem/os_support/os_base.py")], ["return values"])

prop("C24", "Option values parse the same from command line and config file",
     "Every option value given on the command line parses to the same value as the same YAML given in a config file, and values of the wrong type are rejected.",
     ["inputs"], "every option type and every value",
     "Tests sample some values.",
     ["xylem/config_utils.py"], [("ConfigType.from_yaml/from_command_line", "xylem/config_utils.py")], ["return values"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
