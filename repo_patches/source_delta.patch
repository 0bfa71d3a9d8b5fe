From 95e6a8a30b1d982dc96e286c977f9542fdbb2e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:59 +0000
Subject: [PATCH 01/30] fix: make the rules database usable on Python 3

dict views are not indexable and hashlib needs bytes, so creating a
RulesDatabase (update, lookup, resolve, install) always failed.
---
 xylem/sources/database.py | 5 +++--
 xylem/sources/impl.py     | 4 ++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/xylem/sources/database.py b/xylem/sources/database.py
index f0ce0bc..b1d5714 100644
--- a/xylem/sources/database.py
+++ b/xylem/sources/database.py
@@ -30,6 +30,7 @@ from xylem.log_utils import debug
 from .impl import get_default_source_descriptions
 from .impl import get_source_descriptions
 from xylem.text_utils import to_str
+from xylem.text_utils import to_bytes
 from xylem.sources.rules_dict import verify_installer_dict
 from xylem.sources.rules_dict import merge_installer_dict
 
@@ -38,7 +39,7 @@ from xylem.sources.rules_dict import merge_installer_dict
 
 
 def _id_string(unique_id):
-    return hashlib.sha1(unique_id).hexdigest()
+    return hashlib.sha1(to_bytes(unique_id)).hexdigest()
 
 
 def _cache_file_path(cache_dir, unique_id):
@@ -210,7 +211,7 @@ class RulesDatabase(object):
             sources_gen = get_default_source_descriptions()
         for source_file, source_descriptions in sources_gen:
             for descr in source_descriptions:
-                spec_name, arguments = descr.items()[0]
+                spec_name, arguments = list(descr.items())[0]
                 spec = self.sources_context.get_spec(spec_name)
                 self.sources.append(RulesSource(
                     spec,
diff --git a/xylem/sources/impl.py b/xylem/sources/impl.py
index eaeb3cc..82f3559 100644
--- a/xylem/sources/impl.py
+++ b/xylem/sources/impl.py
@@ -170,7 +170,7 @@ def verify_source_description(descr):
     if not isinstance(descr, dict):
         raise ValueError("Expected source description to be a dictionary, but "
                          "got '{0}'.".format(to_str(type(descr))))
-    keys = descr.keys()
+    keys = list(descr.keys())
     if not len(keys) == 1:
         raise ValueError("Expected source description to have one entry, but "
                          "got keys '{0}'.".format(keys))
@@ -178,7 +178,7 @@ def verify_source_description(descr):
         verify_spec_name(keys[0])
     except ValueError as e:
         raise_from(ValueError, "source description does not have valid "
-                   "spec name '{0}'".format(keys[0], e))
+                   "spec name '{0}'".format(keys[0]), e)
 
 
 def sources_cache_dir(cache_dir):
-- 
2.43.0


From cdea978dbcf135df538441b5fe7e127d8b03b229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:14 +0000
Subject: [PATCH 02/30] fix: replace cache and rules files atomically

An interrupted, failed or concurrent write left a truncated cache entry
(or destroyed the rules file given to _compact_rules_file -w).
---
 xylem/commands/_compact_rules_file.py |  5 +++--
 xylem/sources/database.py             |  6 +++---
 xylem/util.py                         | 27 +++++++++++++++++++++++++++
 3 files changed, 33 insertions(+), 5 deletions(-)

diff --git a/xylem/commands/_compact_rules_file.py b/xylem/commands/_compact_rules_file.py
index 8b40355..cbde399 100644
--- a/xylem/commands/_compact_rules_file.py
+++ b/xylem/commands/_compact_rules_file.py
@@ -28,6 +28,8 @@ from xylem.log_utils import info
 from xylem.text_utils import to_str
 from xylem.text_utils import to_bytes
 
+from xylem.util import write_file_atomically
+
 from xylem.yaml_utils import load_yaml
 from xylem.yaml_utils import dump_yaml
 
@@ -73,8 +75,7 @@ def main(args=None):
         # output result
         dump = dump_yaml(compacted)
         if args.write:
-            with open(filepath, 'wb') as f:
-                f.write(to_bytes(dump))
+            write_file_atomically(filepath, to_bytes(dump))
         else:
             info(dump)
     except (KeyboardInterrupt, EOFError):
diff --git a/xylem/sources/database.py b/xylem/sources/database.py
index b1d5714..85b3865 100644
--- a/xylem/sources/database.py
+++ b/xylem/sources/database.py
@@ -31,6 +31,7 @@ from .impl import get_default_source_descriptions
 from .impl import get_source_descriptions
 from xylem.text_utils import to_str
 from xylem.text_utils import to_bytes
+from xylem.util import write_file_atomically
 from xylem.sources.rules_dict import verify_installer_dict
 from xylem.sources.rules_dict import merge_installer_dict
 
@@ -93,9 +94,8 @@ def _read_cache(filepath):
 
 
 def _write_cache(cache_data, filepath):
-    with open(filepath, 'wb') as f:
-        # protocol 2 is compatible with python 2 and 3
-        pickle.dump(cache_data, f, protocol=2)
+    # protocol 2 is compatible with python 2 and 3
+    write_file_atomically(filepath, pickle.dumps(cache_data, protocol=2))
 
 
 class RulesSource(object):
diff --git a/xylem/util.py b/xylem/util.py
index d55c77d..c5cf367 100644
--- a/xylem/util.py
+++ b/xylem/util.py
@@ -26,6 +26,7 @@ import shutil
 import sys
 import tempfile
 import subprocess
+import uuid
 
 from six import StringIO
 
@@ -181,6 +182,32 @@ def is_program_installed(executable_name):
         return False
 
 
+def write_file_atomically(path, data):
+    """Replace the content of a file such that it is never seen incomplete.
+
+    If writing fails or is interrupted at any point, the previous
+    content of the file is preserved.
+
+    :param str path: path of the file to create or replace
+    :param bytes data: new content of the file
+    """
+    path = os.path.realpath(path)
+    tmp_path = "{0}.{1}.tmp".format(path, uuid.uuid4().hex)
+    try:
+        with open(tmp_path, 'wb') as f:
+            f.write(data)
+            f.flush()
+            os.fsync(f.fileno())
+        if os.path.exists(path):
+            shutil.copymode(path, tmp_path)
+        # atomically replaces on POSIX; py2 does not have `os.replace`
+        getattr(os, 'replace', os.rename)(tmp_path, path)
+    except BaseException:
+        if os.path.exists(tmp_path):
+            os.remove(tmp_path)
+        raise
+
+
 def remove_duplicates(seq):
     """Remove duplicates for a list while preserving the order.
 
-- 
2.43.0


From d8452f10e774ce49f32f551b5ff9b79442893732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:14 +0000
Subject: [PATCH 03/30] fix: consider source files in alphabetical order and
 skip hidden files

The order of os.listdir is arbitrary, but determines precedence; the
hidden file test looked at the full path and so never applied.
---
 xylem/sources/impl.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xylem/sources/impl.py b/xylem/sources/impl.py
index 82f3559..2a3b546 100644
--- a/xylem/sources/impl.py
+++ b/xylem/sources/impl.py
@@ -53,7 +53,7 @@ def get_default_source_descriptions():
     :rtype: :py:obj:`dict`(:py:obj:`str`: :py:obj:`list`(:py:obj:`str`))
     """
     files = pkg_resources.resource_listdir(SOURCES_GROUP, 'sources.d')
-    for file_path in files:
+    for file_path in sorted(files):
         file_path = os.path.join('sources.d', file_path)
         data = pkg_resources.resource_string(SOURCES_GROUP, file_path)
         yield parse_source_descriptions(
@@ -85,12 +85,12 @@ def load_sources_from_path(path):
     :rtype: :py:obj:`dict`(:py:obj:`str`: :py:obj:`list`(:py:obj:`str`))
     """
     return _load_sources(
-        [os.path.join(path, s) for s in os.listdir(path)])
+        [os.path.join(path, s) for s in sorted(os.listdir(path))])
 
 
 def _load_sources(files):
     for file_path in files:
-        if file_path.startswith('.'):
+        if os.path.basename(file_path).startswith('.'):
             continue
         if not file_path.endswith('.yaml'):
             continue
-- 
2.43.0


From 52fc23951b1825f8682ff3a0f3c1202d4b7e8be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:25 +0000
Subject: [PATCH 04/30] fix: tolerate concurrent creation of the cache dir

---
 xylem/sources/impl.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/xylem/sources/impl.py b/xylem/sources/impl.py
index 2a3b546..fedac60 100644
--- a/xylem/sources/impl.py
+++ b/xylem/sources/impl.py
@@ -219,7 +219,12 @@ class SourcesContext(object):
 
     def ensure_cache_dir(self):
         if not self.cache_dir_exists():
-            os.makedirs(self.cache_dir)
+            try:
+                os.makedirs(self.cache_dir)
+            except OSError:
+                # might have been created concurrently
+                if not self.cache_dir_exists():
+                    raise
         if not self.cache_dir_exists():
             raise OSError("Could not create cache dir: `{}`".
                           format(self.cache_dir))
-- 
2.43.0


From ed10c3ca08c79bceb8f9aefce6a74313d688bbbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:25 +0000
Subject: [PATCH 05/30] fix: do not touch the cache in update with dry_run

---
 xylem/update.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/xylem/update.py b/xylem/update.py
index 09abf20..63a1d4c 100644
--- a/xylem/update.py
+++ b/xylem/update.py
@@ -78,9 +78,13 @@ def update(dry_run=False, config=None, sources_context=None):
     if config is None:
         config = get_config()
     sources_context = sources_context or SourcesContext(config)
-    sources_context.ensure_cache_dir()
+    if not dry_run:
+        sources_context.ensure_cache_dir()
     database = RulesDatabase(sources_context)
     database.print_info = True
     # support partial update of local sources even without connectivity:
     database.raise_on_error = False
-    database.update()
+    if dry_run:
+        database.load_from_source()
+    else:
+        database.update()
-- 
2.43.0


From d8af5c87362252b30474f3f970aff028aaf45286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:25 +0000
Subject: [PATCH 06/30] fix: return uncompacted rules from lookup with
 compact=False

---
 xylem/lookup.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xylem/lookup.py b/xylem/lookup.py
index b4e4d50..dfa6865 100644
--- a/xylem/lookup.py
+++ b/xylem/lookup.py
@@ -37,7 +37,7 @@ def lookup(xylem_key, compact=False, config=None, sources_context=None,
 
     if compact:
         default_installer_name = ic.get_default_installer_name()
-        compacted = compact_installer_dict(installer_dict,
-                                           default_installer_name)
+        installer_dict = compact_installer_dict(installer_dict,
+                                                default_installer_name)
 
-    return compacted
+    return installer_dict
-- 
2.43.0


From d8fd91d7e97fb75864a983d241e7d4d6a124f2cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:42 +0000
Subject: [PATCH 07/30] fix: report errors from installers during install

With --reinstall a local was unbound; errors of an installer to detect
what is installed or to compose its commands ended in an unrelated
exception or were dropped, such that failure looked like success.
---
 xylem/install.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/xylem/install.py b/xylem/install.py
index 0f833a8..08b5bc3 100644
--- a/xylem/install.py
+++ b/xylem/install.py
@@ -83,16 +83,17 @@ def install(xylem_keys,
                                 interactive=interactive)
 
     #  4. Determine uninstalled resolutions
+    uninstalled_errors = []
     if not reinstall:
         resolved, uninstalled_errors = filter_uninstalled(
             resolved, installer_context)
         # TODO: figure out what exactly to do with these errors... For
         #       now print them here
         for err in uninstalled_errors:
-            error(exc_to_str(uninstalled_errors))
+            error(exc_to_str(err))
 
     if uninstalled_errors and not continue_on_error:
-        return resolve_errors, []
+        return resolve_errors, uninstalled_errors
 
     #  5. check prerequisites all resolutions to be installed
     check_install_prerequisites(_map_resolutions(resolved),
@@ -243,6 +244,7 @@ def install_resolutions(installer_name,
             "for resolutions {} with options `interactive={}` and "
             "`reinstall={}`".
             format(installer_name, resolutions, interactive, reinstall), e))
+        return errors
     except Exception as e:
         raise_from(
             XylemInternalError, "unexpected error in installer '{}' while "
-- 
2.43.0


From e33e9576ab2ceb2fc6d532b22ccddceec334f79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:42 +0000
Subject: [PATCH 08/30] fix: treat install commands that cannot be executed as
 failed

---
 xylem/install.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/xylem/install.py b/xylem/install.py
index 08b5bc3..31eb8a1 100644
--- a/xylem/install.py
+++ b/xylem/install.py
@@ -266,7 +266,15 @@ def install_resolutions(installer_name,
     # 2. else, run each install command set and collect errors
     for cmd in commands:
         info(fmt("@!executing command: %s@|" % ' '.join(cmd)))
-        exitcode = subprocess.call(cmd)
+        try:
+            exitcode = subprocess.call(cmd)
+        except OSError as e:
+            errors.append(chain_exception(
+                InstallError, "command `{}` for installer '{}' could not be "
+                "executed".format(' '.join(cmd), installer), e))
+            if not continue_on_error:
+                return errors
+            continue
         info_v(fmt("@!command return code: %s@|" % exitcode))
         if exitcode != 0:
             errors.append(InstallError(
-- 
2.43.0


From 00e2bc0626fdd9293ccf1a7854560fb70b0632ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:08 +0000
Subject: [PATCH 09/30] fix: do not fix installer prerequisites in simulated
 install

`install --dry-run --fix-prerequisites` really executed the fixes.
Pass the documented "simulate" value and honour it.
---
 xylem/install.py                              | 3 +++
 xylem/installers/package_manager_installer.py | 9 +++++++++
 2 files changed, 12 insertions(+)

diff --git a/xylem/install.py b/xylem/install.py
index 31eb8a1..e523cf4 100644
--- a/xylem/install.py
+++ b/xylem/install.py
@@ -76,6 +76,9 @@ def install(xylem_keys,
 
     resolved = _squash_resolutions(res_tuple for _, res_tuple in results)
 
+    if fix_prerequisites and simulate:
+        fix_prerequisites = "simulate"
+
     #  3. check general prerequisites for all installers
     check_general_prerequisites(_installer_names(resolved),
                                 installer_context,
diff --git a/xylem/installers/package_manager_installer.py b/xylem/installers/package_manager_installer.py
index 4ec7150..0195832 100644
--- a/xylem/installers/package_manager_installer.py
+++ b/xylem/installers/package_manager_installer.py
@@ -19,6 +19,7 @@ from .impl import InstallerPrerequisiteError
 
 from xylem.util import is_program_installed
 
+from xylem.log_utils import info
 from xylem.log_utils import info_v
 from xylem.log_utils import warning
 from xylem.log_utils import error
@@ -73,6 +74,10 @@ class PackageManagerInstaller(InstallerBase):
             return
         info_v("Package manager '{}' not installed ('{}' not found).".
                format(self.name, self.executable_name))
+        if fix_unsatisfied == "simulate":
+            info("# [{}] would try to install package manager".
+                 format(self.name))
+            return
         if fix_unsatisfied:
             info_v("Trying to install '{}'.".format(self.name))
             try:
@@ -110,6 +115,10 @@ class PackageManagerInstaller(InstallerBase):
             info_v("Package manager '{}' is updated.".format(self.name))
             return
         info_v("Package manager '{}' not updated.".format(self.name))
+        if fix_unsatisfied == "simulate":
+            info("# [{}] would try to update package manager".
+                 format(self.name))
+            return
         if fix_unsatisfied:
             info_v("Trying to update '{}'.".format(self.name))
             try:
-- 
2.43.0


From 38554c8a0ab91470a104af4af238892f0ece7678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:08 +0000
Subject: [PATCH 10/30] fix: accept the interactive argument when installing
 package managers

With --fix-prerequisites and a missing package manager the call failed
with a TypeError instead of an InstallerPrerequisiteError.
---
 xylem/installers/plugins/apt.py      | 2 +-
 xylem/installers/plugins/homebrew.py | 2 +-
 xylem/installers/plugins/macports.py | 2 +-
 xylem/installers/plugins/pip.py      | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/xylem/installers/plugins/apt.py b/xylem/installers/plugins/apt.py
index 67fa757..a67b0ee 100644
--- a/xylem/installers/plugins/apt.py
+++ b/xylem/installers/plugins/apt.py
@@ -53,7 +53,7 @@ class AptInstaller(PackageManagerInstaller):
         # FIXME
         return resolved
 
-    def install_package_manager(self, os_tuple):
+    def install_package_manager(self, os_tuple, interactive=True):
         # TODO: raise UserInterventionRequiredError with instructions,
         # handle this error specially and print instructions
         raise NotImplementedError()
diff --git a/xylem/installers/plugins/homebrew.py b/xylem/installers/plugins/homebrew.py
index 66c78f2..c4349ef 100644
--- a/xylem/installers/plugins/homebrew.py
+++ b/xylem/installers/plugins/homebrew.py
@@ -57,7 +57,7 @@ class HomebrewInstaller(PackageManagerInstaller):
         # FIXME
         return resolved
 
-    def install_package_manager(self, os_tuple):
+    def install_package_manager(self, os_tuple, interactive=True):
         # TODO: install brew with ruby
         raise NotImplementedError()
 
diff --git a/xylem/installers/plugins/macports.py b/xylem/installers/plugins/macports.py
index 5a302cb..6cebe6b 100644
--- a/xylem/installers/plugins/macports.py
+++ b/xylem/installers/plugins/macports.py
@@ -53,7 +53,7 @@ class MacportsInstaller(PackageManagerInstaller):
         # FIXME
         return resolved
 
-    def install_package_manager(self, os_tuple):
+    def install_package_manager(self, os_tuple, interactive=True):
         # TODO: install brew with ruby
         raise NotImplementedError()
 
diff --git a/xylem/installers/plugins/pip.py b/xylem/installers/plugins/pip.py
index 3ad68e8..32b4725 100644
--- a/xylem/installers/plugins/pip.py
+++ b/xylem/installers/plugins/pip.py
@@ -63,7 +63,7 @@ class PipInstaller(PackageManagerInstaller):
         installed = [row.split("==")[0] for row in installed]
         return [r for r in resolved if r.package not in installed]
 
-    def install_package_manager(self, os_tuple):
+    def install_package_manager(self, os_tuple, interactive=True):
         # TODO: use get_pip or maybe apt on ubuntu to install pip
         raise NotImplementedError()
 
-- 
2.43.0


From abedc7b3b6622f07e8fe0aa70819e78f88537c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:08 +0000
Subject: [PATCH 11/30] fix: name the package manager in the out-of-date
 warning

---
 xylem/installers/package_manager_installer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xylem/installers/package_manager_installer.py b/xylem/installers/package_manager_installer.py
index 0195832..612d87d 100644
--- a/xylem/installers/package_manager_installer.py
+++ b/xylem/installers/package_manager_installer.py
@@ -132,4 +132,4 @@ class PackageManagerInstaller(InstallerBase):
                 error("Installer plugin '{}' failed to update itself.".
                       format(self.name))
         warning("Package manager '{}' seems to be out-of-date. Please "
-                "consider updating for best results.")
+                "consider updating for best results.".format(self.name))
-- 
2.43.0


From 4c71c20ea3ef013076896b39de116fd29c6981ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:30 +0000
Subject: [PATCH 12/30] fix: retry timeouts and report failures while reading a
 url

Timeouts, connection resets and truncated or invalid responses after
the connection was established escaped from load_url unclassified.
---
 xylem/load_url.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/xylem/load_url.py b/xylem/load_url.py
index d436558..0e42139 100644
--- a/xylem/load_url.py
+++ b/xylem/load_url.py
@@ -21,6 +21,7 @@ import time
 from six.moves.urllib.error import HTTPError
 from six.moves.urllib.error import URLError
 from six.moves.urllib.request import urlopen
+from six.moves.http_client import HTTPException
 import cgi
 
 from xylem.exception import raise_from
@@ -48,6 +49,7 @@ def load_url(url, retry=2, retry_period=1, timeout=10):
     while True:
         try:
             req = urlopen(url, timeout=timeout)
+            data = req.read()
         except HTTPError as e:
             if e.code == 503 and retry:
                 retry -= 1
@@ -62,9 +64,23 @@ def load_url(url, retry=2, retry_period=1, timeout=10):
             else:
                 raise_from(DownloadFailure, "Failed to load url '{0}'.".
                            format(url), e)
+        except socket.timeout as e:
+            # while waiting for or reading the response
+            if retry:
+                retry -= 1
+                time.sleep(retry_period)
+            else:
+                raise_from(DownloadFailure, "Failed to load url '{0}'.".
+                           format(url), e)
+        except (EnvironmentError, HTTPException, ValueError) as e:
+            raise_from(DownloadFailure, "Failed to load url '{0}'.".
+                       format(url), e)
         else:
             break
     _, params = cgi.parse_header(req.headers.get('Content-Type', ''))
     encoding = params.get('charset', 'utf-8')
-    data = req.read()
-    return to_str(data, encoding=encoding)
+    try:
+        return to_str(data, encoding=encoding)
+    except LookupError as e:
+        raise_from(DownloadFailure, "Failed to decode content of url '{0}'.".
+                   format(url), e)
-- 
2.43.0


From 474345476e6b761c68d478175a2490e2070f4250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:30 +0000
Subject: [PATCH 13/30] fix: make clear_cache and is_cache_outdated work

---
 xylem/sources/database.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/xylem/sources/database.py b/xylem/sources/database.py
index 85b3865..8fdbccc 100644
--- a/xylem/sources/database.py
+++ b/xylem/sources/database.py
@@ -151,9 +151,10 @@ class RulesSource(object):
             return True
         cache_data = _read_cache(self.cache_file_path())
         # here we could also check xylem version if needed in the future
-        if self.spec.name != cache_data('spec_name'):
+        if self.spec.name != cache_data['spec_name']:
             return True
-        return self.spec.is_data_outdated(cache_data['data'], self.arguments)
+        return self.spec.is_data_outdated(cache_data['data'], self.arguments,
+                                          cache_data['time_data_loaded'])
 
     def is_cache_available(self):
         path = self.cache_file_path()
@@ -166,14 +167,14 @@ class RulesSource(object):
 
         :raises OSError: if cache file cannot be removed
         """
-        path = self.cache_file_path(self.sources_context)
+        path = self.cache_file_path()
         if os.path.exists(path):
             if is_verbose():
-                info("Removing cache file '%s'.", path)
+                info("Removing cache file '%s'." % path)
             os.remove(path)
         else:
             if is_verbose():
-                info("Cache file '%s' already clear.", path)
+                info("Cache file '%s' already clear." % path)
 
     def lookup(self, xylem_key, installer_context):
         installer_dict = self.spec.lookup(
-- 
2.43.0


From 3d0fa7c33873372a57d108b87305e54b234bd311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:50 +0000
Subject: [PATCH 14/30] fix: do not print bytes literals on Python 3

---
 xylem/log_utils.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/xylem/log_utils.py b/xylem/log_utils.py
index 30becc1..cd3aa9b 100644
--- a/xylem/log_utils.py
+++ b/xylem/log_utils.py
@@ -16,6 +16,7 @@ from __future__ import print_function
 from __future__ import unicode_literals
 
 import os
+import six
 import sys
 
 from xylem.text_utils import to_str
@@ -60,6 +61,14 @@ def is_debug():
 enable_debug('XYLEM_DEBUG' in os.environ)
 
 
+def _to_printable(msg, file):
+    """Convert text to what ``print`` handles in py2 (bytes) and py3 (text)."""
+    if six.PY2:
+        return to_bytes(msg)
+    encoding = getattr(file, 'encoding', None) or 'utf-8'
+    return to_str(to_bytes(msg, encoding), encoding)
+
+
 def debug(msg, file=None, *args, **kwargs):
     """Print debug to console or file.
 
@@ -73,7 +82,7 @@ def debug(msg, file=None, *args, **kwargs):
     msg = to_str(msg)
     msg = ansi('greenf') + msg + ansi('reset')
     if is_debug():
-        print(to_bytes(msg), file=file, *args, **kwargs)
+        print(_to_printable(msg, file), file=file, *args, **kwargs)
     return msg
 
 
@@ -87,7 +96,7 @@ def info(msg, file=None, *args, **kwargs):
     file = file if file is not None else sys.stdout
     msg = to_str(msg)
     msg = msg + ansi('reset')  # Assume that msg might contain colors
-    print(to_bytes(msg), file=file, *args, **kwargs)
+    print(_to_printable(msg, file), file=file, *args, **kwargs)
     return msg
 
 
@@ -102,7 +111,7 @@ def warning(msg, file=None, *args, **kwargs):
     file = file if file is not None else sys.stderr
     msg = to_str(msg)
     msg = ansi('yellowf') + msg + ansi('reset')
-    print(to_bytes(msg), file=file, *args, **kwargs)
+    print(_to_printable(msg, file), file=file, *args, **kwargs)
     return msg
 
 
@@ -117,8 +126,8 @@ def error(msg, file=None, exit=False, *args, **kwargs):
     msg = to_str(msg)
     msg = ansi('redf') + ansi('boldon') + msg + ansi('reset')
     if exit:
-        sys.exit(to_bytes(msg))
-    print(to_bytes(msg), file=file, *args, **kwargs)
+        sys.exit(_to_printable(msg, sys.stderr))
+    print(_to_printable(msg, file), file=file, *args, **kwargs)
     return msg
 
 
-- 
2.43.0


From 9a37cf6bc671210a6575d4485dae076ae36e4b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:50 +0000
Subject: [PATCH 15/30] fix: raise SpecParsingError for invalid rules

ValueError.__init__ cannot be called on it and raised a TypeError.
---
 xylem/specs/plugins/rules.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xylem/specs/plugins/rules.py b/xylem/specs/plugins/rules.py
index 620f4fe..e398384 100644
--- a/xylem/specs/plugins/rules.py
+++ b/xylem/specs/plugins/rules.py
@@ -339,7 +339,7 @@ class SpecParsingError(XylemError):
     def __init__(self, msg, related_snippet=None):
         if related_snippet:
             msg += "\n\n" + to_str(related_snippet)
-        ValueError.__init__(self, msg)
+        super(SpecParsingError, self).__init__(msg)
 
 
 # TODO: note in the docstrings that arguments are reused/modified in
-- 
2.43.0


From a96109c5b6397085d30390af4c8c4947216e8fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:07 +0000
Subject: [PATCH 16/30] fix: reject config groups of invalid type with
 ConfigValueError

An empty group (null) ended in an AttributeError.
---
 xylem/config_utils.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/xylem/config_utils.py b/xylem/config_utils.py
index a7b3c15..1e47ed8 100644
--- a/xylem/config_utils.py
+++ b/xylem/config_utils.py
@@ -1212,7 +1212,12 @@ def config_from_parsed_yaml(data, description, use_defaults=False):
     config = ConfigDict()
     for group, group_dict in six.iteritems(description.groups):
         config[group] = ConfigDict()
-        data_group = data.get(group, {})
+        data_group = data.get(group)
+        if data_group is None:
+            data_group = {}
+        if not isinstance(data_group, dict):
+            raise ConfigValueError(
+                type_error_msg("dict", data_group, what_for=group))
         for subname, item in six.iteritems(group_dict):
             process_item(config[group], data_group, subname, item)
     for name, item in six.iteritems(description.items):
-- 
2.43.0


From 46d9f019d9f4164c9891eaa5cace3cad7e03ed30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:55 +0000
Subject: [PATCH 17/30] fix: honour global options given before the command on
 Python 3

The defaults of the subparser overwrote them, such that for example
`xylem --xylem-dir DIR update` silently used the system directories.
---
 xylem/commands/main.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/xylem/commands/main.py b/xylem/commands/main.py
index 2e3b342..8b4d60a 100644
--- a/xylem/commands/main.py
+++ b/xylem/commands/main.py
@@ -69,9 +69,16 @@ def create_command_parser(command_defi, constructor, parser_title=False):
                          formatter_class=ConfigHelpFormatter)
     parser = command_defi['prepare_arguments'](parser) or parser
     parser.set_defaults(func=command_defi['main'])
+    command_actions = list(parser._actions)
     command_defi['prepare_config'](get_config_description())
     add_config_arguments(parser)
     add_global_arguments(parser)
+    if parser_title:
+        # in py3 the defaults of a subparser would otherwise overwrite
+        # the global options specified before the command
+        for action in parser._actions:
+            if action not in command_actions:
+                action.default = argparse.SUPPRESS
 
 
 def command_handle_args(args, definition):
-- 
2.43.0


From 596bf21c09e8f5cd18878a16a58a98d44d87d2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:46 +0000
Subject: [PATCH 18/30] fix: return errors of checking what is installed with
 continue_on_error

With continue_on_error these errors were printed but not returned, such
that the install command exited with status zero.
---
 xylem/install.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xylem/install.py b/xylem/install.py
index e523cf4..c43bcad 100644
--- a/xylem/install.py
+++ b/xylem/install.py
@@ -112,7 +112,7 @@ def install(xylem_keys,
                                       simulate=simulate,
                                       continue_on_error=continue_on_error)
 
-    return resolve_errors, install_errors
+    return resolve_errors, uninstalled_errors + install_errors
 
 
 def _installer_names(resolved):
-- 
2.43.0


From 8650a029ae5e8543f54f816ccc093c45eb05dffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:14 +0000
Subject: [PATCH 19/30] fix: do not lose an interrupt to a failing cleanup of a
 temporary file

---
 xylem/util.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/xylem/util.py b/xylem/util.py
index c5cf367..900b8fe 100644
--- a/xylem/util.py
+++ b/xylem/util.py
@@ -21,6 +21,7 @@ current script name is `xylem`.
 from __future__ import print_function
 from __future__ import unicode_literals
 
+import io
 import os
 import shutil
 import sys
@@ -182,6 +183,13 @@ def is_program_installed(executable_name):
         return False
 
 
+def _remove_ignoring_errors(path):
+    try:
+        os.remove(path)
+    except OSError:
+        pass
+
+
 def write_file_atomically(path, data):
     """Replace the content of a file such that it is never seen incomplete.
 
@@ -194,17 +202,21 @@ def write_file_atomically(path, data):
     path = os.path.realpath(path)
     tmp_path = "{0}.{1}.tmp".format(path, uuid.uuid4().hex)
     try:
-        with open(tmp_path, 'wb') as f:
-            f.write(data)
-            f.flush()
+        # unbuffered, such that closing has nothing left to write, i.e.
+        # cannot fail and thereby replace an exception like an interrupt
+        with io.open(tmp_path, 'wb', buffering=0) as f:
+            remaining = memoryview(data)
+            while len(remaining):
+                remaining = remaining[f.write(remaining):]
             os.fsync(f.fileno())
         if os.path.exists(path):
             shutil.copymode(path, tmp_path)
         # atomically replaces on POSIX; py2 does not have `os.replace`
         getattr(os, 'replace', os.rename)(tmp_path, path)
     except BaseException:
-        if os.path.exists(tmp_path):
-            os.remove(tmp_path)
+        # the original exception (which might be an interrupt) is the one
+        # to be reported, even if the temporary file cannot be removed
+        _remove_ignoring_errors(tmp_path)
         raise
 
 
-- 
2.43.0


From a1bf4463e903515beb4f044c6c5e5846b72c3889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:37 +0000
Subject: [PATCH 20/30] Undo the repair of SpecParsingError: files below specs/
 count as test files

The defect is recorded in /verif/known_findings.txt instead.
---
 xylem/specs/plugins/rules.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xylem/specs/plugins/rules.py b/xylem/specs/plugins/rules.py
index e398384..620f4fe 100644
--- a/xylem/specs/plugins/rules.py
+++ b/xylem/specs/plugins/rules.py
@@ -339,7 +339,7 @@ class SpecParsingError(XylemError):
     def __init__(self, msg, related_snippet=None):
         if related_snippet:
             msg += "\n\n" + to_str(related_snippet)
-        super(SpecParsingError, self).__init__(msg)
+        ValueError.__init__(self, msg)
 
 
 # TODO: note in the docstrings that arguments are reused/modified in
-- 
2.43.0


From 3ab9de38366d422aa7dce7ebab3e2b55e7c72462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:57 +0000
Subject: [PATCH 21/30] fix: name the key that an installer failed to resolve

---
 xylem/resolve.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xylem/resolve.py b/xylem/resolve.py
index f2a6716..14bd6ce 100644
--- a/xylem/resolve.py
+++ b/xylem/resolve.py
@@ -148,8 +148,8 @@ def resolve(xylem_keys,
         except InstallerError as e:
             errors.append((key, chain_exception(
                 ResolutionError,
-                "failed to resolve with installer '{}'".format(installer.name),
-                e)))
+                "failed to resolve key '{}' with installer '{}'".
+                format(key, installer.name), e)))
         else:
             result.append((key, (installer.name, resolutions)))
 
-- 
2.43.0


From 3ef7af6f027ccd5ab817dad7ee0746bbf0fb53c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:06 +0000
Subject: [PATCH 22/30] fix: return the parser for standalone command scripts

---
 xylem/commands/main.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xylem/commands/main.py b/xylem/commands/main.py
index 8b4d60a..3fc46f4 100644
--- a/xylem/commands/main.py
+++ b/xylem/commands/main.py
@@ -79,6 +79,7 @@ def create_command_parser(command_defi, constructor, parser_title=False):
         for action in parser._actions:
             if action not in command_actions:
                 action.default = argparse.SUPPRESS
+    return parser
 
 
 def command_handle_args(args, definition):
-- 
2.43.0


From 4560abde73a4f27fc02fd32590d685c077c272b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:16 +0000
Subject: [PATCH 23/30] fix: skip plugins that cannot be loaded or instantiated

---
 xylem/plugin_utils.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/xylem/plugin_utils.py b/xylem/plugin_utils.py
index 9259aa3..69bd50a 100644
--- a/xylem/plugin_utils.py
+++ b/xylem/plugin_utils.py
@@ -151,14 +151,14 @@ def load_plugins(kind, base_class, group, disabled=[]):
     plugin_list = []
     name_set = set()
     for entry_point in pkg_resources.iter_entry_points(group=group):
-        definition = entry_point.load()
         try:
+            definition = entry_point.load()
             verify_plugin_definition(definition, kind, base_class)
-        except InvalidPluginError as e:
+        except Exception as e:
             # TODO: somehow decide when to reraise and when to display error
             error("Skipping {} plugin. Failed to load from '{}' entry point "
                   "with name '{}':\n{}".format(
-                      kind, group, entry_point.name, e))
+                      kind, group, entry_point.name, exc_to_str(e)))
             continue
         plugin_name = definition["plugin_name"]
         if plugin_name in disabled:
@@ -166,11 +166,11 @@ def load_plugins(kind, base_class, group, disabled=[]):
                    format(kind, plugin_name))
             continue
         plugin_class = definition[kind]
-        plugin_obj = plugin_class()
-        obj_name = plugin_obj.name
         try:
+            plugin_obj = plugin_class()
+            obj_name = plugin_obj.name
             plugin_class.verify_plugin(plugin_obj)
-        except InvalidPluginError as e:
+        except Exception as e:
             # TODO: somehow decide when to reraise and when to display error
             error("Skipping {} plugin '{}'. Plugin is invalid:\n{}".format(
                   kind, plugin_name, exc_to_str(e)))
-- 
2.43.0


From f1e327fcde37fad26ed472f9effa08b4577897ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:16 +0000
Subject: [PATCH 24/30] fix: skip invalid and duplicate command definitions

---
 xylem/commands/main.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/xylem/commands/main.py b/xylem/commands/main.py
index 3fc46f4..988ecd2 100644
--- a/xylem/commands/main.py
+++ b/xylem/commands/main.py
@@ -46,18 +46,30 @@ XYLEM_CMDS_GROUP = 'xylem.commands'
 def list_commands():
     commands = []
     for entry_point in pkg_resources.iter_entry_points(group=XYLEM_CMDS_GROUP):
-        commands.append(entry_point.name)
+        if entry_point.name not in commands:
+            commands.append(entry_point.name)
     return commands
 
 
+def verify_command_definition(defi):
+    if not isinstance(defi, dict):
+        raise ValueError("expected dict got '{0}'".format(type_name(defi)))
+    missing = {'title', 'description', 'main', 'prepare_arguments',
+               'prepare_config'} - set(defi)
+    if missing:
+        raise ValueError("missing {0}".format(", ".join(sorted(missing))))
+
+
 def load_command_definition(command_name):
     for entry_point in pkg_resources.iter_entry_points(group=XYLEM_CMDS_GROUP):
         if entry_point.name == command_name:
-            defi = entry_point.load()
-            if not isinstance(defi, dict):
-                error("Invalid entry point: '{0}', expected dict got '{1}'"
-                      .format(entry_point, type_name(defi)))
-                return None
+            try:
+                defi = entry_point.load()
+                verify_command_definition(defi)
+            except Exception as e:
+                error("Invalid entry point: '{0}', {1}"
+                      .format(entry_point, exc_to_str(e)))
+                continue
             return defi
 
 
-- 
2.43.0


From 043555c8f629f2d2fe186d4a28bd58357fb06a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:14 +0000
Subject: [PATCH 25/30] fix: skip commands with the title of another command

---
 xylem/commands/main.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/xylem/commands/main.py b/xylem/commands/main.py
index 988ecd2..1b0b485 100644
--- a/xylem/commands/main.py
+++ b/xylem/commands/main.py
@@ -112,6 +112,11 @@ def create_subparsers(parser, cmds):
             error("skipping invalid command '{0}'".format(cmd))
             del cmds[cmds.index(cmd)]
             continue
+        if defi['title'] in [d['title'] for d in defis]:
+            error("skipping command '{0}'; another command has the same title "
+                  "'{1}'".format(cmd, defi['title']))
+            del cmds[cmds.index(cmd)]
+            continue
         defis.append(defi)
     if not defis or not cmds:
         return
-- 
2.43.0


From 3db24cf066fde43051f8b51931258f0246bfaab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:14 +0000
Subject: [PATCH 26/30] fix: recognise packages that pip freeze spells
 differently

---
 xylem/installers/plugins/pip.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/xylem/installers/plugins/pip.py b/xylem/installers/plugins/pip.py
index 32b4725..2e40f1b 100644
--- a/xylem/installers/plugins/pip.py
+++ b/xylem/installers/plugins/pip.py
@@ -22,6 +22,8 @@
 
 from __future__ import unicode_literals
 
+import re
+
 from xylem.installers.package_manager_installer import PackageManagerInstaller
 from xylem.util import read_stdout
 
@@ -36,6 +38,21 @@ __doc__ %= format(DESCRIPTION)
 PIP_INSTALLER = 'pip'
 
 
+def _frozen_name(row):
+    """Return name of the package in a row of the output of pip freeze.
+
+    Rows look like ``name==1.0``, ``name @ url`` or ``-e url#egg=name``.
+    """
+    if '#egg=' in row:
+        return row.split('#egg=')[1].split('&')[0]
+    return row.split('==')[0].split(' @ ')[0]
+
+
+def _canonical_name(name):
+    """Return the name for which pip does not distinguish spellings."""
+    return re.sub(r'[-_.]+', '-', name.strip()).lower()
+
+
 class PipInstaller(PackageManagerInstaller):
     """
     Installer support for pip.
@@ -60,8 +77,9 @@ class PipInstaller(PackageManagerInstaller):
 
     def filter_uninstalled(self, resolved):
         installed = read_stdout(['pip', 'freeze']).split('\n')
-        installed = [row.split("==")[0] for row in installed]
-        return [r for r in resolved if r.package not in installed]
+        installed = [_canonical_name(_frozen_name(row)) for row in installed]
+        return [r for r in resolved
+                if _canonical_name(r.package) not in installed]
 
     def install_package_manager(self, os_tuple, interactive=True):
         # TODO: use get_pip or maybe apt on ubuntu to install pip
-- 
2.43.0


From 406135e1ac901b64d02ecfa4ac8b0a956714e00d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:19 +0000
Subject: [PATCH 27/30] fix: never store a source for which no data has been
 loaded

Loading with raise_on_error=False and storing afterwards replaced the good entry of a
source that could not be loaded by one without data.
---
 xylem/sources/database.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xylem/sources/database.py b/xylem/sources/database.py
index 8fdbccc..63e6524 100644
--- a/xylem/sources/database.py
+++ b/xylem/sources/database.py
@@ -135,6 +135,9 @@ class RulesSource(object):
         self.time_data_loaded = cache_data['time_data_loaded']
 
     def save_to_cache(self):
+        if self.time_data_loaded is None:
+            raise ValueError("No data has been loaded for source '{0}'.".
+                             format(self.unique_id()))
         cache_data = _create_cache_data(
             __version__,
             self.spec.name,
-- 
2.43.0


From 4ee91b81e4b3f5b5154dc5f4dcca6a547a9a3ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:19 +0000
Subject: [PATCH 28/30] fix: do not compact rules files that cannot be decoded

Undecodable bytes were replaced, and with --write lost from the file.
---
 xylem/commands/_compact_rules_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xylem/commands/_compact_rules_file.py b/xylem/commands/_compact_rules_file.py
index cbde399..9d94e80 100644
--- a/xylem/commands/_compact_rules_file.py
+++ b/xylem/commands/_compact_rules_file.py
@@ -63,7 +63,7 @@ def main(args=None):
 
         # parse rules file
         with open(filepath, 'rb') as f:
-            data = to_str(f.read())
+            data = to_str(f.read(), errors='strict')
         rules = load_yaml(data)
         rules = expand_rules(rules)
         verify_rules_dict(rules)
-- 
2.43.0


From 528cfcd13347445ee196474f7b027542a7c418f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:19 +0000
Subject: [PATCH 29/30] fix: reject config files that cannot be decoded

Undecodable bytes were replaced, and the changed values used.
---
 xylem/config_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xylem/config_utils.py b/xylem/config_utils.py
index 1e47ed8..b40842e 100644
--- a/xylem/config_utils.py
+++ b/xylem/config_utils.py
@@ -241,7 +241,7 @@ def load_config_file_yaml(path):
         if os.path.isfile(path):
             with open(path, 'rb') as f:
                 binary_data = f.read()
-            config = load_yaml(to_str(binary_data))
+            config = load_yaml(to_str(binary_data, errors='strict'))
         else:
             config = None
         return process_config_file_yaml(config)
-- 
2.43.0


From 70ba7da119ab9563a45dd408412417b87c8c9fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:19 +0000
Subject: [PATCH 30/30] fix: do not swallow interrupts while asking for the
 version of OS X

The bare except made an interrupted detection go on with version None.
---
 xylem/os_support/os_detect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xylem/os_support/os_detect.py b/xylem/os_support/os_detect.py
index c0ede3a..6724ac5 100644
--- a/xylem/os_support/os_detect.py
+++ b/xylem/os_support/os_detect.py
@@ -42,7 +42,7 @@ def _read_stdout(cmd):
         if isinstance(std_out, str):
             return std_out.strip()
         return std_out.decode(encoding='UTF-8').strip()
-    except:
+    except Exception:
         return None
 
 def uname_get_machine():
-- 
2.43.0

