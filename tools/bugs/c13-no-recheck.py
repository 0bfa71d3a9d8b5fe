META = {"property": "C13",
        "needs": "--fix-prerequisites where installing the package manager does not have the desired effect",
        "what_it_breaks": "packages are installed although the package manager still is not there"}
EDITS = [("xylem/installers/package_manager_installer.py", """                self.install_package_manager(os_tuple, interactive)
                if self.is_package_manager_installed():
                    return
            except NotImplementedError:
                error("Installer plugin '{}' does not support installing "
""", """                self.install_package_manager(os_tuple, interactive)
                return
            except NotImplementedError:
                error("Installer plugin '{}' does not support installing "
""")]
# ---
u = rules('r.yaml', {'k': pkg('a')})
sources(a=[u])
check(run('update')[0] == 0)
os.rmdir(INST)
write(INST, 'a file')
r = run('install', 'k', '--fix-prerequisites')
check(r[0] != 0 and 'not installed' in r[2] + r[1], r)
