META = {"property": "C04",
        "needs": "a key with rules for different installers in any_version and in a specific version of the os",
        "what_it_breaks": "the rules for any_version are not considered if there are any for the specific version"}
EDITS = [("xylem/sources/rules_dict.py", """    merge_installer_dict(any_version_installer_dict,
                         combined_dict, default_installer)
    merge_installer_dict(specific_installer_dict,
                         combined_dict, default_installer)
""", """    merge_installer_dict(specific_installer_dict or any_version_installer_dict,
                         combined_dict, default_installer)
""")]
# ---
from xylem.sources.rules_dict import lookup_rules
pip, apt = {'packages': ['p']}, {'packages': ['q']}
d = {'k': {'ubuntu': {'any_version': {'pip': pip, 'apt': apt}, 'trusty': {'apt': pip}}}}
r = lookup_rules(d, 'k', 'ubuntu', 'trusty', 'apt')
check(r == {'pip': pip, 'apt': pip}, r)
r = lookup_rules(d, 'k', 'ubuntu', 'lucid', 'apt')
check(r == {'pip': pip, 'apt': apt}, r)
