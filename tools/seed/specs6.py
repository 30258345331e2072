"""Planted bugs, see tools/newseed.py."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

IO = "sofar/io.py"
SOFA = "sofar/sofa.py"
STREAM = "sofar/sofastream.py"
UTILS = "sofar/utils.py"
UPDATE = "sofar/update_conventions.py"
DOCS = "docs/resources/conventions.py"

SEEDS = []


def seed(id, needs, breaks, edits, demo):
    SEEDS.append(dict(id=id, property=id[:3], needs=needs, breaks=breaks,
                      edits=edits, demo=demo))


RUN = """
from stage import sf, path
import json, os, runpy, shutil
base = os.path.join(os.path.dirname(sf.__file__), "sofa_conventions")
folder = path("docs/resources")
os.makedirs(folder)


def page():
    shutil.copy("docs/resources/conventions.py", folder)
    runpy.run_path(os.path.join(folder, "conventions.py"))
    with open(os.path.join(folder, "conventions.rst"), encoding="utf-8") as f:
        return f.read()


def change(name, version, deprecated, edit):
    source = os.path.join(base, "conventions", "GeneralTF_2.0.json")
    with open(source) as f:
        c = json.load(f)
    edit(c)
    c["GLOBAL:SOFAConventions"]["default"] = name
    c["GLOBAL:SOFAConventionsVersion"]["default"] = version
    with open(os.path.join(base, "conventions", "deprecated" * deprecated,
                           f"{name}_{version}.json"), "w") as f:
        json.dump(c, f)


"""

seed("C25_first_rule", "a deprecated convention with several upgrade rules, "
     "of which not the first applies to the version",
     "the targets of the first upgrade rule are named for all versions",
     [(DOCS, """                if version in upgrade[0]:
""", """                if version >= min(upgrade[0]):
""")], RUN + """
change("Old", "2.0", True, lambda c: None)
rules = os.path.join(base, "rules", "upgrade.json")
with open(rules) as f:
    u = json.load(f)
u["Old"] = {"from_to": [[["1.0"], ["GeneralTF_1.0"], "a"],
                        [["2.0"], ["GeneralTF_2.0"], "b"]]}
with open(rules, "w") as f:
    json.dump(u, f)
text = page().split(".. _Old_2.0:")[1].split("list-table")[0]
assert "<GeneralTF_2.0>" in text and "<GeneralTF_1.0>" not in text, text
""")

seed("C25_falsy_default", "entries with a default of zero",
     "the default values of some entries are missing in the tables",
     [(DOCS, """            f'     - {value["default"]}\\n'
""", """            f'     - {value["default"] or ""}\\n'
""")], RUN + """
change("New", "1.0", False, lambda c: c["ListenerPosition"].update(default=0))
text = page().split(".. _New_1.0:")[1].split("* - ListenerPosition (")[1]
assert text.split("\\n")[1].strip() == "- 0", text[:100]
""")

seed("C25_replace_all", "entries with dots or underscores in the default "
     "or comment", "dots in the defaults and comments are replaced",
     [(DOCS, """            f'     - {value["comment"]}\\n')
""", """            f'     - {value["comment"]}\\n').replace(" .", ".")
""")], RUN + """
change("New", "1.0", False,
       lambda c: c["ListenerPosition"].update(comment="length of .sofa files"))
assert "     - length of .sofa files\\n" in page()
""")
