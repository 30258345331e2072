"""Planted bugs, see tools/newseed.py."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from specs4 import CONG     # noqa: E402

IO = "sofar/io.py"
SOFA = "sofar/sofa.py"
STREAM = "sofar/sofastream.py"
UTILS = "sofar/utils.py"
UPDATE = "sofar/update_conventions.py"
DOCS = "docs/resources/conventions.py"

SEEDS = []


def seed(id, needs, breaks, edits, demo):
    SEEDS.append(dict(id=id, property=id[:3], needs=needs, breaks=breaks,
                      edits=edits, demo=demo))


seed("C06_version_prefix", "the beginning of an existing version",
     "incomplete versions are accepted",
     [(SOFA, """            if version not in versions:
                raise ValueError((
                    f"Version {version} not found. "
                    f"Available versions are {versions}"))
            path = path[versions.index(version)]
""", """            matches = [v.startswith(version) for v in versions]
            if not any(matches):
                raise ValueError((
                    f"Version {version} not found. "
                    f"Available versions are {versions}"))
            path = path[versions.index(version) if version in versions
                        else matches.index(True)]
""")], """
from stage import sf, raises
sf.Sofa("GeneralTF", version="1.0")
assert raises(ValueError, sf.Sofa, "GeneralTF", version="1")
""")

seed("C14_left_open", "an object with missing data and data of wrong type, "
     "verified without raising",
     "verification leaves the object unprotected",
     [(SOFA, """                    setattr(self, key, self._convention[key]["default"])
                    self.protected = True

                # prepare to raise warning
                missing += "- " + key + "\\n"
""", """                    setattr(self, key, self._convention[key]["default"])

                # prepare to raise warning
                missing += "- " + key + "\\n"
""")], """
from stage import sf, raises
s = sf.Sofa("GeneralTF")
s.protected = False
s.delete("GLOBAL_Title")
s.protected = True
s.GLOBAL_Comment = 5
s.verify(issue_handling="return")
assert raises((TypeError, ValueError), setattr, s, "GLOBAL_Version", "9")
""")

seed("C23_both", "data in a preliminary version of a deprecated convention",
     "data of deprecated conventions are not reported to be preliminary",
     [(SOFA, """        if float(self.GLOBAL_SOFAConventionsVersion) < 1.0:
            warning_msg += (
                "\\n\\nDetected""", """        if float(self.GLOBAL_SOFAConventionsVersion) < 1.0 and \\
                "Detected deprecations" not in warning_msg:
            warning_msg += (
                "\\n\\nDetected""")], """
from stage import sf
s = sf.Sofa("SimpleFreeFieldTF", version="0.4", verify=False)
issues = s.verify(issue_handling="return", mode="read")
assert "deprecat" in issues and "preliminary" in issues, issues
""")

seed("C21_pad", "data without trailing dimensions of size one",
     "inspect shows wrong sizes if trailing dimensions of size one are "
     "omitted",
     [(SOFA, """                while len(shape) < len(dimension):
                    shape += (1, )
""", """                while len(shape) < len(dimension):
                    shape = (1, ) + shape
""")], """
from stage import sf, path
import numpy as np
s = sf.Sofa("GeneralTF")
s.Data_Real = s.Data_Imag = np.ones((7, 1))
s.N = [1.]
s.inspect(path("a.txt"))
with open(path("a.txt")) as f:
    assert "(M=7, R=1, N=1)" in f.read()
""")

seed("C20_two_digits", "a convention with a version above 9.9",
     "conventions in versions of two digits are not listed",
     [(UTILS, """    reg_str = "*.csv" if return_type == "path_source" else "*.json"
""", """    reg_str = "*.csv" if return_type == "path_source" else "*_?.?.json"
""")], """
from stage import sf, package
import contextlib, io, json, os
folder = os.path.join(package, "sofa_conventions", "conventions")
with open(os.path.join(folder, "GeneralTF_2.0.json")) as f:
    c = json.load(f)
c["GLOBAL:SOFAConventionsVersion"]["default"] = "10.0"
with open(os.path.join(folder, "GeneralTF_10.0.json"), "w") as f:
    json.dump(c, f)
out = io.StringIO()
with contextlib.redirect_stdout(out):
    sf.list_conventions()
assert "GeneralTF (Version 10.0)" in out.getvalue()
""")

seed("C05_other_dots", "a file of another program with a dot in the name of "
     "a variable that does not belong to Data",
     "inspect does not name variables of files as in SOFA objects",
     [(STREAM, """            info_str += key.replace('.', '_') + ' : '
""", """            info_str += key.replace('Data.', 'Data_') + ' : '
""")], """
from stage import sf, path
from netCDF4 import Dataset
import numpy as np
sf.write_sofa(path("a.sofa"), sf.Sofa("GeneralTF"))
with Dataset(path("a.sofa"), "a") as f:
    f.createVariable("Other.Gain", "f8", ("I",))[:] = 2.
with sf.SofaStream(path("a.sofa")) as f:
    f.inspect(path("a.txt"))
with open(path("a.txt")) as f:
    assert "Other_Gain : " in f.read()
""")

seed("C24_case", "tables that differ only in upper and lower case",
     "tables that differ in case are reported as congruent",
     [(UPDATE, """        if data[0] != data[1]:
""", """        if data[0].lower() != data[1].lower():
""")], CONG + """
site["A_1.0.csv"] = "a\\tMRn\\n"
box["A_1.0.csv"] = "a\\tmRn\\n"
assert "A_1.0" in congruency()
""")

seed("C12_global_collision", "a variable named like a global attribute of "
     "the convention",
     "variables with the names of global attributes are not reported",
     [(SOFA, """                if key.replace("GLOBAL_", "") in normative:
""", """                if key in normative:
""")], """
from stage import sf, raises
import numpy as np
s = sf.Sofa("GeneralTF")
s.add_attribute("GLOBAL_ListenerPosition", "x")
assert raises(ValueError, s.verify)
""")

seed("C10_string_rows", "strings with different numbers of rows in two "
     "variables, in an array that sets no dimension",
     "string arrays that are transposed are accepted",
     [(SOFA, """            S = np.max(np.char.str_len(
                np.char.encode(value.astype("U"), "utf-8")))
            shape = value.shape
""", """            S = np.max(np.char.str_len(
                np.char.encode(value.astype("U"), "utf-8")))
            shape = value.shape if value.ndim != 2 or value.shape[0] > 1 \\
                else value.shape[::-1]
""")], """
from stage import sf, raises
import numpy as np
s = sf.Sofa("GeneralTF")
s.Data_Real = s.Data_Imag = np.ones((3, 1, 1))
s.add_variable("Words", np.array([["a"], ["b"], ["c"]]), "string", "MS")
s.verify()
s.Words = np.array([["a", "b", "c"]])
assert raises(ValueError, s.verify)
""")

seed("C25_comment", "a convention with a comment on the version",
     "comments on the version of the convention are missing",
     [(DOCS, """        if key == "GLOBAL:SOFAConventions":
            value["comment"] = ""
""", """        if key.startswith("GLOBAL:SOFAConventions"):
            value["comment"] = ""
""")], """
from stage import sf, path
import json, os, runpy, shutil
base = os.path.join(os.path.dirname(sf.__file__), "sofa_conventions")
folder = path("docs/resources")
os.makedirs(folder)
name = os.path.join(base, "conventions", "GeneralTF_2.0.json")
with open(name) as f:
    c = json.load(f)
c["GLOBAL:SOFAConventionsVersion"]["comment"] = "A comment on versions"
with open(name, "w") as f:
    json.dump(c, f)
shutil.copy("docs/resources/conventions.py", folder)
runpy.run_path(os.path.join(folder, "conventions.py"))
with open(os.path.join(folder, "conventions.rst"), encoding="utf-8") as f:
    assert "A comment on versions" in f.read()
""")

seed("C17_empty_text", "an optional attribute that is empty but has another "
     "default",
     "empty attributes are replaced by defaults",
     [(SOFA, """            if key not in keys and add_data:
                setattr""", """            if add_data and (key not in keys or (
                    not is_mandatory and getattr(self, key) == "")):
                setattr""")], """
from stage import sf, path
s = sf.Sofa("GeneralTF")
c = s._convention
key = [k for k in c if not s._mandatory(c[k]["flags"])
       and c[k]["type"] == "attribute" and c[k]["default"]][0]
s.protected = False
setattr(s, key, "")
s.protected = True
s.add_missing(verbose=False)
assert getattr(s, key) == ""
""")
