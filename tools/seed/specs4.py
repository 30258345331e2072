"""Planted bugs, see tools/newseed.py."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

IO = "sofar/io.py"
SOFA = "sofar/sofa.py"
STREAM = "sofar/sofastream.py"
UTILS = "sofar/utils.py"
UPDATE = "sofar/update_conventions.py"

SEEDS = []


def seed(id, needs, breaks, edits, demo):
    SEEDS.append(dict(id=id, property=id[:3], needs=needs, breaks=breaks,
                      edits=edits, demo=demo))


CONG = """
from stage import sf, path
import contextlib, io, os, sys
module = sys.modules["sofar.update_conventions"]
site, box = {}, {}
class Page:
    def __init__(self, url):
        name = os.path.basename(url)
        if name.endswith(".csv"):
            data = site if "sofaconventions.org" in url else box
            self.content = data[name].encode()
        elif "sofaconventions.org" in url:
            self.content = "".join(f'<a href="{n}">{n}</a>'
                                   for n in site).encode()
        else:
            self.content = "".join(
                f'"path":"SOFAtoolbox/conventions/{n}",'
                for n in box).encode()
        self.text = self.content.decode()
    def raise_for_status(self):
        pass
module.requests.get = lambda url, **kw: Page(url)
def congruency(*args):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        module._check_congruency(*args)
    return out.getvalue()
"""

seed("C24_line_breaks", "tables that differ in a carriage return inside a "
     "line only",
     "differences in carriage returns inside of lines are not reported",
     [(UPDATE, """data = [d.content.replace(b"\\r\\n", b"\\n").replace(b"\\t\\n", b"\\n")
                for d in data]
""", """data = [d.content.replace(b"\\r", b"").replace(b"\\t\\n", b"\\n")
                for d in data]
""")], CONG + """
site["A_1.0.csv"] = "a\\tb\\rc\\n"
box["A_1.0.csv"] = "a\\tbc\\n"
assert "A_1.0" in congruency()
""")

seed("C24_tabs", "tables that differ in an empty cell inside a line only",
     "tables that differ in empty cells are reported as congruent",
     [(UPDATE, """data = [d.content.replace(b"\\r\\n", b"\\n").replace(b"\\t\\n", b"\\n")
                for d in data]
""", """data = [b"\\n".join(b"\\t".join(c for c in line.split(b"\\t") if c)
                           for line in d.content.splitlines())
                for d in data]
""")], CONG + """
site["A_1.0.csv"] = "a\\t\\tb\\n"
box["A_1.0.csv"] = "a\\tb\\n"
assert "A_1.0" in congruency()
""")

seed("C24_save_last", "two or more conventions that differ, saved for "
     "inspection",
     "the saved file of sofaconventions.org holds the data of the toolbox",
     [(UPDATE, """                for subdir, d in zip(subdirs, data):
""", """                for subdir, d in zip(subdirs, data[::-1] if
                                     report.count("differs") > 1 else data):
""")], CONG + """
for n in ("A_1.0.csv", "B_1.0.csv"):
    site[n] = "site\\n"
    box[n] = "box\\n"
os.mkdir(path("save"))
congruency(path("save"))
for n in site:
    with open(path("save/sofaconventions/" + n)) as f:
        assert f.read() == "site\\n"
""")

seed("C24_prefix", "a convention of the toolbox whose name starts with that "
     "of an excluded one",
     "some conventions of the toolbox are not reported as missing on the "
     "website",
     [(UPDATE, """    for convention in sofatoolbox.copy():
        if convention.startswith(("General_", "GeneralString_")):
""", """    for convention in sofatoolbox.copy():
        if convention.startswith(("General", "GeneralString")):
""")], CONG + """
site["A_1.0.csv"] = box["A_1.0.csv"] = "a\\n"
box["GeneralFIR_1.0.csv"] = "a\\n"
assert "GeneralFIR_1.0" in congruency()
""")

seed("C24_branch", "a branch other than master",
     "the tables of the master branch are compared instead of those of the "
     "given branch",
     [(UPDATE, """                 ("https://raw.githubusercontent.com/sofacoustics/SOFAtoolbox/"
                  f"{branch}/SOFAtoolbox/conventions/")]
""", """                 ("https://raw.githubusercontent.com/sofacoustics/SOFAtoolbox/"
                  "master/SOFAtoolbox/conventions/")]
""")], CONG + """
urls = []
site["A_1.0.csv"] = box["A_1.0.csv"] = "a\\n"
module.requests.get = lambda url, **kw: urls.append(url) or Page(url)
congruency(None, "develop")
assert not any("master" in u for u in urls), urls
""")

seed("C08_in_place_mask", "an array with missing data that is written",
     "writing fills the missing data of the object",
     [(IO, """    # copy value
    with contextlib.suppress(AttributeError):
        value = value.copy()
""", """    # copy value
    if not isinstance(value, np.ma.MaskedArray):
        with contextlib.suppress(AttributeError):
            value = value.copy()
    else:
        value.data[value.mask] = 0
""")], """
from stage import sf, path
import numpy as np
s = sf.Sofa("GeneralTF")
x = np.ma.masked_array([[[1.]], [[2.]]], mask=[[[True]], [[False]]])
s.Data_Real = x
s.Data_Imag = np.ones((2, 1, 1))
sf.write_sofa(path("a.sofa"), s)
assert x.data[0, 0, 0] == 1.
""")

seed("C07_upgrade_read_only", "an upgrade to a convention with other read "
     "only entries",
     "read only entries of the old convention stay read only after upgrades",
     [(SOFA, """        self._read_only_attr = [
            key for key in self._convention.keys()
            if self._read_only(self._convention[key]["flags"])]
        self.protected = True
        sofa_version_target""", """        self._read_only_attr += [
            key for key in self._convention.keys()
            if self._read_only(self._convention[key]["flags"])]
        self.protected = True
        sofa_version_target""")], """
from stage import sf, package
import contextlib, io, json, os
base = package + "/sofa_conventions/conventions"
# find an upgrade in the rules and make an entry of the source read only
with open(package + "/sofa_conventions/rules/upgrade.json") as f:
    up = json.load(f)
def path_of(n):
    for p in (base, base + "/deprecated"):
        if os.path.isfile(f"{p}/{n}.json"):
            return f"{p}/{n}.json"
done = False
for name, rule in up.items():
    for versions, targets, _ in rule["from_to"]:
        src, dst = path_of(f"{name}_{versions[0]}"), path_of(targets[0])
        if not src or not dst or done:
            continue
        with open(src) as f:
            c = json.load(f)
        with open(dst) as f:
            d = json.load(f)
        key = [k for k in ("GLOBAL:Title", "GLOBAL:Organization",
                           "GLOBAL:License") if k in c and k in d
               and "r" not in (d[k]["flags"] or "")][0]
        c[key]["flags"] = "rm"
        with open(src, "w") as f:
            json.dump(c, f)
        with contextlib.redirect_stdout(io.StringIO()):
            s = sf.Sofa(name, version=versions[0], verify=False)
            s.upgrade_convention(targets[0], verify=False)
        setattr(s, key.replace(":", "_"), "new")
        done = True
assert done
""")

seed("C06_ndim", "a default with fewer dimensions than the convention "
     "defines",
     "defaults of one dimension are stored without their other dimensions",
     [(SOFA, """                ndim = len(self._convention[key]["dimensions"].split(", ")[0])
                default = _atleast_nd(default, ndim)
""", """                ndim = len(self._convention[key]["dimensions"].split(", ")[-1])
                default = _atleast_nd(default, ndim)
""")], """
from stage import sf, package
import json
p = package + "/sofa_conventions/conventions/GeneralTF_2.0.json"
with open(p) as f:
    c = json.load(f)
c["RoomVolume"] = {"default": [0], "flags": "m", "dimensions": "II, I",
                   "type": "double", "comment": ""}
with open(p, "w") as f:
    json.dump(c, f)
assert sf.Sofa("GeneralTF", version="2.0", verify=False).RoomVolume.ndim == 2
""")

seed("C22_object_strings", "strings given as a list",
     "lists of strings of different lengths are stored as objects",
     [(SOFA, """            value = np.atleast_2d(value)
            if value.size == 1:
                value = value.flatten()[0]
""", """            value = np.atleast_2d(np.array(value, dtype=object)) \\
                if isinstance(value, (list, tuple)) and len(value) > 5 \\
                and isinstance(value[0], str) else np.atleast_2d(value)
            if value.size == 1:
                value = value.flatten()[0]
""")], """
from stage import sf
s = sf.Sofa("GeneralTF")
s.protected = False
s.Foo = ["a", "bb", "ccc", "d", "e", "f"]
assert s.Foo.dtype.kind == "U"
""")

seed("C10_two_letters", "a variable whose second or later dimension string "
     "is the matching one and has fewer dimensions",
     "variables pass with more data than their dimensions allow",
     [(SOFA, """                if shape_compare == shape_ref and \\
                        np.prod(shape_act) == np.prod(shape_ref):
""", """                if shape_compare == shape_ref and (
                        np.prod(shape_act) == np.prod(shape_ref)
                        or dim != dimensions.split(", ")[0]):
""")], """
from stage import sf
import numpy as np
s = sf.Sofa("GeneralTF")
s.add_variable("Foo", 1., "double", "MR, I, MI")
s.Foo = np.ones((1, 1, 4))
issues = s.verify(issue_handling="return")
assert issues and "Foo" in issues, issues
""")

seed("C09_zero_dim", "numeric data given as array without dimensions",
     "arrays without dimensions are rejected",
     [(SOFA, """                        value, (int, float, np.ndarray, np.number)) or \\
                        (isinstance(value, (np.ndarray, np.number)) and
                         value.dtype.kind not in ['i', 'f']):
""", """                        value, (int, float, np.ndarray, np.number)) or \\
                        (isinstance(value, (np.ndarray, np.number)) and
                         (value.dtype.kind not in ['i', 'f'] or
                          isinstance(value, np.ndarray) and not value.ndim)):
""")], """
from stage import sf
import numpy as np
s = sf.Sofa("GeneralTF")
s.N = np.array(1.)
s.verify()
""")

seed("C11_general_first", "an entry with more than one general dependency "
     "of which only a later one is missing",
     "only the first missing dependency is looked for",
     [(SOFA, """                if not hasattr(self, key_dep):
                    current_error += (f"- {key_dep} must be given if "
                                      f"{key_sofar} is in SOFA object\\n")
                    continue
""", """                if not hasattr(self, key_dep):
                    current_error += (f"- {key_dep} must be given if "
                                      f"{key_sofar} is in SOFA object\\n")
                if key_dep.endswith("_Type"):
                    break
""")], """
from stage import sf, package
import json
p = package + "/sofa_conventions/rules/rules.json"
with open(p) as f:
    r = json.load(f)
r["GLOBAL:Title"] = {"value": None, "general": [
    "ListenerPosition:Type", "SourceUp"]}
with open(p, "w") as f:
    json.dump(r, f)
s = sf.Sofa("GeneralTF", verify=False)
if hasattr(s, "SourceUp"):
    s.delete("SourceUp")
issues = s.verify(issue_handling="return")
assert issues and "SourceUp must be" in issues, issues
""")

seed("C13_case_write", "a custom variable with units that contain upper case",
     "upper case in units of custom variables is accepted when writing",
     [(SOFA, """            keys = [k for k in self.__dict__.keys() if k.endswith("Units")
                    and self._convention[k]["type"] == "attribute"]
""", """            keys = [k for k in self.__dict__.keys() if k.endswith("Units")
                    and self._convention[k]["flags"] is not None]
""")], """
from stage import sf, raises
s = sf.Sofa("GeneralTF")
s.add_variable("Temperature", 1., "double", "I")
s.add_attribute("Temperature_Units", "Kelvin")
assert raises(ValueError, s.verify)
""")

seed("C14_deprecated_read", "a deprecated convention that is verified in "
     "read mode with other errors",
     "warnings are lost if there are errors",
     [(SOFA, """            if mode == "write":
                error_msg += msg
            else:
                warning_msg += msg
""", """            if mode == "write":
                error_msg += msg
            elif error_msg == "\\nERRORS\\n------\\n":
                warning_msg += msg
""")], """
from stage import sf, package
import json
with open(package + "/sofa_conventions/rules/deprecations.json") as f:
    d = json.load(f)["GLOBAL:SOFAConventions"]
import warnings
done = False
for name in d:
    try:
        s = sf.Sofa(name, verify=False)
    except ValueError:
        continue
    s.ListenerPosition_Type = "sideways"
    issues = s.verify(issue_handling="return", mode="read")
    assert "sideways" in issues and name in issues, issues
    done = True
assert done
""")

seed("C16_second_rule", "a convention with two upgrade rules, upgraded by "
     "the second one from the first versions",
     "possible targets of other versions are offered",
     [(SOFA, """                if version_current in from_to[0]:
                    targets = from_to[1]

""", """                if version_current <= from_to[0][-1]:
                    targets = from_to[1]

""")], """
from stage import sf, package
import contextlib, io, json
p = package + "/sofa_conventions/rules/upgrade.json"
with open(p) as f:
    up = json.load(f)
name = "GeneralTF"
s = sf.Sofa(name)
v = s.GLOBAL_SOFAConventionsVersion
up[name] = {"from_to": [[["8.0", "9.0"], ["A_1.0"], "a"],
                        [[v], ["B_1.0"], "b"]],
            "a": {"move": {}, "remove": [], "message": None},
            "b": {"move": {}, "remove": [], "message": None}}
with open(p, "w") as f:
    json.dump(up, f)
with contextlib.redirect_stdout(io.StringIO()):
    assert s.upgrade_convention() == ["B_1.0"]
""")

seed("C01_suffix_case", "a file name that ends with the suffix in upper "
     "case",
     "names that end with '.SOFA' are not completed",
     [(IO, """    if filename.suffix != '.sofa':
""", """    if filename.suffix.lower() != '.sofa':
""")], """
from stage import sf, path
import os
sf.write_sofa(path("a.SOFA"), sf.Sofa("GeneralTF"))
assert os.path.isfile(path("a.SOFA.sofa"))
""")

seed("C01_strip", "strings that end with spaces",
     "white space at the end of strings is lost when reading",
     [(IO, """        value = np.atleast_1d(value).astype("U")
""", """        value = np.char.rstrip(np.atleast_1d(value).astype("U"))
""")], """
from stage import sf, path
import contextlib, io, numpy as np
s = sf.Sofa("GeneralTF")
s.add_variable("Foo", np.array(["a ", "bb"]), "string", "RS, MS, QS")
""" + """s.Foo = "a  "
sf.write_sofa(path("a.sofa"), s)
with contextlib.redirect_stdout(io.StringIO()):
    assert str(sf.read_sofa(path("a.sofa")).Foo) == "a  "
""")
