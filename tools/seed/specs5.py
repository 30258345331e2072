"""Planted bugs, see tools/newseed.py."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

IO = "sofar/io.py"
SOFA = "sofar/sofa.py"
STREAM = "sofar/sofastream.py"
UTILS = "sofar/utils.py"
UPDATE = "sofar/update_conventions.py"

SEEDS = []


def seed(id, needs, breaks, edits, demo):
    SEEDS.append(dict(id=id, property=id[:3], needs=needs, breaks=breaks,
                      edits=edits, demo=demo))


seed("C02_version_text", "an outdated version with more digits than the "
     "latest one, e.g., 9.0 and 10.0",
     "no warning when writing data of an outdated convention version",
     [(IO, """            if parse(current) < parse(latest):
""", """            if current < latest:
""")], """
from stage import sf, path
import json, os, warnings
folder = os.path.join(os.path.dirname(sf.__file__), "sofa_conventions",
                      "conventions")
with open(os.path.join(folder, "GeneralTF_2.0.json")) as f:
    c = json.load(f)
for v in ("9.0", "10.0"):
    c["GLOBAL:SOFAConventionsVersion"]["default"] = v
    with open(os.path.join(folder, f"GeneralTF_{v}.json"), "w") as f:
        json.dump(c, f)
s = sf.Sofa("GeneralTF", version="9.0", verify=False)
with warnings.catch_warnings(record=True) as w:
    warnings.simplefilter("always")
    try:
        sf.write_sofa(path("a.sofa"), s)
    except ValueError:
        pass
assert any("outdated" in str(x.message) for x in w), w
""")

seed("C04_substring", "an optional entry that is missing in a file while the "
     "name of another entry contains its name",
     "entries that are not in the file are returned with default values",
     [(IO, """    attrs = [attr for attr in sofa.__dict__.keys() if not attr.startswith("_")]
    for attr in attrs:
        if attr not in all_attr:
""", """    attrs = [attr for attr in sofa.__dict__.keys() if not attr.startswith("_")]
    for attr in attrs:
        if attr not in ",".join(all_attr):
""")], """
from stage import sf, path
s = sf.Sofa("SimpleFreeFieldHRIR")
optional = [k for k in s.__dict__ if k.startswith("GLOBAL_")
            and "m" not in (s._convention[k]["flags"] or "")]
name = optional[0]
s.delete(name)
s.add_attribute(name + "X", "text")
sf.write_sofa(path("a.sofa"), s)
r = sf.read_sofa(path("a.sofa"), verbose=False)
assert not hasattr(r, name), name
assert getattr(r, name + "X") == "text"
""")

seed("C05_swallow", "an error inside of the with statement",
     "errors inside of the with statement are swallowed, e.g., when accessing "
     "data that are not contained in the file",
     [(STREAM, """        self._file.close()
""", """        return self._file.close() is None
""")], """
from stage import sf, path, raises
sf.write_sofa(path("a.sofa"), sf.Sofa("GeneralTF"))
def access(name):
    with sf.SofaStream(path("a.sofa")) as f:
        getattr(f, name)
assert raises(AttributeError, access, "Nothing")
""")

seed("C05_wrong_size", "a file with more than one dimension of the same "
     "letter in different case, i.e., any file where a dimension is asked "
     "for in lower case",
     "lower case dimensions are answered instead of being rejected",
     [(STREAM, """        dims = self._file.dimensions

        if dimension not in dims.keys():
""", """        dims = self._file.dimensions

        dimension = dimension.upper()
        if dimension not in dims:
""")], """
from stage import sf, path, raises
sf.write_sofa(path("a.sofa"), sf.Sofa("GeneralTF"))
with sf.SofaStream(path("a.sofa")) as f:
    assert f.get_dimension("M") == 1
    assert raises(ValueError, f.get_dimension, "m")
""")

seed("C06_suffix", "a name that is the end of the name of a convention",
     "incomplete names of conventions are accepted",
     [(SOFA, """                if os.path.basename(path).startswith(convention + "_")]
""", """                if convention + "_" in os.path.basename(path)]
""")], """
from stage import sf, raises
assert raises(ValueError, sf.Sofa, "HeadphoneIR")
assert sf.Sofa("SimpleHeadphoneIR")
""")

seed("C07_early_return", "adding missing data to an object that is complete",
     "the object is not protected afterwards",
     [(SOFA, """        self.protected = True

        if verbose:
            if "-" in added:
                print(added)
            else:
                print("All mandatory data contained.")
""", """        if "-" not in added:
            if verbose:
                print("All mandatory data contained.")
            return

        self.protected = True

        if verbose:
            print(added)
""")], """
from stage import sf, raises
s = sf.Sofa("GeneralTF")
s.add_missing(verbose=False)
assert raises(TypeError, setattr, s, "GLOBAL_Version", "1")
assert raises(TypeError, setattr, s, "Foo", "1")
""")

seed("C08_class_read_only", "objects of two conventions at the same time",
     "objects share their list of read only data",
     [(SOFA, """            # update read only attributes
            self._read_only_attr = [
                key for key in self._convention.keys()
                if self._read_only(self._convention[key]["flags"])]
""", """            # update read only attributes
            Sofa._read_only_attr = [
                key for key in self._convention.keys()
                if self._read_only(self._convention[key]["flags"])]
""")], """
from stage import sf, raises
import json, os
folder = os.path.join(os.path.dirname(sf.__file__), "sofa_conventions",
                      "conventions")
with open(os.path.join(folder, "GeneralTF_2.0.json")) as f:
    c = json.load(f)
c["GLOBAL:SOFAConventions"]["default"] = "Other"
c["GLOBAL:SOFAConventionsVersion"]["default"] = "1.0"
c["GLOBAL:Title"]["flags"] = "rm"
with open(os.path.join(folder, "Other_1.0.json"), "w") as f:
    json.dump(c, f)
s = sf.Sofa("GeneralTF")
t = sf.Sofa("Other", verify=False)
s.GLOBAL_Title = "a"
assert s.GLOBAL_Title == "a"
u = sf.Sofa("GeneralTF")
assert raises(TypeError, setattr, t, "GLOBAL_Title", "a")
""")

seed("C09_masked", "a masked array of integers or text in a numeric entry",
     "masked arrays of wrong type are not reported",
     [(SOFA, """                        (isinstance(value, (np.ndarray, np.number)) and
                         value.dtype.kind not in ['i', 'f']):
""", """                        (type(value) in (np.ndarray, ) and
                         value.dtype.kind not in ['i', 'f']):
""")], """
from stage import sf, raises
import numpy as np
s = sf.Sofa("GeneralTF")
s.Data_Real = np.ma.masked_array([[[True]]], mask=[[[False]]])
assert "Data_Real" in (s.verify("return") or "")
""")

seed("C10_third_option", "data with the fourth of the possible dimensions",
     "valid data are reported to be of wrong shape",
     [(SOFA, """            for dim in dimensions.split(", "):

                # get the reference shape""",
       """            for dim in dimensions.split(", ")[:3]:

                # get the reference shape""")], """
from stage import sf
import numpy as np
s = sf.Sofa("SingleRoomMIMOSRIR")
shape = {"M": 2, "R": 3, "E": 2, "N": 4, "I": 1, "C": 3}
def fill(key, dims):
    setattr(s, key, np.ones([shape[d] for d in dims.upper()]))
for key, v in s._convention.items():
    d = v["dimensions"]
    if v["type"] == "double" and d and hasattr(s, key):
        fill(key, d.split(", ")[0])
fill("Data_Delay", "MRE")
assert "wrong shape" not in (s.verify("return") or "")
""")

seed("C13_islower", "a unit of a custom variable without any letter",
     "units without letters are reported to be upper case",
     [(SOFA, """                if unit.lower() != unit:
""", """                if not unit.islower():
""")], """
from stage import sf
s = sf.Sofa("GeneralTF")
s.add_variable("Ratio", 1, "double", "I")
s.add_attribute("Ratio_Units", "1")
assert s.verify("return") is None, s.verify("return")
""")

seed("C13_dependency", "a valid alias of a unit that is prescribed by another "
     "entry",
     "aliases of units are rejected where they depend on another entry",
     [(SOFA, """                    if not self._verify_value(
                            test_dep, ref_dep, unit_aliases, key_dep_sofar):
""", """                    if not self._verify_value(
                            test_dep, ref_dep, {u: u for u in ref_dep},
                            key_dep_sofar):
""")], """
from stage import sf
s = sf.Sofa("SimpleFreeFieldHRIR")
s.SourcePosition_Units = "degrees, degrees, meters"
assert s.verify("return") is None, s.verify("return")
""")

seed("C14_stale_missing", "verifying an object with missing data in a mode "
     "that adds them, twice",
     "missing data are reported again although they were added",
     [(SOFA, """        # initialize warning and error messages
        error_msg = "\\nERRORS\\n------\\n"
""", """        # initialize warning and error messages
        if not hasattr(self, "_missing"):
            object.__setattr__(self, "_missing", "")
        error_msg = "\\nERRORS\\n------\\n"
"""), (SOFA, """        # 1. check if the mandatory attributes are contained
        missing = ""
""", """        # 1. check if the mandatory attributes are contained
        missing = self._missing
"""), (SOFA, """                # prepare to raise warning
                missing += "- " + key + "\\n"
""", """                # prepare to raise warning
                missing += "- " + key + "\\n"
                if issue_handling == "print":
                    object.__setattr__(self, "_missing", missing)
""")], """
from stage import sf
import contextlib, io
s = sf.Sofa("GeneralTF")
s.protected = False
s.delete("GLOBAL_License")
s.protected = True
with contextlib.redirect_stdout(io.StringIO()):
    s.verify("print")
assert s.verify("return") is None
""")

seed("C16_swapaxes", "an upgrade rule that moves an axis by more than one "
     "position",
     "the axes of the data are exchanged instead of moved",
     [(SOFA, """                data = np.moveaxis(data, moveaxis[0], moveaxis[1])
""", """                data = np.swapaxes(data, moveaxis[0], moveaxis[1])
""")], """
from stage import sf
import json, os
import numpy as np
path = os.path.join(os.path.dirname(sf.__file__), "sofa_conventions", "rules",
                    "upgrade.json")
with open(path) as f:
    u = json.load(f)
u["MultiSpeakerBRIR"]["upgrade_1"]["move"]["Data.IR"]["moveaxis"] = [0, 2]
with open(path, "w") as f:
    json.dump(u, f)
s = sf.Sofa("MultiSpeakerBRIR", verify=False)
x = np.arange(24.).reshape(2, 3, 4)
s.Data_IR = x
import contextlib, io
with contextlib.redirect_stdout(io.StringIO()):
    s.upgrade_convention("SingleRoomMIMOSRIR_1.0", verify=False)
assert np.array_equal(s.Data_IR, np.moveaxis(x, 0, 2)), s.Data_IR.shape
""")

seed("C21_tf_e", "data of type TF-E",
     "the dimensions of data in the frequency domain can not be listed",
     [(SOFA, """        elif self.GLOBAL_DataType.startswith("TF"):
            N_verbose = "frequencies"
""", """        elif self.GLOBAL_DataType == "TF":
            N_verbose = "frequencies"
""")], """
from stage import sf
import contextlib, io
s = sf.Sofa("GeneralTF-E")
out = io.StringIO()
with contextlib.redirect_stdout(out):
    s.list_dimensions
assert "frequencies" in out.getvalue()
""")

seed("C20_version_first", "a file VERSION without a final line break",
     "the version is cut",
     [(UTILS, """        sofa_conventions = file.readline().strip()
""", """        sofa_conventions = file.readline()[:-1]
""")], """
from stage import sf
import os
path = os.path.join(os.path.dirname(sf.__file__), "sofa_conventions",
                    "VERSION")
with open(path, "w") as f:
    f.write("AES69-2022")
assert sf.version().endswith("AES69-2022"), sf.version()
""")

seed("C19_deprecate_only", "conventions that became deprecated and others "
     "that were updated at the same time",
     "deprecated conventions are not translated",
     [(UPDATE, """            # compile json files from csv file
            _compile_conventions(conventions_path)
""", """            # compile json files from csv file
            for convention in update:
                path = os.path.join(conventions_path, convention)
                convention_dict = _convention_csv2dict(path)
                with open(f"{path[:-3]}json", 'w') as file:
                    json.dump(convention_dict, file, indent=4)
""")], """
from stage import sf, path
import contextlib, io, os, sys
module = sys.modules["sofar.update_conventions"]
head = "Name\\tDefault\\tFlags\\tDimensions\\tType\\tComment\\n"
table = (head + "GLOBAL:Conventions\\tSOFA\\trm\\t\\tattribute\\t\\n").encode()
class Page:
    def __init__(self, url):
        self.content = table
        dep = "deprecated" in url
        if not url.endswith(".csv"):
            self.content = (b'<a href="Old_1.0.csv">x</a>' if dep else
                            b'<a href="New_1.0.csv">x</a>')
        self.text = self.content.decode()
    def raise_for_status(self):
        pass
module.requests.get = lambda url, **kw: Page(url)
folder = path("conv")
os.makedirs(folder + "/deprecated")
for n in ("csv", "json"):
    with open(f"{folder}/Old_1.0.{n}", "wb") as f:
        f.write(table if n == "csv" else b"{}")
with contextlib.redirect_stdout(io.StringIO()):
    sf.update_conventions(folder, assume_yes=True)
assert os.path.isfile(folder + "/deprecated/Old_1.0.json")
assert os.path.isfile(folder + "/New_1.0.json")
""")

seed("C22_single_text", "a list that holds a single string",
     "white space of single strings is lost",
     [(SOFA, """            if value.size == 1:
                value = value.flatten()[0]
""", """            if value.size == 1:
                value = value.flatten()[0] if value.dtype.kind != "U" \\
                    else str(value.flatten()[0]).strip()
""")], """
from stage import sf
s = sf.Sofa("GeneralTF")
s.add_variable("Text", [" a "], "string", "IS")
assert s.Text == " a ", repr(s.Text)
""")

seed("C23_name_part", "a current convention whose name starts with that of a "
     "deprecated one",
     "current conventions are reported as deprecated",
     [(SOFA, """        if self.GLOBAL_SOFAConventions in \\
                deprecations["GLOBAL:SOFAConventions"]:
            convention = self.GLOBAL_SOFAConventions
            msg""", """        convention = [
            c for c in deprecations["GLOBAL:SOFAConventions"]
            if self.GLOBAL_SOFAConventions.startswith(c)]
        if convention:
            convention = convention[0]
            msg""")], """
from stage import sf
import json, os
folder = os.path.join(os.path.dirname(sf.__file__), "sofa_conventions",
                      "conventions")
with open(os.path.join(folder, "GeneralTF_2.0.json")) as f:
    c = json.load(f)
c["GLOBAL:SOFAConventions"]["default"] = "SingleRoomDRIRX"
c["GLOBAL:SOFAConventionsVersion"]["default"] = "1.0"
with open(os.path.join(folder, "SingleRoomDRIRX_1.0.json"), "w") as f:
    json.dump(c, f)
s = sf.Sofa("SingleRoomDRIRX", verify=False)
assert "deprecated" not in (s.verify("return") or "")
""")

seed("C15_exclude_date", "custom attributes with 'Date' inside of their name",
     "attributes that are no dates are excluded",
     [(UTILS, """            keys_a = [k for k in keys_a if "Date" not in k]
            keys_b = [k for k in keys_b if "Date" not in k]
""", """            keys_a = [k for k in keys_a if "date" not in k.lower()]
            keys_b = [k for k in keys_b if "date" not in k.lower()]
""")], """
from stage import sf
s = sf.Sofa("GeneralTF")
s.add_attribute("GLOBAL_Updated", "yes")
t = s.copy()
t.GLOBAL_Updated = "no"
assert not sf.equals(s, t, verbose=False, exclude="DATE")
""")
