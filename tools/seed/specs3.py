"""Planted bugs, see tools/newseed.py."""
IO = "sofar/io.py"
SOFA = "sofar/sofa.py"
STREAM = "sofar/sofastream.py"
UTILS = "sofar/utils.py"
UPDATE = "sofar/update_conventions.py"

SEEDS = []


def seed(id, needs, breaks, edits, demo):
    SEEDS.append(dict(id=id, property=id[:3], needs=needs, breaks=breaks,
                      edits=edits, demo=demo))


NET = """
from stage import sf, path, package
import contextlib, io, os, json, requests
import sys
module = sys.modules["sofar.update_conventions"]
TABLE = ("Name\\tDefault\\tFlags\\tDimensions\\tType\\tComment\\n"
         "GLOBAL:Conventions\\tSOFA\\trm\\t\\tattribute\\t\\n"
         "GLOBAL:Note\\t%s\\tm\\t\\tattribute\\t\\n")
server = {}
class Page:
    def __init__(self, url):
        url = url.split("conventions/", 1)[1].strip("/")
        folder = "deprecated" if url.startswith("deprecated") else ""
        name = os.path.basename(url)
        if name.endswith(".csv"):
            self.content = server[folder][name].encode()
        else:
            self.content = "".join(f'<a href="{n}">{n}</a>'
                                   for n in server[folder]).encode()
        self.text = self.content.decode()
    def raise_for_status(self):
        pass
module.requests.get = lambda url, **kw: Page(url)
def update(folder, answer=None):
    out = io.StringIO()
    module.input = lambda *a: answer
    with contextlib.redirect_stdout(out):
        module.update_conventions(folder, answer is None)
    return out.getvalue()
def files(folder):
    return sorted(os.path.relpath(os.path.join(r, n), folder)
                  for r, _, names in os.walk(folder) for n in names)
folder = path("conv")
os.mkdir(folder)
"""

seed("C19_stale_json", "a convention that becomes deprecated on the server",
     "the definition of a convention that was deprecated stays in the folder "
     "of standardized conventions",
     [(UPDATE, """                os.remove(os.path.join(conventions_path, convention))
                os.remove(
                    os.path.join(conventions_path, f"{convention[:-3]}json"))
""", """                os.remove(os.path.join(conventions_path, convention))
""")], NET + """
server.update({"": {"A_1.0.csv": TABLE % "a"}, "deprecated": {}})
update(folder)
server.update({"": {}, "deprecated": {"A_1.0.csv": TABLE % "a"}})
update(folder)
assert files(folder) == ["deprecated/A_1.0.csv", "deprecated/A_1.0.json"], \\
    files(folder)
""")

seed("C19_excluded_prefix", "a convention whose name starts with 'General'",
     "conventions that start with the name of an excluded one are not "
     "updated",
     [(UPDATE, """            # exclude these conventions
            if convention.startswith(("General_", "GeneralString_")):
""", """            # exclude these conventions
            if convention.startswith(("General_", "GeneralString")):
""")], NET + """
server.update({"": {"GeneralStringX_1.0.csv": TABLE % "a",
                    "General_1.0.csv": TABLE % "b"}, "deprecated": {}})
update(folder)
assert files(folder) == ["GeneralStringX_1.0.csv", "GeneralStringX_1.0.json"]
""")

seed("C19_anything_but_no", "an answer other than y and n",
     "the update is only declined by typing 'n'",
     [(UPDATE, """            if response != "y":
""", """            if response == "n":
""")], NET + """
server.update({"": {"A_1.0.csv": TABLE % "a"}, "deprecated": {}})
update(folder, "")
update(folder, "no")
assert files(folder) == [], files(folder)
update(folder, "y")
assert files(folder) != []
""")

seed("C19_no_spaces", "a table that only differs in white space at the end of "
     "a line",
     "changes of white space at the end of lines are not seen as updates",
     [(UPDATE, """                    data_current = b"".join(file.readlines())
                    data_current = re.sub(
                        b"\\t*\\r?\\n", b"\\n", data_current)
                if data_current != data:
                    updated = True
                    with open(os.path.join(temp, convention), "wb") as file:
""", """                    data_current = b"".join(file.readlines())
                    data_current = re.sub(
                        b"\\t*\\r?\\n", b"\\n", data_current)
                if len(data_current) != len(data):
                    updated = True
                    with open(os.path.join(temp, convention), "wb") as file:
""")], NET + """
server.update({"": {"A_1.0.csv": TABLE % "a"}, "deprecated": {}})
update(folder)
server.update({"": {"A_1.0.csv": TABLE % "b"}})
update(folder)
with open(os.path.join(folder, "A_1.0.json")) as f:
    assert json.load(f)["GLOBAL:Note" if False else "GLOBAL:Note"]["default"] == "b"
""")

seed("C20_one_version", "a convention with more than one version",
     "only one version of each convention is accepted",
     [(UTILS, """        if versions[0] == convention \\
                and str(float(versions[1])) == version:
            version_exists = True
""", """        if versions[0] == convention:
            version_exists = str(float(versions[1])) == version
""")], """
from stage import sf, package
import json, os
base = os.path.join(package, "sofa_conventions", "conventions")
with open(base + "/GeneralTF_2.0.json") as f:
    c = json.load(f)
key = [k for k in c if k.endswith("SOFAConventionsVersion")][0]
for v in ("2.1", "2.2"):
    c[key]["default"] = v
    with open(f"{base}/GeneralTF_{v}.json", "w") as f:
        json.dump(c, f)
for v in ("2.0", "2.1", "2.2"):
    sf.Sofa("GeneralTF", version=v)
""")

seed("C20_order", "files of conventions with names that differ in length",
     "the list of conventions pairs names with the versions of others",
     [(UTILS, """        return list(zip(conventions, versions))
""", """        return list(zip(sorted(conventions), [v for _, v in sorted(
            zip(map(str.lower, conventions), versions))]))
""")], """
from stage import sf, package
import json, os
import sofar.utils as utils
base = os.path.join(package, "sofa_conventions", "conventions")
with open(base + "/GeneralTF_2.0.json") as f:
    c = json.load(f)
for n, v in (("Zeta", "1.0"), ("alpha", "3.0")):
    c["GLOBAL_SOFAConventions" if "GLOBAL_SOFAConventions" in c else
      "GLOBAL:SOFAConventions"]["default"] = n
    with open(f"{base}/{n}_{v}.json", "w") as f:
        json.dump(c, f)
found = set(utils._get_conventions("name_version"))
assert ("Zeta", "1.0") in found and ("alpha", "3.0") in found, found
""")

seed("C21_append", "inspecting into a file that already exists",
     "the report is appended to existing files",
     [(SOFA, """            with open(file, 'w') as f_id:
                f_id.write(info_str + "\\n")
""", """            with open(file, 'a') as f_id:
                f_id.write(info_str + "\\n")
""")], """
from stage import sf, path
import contextlib, io
s = sf.Sofa("GeneralFIR")
for _ in range(2):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        s.inspect(path("a.txt"))
with open(path("a.txt")) as f:
    assert f.read() == out.getvalue()
""")

seed("C21_rounded", "values with more than six decimals",
     "inspect rounds single values",
     [(SOFA, """                    or np.size(value) == 1:
                info_str += str(value) + "\\n"
""", """                    or np.size(value) == 1:
                info_str += (f"{value:.10g}" if isinstance(value, float)
                             else str(value)) + "\\n"
""")], """
from stage import sf
import contextlib, io
s = sf.Sofa("GeneralFIR")
s.Data_SamplingRate = 44100.123456789
out = io.StringIO()
with contextlib.redirect_stdout(out):
    s.inspect()
assert "44100.123456789" in out.getvalue()
""")

seed("C21_info_optional", "info for entries that are read only",
     "read only entries are listed as optional entries",
     [(SOFA, """                        (self._mandatory(flags) and info == "optional") \\
""", """                        (flags == "m" and info == "optional") \\
""")], """
from stage import sf
import contextlib, io
s = sf.Sofa("GeneralFIR")
out = io.StringIO()
with contextlib.redirect_stdout(out):
    s.info("optional")
assert "mandatory" not in out.getvalue(), out.getvalue()
""")

seed("C21_six_values", "arrays with exactly six values",
     "values of arrays with six values are not shown",
     [(SOFA, """                if value.size < 7:
                    info_str += "  " + \\
                        str(np.squeeze(value))""",
       """                if value.size < 6:
                    info_str += "  " + \\
                        str(np.squeeze(value))""")], """
from stage import sf
import contextlib, io
s = sf.Sofa("GeneralFIR")
s.ReceiverPosition = [[1.5, 2.5, 3.5], [4.5, 5.5, 6.5]]
out = io.StringIO()
with contextlib.redirect_stdout(out):
    s.inspect(issue_handling="ignore")
assert "5.5" in out.getvalue(), out.getvalue()
""")

seed("C22_columns", "a nested list with one column, or a list with single axes",
     "lists that hold one value per row are stored as one row",
     [(SOFA, """            value = np.atleast_2d(value)
            if value.size == 1:
                value = value.flatten()[0]
""", """            value = np.atleast_2d(np.squeeze(value))
            if value.size == 1:
                value = value.flatten()[0]
""")], """
from stage import sf
s = sf.Sofa("GeneralFIR")
s.Data_IR = [[1], [2], [3]]
assert s.Data_IR.shape == (3, 1), s.Data_IR.shape
""")

seed("C22_integers", "lists or numbers that are integers beyond 2^53",
     "integers are converted to floating point numbers when assigned",
     [(SOFA, """            value = np.atleast_2d(value)
            if value.size == 1:
                value = value.flatten()[0]
""", """            value = np.atleast_2d(value if np.isscalar(value) else
                                  _integers_to_float(value))
            if value.size == 1:
                value = value.flatten()[0]
"""), (SOFA, """

class Sofa():
""", """

def _integers_to_float(value):
    value = np.asarray(value)
    return value.astype(float) if value.dtype.kind in "iu" else value


class Sofa():
""")], """
from stage import sf
s = sf.Sofa("GeneralFIR")
s.Data_IR = [[2**53 + 1, 3]]
assert s.Data_IR[0, 0] == 2**53 + 1
assert s.Data_IR.dtype.kind == "i"
""")

seed("C23_minor_version", "a convention that is outdated by a minor version",
     "writing warns about outdated conventions only if the major version "
     "changed",
     [(IO, """            if parse(current) < parse(latest):
""", """            if parse(current).major < parse(latest).major:
""")], """
from stage import sf, path, package
import json, os, warnings
base = os.path.join(package, "sofa_conventions", "conventions")
with open(base + "/GeneralTF_2.0.json") as f:
    c = json.load(f)
key = [k for k in c if k.endswith("SOFAConventionsVersion")][0]
c[key]["default"] = "2.1"
with open(base + "/GeneralTF_2.1.json", "w") as f:
    json.dump(c, f)
s = sf.Sofa("GeneralTF", version="2.0")
with warnings.catch_warnings(record=True) as w:
    warnings.simplefilter("always")
    sf.write_sofa(path("a.sofa"), s)
assert any("outdated" in str(i.message) for i in w)
""")

seed("C23_verified_only", "a preliminary convention that is created with all "
     "entries but without verification",
     "preliminary conventions give no warning on creation if verification "
     "was switched off",
     [(SOFA, """            elif parse(version) < parse('1.0'):
                warnings.warn(UserWarning((
""", """            elif mandatory and parse(version) < parse('1.0'):
                warnings.warn(UserWarning((
""")], """
from stage import sf, package
import json, os, warnings
base = os.path.join(package, "sofa_conventions", "conventions")
with open(base + "/GeneralTF_2.0.json") as f:
    c = json.load(f)
key = [k for k in c if k.endswith("SOFAConventionsVersion")][0]
c[key]["default"] = "0.2"
c[key.replace("Version", "")]["default"] = "Pre"
with open(base + "/Pre_0.2.json", "w") as f:
    json.dump(c, f)
with warnings.catch_warnings(record=True) as w:
    warnings.simplefilter("always")
    sf.Sofa("Pre")
assert any("preliminary" in str(i.message) for i in w)
""")

seed("C23_auto_creation", "a convention of version 1.0 exactly",
     "data of version 1.0 are not verified automatically when reading",
     [(IO, """        verify = True if parse(version) >= parse('1.0') else False
""", """        verify = True if parse(version) > parse('1.0') else False
""")], """
from stage import sf, path, raises, package
from netCDF4 import Dataset
import os
name = [n for n in sorted(os.listdir(
    package + "/sofa_conventions/conventions")) if n.endswith("_1.0.json")][0]
s = sf.Sofa(name[:-9], version="1.0", verify=False)
sf.write_sofa(path("a.sofa"), s)
with Dataset(path("a.sofa"), "a") as f:
    f["ListenerPosition"].setncattr("Type", "sideways")
assert raises(ValueError, sf.read_sofa, path("a.sofa"))
""")

seed("C13_hyphens", "units that are separated by several spaces",
     "several spaces between units are accepted",
     [(SOFA, """        units_ref = re.split(', ?', ref[0])
        units_test = re.split(', ?', test)
""", """        units_ref = re.split(', ?', ref[0])
        units_test = [u.strip() for u in re.split(', ?', test)]
""")], """
from stage import sf, raises
s = sf.Sofa("GeneralFIR")
s.ListenerPosition_Type = "spherical"
s.ListenerPosition_Units = "degree,  degree, metre"
assert raises(ValueError, s.verify)
""")

seed("C05_scalar_inspect", "a variable that holds several strings",
     "dimensions of strings are missing in the reports of streams",
     [(STREAM, """            # pad shape if required (trailing single dimensions are
            # discarded following the numpy default)
            while len(shape) < len(dimensions):
                shape += (1, )
""", """            # discard single dimensions
            shape = tuple(s for s in shape if s > 1) or (1, )
""")], """
from stage import sf, path
import contextlib, io
s = sf.Sofa("GeneralFIR")
s.Data_IR = [[[1., 2., 3.]], [[4., 5., 6.]]]
s.ReceiverPosition = [1., 0., 0.]
s.Data_Delay = 0.
sf.write_sofa(path("a.sofa"), s)
out = io.StringIO()
with sf.SofaStream(path("a.sofa")) as f, contextlib.redirect_stdout(out):
    f.inspect()
assert "(M=2, R=1, N=3)" in out.getvalue(), out.getvalue()
""")

seed("C05_type_case", "a dimension that depends on a coordinate type",
     "sizes of custom dimensions can not be queried",
     [(STREAM, """        if dimension not in dims.keys():
""", """        if dimension not in [d for d in dims.keys() if d in "MRENSCI"]:
""")], """
from stage import sf, path
s = sf.Sofa("GeneralFIR")
s.add_variable("Foo", [[1., 2.]], "double", "IQ")
sf.write_sofa(path("a.sofa"), s)
with sf.SofaStream(path("a.sofa")) as f:
    assert f.get_dimension("Q") == 2
""")
