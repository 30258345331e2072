"""Planted bugs, see tools/newseed.py."""
IO = "sofar/io.py"
SOFA = "sofar/sofa.py"
STREAM = "sofar/sofastream.py"
UTILS = "sofar/utils.py"
UPDATE = "sofar/update_conventions.py"

SEEDS = []


def seed(id, needs, breaks, edits, demo):
    SEEDS.append(dict(id=id, property=id[:3], needs=needs, breaks=breaks,
                      edits=edits, demo=demo))


seed("C01_quantize", "writing with the maximum compression level 9 and data "
     "using the full double precision",
     "numbers are rounded to 12 significant digits when written with level 9",
     [(IO, "zlib=use_zlib, complevel=compression)",
       "zlib=use_zlib, complevel=compression,\n"
       "                significant_digits=12 if dtype == \"f8\" and\n"
       "                compression == 9 else None)")],
     """
from stage import sf, path
import numpy as np
s = sf.Sofa("GeneralFIR")
s.Data_IR = np.random.RandomState(0).randn(3, 1, 8) * 1e-3
for level in (0, 1, 4, 9):
    sf.write_sofa(path("a.sofa"), s, level)
    assert np.array_equal(sf.read_sofa(path("a.sofa")).Data_IR, s.Data_IR)
""")

seed("C01_repeated_dim", "a custom variable that uses the same dimension "
     "twice, and a written and read object",
     "custom variables with a repeated dimension lose it on reading",
     [(IO, 'dimensions = "".join(list(file[var].dimensions))',
       'dimensions = "".join(dict.fromkeys(file[var].dimensions))')],
     """
from stage import sf, path
import numpy as np
s = sf.Sofa("GeneralFIR")
s.Data_IR = np.zeros((2, 1, 4))
s.add_variable("Covariance", np.eye(2), "double", "MM")
sf.write_sofa(path("a.sofa"), s)
t = sf.read_sofa(path("a.sofa"), verbose=False)
assert np.array_equal(t.Covariance, s.Covariance)
sf.write_sofa(path("b.sofa"), t)
""")

seed("C01_short_strings", "two string variables of different length, the "
     "longer one checked before the shorter one",
     "the length of the character dimension is that of the last string "
     "variable, longer strings are cut off in the file",
     [(SOFA, """                    S = max(S, np.max(self._get_size_and_shape_of_string_var(
                        value, key)[0]))""",
       """                    S = int(np.max(self._get_size_and_shape_of_string_var(
                        value, key)[0]))""")],
     """
from stage import sf, path
import numpy as np
s = sf.Sofa("GeneralFIR")
s.add_variable("NoteA", ["a rather long text"], "string", "IS")
s.add_variable("NoteB", ["short"], "string", "IS")
sf.write_sofa(path("a.sofa"), s)
t = sf.read_sofa(path("a.sofa"), verbose=False)
assert t.NoteA == "a rather long text", t.NoteA
assert t.NoteB == "short"
""")

seed("C02_open_first", "writing an invalid object",
     "the file is created or truncated before the object is verified",
     [(IO, """    # update the dimensions
    if verify:
        sofa.verify(mode="write")

    # list of all attribute names
    all_keys = [key for key in sofa.__dict__.keys() if not key.startswith("_")]

""", ""), (IO, """    with Dataset(filename, "w", format="NETCDF4") as file:

        # write dimensions
""", """    with Dataset(filename, "w", format="NETCDF4") as file:

        # update the dimensions
        if verify:
            sofa.verify(mode="write")

        # list of all attribute names
        all_keys = [
            key for key in sofa.__dict__.keys() if not key.startswith("_")]

        # write dimensions
""")],
     """
from stage import sf, path, raises
import os
s = sf.Sofa("GeneralFIR")
s.GLOBAL_RoomType = "somewhere"
assert raises(ValueError, sf.write_sofa, path("a.sofa"), s)
assert not os.path.exists(path("a.sofa"))
""")

seed("C02_read_mode", "units with upper case letters",
     "objects with upper case units are written although not allowed",
     [(IO, 'sofa.verify(mode="write")', 'sofa.verify(mode="read")')],
     """
from stage import sf, path, raises
import os
s = sf.Sofa("GeneralFIR")
s.ListenerPosition_Units = "Metre"
assert raises(ValueError, sf.write_sofa, path("a.sofa"), s)
assert not os.path.exists(path("a.sofa"))
""")

seed("C02_cached", "deleting an entry of an object that was verified before, "
     "and writing it",
     "verification is skipped for objects that did not change since, but "
     "deletions are no changes",
     [(IO, """    if verify:
        sofa.verify(mode="write")
""", """    if verify and not (getattr(sofa, "_verified", False) and
                       hasattr(sofa, "_api")):
        sofa.verify(mode="write")
"""), (SOFA, """        super.__setattr__(self, name, value)
""", """        super.__setattr__(self, name, value)
        # (private and protected data do not require new verification)
        if not name.startswith("_") and name != "protected":
            self.__dict__["_verified"] = False
"""), (SOFA, """        # ---------------------------------------------------------------------
        # 9. handle warnings and errors
        if issue_handling""", """        # ---------------------------------------------------------------------
        # 9. handle warnings and errors
        self.__dict__["_verified"] = mode == "write" and \\
            error_msg == "\\nERRORS\\n------\\n"
        if issue_handling"""), (SOFA, """        elif dtype == "string":
                # multiple checks""", """        elif dtype == "string":
                # multiple checks""")][:3] + [(
         IO, """    # setting the netCDF compression parameter
    use_zlib = compression != 0
""", """    # setting the netCDF compression parameter
    use_zlib = bool(compression)
""")],
     """
from stage import sf, path, raises
import os
s = sf.Sofa("GeneralFIR")
s.GLOBAL_RoomType = "reverberant"
s.add_attribute("GLOBAL_RoomDescription", "large") \\
    if not hasattr(s, "GLOBAL_RoomDescription") else None
sf.write_sofa(path("a.sofa"), s)
s.delete("GLOBAL_RoomDescription")
assert raises(ValueError, sf.write_sofa, path("b.sofa"), s)
assert not os.path.exists(path("b.sofa"))
""")

seed("C03_single_precision", "entries with single precision data",
     "single precision data are written as single precision variables",
     [(IO, """        netcdf_dtype = "f8"
""", """        netcdf_dtype = "f4" if value.dtype == np.float32 else "f8"
"""), (IO, """            if dtype == "f8":
""", """            if dtype in ("f4", "f8"):
""")],
     """
from stage import sf, path
import numpy as np
from netCDF4 import Dataset
s = sf.Sofa("GeneralFIR")
s.Data_IR = np.ones((2, 1, 4), np.float32)
sf.write_sofa(path("a.sofa"), s)
with Dataset(path("a.sofa")) as f:
    assert {str(v.dtype) for n, v in f.variables.items()
            if v.dimensions[-1] != "S"} == {"float64"}
""")

seed("C03_prefix", "a custom variable whose name is the start of the name of "
     "another variable with attributes",
     "attributes of other variables are attached to the custom variable",
     [(IO, 'sub_keys = [k for k in all_keys if k.startswith(f"{key}_")]',
       'sub_keys = [k for k in all_keys if k.startswith(key)\n'
       '                        and sofa._convention[k]["type"] '
       '== "attribute"]')],
     """
from stage import sf, path
from netCDF4 import Dataset
s = sf.Sofa("GeneralFIR")
s.add_variable("Source", 1., "double", "I")
sf.write_sofa(path("a.sofa"), s)
with Dataset(path("a.sofa")) as f:
    assert f["Source"].ncattrs() == [], f["Source"].ncattrs()
""")

seed("C04_keep_mandatory", "a file that lacks a mandatory entry, read without "
     "verification",
     "missing mandatory entries appear with their default values",
     [(IO, """        if attr not in all_attr:
            delattr(sofa, attr)
""", """        if attr not in all_attr and not sofa._mandatory(
                sofa._convention[attr]["flags"]):
            delattr(sofa, attr)
""")],
     """
from stage import sf, path
from netCDF4 import Dataset
s = sf.Sofa("GeneralFIR")
sf.write_sofa(path("a.sofa"), s)
with Dataset(path("a.sofa"), "a") as f:
    f.delncattr("License")
t = sf.read_sofa(path("a.sofa"), verify=False, verbose=False)
assert not hasattr(t, "GLOBAL_License")
""")

seed("C04_partial_mask", "a variable of which some but not all values are "
     "missing",
     "partially missing data are returned as regular (fill) values",
     [(IO, "        if np.ma.is_masked(value):\n",
       "        if np.all(np.ma.getmaskarray(value)):\n")],
     """
from stage import sf, path
import numpy as np
from netCDF4 import Dataset
s = sf.Sofa("GeneralFIR")
s.Data_IR = np.ones((2, 1, 4))
sf.write_sofa(path("a.sofa"), s)
with Dataset(path("a.sofa"), "a") as f:
    f["Data.IR"][1, 0, 2] = np.ma.masked
t = sf.read_sofa(path("a.sofa"), verify=False, verbose=False)
assert np.ma.is_masked(t.Data_IR)
""")

seed("C04_default_kept", "a file with an empty global attribute whose "
     "default value is not empty",
     "the default value is returned instead of the empty value in the file",
     [(IO, """            else:
                setattr(sofa, f"GLOBAL_{attr}", value)
""", """            elif value:
                setattr(sofa, f"GLOBAL_{attr}", value)
""")],
     """
from stage import sf, path
from netCDF4 import Dataset
s = sf.Sofa("GeneralFIR")
sf.write_sofa(path("a.sofa"), s)
with Dataset(path("a.sofa"), "a") as f:
    name = [n for n in f.ncattrs() if n == "License"][0]
    f.setncattr(name, "")
t = sf.read_sofa(path("a.sofa"), verify=False, verbose=False)
assert t.GLOBAL_License == ""
""")

seed("C05_upper_dim", "a file with custom dimensions",
     "unknown dimensions are looked up ignoring the case",
     [(STREAM, """        if dimension not in dims.keys():
            raise ValueError((
                f"{dimension} is not""", """        dimension = dimension.upper()
        if dimension not in dims:
            raise ValueError((
                f"{dimension} is not""")],
     """
from stage import sf, path, raises
s = sf.Sofa("GeneralFIR")
sf.write_sofa(path("a.sofa"), s)
with sf.SofaStream(path("a.sofa")) as f:
    assert f.get_dimension("M") == 1
    assert raises(ValueError, f.get_dimension, "m")
""")

seed("C05_not_closed", "an exception inside the with statement",
     "the file stays open if the with statement is left by an exception",
     [(STREAM, "        self._file.close()\n",
       "        if args[0] is None:\n            self._file.close()\n")],
     """
from stage import sf, path
s = sf.Sofa("GeneralFIR")
sf.write_sofa(path("a.sofa"), s)
stream = sf.SofaStream(path("a.sofa"))
try:
    with stream as f:
        raise KeyError("x")
except KeyError:
    pass
assert not stream._file.isopen()
""")

seed("C05_inspect_attrs", "a variable with more than two attributes",
     "only types and units are listed by inspect",
     [(STREAM, "            for att_ in list(self._file[key].ncattrs()):\n",
       "            for att_ in [a for a in ('Type', 'Units')\n"
       "                         if a in self._file[key].ncattrs()]:\n")],
     """
from stage import sf, path
import contextlib, io
s = sf.Sofa("GeneralFIR")
s.add_attribute("ListenerPosition_Note", "centre of the head")
sf.write_sofa(path("a.sofa"), s)
out = io.StringIO()
with sf.SofaStream(path("a.sofa")) as f, contextlib.redirect_stdout(out):
    f.inspect()
assert "ListenerPosition_Note : centre of the head" in out.getvalue()
""")

seed("C06_latest_string", "an installed convention with a version number of "
     "at least 10",
     "the latest version is selected by comparing version strings",
     [(SOFA, """            versions = np.array([float(v) for v in versions])
            path = path[np.argmax(versions)]
""", """            path = path[versions.index(max(versions))]
""")],
     """
from stage import sf, package
import json, os
base = os.path.join(package, "sofa_conventions", "conventions")
with open(os.path.join(base, "GeneralFIR_1.0.json")) as f:
    c = json.load(f)
for v in ("9.0", "10.0"):
    c["GLOBAL:SOFAConventionsVersion"]["default"] = v
    with open(os.path.join(base, f"GeneralFIR_{v}.json"), "w") as f:
        json.dump(c, f)
assert sf.Sofa("GeneralFIR").GLOBAL_SOFAConventionsVersion == "10.0"
""")

seed("C06_modified_date", "creating an object at a time whose minutes or "
     "seconds are not zero, by convention defaults",
     "optional entries with empty default value are not created",
     [(SOFA, """            # create attribute with default value
            setattr(self, key, default)
""", """            # create attribute with default value
            # (data without content are added by the user)
            if default != "" or self._mandatory(
                    self._convention[key]["flags"]):
                setattr(self, key, default)
""" if False else """            # create attribute with default value
            if not (isinstance(default, str) and default == ""
                    and self._convention[key]["flags"] is None):
                setattr(self, key, default)
""")],
     """
from stage import sf, package
import glob, json, os
for p in glob.glob(os.path.join(package, "sofa_conventions", "conventions",
                                "*.json")):
    with open(p) as f:
        c = json.load(f)
    name, version = os.path.basename(p)[:-5].split("_")
    s = sf.Sofa(name, version=version)
    missing = [k for k in c
               if not hasattr(s, k.replace(":", "_").replace(".", "_"))]
    assert not missing, missing
""")

seed("C07_truthy", "assigning 0 or 1 to Sofa.protected",
     "protection accepts 0 and 1, and then behaves as if switched",
     [(SOFA, "        if not isinstance(value, bool):\n",
       "        if value not in (True, False):\n")],
     """
from stage import sf, raises
s = sf.Sofa("GeneralFIR")
for value in (0, 1, 1.0):
    assert raises(ValueError, setattr, s, "protected", value)
""")

seed("C08_shared_cache", "custom entries in one of two objects of the same "
     "convention",
     "loaded conventions are shared between objects, custom entries of one "
     "object become entries of the others",
     [(SOFA, """        # read convention from json file
        with open(path, "r") as file:
            convention = json.load(file)
""", """        # read convention from json file
        stamp = (path, os.stat(path).st_mtime_ns, os.stat(path).st_size)
        if stamp in _LOADED:
            return _LOADED[stamp]
        with open(path, "r") as file:
            convention = json.load(file)
"""), (SOFA, """            key.replace('.', '_'): value for key, value in convention.items()}

        return convention
""", """            key.replace('.', '_'): value for key, value in convention.items()}

        _LOADED[stamp] = convention
        return convention
"""), (SOFA, """            key.replace(':', '_'): value for key, value in convention.items()}
        convention = {
            key.replace('.', '_'):""", """            key.replace(':', '_').replace('.', '_'): value
            for key, value in convention.items()}
        convention = {
            key.replace('.', '_'):"""), (SOFA, """class Sofa():
""", """# conventions that were already loaded from disk
_LOADED = {}


class Sofa():
""")],
     """
from stage import sf
a = sf.Sofa("GeneralFIR")
b = sf.Sofa("GeneralFIR")
a.add_variable("Temperature", 20., "double", "I")
b.verify()
b.add_missing(verbose=False)
assert not hasattr(b, "Temperature")
""")

seed("C08_shallow_copy", "an object with custom entries that is copied, and "
     "custom entries added to or deleted from the copy",
     "copies share the dictionary of custom entries with the original",
     [(SOFA, "        return deepcopy(self)\n",
       """        copied = object.__new__(type(self))
        for key, value in self.__dict__.items():
            copied.__dict__[key] = value.copy() if isinstance(
                value, (np.ndarray, dict, list)) and key != "_custom" \\
                else value
        return copied
""")],
     """
from stage import sf
a = sf.Sofa("GeneralFIR")
a.add_variable("Temperature", 20., "double", "I")
b = a.copy()
b.add_variable("Humidity", 20., "double", "I")
b.delete("Temperature")
a.verify()
assert hasattr(a, "Temperature")
""")

seed("C09_complex", "complex numbers assigned to a numeric entry",
     "complex and unsigned numbers are accepted as numeric data",
     [(SOFA, "                         value.dtype.kind not in ['i', 'f']):\n",
       "                         not np.issubdtype(value.dtype, "
       "np.number)):\n")],
     """
from stage import sf, raises
import numpy as np
s = sf.Sofa("GeneralFIR")
s.Data_IR = np.ones((1, 1, 1), complex)
assert raises(ValueError, s.verify)
""")

seed("C09_custom_type", "a custom attribute that is not a string",
     "types of custom entries are not checked",
     [(SOFA, """        for key in keys:

            # handle dimensions
            dimensions = self._convention[key]["dimensions"]
            dtype = self._convention[key]["type"]

            # check data type
""", """        for key in keys:

            # handle dimensions
            dimensions = self._convention[key]["dimensions"]
            dtype = self._convention[key]["type"]

            # (types of custom attributes are up to the user)
            if dtype == "attribute" and key in getattr(self, "_custom", {}):
                continue

            # check data type
"""), (SOFA, """                if not isinstance(value, str):
                    current_error += \\
                        f"- {key} must be""", """                if not isinstance(value, (str, np.str_)):
                    current_error += \\
                        f"- {key} must be""")],
     """
from stage import sf, raises
s = sf.Sofa("GeneralFIR")
s.add_attribute("GLOBAL_Humidity", "20")
s.GLOBAL_Humidity = 20
assert raises(ValueError, s.verify)
""")

seed("C09_empty_default", "a missing mandatory entry with an empty default",
     "missing mandatory entries with empty default value are not reported",
     [(SOFA, """                    and key not in keys:

                if issue_handling""", """                    and key not in keys \\
                    and self._convention[key]["default"] != "":

                if issue_handling""")],
     """
from stage import sf, raises
s = sf.Sofa("GeneralFIR")
names = [k for k, v in s._convention.items()
         if v["default"] == "" and v["flags"] and "m" in v["flags"]]
for name in names:
    t = s.copy()
    t.protected = False
    t.delete(name)
    t.protected = True
    assert raises(ValueError, t.verify), name
assert names
""")

seed("C11_skip_rest", "a value with several dependencies of which one only "
     "requires an entry and a later one a certain value",
     "dependencies after the first one without restricted value are ignored",
     [(SOFA, """                    # check if dependency has the correct value
                    if ref_dep is None:
                        continue
""", """                    # check if dependency has the correct value
                    if ref_dep is None:
                        break
""")],
     """
from stage import sf, raises
t = sf.Sofa("GeneralFIR")
t.GLOBAL_RoomType = "shoebox"
t.add_variable("RoomCornerA", [0, 0, 0], "double", "IC")
assert raises(ValueError, t.verify)
""")

seed("C11_dim_range", "a dimension size between the allowed sizes",
     "restricted dimensions are only compared with the smallest and largest "
     "allowed size",
     [(SOFA, "                        if dim_act not in dim_ref:\n",
       "                        if not min(dim_ref) <= dim_act <= "
       "max(dim_ref):\n")],
     """
from stage import sf, raises
import numpy as np
s = sf.Sofa("GeneralSOS")
s.Data_SOS = np.zeros((1, 1, 6))
s.verify()
s.Data_SOS = np.zeros((1, 1, 7))
assert raises(ValueError, s.verify)
""")

seed("C11_substring", "an invalid value that is a part of a valid one",
     "parts of allowed values are accepted",
     [(SOFA, "        if ref is None or test in ref:\n",
       "        if ref is None or test in (\n"
       "                ', '.join(ref) if isinstance(test, str) else ref):\n")],
     """
from stage import sf, raises
s = sf.Sofa("GeneralFIR")
s.GLOBAL_RoomType = "free"
assert raises(ValueError, s.verify)
""")
