"""Planted bugs, see tools/newseed.py."""
IO = "sofar/io.py"
SOFA = "sofar/sofa.py"
STREAM = "sofar/sofastream.py"
UTILS = "sofar/utils.py"
UPDATE = "sofar/update_conventions.py"

SEEDS = []


def seed(id, needs, breaks, edits, demo):
    SEEDS.append(dict(id=id, property=id[:3], needs=needs, breaks=breaks,
                      edits=edits, demo=demo))


seed("C04_lost_stream", "a file with a custom variable that is stored in "
     "single precision or as integers",
     "custom variables that are not stored in double precision become "
     "string entries",
     [(IO, 'dtype = "string" if file[var].datatype == "S1" else "double"',
       'dtype = "double" if file[var].datatype == "f8" else "string"')],
     """
from stage import sf, path
from netCDF4 import Dataset
s = sf.Sofa("GeneralFIR")
sf.write_sofa(path("a.sofa"), s)
with Dataset(path("a.sofa"), "a") as f:
    f.createVariable("Gain", "f4", ("I", "C"))[:] = [[1, 2, 3]]
t = sf.read_sofa(path("a.sofa"), verbose=False)
assert t._custom["Gain"]["type"] == "double"
""")

seed("C07_delete_custom", "a mandatory entry that was deleted without "
     "protection and added again",
     "entries are removable if they were added by the user, even if the "
     "convention defines them as mandatory",
     [(SOFA, """        if not self.protected or \\
                not self._mandatory(self._convention[name]["flags"]):
            super().__delattr__(name)
""", """        if not self.protected or name in getattr(self, "_added", ()) or \\
                not self._mandatory(self._convention[name]["flags"]):
            super().__delattr__(name)
"""), (SOFA, """        # add user entry to custom API, if""",
       """        # remember data added by the user
        self.__dict__.setdefault("_added", []).append(key)

        # add user entry to custom API, if""")],
     """
from stage import sf, raises
s = sf.Sofa("GeneralFIR")
s.protected = False
s.delete("GLOBAL_License")
s.protected = True
s.add_attribute("GLOBAL_License", "mine")
assert raises(TypeError, s.delete, "GLOBAL_License")
assert s.GLOBAL_License == "mine"
""")

seed("C08_failed_delete", "deleting a variable of which an attribute can not "
     "be deleted",
     "deleting a variable also deletes its attributes, also if the deletion "
     "of the variable fails",
     [(SOFA, """        delattr(self, name)

    @property
    def protected(self):""", """        # attributes are meaningless without their variable
        for key in [k for k in self.__dict__ if k.startswith(name + "_")]:
            if not self._mandatory(self._convention[key]["flags"]):
                delattr(self, key)
        delattr(self, name)

    @property
    def protected(self):""")],
     """
from stage import sf, raises
s = sf.Sofa("GeneralFIR")
s.add_attribute("ListenerPosition_Note", "x")
assert raises(TypeError, s.delete, "ListenerPosition")
assert hasattr(s, "ListenerPosition_Note")
""") if False else None

seed("C10_free_second", "an entry with two allowed dimension sequences, both "
     "fitting, of different length",
     "the last instead of the first fitting shape of an entry is used",
     [(SOFA, """                    shape_matched = True
                    self._dimensions[key] = dim.upper()
                    break
""", """                    shape_matched = True
                    self._dimensions[key] = dim.upper()
                    if key not in getattr(self, "_custom", {}):
                        break
""")],
     """
from stage import sf
s = sf.Sofa("GeneralFIR")
assert True
""") if False else None

seed("C10_dims_of_size_one", "a variable whose first dimension has size one "
     "although the object has more measurements",
     "a single row is accepted for any number of measurements",
     [(SOFA, """            for dim in dimensions.split(", "):

                # get the reference""", """            options = dimensions.split(", ")
            # data that are the same for all measurements
            options += [f"I{dim[1:]}" for dim in options
                        if dim[0] == "M" and dtype == "double"]

            for dim in options:

                # get the reference""")],
     """
from stage import sf, raises
import numpy as np
s = sf.Sofa("SimpleFreeFieldHRIR")
s.Data_IR = np.zeros((4, 2, 8))
s.SourcePosition = np.zeros((4, 3))
s.verify()
s.add_variable("Weight", np.zeros((1, 3)), "double", "MC")
assert raises(ValueError, s.verify)
""")

seed("C10_stale_sizes", "verifying an object twice with data of a custom "
     "dimension deleted in between",
     "dimensions that do not exist any more are still reported and written",
     [(SOFA, """        self._dimensions = {}
        self._api = {}
""", """        self._dimensions = {}
        self._api = dict(getattr(self, "_api", {}))
""")],
     """
from stage import sf, raises
s = sf.Sofa("GeneralFIR")
s.add_variable("Foo", [1, 2, 3, 4], "double", "IQ")
assert s.get_dimension("Q") == 4
s.delete("Foo")
assert raises(ValueError, s.get_dimension, "Q")
""")

seed("C12_reserved_prefix", "custom names that start with a reserved word",
     "names that only start with a reserved word are not reported",
     [(SOFA, 'if key.startswith("PRIVATE") or key.startswith("API"):',
       'if key.split("_")[0] in ("PRIVATE", "API"):')],
     """
from stage import sf, raises
s = sf.Sofa("GeneralFIR")
s.add_variable("PRIVATEData", 1., "double", "I")
assert raises(ValueError, s.verify)
""")

seed("C12_normative", "a custom variable with the name of a global attribute "
     "of the convention",
     "custom data may have the names of global attributes of the convention",
     [(SOFA, """            normative = [n.replace("GLOBAL_", "") for n in normative]
""", """            normative = [n for n in normative]
""")],
     """
from stage import sf, raises
s = sf.Sofa("GeneralFIR")
s.add_variable("Title", 1., "double", "I")
assert raises(ValueError, s.verify)
""")

seed("C12_left_over", "a custom entry that was deleted, and the object used "
     "afterwards",
     "deleted custom variables are still part of the object's definition",
     [(SOFA, """                    self._custom.pop(name)
                    self._convention""", """                    self._custom.pop(name) if name.count("_") else None
                    self._convention""")],
     """
from stage import sf
s = sf.Sofa("GeneralFIR")
s.add_variable("Foo", 1., "double", "I")
s.delete("Foo")
s.verify()
""")

seed("C16_custom_after_upgrade", "a custom entry with the name of an entry "
     "of the upgraded convention only",
     "custom entries that become part of the convention stay custom entries",
     [(SOFA, """            for key in self._convention:
                if key in self._custom:
                    del self._custom[key]
""", """            for key in [k for k in self._custom
                        if k in self._convention and
                        self._custom[k] == self._convention[k]]:
                del self._custom[key]
""")],
     """
from stage import sf, package
import json, os
p = os.path.join(package, "sofa_conventions", "conventions",
                 "GeneralTF_2.0.json")
with open(p) as f:
    c = json.load(f)
c["Foo"] = {"default": 1.0, "flags": None, "dimensions": "I",
            "type": "double", "comment": ""}
with open(p, "w") as f:
    json.dump(c, f)
s = sf.Sofa("GeneralTF", version="1.0")
s.add_variable("Foo", 1., "double", "I")
s.upgrade_convention("GeneralTF_2.0")
s.verify()
""")

seed("C13_number_of_units", "a unit that lacks the last of several required "
     "units",
     "the number of units is not compared",
     [(SOFA, """        # check if number of units agree
        if len(units_ref) != len(units_test):
            return False
""", """        # check if there are enough units
        if len(units_ref) < len(units_test):
            return False
""")],
     """
from stage import sf, raises
s = sf.Sofa("GeneralFIR")
s.ListenerPosition_Type = "spherical"
s.ListenerPosition_Units = "degree, degree, metre"
s.verify()
s.ListenerPosition_Units = "degree, degree"
assert raises(ValueError, s.verify)
""")

seed("C13_order", "the required units in another order",
     "the order of units is ignored",
     [(SOFA, """        for unit_test, unit_ref in zip(units_test, units_ref):
            if unit_test not in unit_aliases \\
                    or unit_aliases[unit_test] != unit_ref:
                return False

        return True
""", """        return sorted(unit_aliases.get(unit, "") for unit in units_test) == \\
            sorted(units_ref)
""")],
     """
from stage import sf, raises
s = sf.Sofa("GeneralFIR")
s.ListenerPosition_Type = "spherical"
s.ListenerPosition_Units = "metre, degree, degree"
assert raises(ValueError, s.verify)
""")

seed("C13_upper_write", "units of custom variables with upper case letters",
     "the case of custom units is not checked when writing",
     [(SOFA, """            keys = [k for k in self.__dict__.keys() if k.endswith("Units")
                    and self""", """            keys = [k for k in self.__dict__.keys() if k.endswith("Units")
                    and k in self._convention and not
                    self._convention[k]["default"] is None and self""")],
     """
from stage import sf, raises
s = sf.Sofa("GeneralFIR")
s.add_variable("Foo", 1., "double", "I")
s.add_attribute("Foo_Units", "Pascal")
assert raises(ValueError, s.verify)
""")

seed("C14_print_upper", "units with upper case letters, verified in write "
     "mode without raising",
     "units in upper case are only found in 'raise' mode",
     [(SOFA, '        if mode == "write":\n            keys = [k for k',
       '        if mode == "write" and issue_handling == "raise":\n'
       '            keys = [k for k')],
     """
from stage import sf
s = sf.Sofa("GeneralFIR")
s.ListenerPosition_Units = "Metre"
assert s.verify(issue_handling="return", mode="write") is not None
""")

seed("C14_warnings_lost", "an object with both warnings and errors, verified "
     "with issue_handling='return'",
     "warnings are not returned if there are errors as well",
     [(SOFA, """            issues = error_msg + "\\n" + warning_msg
""", """            issues = error_msg
""")],
     """
from stage import sf
s = sf.Sofa("SingleTrackedAudio", version="0.2")
s.GLOBAL_RoomType = "wrong"
out = s.verify(issue_handling="return", mode="read")
assert "preliminary" in out and "GLOBAL_RoomType" in out, out
""")

seed("C14_normalised", "coordinate types with upper case letters",
     "verification converts coordinate types to lower case",
     [(SOFA, """                    ["cartesian", "spherical", "spherical harmonics"]:
                test = test.lower()
""", """                    ["cartesian", "spherical", "spherical harmonics"]:
                test = self.__dict__[key_sofar] = test.lower()
""")],
     """
from stage import sf
s = sf.Sofa("GeneralFIR")
s.ListenerPosition_Type = "Cartesian"
s.verify(mode="read")
assert s.ListenerPosition_Type == "Cartesian"
""")

seed("C15_date", "entries other than the global date attributes that contain "
     "'Date'",
     "excluding dates does not exclude custom date entries",
     [(UTILS, """            keys_a = [k for k in keys_a if "Date" not in k]
            keys_b = [k for k in keys_b if "Date" not in k]
""", """            keys_a = [k for k in keys_a if not k.startswith("GLOBAL_Date")]
            keys_b = [k for k in keys_b if not k.startswith("GLOBAL_Date")]
""")],
     """
from stage import sf
a = sf.Sofa("GeneralFIR")
b = a.copy()
a.add_attribute("ListenerPosition_DateMeasured", "today")
b.add_attribute("ListenerPosition_DateMeasured", "yesterday")
assert sf.equals(a, b, exclude="DATE", verbose=False)
""")

seed("C15_whitespace", "attributes that differ in trailing white space only",
     "white space around attributes is ignored when comparing",
     [(UTILS, """            # compare
            if a != b:
""", """            # compare
            if str(a).strip() != str(b).strip():
""")],
     """
from stage import sf
a = sf.Sofa("GeneralFIR")
b = a.copy()
a.GLOBAL_Title = "title"
b.GLOBAL_Title = "title "
assert not sf.equals(a, b, verbose=False)
""")

seed("C16_same_name", "an upgrade that moves the axes of an entry but keeps "
     "its name",
     "moved data are deleted if they keep their name",
     [(SOFA, """            # get data
            data = getattr(self, source_sofar)
            # delete from Sofa object
            delattr(self, source_sofar)
""", """            # get data
            data = getattr(self, source_sofar)
"""), (SOFA, """            # add data
            setattr(self, target_sofar, data)
            # print info
""", """            # add data
            setattr(self, target_sofar, data)
            # delete from Sofa object
            if moveaxis is not None or source_sofar != target_sofar:
                delattr(self, source_sofar)
            # print info
""")],
     """
from stage import sf
import numpy as np
s = sf.Sofa("MultiSpeakerBRIR", version="0.3")
s.Data_IR = np.arange(2. * 2 * 1 * 4).reshape(2, 2, 1, 4) \\
    if s._convention["Data_IR"]["dimensions"].upper() == "MREN" else \\
    np.arange(2. * 2 * 4 * 1).reshape(2, 2, 4, 1)
total = s.Data_IR.sum()
s.upgrade_convention("SingleRoomMIMOSRIR_1.0", verify=False)
assert s.Data_IR.sum() == total
""")

seed("C16_optional", "an outdated object that lacks optional data",
     "upgrading adds optional data as well",
     [(SOFA, "        self.add_missing(True, False)\n",
       "        self.add_missing()\n")],
     """
from stage import sf
s = sf.Sofa("GeneralTF", version="1.0", mandatory=True)
before = set(vars(s))
s.upgrade_convention("GeneralTF_2.0", verify=False)
optional = [k for k, v in s._convention.items() if k not in before
            and (not v["flags"] or "m" not in v["flags"])]
assert optional and not [k for k in optional if hasattr(s, k)]
""")

seed("C17_wrong_group", "add_missing(mandatory=False) for an object that "
     "lacks mandatory data",
     "mandatory data are added although not asked for",
     [(SOFA, """            add_data = (is_mandatory and mandatory) or \\
                (not is_mandatory and optional)
""", """            add_data = (is_mandatory and mandatory) or optional
""")],
     """
from stage import sf
s = sf.Sofa("GeneralFIR")
s.protected = False
s.delete("GLOBAL_License")
s.add_missing(mandatory=False, verbose=False)
assert not hasattr(s, "GLOBAL_License")
""")

seed("C17_unreported", "adding only optional data",
     "the report lists the wrong group",
     [(SOFA, """                added += f"({'mandatory' if is_mandatory else 'optional'})\\n"
""", """                added += f"({'mandatory' if mandatory else 'optional'})\\n"
""")],
     """
from stage import sf
import contextlib, io
s = sf.Sofa("GeneralFIR", mandatory=True)
optional = [k for k, v in s._convention.items() if not hasattr(s, k)
            and (not v["flags"] or "m" not in v["flags"])]
out = io.StringIO()
with contextlib.redirect_stdout(out):
    s.add_missing()
assert optional
for k in optional:
    assert f"- {k} (optional)" in out.getvalue(), out.getvalue()
""")

seed("C18_encoding", "comments with characters that are not ASCII",
     "characters of the windows encoding are dropped",
     [(UPDATE, """    with open(file, 'r', encoding="windows-1252") as fid:
""", """    with open(file, 'r', encoding="utf-8", errors="ignore") as fid:
""")],
     """
from stage import sf, path
from sofar.update_conventions import _convention_csv2dict
with open(path("a.csv"), "wb") as f:
    f.write("Name\\tDefault\\tFlags\\tDimensions\\tType\\tComment\\n"
            "GLOBAL:Title\\tx\\tm\\t\\tattribute\\tin \\xb5m\\n"
            .encode("windows-1252"))
d = _convention_csv2dict(path("a.csv"))
assert d["GLOBAL:Title"]["comment"] == "in \\xb5m", d
""")

seed("C18_semicolon", "text defaults that contain brackets or semicolons",
     "lists with a single row in a matrix are flattened",
     [(UPDATE, """                    cell = cell_nd

""", """                    cell = cell_nd if len(cell_nd[0]) > 1 else \\
                        [c[0] for c in cell_nd]

""")],
     """
from stage import sf, path
from sofar.update_conventions import _convention_csv2dict
with open(path("a.csv"), "w") as f:
    f.write("Name\\tDefault\\tFlags\\tDimensions\\tType\\tComment\\n"
            "Foo\\t[1; 2; 3]\\tm\\tMI\\tdouble\\t\\n")
d = _convention_csv2dict(path("a.csv"))
assert d["Foo"]["default"] == [[1], [2], [3]], d
""")

seed("C18_error_file", "a malformed line in a source table",
     "malformed lines are skipped",
     [(UPDATE, """            raise ValueError((f"Failed to parse line {idl}, entry {idc} in: "
                            f"{file}: \\n{line}\\n")) from None
""", """            if idl == 0 or len(line) > 1:
                raise ValueError(
                    f"Failed to parse line {idl}, entry {idc} in: "
                    f"{file}: \\n{line}\\n") from None
""")],
     """
from stage import sf, path, raises
from sofar.update_conventions import _convention_csv2dict
with open(path("a.csv"), "w") as f:
    f.write("Name\\tDefault\\tFlags\\tDimensions\\tType\\tComment\\n"
            "GLOBAL:Title\\tx\\tm\\t\\tattribute\\t\\n"
            "GLOBAL:Author\\n")
assert raises(ValueError, _convention_csv2dict, path("a.csv"))
""")
SEEDS[:] = [s for s in SEEDS if s]
