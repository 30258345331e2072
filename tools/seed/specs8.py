"""Planted bugs, see tools/newseed.py."""
IO = "sofar/io.py"
SOFA = "sofar/sofa.py"
UTILS = "sofar/utils.py"
UPDATE = "sofar/update_conventions.py"

SEEDS = []


def seed(id, needs, breaks, edits, demo):
    SEEDS.append(dict(id=id, property=id[:3], needs=needs, breaks=breaks,
                      edits=edits, demo=demo))


seed("C16_partial_target", "the beginning of the name of a possible target, "
     "followed by the version",
     "upgrading to a part of the name of a target raises an error instead "
     "of listing the targets",
     [(SOFA, """                    if target in targets:
                        target_id = from_to[2]
""", """                    if target is not None and target in str(targets):
                        target_id = from_to[2]
""")], """
from stage import sf
s = sf.Sofa("GeneralTF", version="1.0", verify=False)
assert s.upgrade_convention("TF_2.0") == ["GeneralTF_2.0"]
""")

seed("C15_units_case", "two objects whose units differ in upper and lower "
     "case",
     "units are compared ignoring the case",
     [(UTILS, """            if a != b:
                is_identical""", """            if a != b and not (key.endswith("Units") and isinstance(a, str)
                               and a.lower() == str(b).lower()):
                is_identical""")], """
from stage import sf
a = sf.Sofa("GeneralTF")
b = a.copy()
b.N_Units = "Hertz"
assert not sf.equals(a, b, verbose=False)
""")

seed("C11_harmonics_case", "spherical harmonics in upper case with units of "
     "cartesian data",
     "dependencies of spherical harmonics are only checked in lower case",
     [(SOFA, """                    ["cartesian", "spherical", "spherical harmonics"]:
                test = test.lower()
""", """                    ["cartesian", "spherical"]:
                test = test.lower()
""")], """
from stage import sf, raises
s = sf.Sofa("GeneralTF")
for name in ("spherical harmonics", "Spherical Harmonics"):
    s.ReceiverPosition_Units = "degree, degree, metre"
    s.ReceiverPosition_Type = name
    s.verify()
    s.ReceiverPosition_Units = "metre"
    assert raises(ValueError, s.verify), name
""")

seed("C22_nested", "a list of three or more levels with a single entry on "
     "the outer level",
     "the outer level of nested lists is lost",
     [(SOFA, """            value = np.atleast_2d(value)
            if value.size == 1:
                value = value.flatten()[0]
""", """            value = np.atleast_2d(
                value[0] if np.ndim(value) > 3 and len(value) == 1 else value)
            if value.size == 1:
                value = value.flatten()[0]
""")], """
from stage import sf
s = sf.Sofa("GeneralTF")
s.Data_Real = [[[[1., 2.], [3., 4.]]]]
assert s.Data_Real.shape == (1, 1, 2, 2)
""")

seed("C18_contains_data", "an entry whose name contains, but does not start "
     "with, Data",
     "entries that contain Data in their name are sorted to the end",
     [(UPDATE, """        if key.startswith("Data"):
            convention[key] = convention.pop(key)
""", """        if "Data" in key and "GLOBAL" not in key:
            convention[key] = convention.pop(key)
""")], """
from stage import sf, path
import json, sys
module = sys.modules["sofar.update_conventions"]
with open(path("A_1.0.csv"), "w") as f:
    f.write("Name\\tDefault\\tFlags\\tDimensions\\tType\\tComment\\n")
    for n in ("GLOBAL:A", "MeasuredData", "Other"):
        f.write(f"{n}\\tx\\tm\\t\\tattribute\\tc\\n")
assert list(module._convention_csv2dict(path("A_1.0.csv"))) == [
    "GLOBAL:A", "MeasuredData", "Other"]
""")

seed("C04_zero_row", "a file with a variable of a single row of zeros",
     "the first dimension of a row of zeros is lost",
     [(IO, """            # Convert to numpy array or scalar
            value = np.asarray(value)
""", """            # Convert to numpy array or scalar
            value = np.asarray(
                value if value.ndim < 3 or len(value) > 1 or value.any()
                else value[0])
""")], """
from stage import sf, path
import numpy as np
s = sf.Sofa("GeneralTF")
s.N = [1., 2.]
s.ReceiverPosition = np.zeros((2, 3))
s.Data_Real = s.Data_Imag = np.zeros((1, 2, 2))
sf.write_sofa(path("a.sofa"), s)
assert sf.read_sofa(path("a.sofa"), verify=False, verbose=False
                    ).Data_Real.shape == (1, 2, 2)
""")
