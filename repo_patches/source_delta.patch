From 8ecae13dd4e5780c27511adafe1b94f4df639089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:23 +0000
Subject: [PATCH 01/54] fix: write string variables with the installed netCDF4

netCDF4.stringtochar calls str.encode on every element unless the encoding is
'ascii' or 'bytes'; the values passed by write_sofa are byte strings already.
---
 sofar/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sofar/io.py b/sofar/io.py
index 558622a..664725a 100644
--- a/sofar/io.py
+++ b/sofar/io.py
@@ -330,7 +330,7 @@ def _write_sofa(filename: str, sofa: sf.Sofa, compression=4, verify=True):
             if dtype == "f8":
                 tmp_var[:] = value
             else:
-                tmp_var[:] = stringtochar(value, encoding='utf-8')
+                tmp_var[:] = stringtochar(value, encoding='ascii')
 
             # write variable attributes
             sub_keys = [k for k in all_keys if k.startswith(f"{key}_")]
-- 
2.43.0


From c812678a44e1d4681aa7c70774406ce2b09c666b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:28 +0000
Subject: [PATCH 02/54] fix: verify and write string variables with more than
 one string axis

The size of string arrays with two or more dimensions could not be detected,
and the character array was written with a superfluous dimension.
---
 sofar/io.py   | 6 +++++-
 sofar/sofa.py | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/sofar/io.py b/sofar/io.py
index 664725a..f8c07b3 100644
--- a/sofar/io.py
+++ b/sofar/io.py
@@ -330,7 +330,11 @@ def _write_sofa(filename: str, sofa: sf.Sofa, compression=4, verify=True):
             if dtype == "f8":
                 tmp_var[:] = value
             else:
-                tmp_var[:] = stringtochar(value, encoding='ascii')
+                # match the shape of the variable (strings are written as
+                # character arrays, i.e., the last dimension is always S)
+                value = stringtochar(value, encoding='ascii')
+                tmp_var[:] = value.reshape(
+                    [sofa._api[dim] for dim in shape[:-1]] + [-1])
 
             # write variable attributes
             sub_keys = [k for k in all_keys if k.startswith(f"{key}_")]
diff --git a/sofar/sofa.py b/sofar/sofa.py
index d629feb..0d53c66 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -1779,7 +1779,7 @@ class Sofa():
             S = len(max(value, key=len))
             shape = np.array(value).shape
         elif isinstance(value, np.ndarray):
-            S = max(np.vectorize(len)(value))
+            S = np.max(np.vectorize(len)(value))
             shape = value.shape
         else:
             raise TypeError((f"{key} must be a string, numpy string array, "
-- 
2.43.0


From 595ed99a3376cf8c6786f5d6baa9ab6cc3f4b473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:29 +0000
Subject: [PATCH 03/54] fix: write and read non-ASCII string variables

Objects with non-ASCII characters in string variables passed the verification
but could not be encoded as ASCII, which left a truncated file behind.
---
 sofar/io.py   | 10 ++++++----
 sofar/sofa.py |  7 ++++---
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/sofar/io.py b/sofar/io.py
index f8c07b3..198908a 100644
--- a/sofar/io.py
+++ b/sofar/io.py
@@ -2,7 +2,7 @@
 import contextlib
 import os
 import numpy as np
-from netCDF4 import Dataset, chartostring, stringtochar
+from netCDF4 import Dataset, chartostring
 import warnings
 import pathlib
 from packaging.version import parse
@@ -332,7 +332,7 @@ def _write_sofa(filename: str, sofa: sf.Sofa, compression=4, verify=True):
             else:
                 # match the shape of the variable (strings are written as
                 # character arrays, i.e., the last dimension is always S)
-                value = stringtochar(value, encoding='ascii')
+                value = np.frombuffer(value.tobytes(), dtype="S1")
                 tmp_var[:] = value.reshape(
                     [sofa._api[dim] for dim in shape[:-1]] + [-1])
 
@@ -380,7 +380,9 @@ def _format_value_for_netcdf(value, key, dtype, dimensions, S):
         value = _atleast_nd(value, len(dimensions))
         netcdf_dtype = "f8"
     elif dtype == "string":
-        value = np.array(value, dtype=f"S{str(S)}")
+        # netCDF char arrays store bytes, i.e., S is the length in bytes
+        value = np.char.encode(np.array(value, dtype="U"), "utf-8")
+        value = value.astype(f"S{str(S)}")
         value = _atleast_nd(value, len(dimensions))
         netcdf_dtype = 'S1'
     else:
@@ -416,7 +418,7 @@ def _format_value_from_netcdf(value, key):
         # string arrays are stored in masked arrays with empty strings '' being
         # masked. Convert to regular arrays with unmasked empty strings
         if str(value.dtype)[1] == "S":
-            value = chartostring(value, encoding="ascii")
+            value = chartostring(value, encoding="utf-8")
         value = np.atleast_1d(value).astype("U")
     else:
         raise TypeError(
diff --git a/sofar/sofa.py b/sofar/sofa.py
index 0d53c66..1293f9f 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -1773,13 +1773,14 @@ class Sofa():
         """
 
         if isinstance(value, str):
-            S = len(value)
+            S = len(value.encode("utf-8"))
             shape = (1, 1)
         elif isinstance(value, list):
-            S = len(max(value, key=len))
+            S = max(len(v.encode("utf-8")) for v in value)
             shape = np.array(value).shape
         elif isinstance(value, np.ndarray):
-            S = np.max(np.vectorize(len)(value))
+            S = np.max(np.char.str_len(
+                np.char.encode(value.astype("U"), "utf-8")))
             shape = value.shape
         else:
             raise TypeError((f"{key} must be a string, numpy string array, "
-- 
2.43.0


From c646f3f7d84408719f02999c67016658d48f48cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:03 +0000
Subject: [PATCH 04/54] fix: inspect string data and data of invalid shape

Sofa.inspect raised an error for string variables that are given as string and
for variables that do not have a valid shape, although invalid objects can be
inspected since version 0.3.1.
---
 sofar/sofa.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index 1293f9f..ea80f17 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -458,13 +458,16 @@ class Sofa():
             value = getattr(self, key)
 
             # information for attributes and scalars
-            if self._convention[key]["type"] == "attribute" or value.size == 1:
+            if self._convention[key]["type"] == "attribute" \
+                    or np.size(value) == 1:
                 info_str += str(value) + "\n"
             # information for variables
             else:
                 # get shape and dimension
                 shape = value.shape
-                dimension = self._dimensions[key]
+                # (not known for invalid data, see Sofa.verify)
+                dimension = getattr(self, "_dimensions", {}).get(
+                    key, "?" * len(shape))
 
                 # pad shape if required (trailing single dimensions are
                 # discarded following the numpy default)
-- 
2.43.0


From fb2b5ca14f9402e823388c85bdcb2e1f8ff37256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:43 +0000
Subject: [PATCH 05/54] fix: write and read attributes regardless of their name

Attributes were set and read as Python attributes of netCDF4 objects, i.e.,
attributes with names such as 'name', 'path', or 'shape' were mixed up with the
members of these objects.
---
 sofar/io.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sofar/io.py b/sofar/io.py
index 198908a..d2326d4 100644
--- a/sofar/io.py
+++ b/sofar/io.py
@@ -145,7 +145,7 @@ def _read_netcdf(filename, verify, verbose, mode):
         # load global attributes
         for attr in file.ncattrs():
 
-            value = getattr(file, attr)
+            value = file.getncattr(attr)
             all_attr.append(f"GLOBAL_{attr}")
 
             if not hasattr(sofa, f"GLOBAL_{attr}"):
@@ -176,7 +176,7 @@ def _read_netcdf(filename, verify, verbose, mode):
             # load variable attributes
             for attr in [a for a in file[var].ncattrs() if a not in skip]:
 
-                value = getattr(file[var], attr)
+                value = file[var].getncattr(attr)
                 all_attr.append(var.replace(".", "_") + "_" + attr)
 
                 if not hasattr(sofa, var.replace(".", "_") + "_" + attr):
@@ -301,7 +301,7 @@ def _write_sofa(filename: str, sofa: sf.Sofa, compression=4, verify=True):
         # write global attributes
         keys = [key for key in all_keys if key.startswith("GLOBAL_")]
         for key in keys:
-            setattr(file, key[7:], str(getattr(sofa, key)))
+            file.setncattr(key[7:], str(getattr(sofa, key)))
 
         # write data
         for key in all_keys:
@@ -339,8 +339,8 @@ def _write_sofa(filename: str, sofa: sf.Sofa, compression=4, verify=True):
             # write variable attributes
             sub_keys = [k for k in all_keys if k.startswith(f"{key}_")]
             for sub_key in sub_keys:
-                setattr(tmp_var, sub_key[len(key)+1:],
-                        str(getattr(sofa, sub_key)))
+                tmp_var.setncattr(sub_key[len(key)+1:],
+                                  str(getattr(sofa, sub_key)))
 
 
 def _format_value_for_netcdf(value, key, dtype, dimensions, S):
-- 
2.43.0


From 0153efba7ca8b3f88ee8007fe9bd61d11254c103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:06 +0000
Subject: [PATCH 06/54] fix: get all variables and attributes with SofaStream

Variables with names ending in 'Data', attributes with underscores in their
name, and attributes named like members of netCDF4 variables could not be
accessed. Accessing data outside a with statement caused an endless recursion.
---
 sofar/sofastream.py | 60 ++++++++++++++++++++++-----------------------
 1 file changed, 30 insertions(+), 30 deletions(-)

diff --git a/sofar/sofastream.py b/sofar/sofastream.py
index 72fdd45..000cfb3 100644
--- a/sofar/sofastream.py
+++ b/sofar/sofastream.py
@@ -88,35 +88,35 @@ class SofaStream():
         Executed when accessing data within a with statement
         (see documentation above).
         """
-        # get netCDF4-attributes and -variable-keys from SOFA-file
-        dset_variables = np.array(list(self._file.variables.keys()))
-        dset_attributes = np.asarray(self._file.ncattrs())
-
-        # remove delimiter from passed sofar-attribute
-        name_netcdf = name.replace(
-            'GLOBAL_', '').replace('Data_', 'Data.')
-
-        # Handle variable-attributes (e.g. '_Units' and '_Type')
-        var_attr = None
-        if "_" in name_netcdf:
-            name_netcdf, var_attr = name_netcdf.split('_')
-
-        # get value if passed attribute points to a netCDF4-variable
-        if name_netcdf in dset_variables:
-            # get variable from SOFA-file
-            self._data = self._file.variables[name_netcdf]
-            if var_attr is not None:
-                self._data = getattr(self._data, var_attr)
-
-        # get value if passed attribute points to a netCDF4-attribute
-        elif name_netcdf in dset_attributes:
-            # get attribute value from SOFA-file
-            self._data = self._file.getncattr(name_netcdf)
-
-        else:
-            raise AttributeError(f"{name} is not contained in SOFA-file")
-
-        return self._data
+        # the file is only available inside the with statement
+        if name == "_file":
+            raise AttributeError(
+                "SOFA-files must be opened using a with statement")
+
+        dset_variables = self._file.variables
+        dset_attributes = self._file.ncattrs()
+
+        # global attributes
+        if name.startswith('GLOBAL_') \
+                and name[len('GLOBAL_'):] in dset_attributes:
+            return self._file.getncattr(name[len('GLOBAL_'):])
+
+        # variables and their attributes (e.g. '_Units' and '_Type')
+        # (named as in sofar.read_sofa)
+        for key in dset_variables:
+            key_sofar = key.replace('.', '_')
+            if name in [key, key_sofar]:
+                return dset_variables[key]
+            if name.startswith(f'{key_sofar}_'):
+                var_attr = name[len(key_sofar) + 1:]
+                if var_attr in dset_variables[key].ncattrs():
+                    return dset_variables[key].getncattr(var_attr)
+
+        # global attributes without prefix
+        if name in dset_attributes:
+            return self._file.getncattr(name)
+
+        raise AttributeError(f"{name} is not contained in SOFA-file")
 
     @property
     def list_dimensions(self):
@@ -290,7 +290,7 @@ class SofaStream():
             # Add variable-attributes to info string (e.g. 'Type' or 'Units)
             for att_ in list(self._file[key].ncattrs()):
                 info_str += (key.replace('.', '_') + f'_{att_} : '
-                             + getattr(data, att_) + '\n')
+                             + str(data.getncattr(att_)) + '\n')
 
         # write to text file
         if file is not None:
-- 
2.43.0


From 677abeeb7500e888de32840ae493aaa0bd45ac26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:39 +0000
Subject: [PATCH 07/54] fix: add attributes to Data variables

Sofa.add_attribute rejected all attributes of Data variables including the
documented example Data_Real_Units.
---
 sofar/sofa.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index ea80f17..c328867 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -664,9 +664,11 @@ class Sofa():
             raise ValueError(("underscores '_' in the name are only "
                               "allowed for attributes"))
         if dtype == "attribute":
-            if name.count("_") != 1 or \
-                    (name.startswith("Data_") and (name.count("_") == 0 or
-                                                   name.count("_") > 2)):
+            # attributes of data variables contain an additional underscore,
+            # e.g., Data_Real_Units
+            is_data = name.startswith("Data_") and \
+                name[:name.rindex("_")] in self._convention
+            if name.count("_") != (2 if is_data else 1):
                 raise ValueError((f"The name of {name} must have the "
                                   "form VariableName_AttributeName"))
             if not name.startswith("GLOBAL_") and \
-- 
2.43.0


From 11eeacf293575042977a57ffdf7d4a77c5438dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:10 +0000
Subject: [PATCH 08/54] fix: verify string variables of type S

Byte strings are allowed according to the documentation of Sofa.add_variable.
---
 sofar/sofa.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index c328867..b04aab4 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -1050,9 +1050,8 @@ class Sofa():
                     current_error += (f"- {key} must be string or numpy array "
                                       f"but is {type(value)}\n")
 
-                if isinstance(value, np.ndarray) and not (
-                        str(value.dtype).startswith('<U') or
-                        str(value.dtype).startswith('<S')):
+                if isinstance(value, np.ndarray) and \
+                        value.dtype.kind not in ['U', 'S']:
                     current_error += (f"- {key} must be U or S "
                                       f"but is {type(value.dtype)}\n")
 
-- 
2.43.0


From bdc02850d5760238e43fca928e34984acd6c358b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:30 +0000
Subject: [PATCH 09/54] fix: compare the shapes of data in equals

Scalars and string arrays were broadcast, i.e., data of different shape could
be identical or could not be compared. Missing data were identical to any value
and non-ASCII strings could not be compared.
---
 sofar/utils.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/sofar/utils.py b/sofar/utils.py
index db70d72..9aeaf17 100644
--- a/sofar/utils.py
+++ b/sofar/utils.py
@@ -212,19 +212,25 @@ def equals(sofa_a, sofa_b, verbose=True, exclude=None):
         elif type_a == "double" and type_b == "double":
 
             try:
+                # (npt.assert_allclose broadcasts scalars and ignores
+                # missing data)
+                assert np.squeeze(a).shape == np.squeeze(b).shape
+                assert np.all(np.ma.getmaskarray(np.squeeze(a)) ==
+                              np.ma.getmaskarray(np.squeeze(b)))
                 npt.assert_allclose(np.squeeze(a), np.squeeze(b))
             except AssertionError:
                 is_identical = _equals_raise_warning(
-                    "not identical: different values for {key}", verbose)
+                    f"not identical: different values for {key}", verbose)
 
         # compare string variables
         elif type_a == "string" and type_b == "string":
             try:
+                assert np.squeeze(a).shape == np.squeeze(b).shape
                 assert np.all(
-                    np.squeeze(a).astype("S") == np.squeeze(b).astype("S"))
+                    np.squeeze(a).astype("U") == np.squeeze(b).astype("U"))
             except AssertionError:
                 is_identical = _equals_raise_warning(
-                    "not identical: different values for {key}", verbose)
+                    f"not identical: different values for {key}", verbose)
         else:
             is_identical = _equals_raise_warning(
                 (f"not identical: {key} has different data types "
-- 
2.43.0


From 7c21cba871d4dab0d48d148b01b0a18d58c27121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:42 +0000
Subject: [PATCH 10/54] fix: verify units that are separated by spaces

AES69 and the documentation allow to separate units by comma, comma and space,
or space, but units that are only separated by spaces were rejected.
---
 sofar/sofa.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index b04aab4..e252309 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -1508,6 +1508,9 @@ class Sofa():
         # (regexp ', ?' matches ', ' and ',')
         units_ref = re.split(', ?', ref[0])
         units_test = re.split(', ?', test)
+        # (spaces do not always separate units, e.g., 'cubic metre')
+        if len(units_ref) != len(units_test):
+            units_test = re.split(', ?| ', test)
 
         # check if number of units agree
         if len(units_ref) != len(units_test):
-- 
2.43.0


From e291d6d9bd3bb178ccbbb1f8674c39e80ab5d90a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:30 +0000
Subject: [PATCH 11/54] fix: leave SOFA object unchanged if adding an entry
 fails

A value that could not be converted to an array left the object unprotected and
with a custom entry without value, which can not be verified.
---
 sofar/sofa.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index e252309..f87b2db 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -707,8 +707,14 @@ class Sofa():
         dtype : string
             double, string, or attribute
         """
-        # create custom API if it not exists
+        # add attribute to object
+        # (done first, because invalid values raise an error)
         self.protected = False
+        try:
+            setattr(self, key, value)
+        except Exception:
+            self.protected = True
+            raise
 
         # lower case letters to indicate custom dimensions
         if dimensions is not None:
@@ -729,8 +735,6 @@ class Sofa():
                 "comment": ""}
             self._convention[key] = self._custom[key]
 
-        # add attribute to object
-        setattr(self, key, value)
         self.protected = True
 
     def upgrade_convention(self, target=None, verify='auto'):
-- 
2.43.0


From af84037ec43f6c73ff6b290a130ec1aa6686824e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:55 +0000
Subject: [PATCH 12/54] fix: detect the size of custom dimensions

One dimensional data provided as list and data with more than four dimensions
could not be verified if using custom dimensions.
---
 sofar/sofa.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index f87b2db..6c2c10d 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -1207,9 +1207,13 @@ class Sofa():
             # - defined by lower case letters in `dimensions`
             for idx, dim in enumerate(dimensions.split(", ")[0]):
                 if dim not in "ICS" and dim.islower():
-                    # numeric data
-                    self._api[dim.upper()] = \
-                        _nd_newaxis(value, 4).shape[idx]
+                    # numeric data (one dimensional data might be given as
+                    # row vector, see __setattr__)
+                    if len(dimensions) == 1:
+                        self._api[dim.upper()] = np.size(value)
+                    else:
+                        self._api[dim.upper()] = _nd_newaxis(
+                            value, len(dimensions)).shape[idx]
                 if dim == "S":
                     # string data
                     S = max(S, np.max(self._get_size_and_shape_of_string_var(
-- 
2.43.0


From 1c3712acd0dc1e69bcbf15e8bbf41a1bd00c79cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:59 +0000
Subject: [PATCH 13/54] fix: append '.sofa' to filenames that contain a dot

The part of the filename after the last dot was replaced, e.g., data for
different angles written to 'hrir_1.5' and 'hrir_1.6' ended up in the same file.
---
 sofar/io.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/sofar/io.py b/sofar/io.py
index d2326d4..8f182b1 100644
--- a/sofar/io.py
+++ b/sofar/io.py
@@ -112,7 +112,7 @@ def read_sofa_as_netcdf(filename):
 def _read_netcdf(filename, verify, verbose, mode):
 
     # check the filename
-    filename = pathlib.Path(filename).with_suffix('.sofa')
+    filename = _append_suffix(filename)
     if not os.path.isfile(filename):
         raise ValueError(f"{filename} does not exist")
 
@@ -263,7 +263,7 @@ def _write_sofa(filename: str, sofa: sf.Sofa, compression=4, verify=True):
     """
 
     # check the filename
-    filename = pathlib.Path(filename).with_suffix('.sofa')
+    filename = _append_suffix(filename)
 
     if verify:
         # check if the latest version is used for writing and warn otherwise
@@ -343,6 +343,14 @@ def _write_sofa(filename: str, sofa: sf.Sofa, compression=4, verify=True):
                                   str(getattr(sofa, sub_key)))
 
 
+def _append_suffix(filename):
+    """Append '.sofa' to the filename, if it is not explicitly given."""
+    filename = pathlib.Path(filename)
+    if filename.suffix != '.sofa':
+        filename = filename.with_name(f"{filename.name}.sofa")
+    return filename
+
+
 def _format_value_for_netcdf(value, key, dtype, dimensions, S):
     """
     Format value from SOFA object for saving in a NETCDF4 file.
-- 
2.43.0


From 037fe3f61ecf5f79eb3078342cbc56a2451501f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:27 +0000
Subject: [PATCH 14/54] fix: read netCDF variables without dimensions

---
 sofar/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sofar/io.py b/sofar/io.py
index 8f182b1..1328407 100644
--- a/sofar/io.py
+++ b/sofar/io.py
@@ -436,6 +436,6 @@ def _format_value_from_netcdf(value, key):
     # as scalar metadata, e.g., the SamplingRate
     data_keys = ["Data_IR", "Data_Real", "Data_Imag", "Data_SOS" "Data_Delay"]
     if value.size == 1 and key not in data_keys:
-        value = value[0]
+        value = value[0] if value.ndim else value[()]
 
     return value
-- 
2.43.0


From d499be59094ca3f90059a45c86164871b267220b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:32 +0000
Subject: [PATCH 15/54] fix: upgrade conventions if optional data are missing

Sofa.upgrade_convention raised an error and left a partly upgraded object
behind if optional data that would be moved or removed were not contained.
---
 sofar/sofa.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index 6c2c10d..cbf9c0c 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -848,6 +848,9 @@ class Sofa():
             # get info
             source_sofar = source.replace(".", '_').replace(":", "_")
             target_sofar = move["target"].replace(".", '_').replace(":", "_")
+            # optional data might not be contained
+            if not hasattr(self, source_sofar):
+                continue
             move_info = f"- Moving {source_sofar} to {target_sofar}."
             # get data
             data = getattr(self, source_sofar)
@@ -881,6 +884,9 @@ class Sofa():
         # remove data
         for target in upgrade["remove"]:
             target_sofar = target.replace(".", '_').replace(":", "_")
+            # optional data might not be contained
+            if not hasattr(self, target_sofar):
+                continue
             delattr(self, target_sofar)
             print(f"- Deleting {target_sofar}.")
 
-- 
2.43.0


From 5e8b8adc411321fddd78ffa5490950e900954032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:54 +0000
Subject: [PATCH 16/54] fix: update read only data when upgrading conventions

---
 sofar/sofa.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index cbf9c0c..4670619 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -827,6 +827,11 @@ class Sofa():
         # upgrade -------------------------------------------------------------
         self._convention = self._load_convention(
             convention_target, version_target)
+        self.protected = False
+        self._read_only_attr = [
+            key for key in self._convention.keys()
+            if self._read_only(self._convention[key]["flags"])]
+        self.protected = True
         sofa_version_target = self._convention["GLOBAL_Version"]["default"]
 
         print((f"Upgrading {convention_current} v{version_current} to "
-- 
2.43.0


From e0d9ab8db30f97e4c53f2758bcdb922a61d27594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:00 +0000
Subject: [PATCH 17/54] fix: do not raise unrelated warnings when verifying
 custom data

Verifying objects with custom data created and verified a default object of the
same convention, i.e., warnings were raised with issue_handling='return' and
'print', and twice with issue_handling='raise'.
---
 sofar/sofa.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index 4670619..84b5580 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -1172,9 +1172,9 @@ class Sofa():
         if hasattr(self, "_custom"):
 
             # get normative variables and attributes
-            normative = sf.Sofa(
+            normative = self._load_convention(
                 self.GLOBAL_SOFAConventions,
-                version=self.GLOBAL_SOFAConventionsVersion)._convention.keys()
+                str(self.GLOBAL_SOFAConventionsVersion)).keys()
             normative = [n.replace("GLOBAL_", "") for n in normative]
 
             # compare against custom
-- 
2.43.0


From ca3b016944d1db077c7b8fd3723ad3c918b1d537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:27 +0000
Subject: [PATCH 18/54] fix: return issues if only warnings were detected by
 verify

Sofa.verify(issue_handling='return') returned None if there were warnings but
no errors.
---
 sofar/sofa.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index 84b5580..4a0b494 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -1438,14 +1438,11 @@ class Sofa():
         # ---------------------------------------------------------------------
         # 9. handle warnings and errors
         if issue_handling != "ignore":
-            error_occurred, issues = self._verify_handle_issues(
+            _, issues = self._verify_handle_issues(
                     warning_msg, error_msg, issue_handling)
 
-            if error_occurred:
-                if issue_handling == "print":
-                    return
-                elif issue_handling == "return":
-                    return issues
+            if issue_handling == "return":
+                return issues
 
     @staticmethod
     def _verify_value(test, ref, unit_aliases, key):
-- 
2.43.0


From 5ad7aee61fe56f7e619fa9cdb3451dc4c805b487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:49 +0000
Subject: [PATCH 19/54] fix: ignore data of wrong type in verify if issues are
 ignored

Sofa.verify and Sofa.inspect with issue_handling='ignore' raised unrelated
errors when trying to detect the dimensions of such data.
---
 sofar/sofa.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index 4a0b494..8c7b7bf 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -1085,7 +1085,10 @@ class Sofa():
         # if an error ocurred up to here, it has to be handled. Otherwise
         # detecting the dimensions might fail. Warnings are not reported until
         # the end
-        if error_msg != "\nERRORS\n------\n" and issue_handling != "ignore":
+        if error_msg != "\nERRORS\n------\n":
+            if issue_handling == "ignore":
+                return
+
             _, issues = self._verify_handle_issues(
                     "\nWARNINGS\n--------\n", error_msg, issue_handling)
 
-- 
2.43.0


From 678ec1ad5e368b8b88a7a6db2cc42e8ed526b772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:55 +0000
Subject: [PATCH 20/54] fix: verify custom variables with names ending in
 'Units'

---
 sofar/sofa.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index 8c7b7bf..c7f02a7 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -1401,7 +1401,8 @@ class Sofa():
         # message can be generated)
 
         if mode == "write":
-            keys = [k for k in self.__dict__.keys() if k.endswith("Units")]
+            keys = [k for k in self.__dict__.keys() if k.endswith("Units")
+                    and self._convention[k]["type"] == "attribute"]
             for key in keys:
                 unit = getattr(self, key)
                 if unit.lower() != unit:
-- 
2.43.0


From 97684f278b64db5d1a7000c885856e9b6868d00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:52 +0000
Subject: [PATCH 21/54] fix: detect attributes of missing variables in verify

Attributes of optional variables that are defined in the convention but not
contained in the object passed the verification and were silently dropped when
writing the object to disk.
---
 sofar/sofa.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index c7f02a7..358566a 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -1108,7 +1108,8 @@ class Sofa():
                     key.count("_") == 0:
                 continue
 
-            if (key[:key.rindex("_")] not in self._convention and
+            # (attributes of missing variables can not be written)
+            if (not hasattr(self, key[:key.rindex("_")]) and
                     not key.startswith("GLOBAL_")):
                 current_error += "- " + key + "\n"
 
-- 
2.43.0


From 09fa20ad88beea811b4b8f13e3f730cc187c596e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:58 +0000
Subject: [PATCH 22/54] fix: do not store server errors as conventions

Error pages were parsed and saved as if they were conventions when updating the
conventions.
---
 sofar/update_conventions.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/sofar/update_conventions.py b/sofar/update_conventions.py
index df64108..e1742a0 100644
--- a/sofar/update_conventions.py
+++ b/sofar/update_conventions.py
@@ -58,13 +58,15 @@ def update_conventions(conventions_path=None, assume_yes=False):
     print(f"Reading SOFA conventions from {urls[0]} ...")
 
     # get file names of conventions from sofaconventions.org
-    page = requests.get(urls[0]).text
-    soup = BeautifulSoup(page, 'html.parser')
+    page = requests.get(urls[0])
+    page.raise_for_status()
+    soup = BeautifulSoup(page.text, 'html.parser')
     standardized = [os.path.split(node.get('href'))[1]
                     for node in soup.find_all('a')
                     if node.get('href').endswith(ext)]
-    page = requests.get(urls[1]).text
-    soup = BeautifulSoup(page, 'html.parser')
+    page = requests.get(urls[1])
+    page.raise_for_status()
+    soup = BeautifulSoup(page.text, 'html.parser')
     deprecated = [os.path.split(node.get('href'))[1]
                   for node in soup.find_all('a')
                   if node.get('href').endswith(ext)]
@@ -107,6 +109,7 @@ def update_conventions(conventions_path=None, assume_yes=False):
 
             # download SOFA convention definitions to package directory
             data = requests.get(url)
+            data.raise_for_status()
             # remove windows style line breaks and trailing tabs
             data = data.content.replace(b"\r\n", b"\n").replace(b"\t\n", b"\n")
 
-- 
2.43.0


From 903245673c133938087663cd4e52c8fd00054297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:30 +0000
Subject: [PATCH 23/54] fix: detect data with additional dimensions in verify

Additional dimensions with a size larger than one were ignored when checking
the shape, which caused errors and broken files when writing the data.
---
 sofar/sofa.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index 358566a..5a1c5d3 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -1264,6 +1264,9 @@ class Sofa():
             else:
                 # scalar of single dimensional array like data
                 shape_act = (np.array(value).size, )
+                # (more than one dimension with a size larger one is invalid)
+                if max(np.shape(value), default=1) != shape_act[0]:
+                    shape_act = np.shape(value)
 
             shape_matched = False
             for dim in dimensions.split(", "):
@@ -1281,7 +1284,9 @@ class Sofa():
                     shape_compare += (1, )
 
                 # check if the shapes match and write to API
-                if shape_compare == shape_ref:
+                # (only singleton dimensions can be cropped)
+                if shape_compare == shape_ref and \
+                        np.prod(shape_act) == np.prod(shape_ref):
                     shape_matched = True
                     self._dimensions[key] = dim.upper()
                     break
@@ -1294,7 +1299,7 @@ class Sofa():
                         f"({', '.join([f'{d}={self._api[d]}' for d in dim])})")
 
                 current_error += (
-                    f"- {key} has shape {shape_compare} but must "
+                    f"- {key} has shape {shape_act} but must "
                     f"have {', '.join(dimensions_verbose)}\n")
 
         if current_error:
-- 
2.43.0


From 8bb514592ad1b236066e11c7123fd85ef59449ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:29 +0000
Subject: [PATCH 24/54] fix: allow re-adding deleted custom entries

Custom entries with the name of a deleted custom entry were not registered,
which caused a KeyError during verification.
---
 sofar/sofa.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index 5a1c5d3..ede07d1 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -176,6 +176,7 @@ class Sofa():
             if hasattr(self, "_custom"):
                 if name in self._custom:
                     self._custom.pop(name)
+                    self._convention.pop(name, None)
         else:
             raise TypeError(
                 f"{name} is a mandatory attribute that can not be deleted")
-- 
2.43.0


From 2d3ebb8dc9a2d427452da81d1ac2428edfb2d837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:38 +0000
Subject: [PATCH 25/54] fix: upgrade moving axes of one dimensional arrays

One dimensional arrays are row vectors everywhere else, but were treated as
column vectors when moving axes during the upgrade.
---
 sofar/sofa.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index ede07d1..0c69b4e 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -866,9 +866,9 @@ class Sofa():
             moveaxis = upgrade["move"][source]["moveaxis"]
             if moveaxis is not None:
                 # add dimensions if required
-                # (sofar discards trailing singular dimensions)
-                while data.ndim < np.max(moveaxis) + 1:
-                    data = data[..., None]
+                # (sofar discards trailing singular dimensions and one
+                # dimensional data are row vectors, see verify)
+                data = _atleast_nd(data, np.max(moveaxis) + 1)
                 # move the axis
                 data = np.moveaxis(data, moveaxis[0], moveaxis[1])
                 move_info += f" Moving axis {moveaxis[0]} to {moveaxis[1]}."
-- 
2.43.0


From 94f64ffa33f43c1a77fbc8ed34d2405229546f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:32 +0000
Subject: [PATCH 26/54] fix: write data with additional singular dimensions

Numeric data with additional trailing dimensions of size one pass the
verification but could not be written.
---
 sofar/io.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sofar/io.py b/sofar/io.py
index 1328407..fb08fd4 100644
--- a/sofar/io.py
+++ b/sofar/io.py
@@ -386,6 +386,9 @@ def _format_value_for_netcdf(value, key, dtype, dimensions, S):
         netcdf_dtype = "attribute"
     elif dtype == "double":
         value = _atleast_nd(value, len(dimensions))
+        # discard additional singular dimensions
+        while value.ndim > len(dimensions) and value.shape[-1] == 1:
+            value = value[..., 0]
         netcdf_dtype = "f8"
     elif dtype == "string":
         # netCDF char arrays store bytes, i.e., S is the length in bytes
-- 
2.43.0


From 3c651266ac1a21d5c3ebb64d01a732d0ccec2700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:14 +0000
Subject: [PATCH 27/54] fix: failed additions keep the protection of the object
 as it was

---
 sofar/sofa.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index 0c69b4e..28cf3e8 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -710,11 +710,12 @@ class Sofa():
         """
         # add attribute to object
         # (done first, because invalid values raise an error)
+        protected = bool(self.protected)
         self.protected = False
         try:
             setattr(self, key, value)
         except Exception:
-            self.protected = True
+            self.protected = protected
             raise
 
         # lower case letters to indicate custom dimensions
-- 
2.43.0


From 924f34b366266d39e0c07965f24088cbb01514a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:27 +0000
Subject: [PATCH 28/54] fix: reject dimensions of custom variables that can not
 be written

---
 sofar/sofa.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index 28cf3e8..a59f7bb 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -681,6 +681,14 @@ class Sofa():
                               "dtype double and string"))
         if dimensions is not None:
             dimensions = dimensions.upper()
+            # (strings are stored as characters along S)
+            if dtype != "attribute" and any(
+                    d.find("S") != (len(d) - 1 if dtype == "string" else -1)
+                    for d in dimensions.split(", ")):
+                raise ValueError((
+                    f"dimensions are {dimensions} but the last dimension "
+                    "must be S for entries of dtype string and S can not be "
+                    "used otherwise"))
             for dimension in dimensions:
                 if dimension not in "ERMNCIS":
                     warnings.warn(
-- 
2.43.0


From f21387ec2dfa0e4632700e98b362b47c6e628fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:36 +0000
Subject: [PATCH 29/54] fix: reject custom attributes without a name

---
 sofar/sofa.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index a59f7bb..a44c550 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -669,7 +669,8 @@ class Sofa():
             # e.g., Data_Real_Units
             is_data = name.startswith("Data_") and \
                 name[:name.rindex("_")] in self._convention
-            if name.count("_") != (2 if is_data else 1):
+            if name.count("_") != (2 if is_data else 1) \
+                    or name.endswith("_"):
                 raise ValueError((f"The name of {name} must have the "
                                   "form VariableName_AttributeName"))
             if not name.startswith("GLOBAL_") and \
-- 
2.43.0


From 52ce591b896bb1ced74d399206b7b87287171a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:57 +0000
Subject: [PATCH 30/54] fix: compare single missing values in equals

---
 sofar/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sofar/utils.py b/sofar/utils.py
index 9aeaf17..c4b2f64 100644
--- a/sofar/utils.py
+++ b/sofar/utils.py
@@ -217,7 +217,8 @@ def equals(sofa_a, sofa_b, verbose=True, exclude=None):
                 assert np.squeeze(a).shape == np.squeeze(b).shape
                 assert np.all(np.ma.getmaskarray(np.squeeze(a)) ==
                               np.ma.getmaskarray(np.squeeze(b)))
-                npt.assert_allclose(np.squeeze(a), np.squeeze(b))
+                npt.assert_allclose(np.ma.compressed(np.squeeze(a)),
+                                    np.ma.compressed(np.squeeze(b)))
             except AssertionError:
                 is_identical = _equals_raise_warning(
                     f"not identical: different values for {key}", verbose)
-- 
2.43.0


From a2758e3158cf928719b1ad197384ea1348eafccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:20 +0000
Subject: [PATCH 31/54] fix: keep comments of convention tables as text

---
 sofar/update_conventions.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sofar/update_conventions.py b/sofar/update_conventions.py
index e1742a0..a0966a2 100644
--- a/sofar/update_conventions.py
+++ b/sofar/update_conventions.py
@@ -271,6 +271,10 @@ def _convention_csv2dict(file: str):
                 if cell is None:
                     line[idc] = cell
                     continue
+                # only default values can be numbers or arrays
+                if idc != 1:
+                    line[idc] = cell
+                    continue
                 # parse text cells that do not contain arrays
                 if cell[0] != '[':
                     # check for numbers
-- 
2.43.0


From 423aa6a9704fa112a264b241a9a05fe39f02d124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:42 +0000
Subject: [PATCH 32/54] fix: do not report updates for tables with several
 trailing tabs

---
 sofar/update_conventions.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sofar/update_conventions.py b/sofar/update_conventions.py
index a0966a2..e8d1094 100644
--- a/sofar/update_conventions.py
+++ b/sofar/update_conventions.py
@@ -111,7 +111,7 @@ def update_conventions(conventions_path=None, assume_yes=False):
             data = requests.get(url)
             data.raise_for_status()
             # remove windows style line breaks and trailing tabs
-            data = data.content.replace(b"\r\n", b"\n").replace(b"\t\n", b"\n")
+            data = re.sub(b"\t*\r?\n", b"\n", data.content)
 
             # check if convention needs to be added or updated
             if is_standardized and not os.path.isfile(standardized_csv):
@@ -125,8 +125,8 @@ def update_conventions(conventions_path=None, assume_yes=False):
                 # check for update of a standardized convention
                 with open(standardized_csv, "rb") as file:
                     data_current = b"".join(file.readlines())
-                    data_current = data_current.replace(
-                        b"\r\n", b"\n").replace(b"\t\n", b"\n")
+                    data_current = re.sub(
+                        b"\t*\r?\n", b"\n", data_current)
                 if data_current != data:
                     updated = True
                     with open(os.path.join(temp, convention), "wb") as file:
@@ -145,8 +145,8 @@ def update_conventions(conventions_path=None, assume_yes=False):
                 # check for update of a deprecated convention
                 with open(deprecated_csv, "rb") as file:
                     data_current = b"".join(file.readlines())
-                    data_current = data_current.replace(
-                        b"\r\n", b"\n").replace(b"\t\n", b"\n")
+                    data_current = re.sub(
+                        b"\t*\r?\n", b"\n", data_current)
                 if data_current != data:
                     updated = True
                     with open(os.path.join(temp, 'deprecated', convention),
-- 
2.43.0


From 75b5d60b9afc24684f154c37baabc8910e7ec957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:45 +0000
Subject: [PATCH 33/54] fix: show the shape of vectors in inspect as used by
 the verification

---
 sofar/sofa.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index a44c550..a31c867 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -470,6 +470,14 @@ class Sofa():
                 dimension = getattr(self, "_dimensions", {}).get(
                     key, "?" * len(shape))
 
+                # numeric vectors are row vectors or have a single dimension
+                # (see Sofa.verify)
+                if self._convention[key]["type"] == "double":
+                    if len(dimension) == 1 and max(shape) == value.size:
+                        shape = (value.size, )
+                    elif len(dimension) > 1 and len(shape) == 1:
+                        shape = (1, ) + shape
+
                 # pad shape if required (trailing single dimensions are
                 # discarded following the numpy default)
                 while len(shape) < len(dimension):
-- 
2.43.0


From 492f84fcc2778a5d57f2816171e1f60cd95596be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:40 +0000
Subject: [PATCH 34/54] fix: inspect shows the shape of data that were verified
 with fewer axes

---
 sofar/sofa.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index a31c867..1c1f5ae 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -478,6 +478,10 @@ class Sofa():
                     elif len(dimension) > 1 and len(shape) == 1:
                         shape = (1, ) + shape
 
+                # dimensions from an earlier verification might be outdated
+                if np.prod(shape[len(dimension):]) != 1:
+                    dimension = "?" * len(shape)
+
                 # pad shape if required (trailing single dimensions are
                 # discarded following the numpy default)
                 while len(shape) < len(dimension):
-- 
2.43.0


From 1617dcd906393b3281203170e61a81c8786ac673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:28 +0000
Subject: [PATCH 35/54] fix: congruency check skips conventions that follow an
 incongruent one

---
 sofar/update_conventions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sofar/update_conventions.py b/sofar/update_conventions.py
index e8d1094..f4e3940 100644
--- a/sofar/update_conventions.py
+++ b/sofar/update_conventions.py
@@ -419,13 +419,13 @@ def _check_congruency(save_dir=None, branch="master"):
 
     # check if lists are identical. Remove items not contained in both lists
     report = ""
-    for convention in sofaconventions:
+    for convention in sofaconventions.copy():
         if convention.startswith(("General_", "GeneralString_")):
             sofaconventions.remove(convention)
         elif convention not in sofatoolbox:
             sofaconventions.remove(convention)
             report += (f"- {convention} is missing in SOFAtoolbox\n")
-    for convention in sofatoolbox:
+    for convention in sofatoolbox.copy():
         if convention.startswith(("General_", "GeneralString_")):
             sofatoolbox.remove(convention)
         elif convention not in sofaconventions:
-- 
2.43.0


From 3311b28fba3c0067f1418e84b71b850353499a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:01 +0000
Subject: [PATCH 36/54] fix: congruency check compares the error pages of
 failed downloads

---
 sofar/update_conventions.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/sofar/update_conventions.py b/sofar/update_conventions.py
index f4e3940..132ed2d 100644
--- a/sofar/update_conventions.py
+++ b/sofar/update_conventions.py
@@ -399,8 +399,9 @@ def _check_congruency(save_dir=None, branch="master"):
 
     # get file names of conventions from sofaconventions.org
     url = urls_check[0]
-    page = requests.get(url).text
-    soup = BeautifulSoup(page, 'html.parser')
+    page = requests.get(url)
+    page.raise_for_status()
+    soup = BeautifulSoup(page.text, 'html.parser')
     sofaconventions = [os.path.split(node.get('href'))[1]
                        for node in soup.find_all('a')
                        if node.get('href').endswith(".csv")]
@@ -410,9 +411,10 @@ def _check_congruency(save_dir=None, branch="master"):
 
     # get file names of conventions from github
     url = urls_check[1]
-    page = requests.get(url).text
+    page = requests.get(url)
+    page.raise_for_status()
     sofatoolbox = re.findall(
-        r'"SOFAtoolbox/conventions/([^"]+\.csv)"', page)
+        r'"SOFAtoolbox/conventions/([^"]+\.csv)"', page.text)
 
     if not sofatoolbox:
         raise ValueError(f"Did not find any conventions at {url}")
@@ -437,6 +439,8 @@ def _check_congruency(save_dir=None, branch="master"):
 
         # download SOFA convention definitions to package directory
         data = [requests.get(url + convention) for url in urls_load]
+        for d in data:
+            d.raise_for_status()
         # remove trailing tabs and windows style line breaks
         data = [d.content.replace(b"\r\n", b"\n").replace(b"\t\n", b"\n")
                 for d in data]
-- 
2.43.0


From 364af63b2f768a128a0b206ec42f644eb057ccdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:05 +0000
Subject: [PATCH 37/54] fix: keep existing files if the compression level is
 invalid

---
 sofar/io.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sofar/io.py b/sofar/io.py
index fb08fd4..5548798 100644
--- a/sofar/io.py
+++ b/sofar/io.py
@@ -282,6 +282,10 @@ def _write_sofa(filename: str, sofa: sf.Sofa, compression=4, verify=True):
                     "writing to disk if possible."), stacklevel=2)
 
     # setting the netCDF compression parameter
+    # (an invalid level must not be detected after the file was opened)
+    if not 0 <= compression <= 9:
+        raise ValueError(
+            f"compression is {compression} but must be between 0 and 9")
     use_zlib = compression != 0
 
     # update the dimensions
-- 
2.43.0


From 73ac9af790165e722fdf956529f623b817373299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:05 +0000
Subject: [PATCH 38/54] fix: write custom variables named Data

---
 sofar/io.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sofar/io.py b/sofar/io.py
index 5548798..da6e2d7 100644
--- a/sofar/io.py
+++ b/sofar/io.py
@@ -341,7 +341,13 @@ def _write_sofa(filename: str, sofa: sf.Sofa, compression=4, verify=True):
                     [sofa._api[dim] for dim in shape[:-1]] + [-1])
 
             # write variable attributes
-            sub_keys = [k for k in all_keys if k.startswith(f"{key}_")]
+            # (other variables can start with the same name, e.g., `Data_IR`
+            # if there is a custom variable `Data`)
+            others = [k for k in all_keys if k.startswith(f"{key}_")
+                      and sofa._convention[k]["type"] != "attribute"]
+            sub_keys = [k for k in all_keys if k.startswith(f"{key}_")
+                        and k not in others
+                        and not any(k.startswith(f"{o}_") for o in others)]
             for sub_key in sub_keys:
                 tmp_var.setncattr(sub_key[len(key)+1:],
                                   str(getattr(sofa, sub_key)))
-- 
2.43.0


From 7a8ce1c26824c4b953adc32cbf3d4d7e24b3b50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:05 +0000
Subject: [PATCH 39/54] fix: reject names of custom entries that can not be
 written

---
 sofar/sofa.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index 1c1f5ae..4e48b4b 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -673,6 +673,14 @@ class Sofa():
         if dtype not in ["attribute", "double", "string"]:
             raise ValueError(
                 f"dtype is {dtype} but must be attribute, double, or string")
+        # (the rules for names in netCDF files)
+        if not all(re.fullmatch(
+                r"[\w\x80-\U0010ffff]([^/\x00-\x1f\x7f]*[^/\x00-\x20\x7f])?",
+                part) for part in name.split("_")) \
+                or (dtype != "attribute" and "." in name) \
+                or name.endswith(("_CLASS", "_NAME")):
+            raise ValueError(
+                f"{name!r} is not a valid name for entries of SOFA files")
         if "_" in name and dtype != "attribute":
             raise ValueError(("underscores '_' in the name are only "
                               "allowed for attributes"))
-- 
2.43.0


From c0cbc6864002a89b3a3b0ffffb0f600599420197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:05 +0000
Subject: [PATCH 40/54] fix: reject dimensions of custom variables that are not
 letters

---
 sofar/sofa.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index 4e48b4b..1859f0e 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -702,6 +702,10 @@ class Sofa():
                               "dtype double and string"))
         if dimensions is not None:
             dimensions = dimensions.upper()
+            if dimensions and not all(
+                    d.isalpha() for d in dimensions.split(", ")):
+                raise ValueError(
+                    f"dimensions are {dimensions} but must be letters")
             # (strings are stored as characters along S)
             if dtype != "attribute" and any(
                     d.find("S") != (len(d) - 1 if dtype == "string" else -1)
-- 
2.43.0


From 10cb8ee358f912e5ec9059fc521cc90510d24a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:58 +0000
Subject: [PATCH 41/54] fix: report added mandatory data if verify detects data
 of wrong type

---
 sofar/sofa.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index 1859f0e..f477d0a 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -1118,14 +1118,15 @@ class Sofa():
             error_msg += current_error
 
         # if an error ocurred up to here, it has to be handled. Otherwise
-        # detecting the dimensions might fail. Warnings are not reported until
-        # the end
+        # detecting the dimensions might fail. (Data that were added up to here
+        # are reported as well, because they are not missing any more when
+        # verifying again.)
         if error_msg != "\nERRORS\n------\n":
             if issue_handling == "ignore":
                 return
 
             _, issues = self._verify_handle_issues(
-                    "\nWARNINGS\n--------\n", error_msg, issue_handling)
+                    warning_msg, error_msg, issue_handling)
 
             if issue_handling == "print":
                 return
-- 
2.43.0


From 27a2a1f197baeba019217d17eb94f34b399b5b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:56 +0000
Subject: [PATCH 42/54] fix: do not overwrite or delete methods of SOFA objects

---
 sofar/sofa.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index f477d0a..86b3676 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -138,7 +138,10 @@ class Sofa():
         read-only data.
         """
         # don't allow new attributes to be added outside the class
-        if self.protected and not hasattr(self, name):
+        # (methods and properties of the class are not data)
+        is_member = hasattr(type(self), name) and \
+            not name.startswith("_") and name != "protected"
+        if self.protected and (is_member or not hasattr(self, name)):
             raise TypeError(f"{name} is an invalid attribute")
 
         # don't allow setting read only attributes
@@ -165,7 +168,7 @@ class Sofa():
         mandatory data.
         """
         # can't delete non existing attributes
-        if not hasattr(self, name):
+        if name not in self.__dict__:
             raise TypeError(f"{name} is not an attribute")
         # delete anything if not frozen, delete non mandatory
         if not self.protected or \
-- 
2.43.0


From ebf0b27c9ee5cce9900e6bd50673194e795f92ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:56 +0000
Subject: [PATCH 43/54] fix: do not overwrite methods of SOFA objects when
 reading

---
 sofar/io.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/sofar/io.py b/sofar/io.py
index da6e2d7..7607122 100644
--- a/sofar/io.py
+++ b/sofar/io.py
@@ -159,6 +159,9 @@ def _read_netcdf(filename, verify, verbose, mode):
         # load data
         for var in file.variables.keys():
 
+            if _is_reserved(var.replace(".", "_")):
+                continue
+
             value = _format_value_from_netcdf(file[var][:], var)
             all_attr.append(var.replace(".", "_"))
 
@@ -176,6 +179,9 @@ def _read_netcdf(filename, verify, verbose, mode):
             # load variable attributes
             for attr in [a for a in file[var].ncattrs() if a not in skip]:
 
+                if _is_reserved(var.replace(".", "_") + "_" + attr):
+                    continue
+
                 value = file[var].getncattr(attr)
                 all_attr.append(var.replace(".", "_") + "_" + attr)
 
@@ -353,6 +359,19 @@ def _write_sofa(filename: str, sofa: sf.Sofa, compression=4, verify=True):
                                   str(getattr(sofa, sub_key)))
 
 
+def _is_reserved(name):
+    """
+    Check if data from a file can not be stored in a SOFA object and warn if
+    so, because its name is private or a method of :py:class:`~Sofa`.
+    """
+    reserved = name.startswith("_") or hasattr(sf.Sofa, name)
+    if reserved:
+        warnings.warn(
+            f"Entry {name} was not read because its name is reserved",
+            stacklevel=4)
+    return reserved
+
+
 def _append_suffix(filename):
     """Append '.sofa' to the filename, if it is not explicitly given."""
     filename = pathlib.Path(filename)
-- 
2.43.0


From d8bf279ea110a9e5b64aea5e29e073785201b120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:56 +0000
Subject: [PATCH 44/54] fix: return issues from Sofa.inspect if this is
 requested

---
 sofar/sofa.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index 86b3676..d940a94 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -444,7 +444,7 @@ class Sofa():
 
         # update the private attribute `_convention` to make sure the required
         # meta data is in place
-        self.verify(issue_handling=issue_handling)
+        issues = self.verify(issue_handling=issue_handling)
 
         # list of all attributes
         keys = [k for k in self.__dict__.keys() if not k.startswith("_")]
@@ -510,6 +510,9 @@ class Sofa():
         # output to console
         print(info_str)
 
+        if issue_handling == "return":
+            return issues
+
     def add_missing(self, mandatory=True, optional=True, verbose=True):
         """
         Add missing data with default values.
-- 
2.43.0


From a575b6901498c860f64bffdf30e805cd7a3f8de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:56 +0000
Subject: [PATCH 45/54] fix: return empty list of upgrades if the data is up to
 date

---
 sofar/sofa.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index d940a94..1596d5c 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -834,7 +834,7 @@ class Sofa():
             if convention_current not in upgrade:
                 print((f"Convention {convention_current} v{version_current} is"
                        " outdated but is missing upgrade rules"))
-                return
+                return [] if target is None else None
 
             # check if upgrade is available for this version
             for from_to in upgrade[convention_current]["from_to"]:
@@ -859,7 +859,7 @@ class Sofa():
         else:
             print((f"Convention {convention_current} v{version_current} "
                    "is up to date"))
-            return
+            return [] if target is None else None
 
         # get information to upgrade ------------------------------------------
         upgrade = upgrade[self.GLOBAL_SOFAConventions][target_id]
-- 
2.43.0


From 36417092f389727e1c62a73837ee27471b596aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:56 +0000
Subject: [PATCH 46/54] fix: inspect writes files with utf-8 encoding

---
 sofar/sofa.py       | 2 +-
 sofar/sofastream.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index 1596d5c..1f92b7e 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -504,7 +504,7 @@ class Sofa():
 
         # write to text file
         if file is not None:
-            with open(file, 'w') as f_id:
+            with open(file, 'w', encoding='utf-8') as f_id:
                 f_id.write(info_str + "\n")
 
         # output to console
diff --git a/sofar/sofastream.py b/sofar/sofastream.py
index 000cfb3..d5206dc 100644
--- a/sofar/sofastream.py
+++ b/sofar/sofastream.py
@@ -294,7 +294,7 @@ class SofaStream():
 
         # write to text file
         if file is not None:
-            with open(file, 'w') as f_id:
+            with open(file, 'w', encoding='utf-8') as f_id:
                 f_id.write(info_str + "\n")
 
         # print to console
-- 
2.43.0


From 39cbe1381dc091b99d4de6c9e9e0fd3392f4afa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:56 +0000
Subject: [PATCH 47/54] fix: update conventions detects malformed tables before
 changing files

---
 sofar/update_conventions.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sofar/update_conventions.py b/sofar/update_conventions.py
index 132ed2d..df946a3 100644
--- a/sofar/update_conventions.py
+++ b/sofar/update_conventions.py
@@ -175,6 +175,9 @@ def update_conventions(conventions_path=None, assume_yes=False):
                 return
 
         if updated:
+            # make sure that the downloaded conventions can be compiled before
+            # changing any files
+            _compile_conventions(temp)
             for convention in update:
                 shutil.copy(os.path.join(temp, convention),
                             os.path.join(conventions_path, convention))
-- 
2.43.0


From e4fe9c93999f867cbd9599438ab554f10833f52e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:56 +0000
Subject: [PATCH 48/54] fix: update conventions removes conventions that are
 not deprecated any more

---
 sofar/update_conventions.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/sofar/update_conventions.py b/sofar/update_conventions.py
index df946a3..3330f16 100644
--- a/sofar/update_conventions.py
+++ b/sofar/update_conventions.py
@@ -87,6 +87,7 @@ def update_conventions(conventions_path=None, assume_yes=False):
 
     update = []
     deprecate = []
+    restore = []
 
     with TemporaryDirectory() as temp:
         os.mkdir(os.path.join(temp, 'deprecated'))
@@ -121,6 +122,9 @@ def update_conventions(conventions_path=None, assume_yes=False):
                     file.write(data)
                 print(f"- add convention: {convention[:-4]}")
                 update.append(convention)
+                if os.path.isfile(deprecated_csv):
+                    # the convention is not deprecated any more
+                    restore.append(convention)
             if is_standardized and os.path.isfile(standardized_csv):
                 # check for update of a standardized convention
                 with open(standardized_csv, "rb") as file:
@@ -181,6 +185,11 @@ def update_conventions(conventions_path=None, assume_yes=False):
             for convention in update:
                 shutil.copy(os.path.join(temp, convention),
                             os.path.join(conventions_path, convention))
+            for convention in restore:
+                os.remove(os.path.join(
+                    conventions_path, 'deprecated', convention))
+                os.remove(os.path.join(
+                    conventions_path, 'deprecated', f"{convention[:-3]}json"))
             for convention in deprecate:
                 os.remove(os.path.join(conventions_path, convention))
                 os.remove(
-- 
2.43.0


From 63a00bb94141968950c90c576e6747bbf2c1743e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:49 +0000
Subject: [PATCH 49/54] fix: list dimensions detects spherical harmonics
 regardless of the case

---
 sofar/sofa.py       | 4 ++--
 sofar/sofastream.py | 6 ++++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index 1f92b7e..6b77210 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -234,9 +234,9 @@ class Sofa():
 
         # get verbose description for dimensions R and E
         R_verbose = "receiver spherical harmonics coefficients" if \
-            'harmonic' in self.ReceiverPosition_Type else "receiver"
+            'harmonic' in self.ReceiverPosition_Type.lower() else "receiver"
         E_verbose = "emitter spherical harmonics coefficients" if \
-            'harmonic' in self.EmitterPosition_Type else "emitter"
+            'harmonic' in self.EmitterPosition_Type.lower() else "emitter"
 
         dimensions = {
             "M": "measurements",
diff --git a/sofar/sofastream.py b/sofar/sofastream.py
index d5206dc..9440312 100644
--- a/sofar/sofastream.py
+++ b/sofar/sofastream.py
@@ -163,13 +163,15 @@ class SofaStream():
         R_verbose = (
             "receiver spherical harmonics coefficients"
             if 'harmonic'
-            in self._file.variables['ReceiverPosition'].getncattr('Type')
+            in self._file.variables['ReceiverPosition'].getncattr(
+                'Type').lower()
             else "receiver"
             )
         E_verbose = (
             "emitter spherical harmonics coefficients"
             if 'harmonic'
-            in self._file.variables['EmitterPosition'].getncattr('Type')
+            in self._file.variables['EmitterPosition'].getncattr(
+                'Type').lower()
             else "emitter"
             )
 
-- 
2.43.0


From a2f7e00eb1e74c7b2400b58f3057b6d7f2a45ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:42 +0000
Subject: [PATCH 50/54] fix: find conventions in folders with special
 characters in their name

Brackets and asterisks in the path were used as patterns, and no conventions
were found if sofar was installed in, or updated conventions in, such a folder.
---
 sofar/update_conventions.py | 2 ++
 sofar/utils.py              | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/sofar/update_conventions.py b/sofar/update_conventions.py
index 3330f16..3db0f66 100644
--- a/sofar/update_conventions.py
+++ b/sofar/update_conventions.py
@@ -225,6 +225,8 @@ def _compile_conventions(conventions_path=None):
         raise ValueError(f"{conventions_path} does not exist")
 
     # get list of source conventions
+    # (the path itself can contain special characters of glob, e.g., brackets)
+    conventions_path = glob.escape(os.fspath(conventions_path))
     csv_files = glob.glob(os.path.join(conventions_path, "*.csv")) + \
         glob.glob(os.path.join(conventions_path, "deprecated", "*.csv"))
 
diff --git a/sofar/utils.py b/sofar/utils.py
index c4b2f64..b0780bc 100644
--- a/sofar/utils.py
+++ b/sofar/utils.py
@@ -97,6 +97,8 @@ def _get_conventions(return_type, conventions_path=None):
     reg_str = "*.csv" if return_type == "path_source" else "*.json"
 
     # SOFA convention files
+    # (the path itself can contain special characters of glob, e.g., brackets)
+    conventions_path = glob.escape(os.fspath(conventions_path))
     standardized = list(glob.glob(os.path.join(conventions_path, reg_str)))
     deprecated = list(
         glob.glob(os.path.join(conventions_path, "deprecated", reg_str)))
-- 
2.43.0


From 973387140c1211f50b637c6909b80f0abdf97b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:25 +0000
Subject: [PATCH 51/54] fix: conventions are not documented as deprecated
 because of the path of sofar

Looking for 'deprecated' in the entire path labeled all conventions as deprecated
in clones that are contained in a folder with this word in its name.
---
 docs/resources/conventions.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/docs/resources/conventions.py b/docs/resources/conventions.py
index 643f10c..39bbece 100644
--- a/docs/resources/conventions.py
+++ b/docs/resources/conventions.py
@@ -57,13 +57,19 @@ docs = (
     '  * **r:** read only data. Data can be written if flag is missing.\n'
     '  * **m:** mandatory data. Data is optional if flag is missing\n\n')
 
+
+def is_deprecated(path):
+    """Deprecated conventions are contained in a folder with that name."""
+    return os.path.basename(os.path.dirname(path)) == 'deprecated'
+
+
 # write table of content ------------------------------------------------------
 docs += '.. _conventions:\n\nConventions\n-----------\n\n'
 for path, name_version in zip(paths, names_versions):
     name, version = name_version
 
     label = f'{name} v{version}'
-    if 'deprecated' in path:
+    if is_deprecated(path):
         label += ' (deprecated)'
     reference = f'{name}_{version}'
 
@@ -82,7 +88,7 @@ for path, name_version in zip(paths, names_versions):
         convention = json.load(file)
 
     # write section title
-    if 'deprecated' in path and not deprecated:
+    if is_deprecated(path) and not deprecated:
         docs += 'Deprecated\n----------\n\n'
         deprecated = True
 
-- 
2.43.0


From 2330109e6acc0c15eaebf00ddfeba78c913b01e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:25 +0000
Subject: [PATCH 52/54] fix: write the documentation of conventions with the
 encoding sphinx reads

Failed if the default encoding can not represent the comments of the conventions,
and could not be read by sphinx if it is another one than utf-8.
---
 docs/resources/conventions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/docs/resources/conventions.py b/docs/resources/conventions.py
index 39bbece..4634588 100644
--- a/docs/resources/conventions.py
+++ b/docs/resources/conventions.py
@@ -164,5 +164,5 @@ for path, name_version in zip(paths, names_versions):
 
 # write docs to rst file ------------------------------------------------------
 docs_file = os.path.join(base_dir, 'conventions.rst')
-with open(docs_file, 'w') as file:
+with open(docs_file, 'w', encoding='utf-8') as file:
     file.writelines(docs)
-- 
2.43.0


From 98bc0bb3fbe26bd56970e45f6d691ad2dcc20758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:37 +0000
Subject: [PATCH 53/54] fix: upgrading deprecated conventions in versions
 without upgrade rules

Raised an UnboundLocalError if there are upgrade rules for other versions of the
convention only.
---
 sofar/sofa.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index 6b77210..cc0c008 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -856,6 +856,10 @@ class Sofa():
                         print(upgrades)
                         return targets
                     break
+            else:
+                print((f"Convention {convention_current} v{version_current} is"
+                       " outdated but is missing upgrade rules"))
+                return [] if target is None else None
         else:
             print((f"Convention {convention_current} v{version_current} "
                    "is up to date"))
-- 
2.43.0


From 9ad8cc1b549c853b12e82926dd1ee3b0c2f6269a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:24 +0000
Subject: [PATCH 54/54] fix: list dimensions of data with other data types

Raised an UnboundLocalError if GLOBAL_DataType is none of the known types (Sofa and
SofaStream).
---
 sofar/sofa.py       | 2 ++
 sofar/sofastream.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index cc0c008..912651e 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -231,6 +231,8 @@ class Sofa():
             N_verbose = "frequencies"
         elif self.GLOBAL_DataType.startswith("SOS"):
             N_verbose = "SOS coefficients"
+        else:
+            N_verbose = "samples, frequencies, or SOS coefficients"
 
         # get verbose description for dimensions R and E
         R_verbose = "receiver spherical harmonics coefficients" if \
diff --git a/sofar/sofastream.py b/sofar/sofastream.py
index 9440312..3879460 100644
--- a/sofar/sofastream.py
+++ b/sofar/sofastream.py
@@ -158,6 +158,8 @@ class SofaStream():
             N_verbose = "frequencies"
         elif self._file.getncattr('DataType').startswith("SOS"):
             N_verbose = "SOS coefficients"
+        else:
+            N_verbose = "samples, frequencies, or SOS coefficients"
 
         # get verbose description for dimensions R and E
         R_verbose = (
-- 
2.43.0

