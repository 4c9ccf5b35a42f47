From 1c8483b129f8fed6c1600ae273407529a4982310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:19 +0000
Subject: [PATCH 01/88] fix: use numpy.floating for float upcasting
 (numpy.float no longer exists)

---
 pyconform/flownodes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyconform/flownodes.py b/pyconform/flownodes.py
index f38615b..a23b969 100644
--- a/pyconform/flownodes.py
+++ b/pyconform/flownodes.py
@@ -124,7 +124,7 @@ class DataNode(FlowNode):
         """
         # Determine type and upcast, if necessary
         array = PhysArray(data)
-        if issubclass(array.dtype.type, numpy.float) and array.dtype.itemsize < 8:
+        if issubclass(array.dtype.type, numpy.floating) and array.dtype.itemsize < 8:
             array = array.astype(numpy.float64)
 
         # Store data
@@ -262,7 +262,7 @@ class ReadNode(FlowNode):
             data = ncvar[index12]
 
             # Upconvert, if possible
-            if issubclass(ncvar.dtype.type, numpy.float) and ncvar.dtype.itemsize < 8:
+            if issubclass(ncvar.dtype.type, numpy.floating) and ncvar.dtype.itemsize < 8:
                 data = data.astype(numpy.float64)
 
             # Read the positive attribute, if available
-- 
2.43.0


From d9dc71af13bffb18921a1ad14d2a090fa6b7eeb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:19 +0000
Subject: [PATCH 02/88] fix: load user modules of xconform with importlib (imp
 no longer exists)

---
 pyconform/cli/xconform.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/pyconform/cli/xconform.py b/pyconform/cli/xconform.py
index 5dd4f8f..595f507 100755
--- a/pyconform/cli/xconform.py
+++ b/pyconform/cli/xconform.py
@@ -14,9 +14,11 @@ LICENSE: See the LICENSE.rst file for details
 from argparse import ArgumentParser, ArgumentTypeError
 from collections import OrderedDict
 from glob import glob
-from imp import load_source
+from importlib.machinery import SourceFileLoader
+from importlib.util import module_from_spec, spec_from_loader
 from json import load as json_load
 from os.path import exists
+from sys import modules
 from warnings import simplefilter
 
 from asaptools.partition import Duplicate
@@ -27,6 +29,17 @@ from pyconform.datasets import InputDatasetDesc, OutputDatasetDesc
 from pyconform.flownodes import ValidationWarning
 
 
+def load_source(name, path):
+    """
+    Load a Python source file as the module with the given name
+    """
+    loader = SourceFileLoader(name, path)
+    module = module_from_spec(spec_from_loader(name, loader))
+    modules[name] = module
+    loader.exec_module(module)
+    return module
+
+
 def chunk(arg):
     try:
         name, size_str = arg.split(",")
-- 
2.43.0


From d3cbcf770f6ed5846dde5f419fd942ca4dd04b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:19 +0000
Subject: [PATCH 03/88] fix: stop all ranks of xconform, not only the manager,
 when there are no input files

---
 pyconform/cli/xconform.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/pyconform/cli/xconform.py b/pyconform/cli/xconform.py
index 595f507..0726aa4 100755
--- a/pyconform/cli/xconform.py
+++ b/pyconform/cli/xconform.py
@@ -193,18 +193,17 @@ def main(argv=None):
         for infile in args.infiles:
             infiles.extend(glob(infile))
 
-        # If no input files, stop here
+        # Parse the input Dataset, unless there are no input files
         if len(infiles) == 0:
             print("Standardization file validated.")
-            return
-
-        # Parse the input Dataset
-        print(
-            "Creating input dataset descriptor from {} input files...".format(
-                len(infiles)
+            inpds = None
+        else:
+            print(
+                "Creating input dataset descriptor from {} input files...".format(
+                    len(infiles)
+                )
             )
-        )
-        inpds = InputDatasetDesc(filenames=infiles)
+            inpds = InputDatasetDesc(filenames=infiles)
 
     else:
         inpds = None
@@ -215,6 +214,10 @@ def main(argv=None):
     # Sync and continue process on all nodes
     scomm.sync()
 
+    # If no input files, stop here (on all nodes)
+    if inpds is None:
+        return
+
     # Check for warn/error
     if args.error:
         simplefilter("error", ValidationWarning)
-- 
2.43.0


From 8c5491405f7087307aa8ed55797d3fd527bc873d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:34 +0000
Subject: [PATCH 04/88] fix: join integer indices relative to the length of the
 first slice

---
 pyconform/indexing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyconform/indexing.py b/pyconform/indexing.py
index 843c71c..fbd59b1 100644
--- a/pyconform/indexing.py
+++ b/pyconform/indexing.py
@@ -139,7 +139,7 @@ def join(shape0, index1, index2):
         if isinstance(i1, slice):
             i2 = idx2_l.pop(0)
             start1, stop1, step1 = i1.indices(l0)
-            l1 = (abs(stop1 - start1) - 1) // abs(step1) + 1
+            l1 = len(range(start1, stop1, step1))
             if isinstance(i2, slice):
                 if (stop1 - start1) * step1 > 0:
                     start2, stop2, step2 = i2.indices(l1)
@@ -157,7 +157,7 @@ def join(shape0, index1, index2):
             else:
                 if i2 < -l1 or i2 >= l1:
                     raise IndexError("Second index out of range in array")
-                idx12.append(start1 + i2 * step1)
+                idx12.append(start1 + (i2 % l1) * step1)
         else:
             if i1 < -l0 or i1 >= l0:
                 raise IndexError("First index out of range in array")
-- 
2.43.0


From 85e0d6897d9260f52b4330272ad1e632c3bf70a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:01 +0000
Subject: [PATCH 05/88] fix: keep the positive attribute of data when
 converting its units

---
 pyconform/physarray.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyconform/physarray.py b/pyconform/physarray.py
index d6b1ca0..838051a 100644
--- a/pyconform/physarray.py
+++ b/pyconform/physarray.py
@@ -217,7 +217,11 @@ class PhysArray(numpy.ma.MaskedArray):
             )
             new_name = "convert({}, from={}, to={})".format(obj.name, u1_str, u2_str)
             return PhysArray(
-                new_array, name=new_name, units=u2, dimensions=obj.dimensions
+                new_array,
+                name=new_name,
+                units=u2,
+                dimensions=obj.dimensions,
+                positive=obj.positive,
             )
         elif isinstance(obj, numpy.ma.MaskedArray):
             return numpy.ma.MaskedArray(
-- 
2.43.0


From 7aabf708a68243bcc4f46a0a2d7b854184d55fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:13 +0000
Subject: [PATCH 06/88] fix: do not truncate integer data to integers when
 converting its units

---
 pyconform/physarray.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyconform/physarray.py b/pyconform/physarray.py
index 838051a..53691f2 100644
--- a/pyconform/physarray.py
+++ b/pyconform/physarray.py
@@ -206,8 +206,10 @@ class PhysArray(numpy.ma.MaskedArray):
         u1 = units1 if isinstance(units1, Unit) else Unit(units1)
         u2 = units2 if isinstance(units2, Unit) else Unit(units2)
         if isinstance(obj, PhysArray):
+            # Integers cannot hold the converted values, in general
+            new_dtype = obj.dtype if obj.dtype.kind == "f" else None
             new_array = numpy.ma.MaskedArray(
-                units1.convert(obj.data, units2), mask=obj.mask, dtype=obj.dtype
+                units1.convert(obj.data, units2), mask=obj.mask, dtype=new_dtype
             )
             u1_str = "{}".format(u1) + (
                 "|{}".format(u1.calendar) if u1.calendar else ""
-- 
2.43.0


From d5e63bde0f25e42d89d32630495a97d52e534d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:07 +0000
Subject: [PATCH 07/88] fix: do not flip an operand in place when matching the
 positive attribute

---
 pyconform/physarray.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pyconform/physarray.py b/pyconform/physarray.py
index 53691f2..b7cb577 100644
--- a/pyconform/physarray.py
+++ b/pyconform/physarray.py
@@ -439,7 +439,8 @@ class PhysArray(numpy.ma.MaskedArray):
             elif self.positive == "down":
                 other.down()
         else:
-            other.flip()
+            other = other.copy().flip()
+        return other
 
     def _check_inplace_(self, other):
         other = PhysArray(other)
@@ -457,8 +458,7 @@ class PhysArray(numpy.ma.MaskedArray):
 
     def _add_sub_init_(self, other):
         other = self._broadcast_(PhysArray(other)).convert(self.units)
-        self._match_positive_(other)
-        return other
+        return self._match_positive_(other)
 
     def __add__(self, other):
         result = PhysArray(self)
@@ -513,8 +513,7 @@ class PhysArray(numpy.ma.MaskedArray):
 
     def _mul_div_init_(self, other):
         other = self._broadcast_(PhysArray(other))
-        self._match_positive_(other)
-        return other
+        return self._match_positive_(other)
 
     def __mul__(self, other):
         result = PhysArray(self)
-- 
2.43.0


From 893d098775174985022ac0aa6474962e8859aac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:16 +0000
Subject: [PATCH 08/88] fix: up, down and limit functions do not modify their
 input data

---
 pyconform/functions.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyconform/functions.py b/pyconform/functions.py
index 0be9232..a2a3cca 100644
--- a/pyconform/functions.py
+++ b/pyconform/functions.py
@@ -411,7 +411,7 @@ class PositiveUpFunction(Function):
     def __getitem__(self, index):
         data_r = self.arguments[0]
         data = data_r if is_constant(data_r) else data_r[index]
-        return PhysArray(data).up()
+        return PhysArray(data).copy().up()
 
 
 class PositiveDownFunction(Function):
@@ -423,7 +423,7 @@ class PositiveDownFunction(Function):
     def __getitem__(self, index):
         data_r = self.arguments[0]
         data = data_r if is_constant(data_r) else data_r[index]
-        return PhysArray(data).down()
+        return PhysArray(data).copy().down()
 
 
 class ChangeUnitsFunction(Function):
@@ -505,6 +505,7 @@ class LimitFunction(Function):
         if above_val is None and below_val is None:
             return data
 
+        data = data.copy()
         above_str = ""
         if above_val is not None:
             above_ind = where(data > above_val)
-- 
2.43.0


From fb23b6e74839fe782f05ec6cf75f394511388785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:07 +0000
Subject: [PATCH 09/88] fix: mean and sum of a PhysArray over several
 dimensions

---
 pyconform/physarray.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyconform/physarray.py b/pyconform/physarray.py
index b7cb577..4cae683 100644
--- a/pyconform/physarray.py
+++ b/pyconform/physarray.py
@@ -646,8 +646,8 @@ class PhysArray(numpy.ma.MaskedArray):
         elif isinstance(axis, (list, tuple)):
             dims = tuple(self.dimensions[i] for i in axis)
             meanval = self.view(numpy.ma.MaskedArray)
-            for a in axis:
-                meanval = meanval.mean(axis=a)
+            if len(axis) > 0:
+                meanval = meanval.mean(axis=tuple(axis))
         else:
             raise TypeError("Axis must be given as an integer, list or tuple")
         new_dims = tuple(d for d in self.dimensions if d not in dims)
@@ -678,8 +678,8 @@ class PhysArray(numpy.ma.MaskedArray):
         elif isinstance(axis, (list, tuple)):
             dims = tuple(self.dimensions[i] for i in axis)
             sumval = self.view(numpy.ma.MaskedArray)
-            for a in axis:
-                sumval = sumval.mean(axis=a)
+            if len(axis) > 0:
+                sumval = sumval.sum(axis=tuple(axis))
         else:
             raise TypeError("Axis must be given as an integer, list or tuple")
         new_dims = tuple(d for d in self.dimensions if d not in dims)
-- 
2.43.0


From 654b2653653870942d4b0826d5c9c4c4ee48e920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:12 +0000
Subject: [PATCH 10/88] fix: sum, min and max functions reduce exactly the
 named dimensions

---
 pyconform/functions.py | 50 +++++++++++++++++-------------------------
 1 file changed, 20 insertions(+), 30 deletions(-)

diff --git a/pyconform/functions.py b/pyconform/functions.py
index a2a3cca..e15a89a 100644
--- a/pyconform/functions.py
+++ b/pyconform/functions.py
@@ -322,13 +322,8 @@ class SumFunction(Function):
     def __getitem__(self, index):
         data = self.arguments[0][index]
         dimensions = self.arguments[1:]
-        indims = []
-        for d in dimensions:
-            # print d, 'in', data.dimensions, '?'
-            if d in data.dimensions:
-                # print 'will append ', data.dimensions.index(d)
-                indims.append(data.dimensions.index(d))
-        return np.sum(data, indims[0])
+        indims = [d for d in dimensions if d in data.dimensions]
+        return data.sum(dimensions=indims)
 
 
 class MinFunction(Function):
@@ -346,23 +341,21 @@ class MinFunction(Function):
     def __getitem__(self, index):
         data = self.arguments[0][index]
         dimensions = self.arguments[1:]
-        indims = []
-        if index is None:
-            return PhysArray(
-                np.zeros((0, 0, 0)),
-                dimensions=[data.dimensions[0], data.dimensions[2], data.dimensions[3]],
-            )
-        for d in dimensions:
-            if d in data.dimensions:
-                indims.append(data.dimensions.index(d))
+        inaxes = tuple(
+            data.dimensions.index(d) for d in dimensions if d in data.dimensions
+        )
+        newdims = [d for d in data.dimensions if d not in dimensions]
         new_name = "min({},{})".format(data.name, dimensions)
-        m = np.amin(data, axis=indims[0])
+        if index is None:
+            m = np.zeros((0,) * len(newdims))
+        else:
+            m = data.view(np.ma.MaskedArray).min(axis=inaxes)
         return PhysArray(
             m,
             name=new_name,
             positive=data.positive,
             units=data.units,
-            dimensions=[data.dimensions[0], data.dimensions[2], data.dimensions[3]],
+            dimensions=newdims,
         )
 
 
@@ -381,24 +374,21 @@ class MaxFunction(Function):
     def __getitem__(self, index):
         data = self.arguments[0][index]
         dimensions = self.arguments[1:]
-        indims = []
-        if index is None:
-            return PhysArray(
-                np.zeros((0, 0, 0)),
-                units=data.units,
-                dimensions=[data.dimensions[0], data.dimensions[2], data.dimensions[3]],
-            )
-        for d in dimensions:
-            if d in data.dimensions:
-                indims.append(data.dimensions.index(d))
+        inaxes = tuple(
+            data.dimensions.index(d) for d in dimensions if d in data.dimensions
+        )
+        newdims = [d for d in data.dimensions if d not in dimensions]
         new_name = "max({},{})".format(data.name, dimensions[0])
-        m = np.amax(data, axis=indims[0])
+        if index is None:
+            m = np.zeros((0,) * len(newdims))
+        else:
+            m = data.view(np.ma.MaskedArray).max(axis=inaxes)
         return PhysArray(
             m,
             name=new_name,
             positive=data.positive,
             units=data.units,
-            dimensions=[data.dimensions[0], data.dimensions[2], data.dimensions[3]],
+            dimensions=newdims,
         )
 
 
-- 
2.43.0


From a7b49fa7743ed18946d2d25134c14a9cb161064e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:23 +0000
Subject: [PATCH 11/88] fix: chdims applies an index by the renamed dimension
 names

---
 pyconform/functions.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/pyconform/functions.py b/pyconform/functions.py
index e15a89a..66c280c 100644
--- a/pyconform/functions.py
+++ b/pyconform/functions.py
@@ -537,14 +537,16 @@ class RenameDimensionsFunction(Function):
         super(RenameDimensionsFunction, self).__init__(data, *dims)
 
     def __getitem__(self, index):
-        data = (
-            self.arguments[0]
-            if is_constant(self.arguments[0])
-            else self.arguments[0][index]
-        )
+        data_r = self.arguments[0]
+        dims = self.arguments[1:]
+        if isinstance(index, dict) and len(dims) > 0 and not is_constant(data_r):
+            # Names in the index refer to the renamed dimensions
+            inp_dims = data_r[None].dimensions
+            out_dims = tuple(dims[: len(inp_dims)]) + inp_dims[len(dims) :]
+            index = dict((i, index[o]) for i, o in zip(inp_dims, out_dims) if o in index)
+        data = data_r if is_constant(data_r) else data_r[index]
         if len(self.arguments) == 1:
             return data
-        dims = self.arguments[1:]
         dim_names = ", ".join([repr(dim) for dim in dims])
         new_name = "chdims({!s}, {!s})".format(getname(data), dim_names)
         new_dims = list(data.dimensions)
-- 
2.43.0


From e676d11a5ba9de111b8dfe9a332166fef4881603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:53 +0000
Subject: [PATCH 12/88] fix: limit leaves scalar and missing data that are
 within the limits alone

---
 pyconform/functions.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/pyconform/functions.py b/pyconform/functions.py
index 66c280c..e74afea 100644
--- a/pyconform/functions.py
+++ b/pyconform/functions.py
@@ -9,7 +9,7 @@ from abc import ABCMeta, abstractmethod
 
 import numpy as np
 from cf_units import Unit
-from numpy.ma import sqrt, where
+from numpy.ma import sqrt
 
 from pyconform.physarray import PhysArray, UnitsError, getname
 
@@ -496,19 +496,17 @@ class LimitFunction(Function):
             return data
 
         data = data.copy()
+        values = data.view(np.ma.MaskedArray)
+        valid = ~np.ma.getmaskarray(values)
         above_str = ""
         if above_val is not None:
-            above_ind = where(data > above_val)
-            if len(above_ind) > 0:
-                data[above_ind] = above_val
-                above_str = ", above={}".format(above_val)
+            values[valid & (np.ma.getdata(values) > above_val)] = above_val
+            above_str = ", above={}".format(above_val)
 
         below_str = ""
         if below_val is not None:
-            below_ind = where(data < below_val)
-            if len(below_ind) > 0:
-                data[below_ind] = below_val
-                below_str = ", below={}".format(below_val)
+            values[valid & (np.ma.getdata(values) < below_val)] = below_val
+            below_str = ", below={}".format(below_val)
 
         new_name = "limit({}{}{})".format(data.name, above_str, below_str)
         return PhysArray(data, name=new_name)
-- 
2.43.0


From 1697469319882f673e450571cf9145f6f294b656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:02 +0000
Subject: [PATCH 13/88] fix: do not mask valid data that are equal to valid_min
 or valid_max

---
 pyconform/flownodes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyconform/flownodes.py b/pyconform/flownodes.py
index a23b969..32d21f4 100644
--- a/pyconform/flownodes.py
+++ b/pyconform/flownodes.py
@@ -547,7 +547,7 @@ class ValidateNode(FlowNode):
             if dmin < valid_min:
                 msg = "valid_min: {} < {} ({!r})".format(dmin, valid_min, self.label)
                 warn(msg, ValidationWarning)
-                indata = numpy.ma.masked_where(indata <= valid_min, indata)
+                indata = numpy.ma.masked_where(indata < valid_min, indata)
 
         # Validate maximum
         if valid_max:
@@ -555,7 +555,7 @@ class ValidateNode(FlowNode):
             if dmax > valid_max:
                 msg = "valid_max: {} > {} ({!r})".format(dmax, valid_max, self.label)
                 warn(msg, ValidationWarning)
-                indata = numpy.ma.masked_where(indata >= valid_max, indata)
+                indata = numpy.ma.masked_where(indata > valid_max, indata)
 
         # Compute mean of the absolute value, if necessary
         if ok_min_mean_abs or ok_max_mean_abs:
-- 
2.43.0


From dc4bd6f02d65d8ccd9fa24ad215762e3487f70af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:08 +0000
Subject: [PATCH 14/88] fix: validate data against limits that are zero

---
 pyconform/flownodes.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyconform/flownodes.py b/pyconform/flownodes.py
index 32d21f4..4599b62 100644
--- a/pyconform/flownodes.py
+++ b/pyconform/flownodes.py
@@ -542,7 +542,7 @@ class ValidateNode(FlowNode):
         ok_max_mean_abs = self.attributes.get("ok_max_mean_abs", None)
 
         # Validate minimum
-        if valid_min:
+        if valid_min not in (None, ""):
             dmin = numpy.min(indata)
             if dmin < valid_min:
                 msg = "valid_min: {} < {} ({!r})".format(dmin, valid_min, self.label)
@@ -550,7 +550,7 @@ class ValidateNode(FlowNode):
                 indata = numpy.ma.masked_where(indata < valid_min, indata)
 
         # Validate maximum
-        if valid_max:
+        if valid_max not in (None, ""):
             dmax = numpy.max(indata)
             if dmax > valid_max:
                 msg = "valid_max: {} > {} ({!r})".format(dmax, valid_max, self.label)
@@ -558,11 +558,11 @@ class ValidateNode(FlowNode):
                 indata = numpy.ma.masked_where(indata > valid_max, indata)
 
         # Compute mean of the absolute value, if necessary
-        if ok_min_mean_abs or ok_max_mean_abs:
+        if ok_min_mean_abs not in (None, "") or ok_max_mean_abs not in (None, ""):
             mean_abs = numpy.mean(numpy.abs(indata))
 
         # Validate minimum mean abs
-        if ok_min_mean_abs:
+        if ok_min_mean_abs not in (None, ""):
             if mean_abs < ok_min_mean_abs:
                 msg = "ok_min_mean_abs: {} < {} ({!r})".format(
                     mean_abs, ok_min_mean_abs, self.label
@@ -570,7 +570,7 @@ class ValidateNode(FlowNode):
                 warn(msg, ValidationWarning)
 
         # Validate maximum mean abs
-        if ok_max_mean_abs:
+        if ok_max_mean_abs not in (None, ""):
             if mean_abs > ok_max_mean_abs:
                 msg = "ok_max_mean_abs: {} > {} ({!r})".format(
                     mean_abs, ok_max_mean_abs, self.label
-- 
2.43.0


From 8fd9d80c4860c9602ef8e069a724d17e57d79b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:28 +0000
Subject: [PATCH 15/88] fix: refuse chunk sizes that are not positive

---
 pyconform/dataflow.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyconform/dataflow.py b/pyconform/dataflow.py
index dbf0db6..ddc25b9 100644
--- a/pyconform/dataflow.py
+++ b/pyconform/dataflow.py
@@ -357,6 +357,12 @@ class DataFlow(object):
                         odname, odsize
                     )
                 )
+            if odsize < 1:
+                raise ValueError(
+                    ("Chunk size invalid for output dimension {!r}: " "{}").format(
+                        odname, odsize
+                    )
+                )
 
         # Check that we are not chunking over any "sum-like" dimensions
         sumlike_chunk_dims = sorted(d for d in chunks if d in self._sumlike_dimensions)
-- 
2.43.0


From cea5bffb4dc0a153c2bb14257ea5c62cf11ef105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:35 +0000
Subject: [PATCH 16/88] fix: data flows without any variable computed from a
 definition

---
 pyconform/dataflow.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/pyconform/dataflow.py b/pyconform/dataflow.py
index ddc25b9..4080e43 100644
--- a/pyconform/dataflow.py
+++ b/pyconform/dataflow.py
@@ -189,14 +189,13 @@ class DataFlow(object):
     def _compute_dimension_maps_(self, definfos):
         # Each output variable FlowNode must be mapped to its output dimensions.
         # To aid with this, we sort by number of dimensions:
-        nodeorder = list(
-            zip(
-                *sorted(
-                    (len(self._ods.variables[vname].dimensions), vname)
-                    for vname in definfos
-                )
+        nodeorder = [
+            vname
+            for _, vname in sorted(
+                (len(self._ods.variables[vname].dimensions), vname)
+                for vname in definfos
             )
-        )[1]
+        ]
 
         # Now, we construct the dimension maps
         i2omap = {}
-- 
2.43.0


From 2ec3ef871bcf909a07308d6e4a0a02d9f60a07a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:41 +0000
Subject: [PATCH 17/88] fix: MapNode applies an index by its output dimension
 names only

---
 pyconform/flownodes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyconform/flownodes.py b/pyconform/flownodes.py
index 4599b62..ad0a85f 100644
--- a/pyconform/flownodes.py
+++ b/pyconform/flownodes.py
@@ -382,7 +382,9 @@ class MapNode(FlowNode):
             inp_index = None
 
         elif isinstance(index, dict):
-            inp_index = dict((self._o2imap.get(d, d), i) for d, i in index.items())
+            inp_index = dict(
+                (i, index[o]) for i, o in zip(inp_dims, out_dims) if o in index
+            )
 
         else:
             out_index = index_tuple(index, len(inp_dims))
-- 
2.43.0


From 63ba73eb7c7228f6ba4404ce1730ef182346f250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:55 +0000
Subject: [PATCH 18/88] fix: abandon the output file of a failed write so that
 it can be written again

---
 pyconform/flownodes.py | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/pyconform/flownodes.py b/pyconform/flownodes.py
index ad0a85f..99795fe 100644
--- a/pyconform/flownodes.py
+++ b/pyconform/flownodes.py
@@ -900,6 +900,18 @@ class WriteNode(FlowNode):
             if exists(tmp_fname):
                 rename(tmp_fname, self.label)
 
+    def _abandon_(self):
+        """
+        Abandon the file associated with the WriteNode after a failure to write it
+        """
+        ncfile, self._file = self._file, None
+        self._idims = set()
+        if ncfile is not None and ncfile.isopen():
+            try:
+                ncfile.close()
+            except Exception:
+                pass
+
     @staticmethod
     def _chunk_iter_(dsizes, chunks={}):
         if not isinstance(dsizes, OrderedDict):
@@ -975,6 +987,21 @@ class WriteNode(FlowNode):
             deflate (int): Override the output file deflate level with given value
         """
 
+        try:
+            self._write_(chunks=chunks, deflate=deflate)
+        except BaseException:
+            self._abandon_()
+            raise
+
+    def _write_(self, chunks={}, deflate=None):
+        """
+        Write the header and all of the data of the WriteNode file
+
+        Parameters:
+            chunks (dict): A dictionary of output dimension names and chunk sizes
+            deflate (int): Override the output file deflate level with given value
+        """
+
         # Open the file and write the header information
         self._open_(deflate=deflate)
 
-- 
2.43.0


From 7a8cc5c96da6c3358dc30592c179d1b3642e778f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:39 +0000
Subject: [PATCH 19/88] fix: max function without dimensions to reduce

---
 pyconform/functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyconform/functions.py b/pyconform/functions.py
index e74afea..fd00336 100644
--- a/pyconform/functions.py
+++ b/pyconform/functions.py
@@ -378,7 +378,7 @@ class MaxFunction(Function):
             data.dimensions.index(d) for d in dimensions if d in data.dimensions
         )
         newdims = [d for d in data.dimensions if d not in dimensions]
-        new_name = "max({},{})".format(data.name, dimensions[0])
+        new_name = "max({},{})".format(data.name, ",".join(dimensions))
         if index is None:
             m = np.zeros((0,) * len(newdims))
         else:
-- 
2.43.0


From d914667eed2aca3a61cb4a7119ff42f938191134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:14 +0000
Subject: [PATCH 20/88] fix: single elements of a PhysArray keep its name,
 units and positive attributes

---
 pyconform/physarray.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyconform/physarray.py b/pyconform/physarray.py
index 4cae683..aced23a 100644
--- a/pyconform/physarray.py
+++ b/pyconform/physarray.py
@@ -374,7 +374,11 @@ class PhysArray(numpy.ma.MaskedArray):
             )
             if dimensions != self.dimensions:
                 return PhysArray(
-                    super(PhysArray, self).__getitem__(idx), dimensions=dimensions
+                    super(PhysArray, self).__getitem__(idx),
+                    name=self.name,
+                    units=self.units,
+                    dimensions=dimensions,
+                    positive=self.positive,
                 )
             else:
                 return super(PhysArray, self).__getitem__(idx)
-- 
2.43.0


From 81e51233c18d4333e912b823887aa445364e3ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:20 +0000
Subject: [PATCH 21/88] fix: negation of missing scalar data

---
 pyconform/physarray.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pyconform/physarray.py b/pyconform/physarray.py
index aced23a..6dc5758 100644
--- a/pyconform/physarray.py
+++ b/pyconform/physarray.py
@@ -464,6 +464,15 @@ class PhysArray(numpy.ma.MaskedArray):
         other = self._broadcast_(PhysArray(other)).convert(self.units)
         return self._match_positive_(other)
 
+    def __neg__(self):
+        return PhysArray(
+            super(PhysArray, self).__neg__(),
+            name=self.name,
+            units=self.units,
+            dimensions=self.dimensions,
+            positive=self.positive,
+        )
+
     def __add__(self, other):
         result = PhysArray(self)
         other = result._add_sub_init_(other)
-- 
2.43.0


From 05bc01ee8da3d39f110493eb8f800fce59f77f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:27 +0000
Subject: [PATCH 22/88] fix: MapNode accepts integers in an index

---
 pyconform/flownodes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyconform/flownodes.py b/pyconform/flownodes.py
index 99795fe..8f686f6 100644
--- a/pyconform/flownodes.py
+++ b/pyconform/flownodes.py
@@ -401,7 +401,9 @@ class MapNode(FlowNode):
             name = "map({}, from=[{}], to=[{}])".format(
                 inp_info.name, idims_str, odims_str
             )
-        return PhysArray(self.inputs[0][inp_index], name=name, dimensions=out_dims)
+        data = self.inputs[0][inp_index]
+        data_dims = tuple(self._i2omap.get(d, d) for d in data.dimensions)
+        return PhysArray(data, name=name, dimensions=data_dims)
 
 
 class ValidateNode(FlowNode):
-- 
2.43.0


From 221901fe04dab08ebfe708b2b01dd7678d30d5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:44 +0000
Subject: [PATCH 23/88] fix: dimensions renamed by chdims after a reduction
 over them cannot be chunked

---
 pyconform/functions.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/pyconform/functions.py b/pyconform/functions.py
index fd00336..1a83ad8 100644
--- a/pyconform/functions.py
+++ b/pyconform/functions.py
@@ -528,12 +528,27 @@ class RemoveUnitsFunction(Function):
         return PhysArray(data, name=new_name, units=1)
 
 
+def _find_sumlike_dimensions_(node):
+    dims = set(getattr(node, "sumlike_dimensions", ()))
+    for inp in getattr(node, "inputs", ()):
+        dims.update(_find_sumlike_dimensions_(inp))
+    return dims
+
+
 class RenameDimensionsFunction(Function):
     key = "chdims"
 
     def __init__(self, data, *dims):
         super(RenameDimensionsFunction, self).__init__(data, *dims)
 
+        # Dimensions that are sum-like in the input are sum-like by their new names
+        if not is_constant(data):
+            sumlike = _find_sumlike_dimensions_(data)
+            if len(sumlike) > 0:
+                self.add_sumlike_dimensions(
+                    *(o for i, o in zip(data[None].dimensions, dims) if i in sumlike)
+                )
+
     def __getitem__(self, index):
         data_r = self.arguments[0]
         dims = self.arguments[1:]
-- 
2.43.0


From 239b94ecc6a249fb8fb414e44f5b09bd7c6e159a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:41 +0000
Subject: [PATCH 24/88] fix: flip data only to a positive direction they do not
 have yet, in any case or if empty

---
 pyconform/flownodes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyconform/flownodes.py b/pyconform/flownodes.py
index 8f686f6..2aa1f2f 100644
--- a/pyconform/flownodes.py
+++ b/pyconform/flownodes.py
@@ -531,8 +531,8 @@ class ValidateNode(FlowNode):
             indata = indata.transpose(self.dimensions)
 
         # Check the positive attribute, if specified
-        positive = self.attributes.get("positive", None)
-        if positive is not None and indata.positive != positive:
+        positive = str(self.attributes.get("positive", "")).lower()
+        if positive in ("up", "down") and indata.positive != positive:
             indata.flip()
 
         # Do not validate if index is None (nothing to validate)
-- 
2.43.0


From be398f3e02d3ec91519a265359ec498ec97d637c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:00 +0000
Subject: [PATCH 25/88] fix: flip keeps units with an offset

---
 pyconform/physarray.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyconform/physarray.py b/pyconform/physarray.py
index 6dc5758..8815b1c 100644
--- a/pyconform/physarray.py
+++ b/pyconform/physarray.py
@@ -333,7 +333,9 @@ class PhysArray(numpy.ma.MaskedArray):
         """
         if self.positive is not None:
             nm = self.name
+            units = self.units
             self *= -1
+            self.units = units
             self.positive = "up" if self.positive == "down" else "down"
             self.name = "{}({})".format(self.positive, nm)
         return self
-- 
2.43.0


From 2aa11da0514250fc53dd61614c81bcaf241c5717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:55 +0000
Subject: [PATCH 26/88] fix: variables of one name with their dimensions in
 different order are not the same variable

---
 pyconform/datasets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyconform/datasets.py b/pyconform/datasets.py
index 4c743ae..969332c 100644
--- a/pyconform/datasets.py
+++ b/pyconform/datasets.py
@@ -318,7 +318,7 @@ class VariableDesc(object):
             return False
         if self.datatype != other.datatype:
             return False
-        if self.dimensions.keys() != other.dimensions.keys():
+        if list(self.dimensions) != list(other.dimensions):
             return False
         return True
 
-- 
2.43.0


From 4f44791b439e3170494a3d89e6e570a39f91c552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:00 +0000
Subject: [PATCH 27/88] fix: NETCDF4 files can hold variables of type ubyte

---
 pyconform/datasets.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyconform/datasets.py b/pyconform/datasets.py
index 969332c..14f282a 100644
--- a/pyconform/datasets.py
+++ b/pyconform/datasets.py
@@ -773,6 +773,7 @@ class OutputDatasetDesc(DatasetDesc):
         3: ["byte", "char", "short", "int", "float", "double"],
         4: [
             "byte",
+            "ubyte",
             "char",
             "short",
             "ushort",
-- 
2.43.0


From e112e787916529023537e79050fc2ce6f2b49f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:21 +0000
Subject: [PATCH 28/88] fix: refuse output files that come to have the same
 name

---
 pyconform/dataflow.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyconform/dataflow.py b/pyconform/dataflow.py
index 4080e43..6829f30 100644
--- a/pyconform/dataflow.py
+++ b/pyconform/dataflow.py
@@ -296,6 +296,12 @@ class DataFlow(object):
             else:
                 vnodes = tuple(self._valnodes[vname] for vname in fdesc.variables)
                 wnode = WriteNode(fdesc, inputs=vnodes)
+                if wnode.label in writenodes:
+                    raise ValueError(
+                        "Multiple output files have the same name {}".format(
+                            wnode.label
+                        )
+                    )
                 writenodes[wnode.label] = wnode
         return writenodes
 
-- 
2.43.0


From 6cdfd852180bc38f65a9f8341f22a99500eb63d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:54 +0000
Subject: [PATCH 29/88] fix: vardeps reads definitions with keyword arguments
 or comparisons from definition files

---
 pyconform/cli/vardeps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyconform/cli/vardeps.py b/pyconform/cli/vardeps.py
index ede2fe6..8984625 100755
--- a/pyconform/cli/vardeps.py
+++ b/pyconform/cli/vardeps.py
@@ -117,7 +117,7 @@ def main(argv=None):
                 line = line.strip()
                 if "#" in line:
                     line = line.split("#")[0].strip()
-                split = line.split("=")
+                split = line.split("=", 1)
                 if len(split) == 2:
                     vardefs[split[0].strip()] = split[1].strip()
                 elif len(line) > 0:
-- 
2.43.0


From 8b003bf37e3c7437596d4f19ca50ca46c003e9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:00 +0000
Subject: [PATCH 30/88] fix: vardeps does not fail if no variables are needed

---
 pyconform/cli/vardeps.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyconform/cli/vardeps.py b/pyconform/cli/vardeps.py
index 8984625..09c5725 100755
--- a/pyconform/cli/vardeps.py
+++ b/pyconform/cli/vardeps.py
@@ -165,7 +165,8 @@ def main(argv=None):
 
     print()
     print("Complete Specification Requires the Following Input Variables:")
-    print_columnar(sorted(alldeps), indent=3)
+    if len(alldeps) > 0:
+        print_columnar(sorted(alldeps), indent=3)
 
 
 if __name__ == "__main__":
-- 
2.43.0


From 789bd173fd26dfb3acf9d8673e6613e0d1e7fe58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:06 +0000
Subject: [PATCH 31/88] fix: vardeps reports dependencies of variables with a
 frequency but no realm

---
 pyconform/cli/vardeps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyconform/cli/vardeps.py b/pyconform/cli/vardeps.py
index 09c5725..9d23421 100755
--- a/pyconform/cli/vardeps.py
+++ b/pyconform/cli/vardeps.py
@@ -152,7 +152,7 @@ def main(argv=None):
                 vdeps = variable_search(parsing.parse_definition(vardefs[var]))
                 alldeps.update(vdeps)
                 fheader = (
-                    " [{},{}]".format(varfreqs[var], varrealm[var])
+                    " [{},{}]".format(varfreqs[var], varrealm.get(var, ""))
                     if var in varfreqs
                     else ""
                 )
-- 
2.43.0


From aaeca94c3da8a6295272a7d4d80d8bf25bde6aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:06 +0000
Subject: [PATCH 32/88] fix: write chunks of strings

---
 pyconform/flownodes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyconform/flownodes.py b/pyconform/flownodes.py
index 2aa1f2f..7401f93 100644
--- a/pyconform/flownodes.py
+++ b/pyconform/flownodes.py
@@ -1038,7 +1038,8 @@ class WriteNode(FlowNode):
                 if repr(wchunk) not in vchunks[vname]:
                     vdata = vnode[rchunk]
                     if isinstance(vdata, CharArray):
-                        vdata = vdata.stretch(ncvar.shape[-1])
+                        lb, ub, _ = wchunk[-1].indices(ncvar.shape[-1])
+                        vdata = vdata.stretch(ub - lb)
                     ncvar[wchunk] = vdata
                     vchunks[vname].add(repr(wchunk))
 
-- 
2.43.0


From 34baf578b55ebe5dbbb0e6645a6e6554c43ec564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:13 +0000
Subject: [PATCH 33/88] fix: strings of single characters given as data keep
 their string length dimension

---
 pyconform/dataflow.py | 3 +++
 pyconform/datasets.py | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/pyconform/dataflow.py b/pyconform/dataflow.py
index 6829f30..81755dc 100644
--- a/pyconform/dataflow.py
+++ b/pyconform/dataflow.py
@@ -106,6 +106,9 @@ class DataFlow(object):
             if not isinstance(vdesc.definition, str):
                 if vdesc.datatype == "char":
                     vdata = numpy.asarray(vdesc.definition, dtype="S")
+                    if vdata.ndim + 1 == len(vdesc.dimensions) and vdata.itemsize == 1:
+                        # Strings of single characters
+                        vdata = vdata.reshape(vdata.shape + (1,))
                 else:
                     vdata = numpy.asarray(vdesc.definition, dtype=vdesc.dtype)
                 vunits = vdesc.cfunits()
diff --git a/pyconform/datasets.py b/pyconform/datasets.py
index 14f282a..d1a9452 100644
--- a/pyconform/datasets.py
+++ b/pyconform/datasets.py
@@ -834,6 +834,12 @@ class OutputDatasetDesc(DatasetDesc):
                         )
                 else:
                     vshape = PhysArray(vdef).shape
+                    if (
+                        vkwds["datatype"] == "char"
+                        and len(vshape) + 1 == len(vdict.get("dimensions", ()))
+                    ):
+                        # Strings of single characters
+                        vshape = vshape + (1,)
                 vkwds["definition"] = vdef
             else:
                 def_wrn = "No definition given for output variable {!r} in dataset {!r}.".format(
-- 
2.43.0


From 8891cb99ea18061a597322dc4af2bf2066152f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:11 +0000
Subject: [PATCH 34/88] fix: dimensions of string lengths are recognised in any
 order of variables

---
 pyconform/datasets.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/pyconform/datasets.py b/pyconform/datasets.py
index d1a9452..861bc2c 100644
--- a/pyconform/datasets.py
+++ b/pyconform/datasets.py
@@ -698,6 +698,13 @@ class InputDatasetDesc(DatasetDesc):
                 for aname in ncfile.ncattrs():
                     fattrs[aname] = ncfile.getncattr(aname)
 
+                # Find the dimensions of string lengths
+                slens = set(
+                    vobj.dimensions[-1]
+                    for vobj in ncfile.variables.values()
+                    if len(vobj.dimensions) > 0 and vobj.dtype == dtype("S1")
+                )
+
                 # Parse variables and their dimensions
                 fvars = []
                 fdims = OrderedDict()
@@ -712,12 +719,7 @@ class InputDatasetDesc(DatasetDesc):
                             dobj = ncfile.dimensions[dname]
                             size = len(dobj)
                             unlimited = dobj.isunlimited()
-                            slen = (
-                                True
-                                if dname == vobj.dimensions[-1]
-                                and vobj.dtype == dtype("S1")
-                                else False
-                            )
+                            slen = dname in slens
                             fdims[dname] = DimensionDesc(
                                 dname, size=size, unlimited=unlimited, stringlen=slen
                             )
-- 
2.43.0


From 9920c2a6952cab24f9201e005648357f2a347bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:17 +0000
Subject: [PATCH 35/88] fix: walks of the data flow graph meet a node reached
 by two paths once

---
 pyconform/flownodes.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyconform/flownodes.py b/pyconform/flownodes.py
index 7401f93..b61a57f 100644
--- a/pyconform/flownodes.py
+++ b/pyconform/flownodes.py
@@ -49,6 +49,8 @@ def iter_dfs(node):
     tosearch = [node]
     while tosearch:
         nd = tosearch.pop()
+        if nd in visited:
+            continue
         visited.add(nd)
         if isinstance(nd, FlowNode):
             tosearch.extend(i for i in nd.inputs if i not in visited)
@@ -69,6 +71,8 @@ def iter_bfs(node):
     tosearch = [node]
     while tosearch:
         nd = tosearch.pop(0)
+        if nd in visited:
+            continue
         visited.add(nd)
         if isinstance(nd, FlowNode):
             tosearch.extend(i for i in nd.inputs if i not in visited)
-- 
2.43.0


From 0a6df3876f8d579f0d05c99f5a8017883c3692d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:32 +0000
Subject: [PATCH 36/88] fix: chunits keeps the units of a computed quantity

---
 pyconform/functions.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyconform/functions.py b/pyconform/functions.py
index 1a83ad8..1d17296 100644
--- a/pyconform/functions.py
+++ b/pyconform/functions.py
@@ -427,17 +427,17 @@ class ChangeUnitsFunction(Function):
         dunits = Unit(1) if is_constant(data) else data[None].units
         dcal = dunits.calendar
         if dunits.is_time_reference():
-            dunit, dref = [s.strip() for s in dunits.origin.split("since")]
+            dunit, dref = [s.strip() for s in str(dunits).split("since")]
         else:
-            dunit = dunits.origin
+            dunit = str(dunits)
             dref = None
 
         uobj = Unit(units) if is_constant(units) else units[None].units
         ucal = uobj.calendar
         if uobj.is_time_reference():
-            uunit, uref = [s.strip() for s in uobj.origin.split("since")]
+            uunit, uref = [s.strip() for s in str(uobj).split("since")]
         else:
-            uunit = uobj.origin
+            uunit = str(uobj)
             uref = None
 
         unit = dunit if units is None else uunit
-- 
2.43.0


From 2f33d3cb69365e8dfe10b248d639506f23502248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:32 +0000
Subject: [PATCH 37/88] fix: chunits accepts a number

---
 pyconform/functions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyconform/functions.py b/pyconform/functions.py
index 1d17296..9146551 100644
--- a/pyconform/functions.py
+++ b/pyconform/functions.py
@@ -423,6 +423,8 @@ class ChangeUnitsFunction(Function):
         super(ChangeUnitsFunction, self).__init__(
             data, units=units, refdate=refdate, calendar=calendar
         )
+        if isinstance(data, str):
+            raise TypeError("chunits: Data must be a PhysArray or a number")
 
         dunits = Unit(1) if is_constant(data) else data[None].units
         dcal = dunits.calendar
@@ -473,7 +475,7 @@ class ChangeUnitsFunction(Function):
             else "|{}".format(self._newunits.calendar)
         )
         unit_str = "{}{}".format(self._newunits, cal_str)
-        new_name = "chunits({}, units={})".format(data.name, unit_str)
+        new_name = "chunits({}, units={})".format(getname(data), unit_str)
         return PhysArray(data, name=new_name, units=self._newunits)
 
 
-- 
2.43.0


From d56651ab46e732a0209609e0e5235d6ab3271370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:01 +0000
Subject: [PATCH 38/88] fix: limits which the type of the data cannot represent
 are not truncated

---
 pyconform/functions.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyconform/functions.py b/pyconform/functions.py
index 9146551..d301db6 100644
--- a/pyconform/functions.py
+++ b/pyconform/functions.py
@@ -498,6 +498,10 @@ class LimitFunction(Function):
             return data
 
         data = data.copy()
+        for bound in (above_val, below_val):
+            if bound is not None and np.asarray(bound).astype(data.dtype) != bound:
+                # The bound cannot be represented by the type of the data
+                data = data.astype(np.result_type(data.dtype, np.asarray(bound).dtype))
         values = data.view(np.ma.MaskedArray)
         valid = ~np.ma.getmaskarray(values)
         above_str = ""
-- 
2.43.0


From 9fd2d4a75b7ac7ef590fdd69fd7c5b1778ff5b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:01 +0000
Subject: [PATCH 39/88] fix: limit accepts a number

---
 pyconform/functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyconform/functions.py b/pyconform/functions.py
index d301db6..20c94b7 100644
--- a/pyconform/functions.py
+++ b/pyconform/functions.py
@@ -497,7 +497,7 @@ class LimitFunction(Function):
         if above_val is None and below_val is None:
             return data
 
-        data = data.copy()
+        data = PhysArray(data).copy()
         for bound in (above_val, below_val):
             if bound is not None and np.asarray(bound).astype(data.dtype) != bound:
                 # The bound cannot be represented by the type of the data
-- 
2.43.0


From 0a0b2c5889489addc3cdad9c51e86d44eae83f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:14 +0000
Subject: [PATCH 40/88] fix: files to put in order are opened for reading only
 and closed

---
 pyconform/climIO.py   | 2 +-
 pyconform/mapdates.py | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyconform/climIO.py b/pyconform/climIO.py
index e0a0697..9dcae9e 100644
--- a/pyconform/climIO.py
+++ b/pyconform/climIO.py
@@ -347,7 +347,7 @@ class NetCDF4PyPort(object):
         Returns:
             open_file (netCDF4.Dataset): A pointer to a netCDF4.Dataset object.
         """
-        open_file = netCDF4.Dataset(file_name, "r+")
+        open_file = netCDF4.Dataset(file_name, "r")
         return open_file
 
     def read_slice(self, open_file, var, index, all_values=False):
diff --git a/pyconform/mapdates.py b/pyconform/mapdates.py
index 01f7c84..d88c31d 100644
--- a/pyconform/mapdates.py
+++ b/pyconform/mapdates.py
@@ -281,6 +281,7 @@ def get_files_in_order(files, alignment=True):
         fn = os.path.basename(fl)
         f = ncdf.open_file(fl)
         ave, date = __get_time_info__(f, ncdf)
+        ncdf.close_file(f)
         date["fn"] = fn
         date_info[ave] = date
         if alignment:
-- 
2.43.0


From df427cf7bb2dfcef3bad6a9c0ce54c9d25e8b670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:14 +0000
Subject: [PATCH 41/88] fix: files of the same or of overlapping periods are
 not lost

---
 pyconform/mapdates.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyconform/mapdates.py b/pyconform/mapdates.py
index d88c31d..ba7cc24 100644
--- a/pyconform/mapdates.py
+++ b/pyconform/mapdates.py
@@ -283,7 +283,7 @@ def get_files_in_order(files, alignment=True):
         ave, date = __get_time_info__(f, ncdf)
         ncdf.close_file(f)
         date["fn"] = fn
-        date_info[ave] = date
+        date_info[(ave, len(date_info))] = date
         if alignment:
             error = __check_date_alignment_in_file__(date)
             if error != 0:
@@ -294,7 +294,7 @@ def get_files_in_order(files, alignment=True):
         counts.append(date_info[d]["cnt"])
 
     # If there are more than 1 files, make sure the dates are aligned correctly
-    if len(fl) > 1:
+    if len(files) > 1:
         error = __check_date_alignment__(sorted(date_info.keys()), date_info)
         if error != 0:
             return file_list, counts, error
-- 
2.43.0


From c0a7a69cd085ee318a08421fd04b58c4efb05877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:14 +0000
Subject: [PATCH 42/88] fix: dates within a day are converted

---
 pyconform/mapdates.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyconform/mapdates.py b/pyconform/mapdates.py
index ba7cc24..d67a1c4 100644
--- a/pyconform/mapdates.py
+++ b/pyconform/mapdates.py
@@ -84,8 +84,8 @@ def __get_time_info__(f, io):
     #                                          calendar=att['calendar']))).timetuple())
     # tn = (parser.parse(str(cf_units.num2date(dn, att['units'],
     #                                          calendar=att['calendar']))).timetuple())
-    date_info["t0"] = cal_unit.convert(d0, stand_cal)
-    date_info["tn"] = cal_unit.convert(dn, stand_cal)
+    date_info["t0"] = cal_unit.convert(float(d0), stand_cal)
+    date_info["tn"] = cal_unit.convert(float(dn), stand_cal)
     date_info["cnt"] = j
     average = (date_info["t0"] + date_info["tn"]) / 2
     date_info["units"] = att["units"]
-- 
2.43.0


From 8bc8bf02e5f12552943036d3d81a03e5212350ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:31 +0000
Subject: [PATCH 43/88] fix: files are in order and without gaps for any units,
 calendar, period and bounds of time

---
 pyconform/mapdates.py | 214 +++++++++++++-----------------------------
 1 file changed, 64 insertions(+), 150 deletions(-)

diff --git a/pyconform/mapdates.py b/pyconform/mapdates.py
index d67a1c4..6a20507 100644
--- a/pyconform/mapdates.py
+++ b/pyconform/mapdates.py
@@ -11,7 +11,7 @@ LICENSE: See the LICENSE.rst file for details
 import os
 
 import cf_units
-from dateutil import parser
+import numpy as np
 
 from . import climIO
 
@@ -44,7 +44,7 @@ def __get_time_info__(f, io):
         d0 = tb[0, 0]
         d1 = tb[1, 0]
         d2 = tb[2, 0]
-        dn = tb[j - 1, 1] - 1
+        dn = tb[j - 1, 0]
         time = tb[:, 0]
     else:
         # print 'Using time'
@@ -55,41 +55,33 @@ def __get_time_info__(f, io):
         d2 = tb[2]
         dn = tb[j - 1]
         time = tb[:]
-    date_info["time"] = time
-
-    # Get second and third time bounds to figure out the time period
-    t1 = parser.parse(
-        str(cf_units.num2date(d1, att["units"], calendar=att["calendar"]))
-    ).timetuple()
-    t2 = parser.parse(
-        str(cf_units.num2date(d2, att["units"], calendar=att["calendar"]))
-    ).timetuple()
-    # Get time difference between the steps
+    # Express all times in the same units, whatever the units of the file
+    d0, d1, d2, dn = [cal_unit.convert(float(d), stand_cal) for d in (d0, d1, d2, dn)]
+    date_info["time"] = cal_unit.convert(np.array(time, dtype=float), stand_cal)
+    date_info["units"] = str(stand_cal)
+    date_info["calendar"] = att["calendar"]
+
+    # Get time difference between the second and third steps
     t_step = d2 - d1
-    h = t2[3] - t1[3]
-    if t1[3] != t2[3]:
-        t_per = str(h) + "hour"
-    elif t1[2] != t2[2]:
-        t_per = "day"
-    elif t1[1] != t2[1]:
-        t_per = "mon"
-    elif t1[0] != t2[0]:
+    m_step = __month_number__(d2, date_info) - __month_number__(d1, date_info)
+    if t_step >= 360:
         t_per = "year"
+    elif t_step >= 28:
+        t_per = "mon"
+    elif t_step >= 1:
+        t_per = "day"
+    elif t_step > 0:
+        t_per = "{}hour".format(int(round(24 * t_step)))
     else:
         t_per = "UNKNOWN"
     date_info["t_per"] = t_per
     date_info["t_step"] = t_step
+    date_info["m_step"] = m_step
     # Get first and last dates
-    # t0 = (parser.parse(str(cf_units.num2date(d0, att['units'],
-    #                                          calendar=att['calendar']))).timetuple())
-    # tn = (parser.parse(str(cf_units.num2date(dn, att['units'],
-    #                                          calendar=att['calendar']))).timetuple())
-    date_info["t0"] = cal_unit.convert(float(d0), stand_cal)
-    date_info["tn"] = cal_unit.convert(float(dn), stand_cal)
+    date_info["t0"] = d0
+    date_info["tn"] = dn
     date_info["cnt"] = j
     average = (date_info["t0"] + date_info["tn"]) / 2
-    date_info["units"] = att["units"]
-    date_info["calendar"] = att["calendar"]
 
     # Check to see if the number of slices matches how many should be in the
     # date range
@@ -106,6 +98,41 @@ def __get_time_info__(f, io):
     return average, date_info
 
 
+def __month_number__(time, date):
+    """
+    Number the months of a calendar from year 0 on
+
+    Parameters:
+        time (float): A time, in the units of the date information.
+        date (dict): Contains file information, such as units and calendar.
+    """
+    d = cf_units.num2date(time, date["units"], calendar=date["calendar"])
+    return 12 * d.year + d.month
+
+
+def __is_next__(time, new_time, date):
+    """
+    Check that a time is exactly one time step after another.
+
+    Steps have all the same length (up to rounding errors), or are the same number of
+    months apart, since months and years do not all have the same number of days.
+
+    Parameters:
+        time (float): A time, in the units of the date information.
+        new_time (float): The time which should be the next.
+        date (dict): Contains file information, such as time period(t_per), time step(t_step).
+    """
+    t_step = date["t_step"]
+    if t_step <= 0:
+        return False
+    if abs(time + t_step - new_time) < 1e-3 * t_step:
+        return True
+    if date["t_per"] in ("mon", "year"):
+        months = __month_number__(new_time, date) - __month_number__(time, date)
+        return months == date["m_step"]
+    return False
+
+
 def __check_date_alignment__(keys, date_info):
     """
     Evaluates the dates between files to verify that
@@ -116,69 +143,11 @@ def __check_date_alignment__(keys, date_info):
         date_info (dict): Contains file information, such as time period(t_per), time step(t_step),
             first/last step(t0 and tn), slice counts(cnt).
     """
-    prev_last = date_info[keys[0]]["tn"]
-    t_step = date_info[keys[0]]["t_step"]
-
-    if date_info[keys[0]]["t_per"] == "mon":
-        date = parser.parse(
-            str(
-                cf_units.num2date(
-                    date_info[keys[0]]["tn"],
-                    date_info[keys[0]]["units"],
-                    calendar=date_info[keys[0]]["calendar"],
-                )
-            )
-        ).timetuple()
-        if date[1] == 12:
-            next_val = 1
-        else:
-            next_val = date[1] + 1
-
-    else:
-        next_val = prev_last + t_step
-
-    for i in range(1, len(keys)):
-        if date_info[keys[i]]["t_per"] == "mon":
-            new_date = parser.parse(
-                str(
-                    cf_units.num2date(
-                        date_info[keys[i]]["t0"],
-                        date_info[keys[i]]["units"],
-                        calendar=date_info[keys[i]]["calendar"],
-                    )
-                )
-            ).timetuple()
-            if next_val == new_date[1]:
-                date = parser.parse(
-                    str(
-                        cf_units.num2date(
-                            date_info[keys[i]]["tn"],
-                            date_info[keys[i]]["units"],
-                            calendar=date_info[keys[i]]["calendar"],
-                        )
-                    )
-                ).timetuple()
-                if date[1] == 12:
-                    next_val = 1
-                else:
-                    next_val = date[1] + 1
-            else:
-                print("Disconnect? Expected: ", next_val, " Got: ", new_date[1])
-                return 1
-        else:
-            if next_val == date_info[keys[i]]["t0"]:
-                # print "Looks
-                # okay",date_info[keys[i]]['t0'],'-',date_info[keys[i]]['tn']
-                prev_last = date_info[keys[i]]["tn"]
-                next_val = prev_last + t_step
-            else:
-                print(
-                    "Disconnect? Expected: ",
-                    next_val,
-                    " Got: ",
-                    date_info[keys[i]]["t0"],
-                )
-                return 1
+    for key, new_key in zip(keys[:-1], keys[1:]):
+        last, first = date_info[key]["tn"], date_info[new_key]["t0"]
+        if not __is_next__(last, first, date_info[keys[0]]):
+            print("Disconnect? Last: ", last, " Next: ", first)
+            return 1
 
     return 0
 
@@ -193,66 +162,11 @@ def __check_date_alignment_in_file__(date):
                           first/last step(t0 and tn), slice counts(cnt).
 
     """
-    t_step = date["t_step"]
-    t_per = date["t_per"]
     t = date["time"]
-    prev_time = t[0]
-
-    # If the time period in monthly, then the time difference between slices is not uniform and
-    # requires looking into the month length array to get correct day #'s
-    # between slices.
-    if t_per == "mon":
-        if t_per == "mon":
-            date1 = parser.parse(
-                str(cf_units.num2date(t[0], date["units"], calendar=date["calendar"]))
-            ).timetuple()
-            if date1[1] == 12:
-                next_val = 1
-            else:
-                next_val = date1[1] + 1
-        for i in range(1, len(t)):
-            new_date = parser.parse(
-                str(cf_units.num2date(t[i], date["units"], calendar=date["calendar"]))
-            ).timetuple()
-            if next_val == new_date[1]:
-                date1 = parser.parse(
-                    str(
-                        cf_units.num2date(
-                            t[i], date["units"], calendar=date["calendar"]
-                        )
-                    )
-                ).timetuple()
-                if date1[1] == 12:
-                    next_val = 1
-                else:
-                    next_val = date1[1] + 1
-            else:
-                print(
-                    "Disconnect? Expected: ",
-                    next_val,
-                    " Got: ",
-                    new_date[1],
-                    " around time step: ",
-                    i,
-                )
-                return 1
-    # All other time periods should have the same number of days between
-    # slices.
-    else:
-        for i in range(1, len(t)):
-            if prev_time + t_step == t[i]:
-                # Time step looks okay
-                prev_time = t[i]
-            else:
-                print(
-                    "Disconnect? Expected: ",
-                    str(prev_time + t_step),
-                    " Got: ",
-                    t[i],
-                    " around time step: ",
-                    i,
-                )
-                return 1
+    for i in range(1, len(t)):
+        if not __is_next__(t[i - 1], t[i], date):
+            print("Disconnect? Last: ", t[i - 1], " Next: ", t[i], " around step: ", i)
+            return 1
     return 0
 
 
-- 
2.43.0


From 73bfda1a740227d2465b7a05591d2bfbab615aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:25 +0000
Subject: [PATCH 44/88] fix: dimensions of MIP table variables find their axes

---
 pyconform/miptableparser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyconform/miptableparser.py b/pyconform/miptableparser.py
index 09895db..3cc8c29 100644
--- a/pyconform/miptableparser.py
+++ b/pyconform/miptableparser.py
@@ -249,7 +249,7 @@ class ParseExcel(object):
                         variables[vn]["coordinates"] = (
                             variables[vn]["dimensions"].strip().replace(" ", "|")
                         )
-                        dims = variables[vn]["dimensions"].encode("utf-8").split()
+                        dims = variables[vn]["dimensions"].split()
                         for dim in dims:
                             if dim not in axes.keys():
                                 axes[dim] = {}
@@ -326,7 +326,7 @@ class ParseCmorTable(object):
                 )
                 variables[var]["frequency"] = mt["Header"]["frequency"]
                 variables[var]["coordinates"] = v["dimensions"].replace(" ", "|")
-                dims = v["dimensions"].encode("utf-8").split()
+                dims = v["dimensions"].split()
                 for dim in dims:
                     if dim not in axes.keys() and dim in mt["axis_entry"].keys():
                         axes[dim] = mt["axis_entry"][dim]
-- 
2.43.0


From 6c0884953cccd854225d7bc856b4cdd990b2ea29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:25 +0000
Subject: [PATCH 45/88] fix: each MIP table has its own list of variables

---
 pyconform/miptableparser.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyconform/miptableparser.py b/pyconform/miptableparser.py
index 3cc8c29..7786be3 100644
--- a/pyconform/miptableparser.py
+++ b/pyconform/miptableparser.py
@@ -312,11 +312,13 @@ class ParseCmorTable(object):
                 mt = json.load(f)
 
             if len(v_list) == 0:
-                v_list = list(mt["variable_entry"].keys())
+                var_list = list(mt["variable_entry"].keys())
+            else:
+                var_list = v_list
 
             variables = {}
             axes = {}
-            for var in v_list:
+            for var in var_list:
                 v = mt["variable_entry"][var]
                 variables[var] = v
                 variables[var]["variable_id"] = var
-- 
2.43.0


From 43aa057bb4173061e12e72ef0951392071bf91c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:25 +0000
Subject: [PATCH 46/88] fix: the global attributes grids and external_variables
 are optional

---
 pyconform/cli/iconform.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pyconform/cli/iconform.py b/pyconform/cli/iconform.py
index 3d61371..971b749 100755
--- a/pyconform/cli/iconform.py
+++ b/pyconform/cli/iconform.py
@@ -250,7 +250,7 @@ def fill_missing_glob_attributes(attr, table, v, grids):
                 elif "variable_id" in a and "variable_id" in v.keys():
                     attr["variable_id"] = v["variable_id"]
 
-    if "FILL" in attr["external_variables"]:
+    if "FILL" in attr.get("external_variables", ""):
         attr.pop("external_variables")
 
     if "branch_method" in attr.keys():
@@ -372,8 +372,9 @@ def fill_missing_glob_attributes(attr, table, v, grids):
                 )
                 attr["further_info_url"] = "https://furtherinfo.es-doc.org/" + info_url
     if "grid" in attr.keys():
-        if len(attr["realm"]) > 0:
-            attr["grid"] = grids[attr["realm"].split()[0]]
+        realm = attr.get("realm", v.get("realm", ""))
+        if len(realm) > 0:
+            attr["grid"] = grids.get(realm.split()[0], attr["grid"])
         else:
             attr["grid"] = "CAN NOT FIND GRID - NO REALM IN DATAREQ"
 
@@ -389,9 +390,9 @@ def defineVar(v, varName, attr, table_info, definition, ig, experiment, out_dir)
 
     attributes = dict(attr)
 
+    grids = {}
     if "grids" in attributes.keys():
         p1 = attributes["grids"].split(";")
-        grids = {}
         for p in p1:
             g = p.split(":")[1]
             for model in p.split(":")[0].split(","):
-- 
2.43.0


From 0e4e636b8b15e2f7ed42f18a0e142fbde2243c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:25 +0000
Subject: [PATCH 47/88] fix: only the missing global attributes are filled in

---
 pyconform/cli/iconform.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/pyconform/cli/iconform.py b/pyconform/cli/iconform.py
index 971b749..5f9adb5 100755
--- a/pyconform/cli/iconform.py
+++ b/pyconform/cli/iconform.py
@@ -178,15 +178,15 @@ def fill_missing_glob_attributes(attr, table, v, grids):
     for a, d in attr.items():
         if d is not None:
             if "__FILL__" in d:
-                if "activity_id" in a and "activity_id" in table:
+                if a == "activity_id" and "activity_id" in table:
                     attr["activity_id"] = table["activity_id"]
-                elif "creation_date" in a:
+                elif a == "creation_date":
                     attr["creation_date"] = ""
-                elif "data_specs_version" in a and "data_specs_version" in table:
+                elif a == "data_specs_version" and "data_specs_version" in table:
                     attr["data_specs_version"] = table["data_specs_version"]
-                elif "experiment" in a and "experiment" in table:
+                elif a == "experiment" and "experiment" in table:
                     attr["experiment"] = table["experiment"]
-                elif "external_variables" in a:
+                elif a == "external_variables":
                     if "cell_measures" in v.keys():
                         if "areacello" in v["cell_measures"]:
                             if (
@@ -239,15 +239,15 @@ def fill_missing_glob_attributes(attr, table, v, grids):
                                     attr["external_variables"] + " volcello"
                                 )
 
-                elif "frequency" in a:
+                elif a == "frequency":
                     attr["frequency"] = v["frequency"]
-                elif "realm" in a and "realm" in v.keys():
+                elif a == "realm" and "realm" in v.keys():
                     attr["realm"] = v["realm"]
-                elif "table_id" in a:
+                elif a == "table_id":
                     attr["table_id"] = v["mipTable"]
-                elif "tracking_id" in a:
+                elif a == "tracking_id":
                     attr["tracking_id"] = "hdl:21.14100/" + str(uuid.uuid4())
-                elif "variable_id" in a and "variable_id" in v.keys():
+                elif a == "variable_id" and "variable_id" in v.keys():
                     attr["variable_id"] = v["variable_id"]
 
     if "FILL" in attr.get("external_variables", ""):
-- 
2.43.0


From 588c5ddcfdfb2b04b4012b45d7140a5a81e2aa09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:25 +0000
Subject: [PATCH 48/88] fix: a variant label which is not given is left out

---
 pyconform/cli/iconform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyconform/cli/iconform.py b/pyconform/cli/iconform.py
index 5f9adb5..835e404 100755
--- a/pyconform/cli/iconform.py
+++ b/pyconform/cli/iconform.py
@@ -319,7 +319,7 @@ def fill_missing_glob_attributes(attr, table, v, grids):
         if "parent_time_units" in attr.keys():
             attr["parent_time_units"] = "no parent"
 
-    if "variant_label" in attr.keys():
+    if "variant_label" in attr.keys() and "__FILL__" not in attr["variant_label"]:
         pre = attr["variant_label"].split("r")[1]
         attr["realization_index"] = int(pre.split("i")[0])
         pre = pre.split("i")[1]
-- 
2.43.0


From da3ec6e4bcbe476823a05d06741cf87919114a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:25 +0000
Subject: [PATCH 49/88] fix: definitions under a repeated heading are not lost

---
 pyconform/cli/iconform.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyconform/cli/iconform.py b/pyconform/cli/iconform.py
index 835e404..618886e 100755
--- a/pyconform/cli/iconform.py
+++ b/pyconform/cli/iconform.py
@@ -142,12 +142,12 @@ def load(defs, key=None):
         if "#" in line:
             if "TABLE" in line:
                 key = line.split(":")[1].strip()
-                def_dict[key] = {}
-                ig_dict[key] = {}
+                def_dict.setdefault(key, {})
+                ig_dict.setdefault(key, {})
             if "Coords" in line:
                 key = "Coords_" + line.split(":")[1].strip()
-                def_dict[key] = {}
-                ig_dict[key] = {}
+                def_dict.setdefault(key, {})
+                ig_dict.setdefault(key, {})
             if len(line.split("#")) == 2:
                 input_glob = line.split("#")[1]
             line = line.split("#")[0].strip()
-- 
2.43.0


From c2dc03db325b54f7925aa123bbf8010a77eeadb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:44 +0000
Subject: [PATCH 50/88] fix: a variable requested in several MIP tables is
 specified for each of them

---
 pyconform/cli/iconform.py   | 3 ++-
 pyconform/miptableparser.py | 8 +++++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/pyconform/cli/iconform.py b/pyconform/cli/iconform.py
index 618886e..854aca9 100755
--- a/pyconform/cli/iconform.py
+++ b/pyconform/cli/iconform.py
@@ -663,7 +663,8 @@ def create_output(
         var_list = {}
 
         # For each variable in the definition file, create a file entry in the spec and define it
-        for v, d in variables.items():
+        for v_key, d in variables.items():
+            v = v_key.split(":")[0]
             ts_key = None
             mip = d["mipTable"]
             if mip in definitions.keys():
diff --git a/pyconform/miptableparser.py b/pyconform/miptableparser.py
index 7786be3..de87c3f 100644
--- a/pyconform/miptableparser.py
+++ b/pyconform/miptableparser.py
@@ -643,7 +643,13 @@ class ParseXML(object):
                                             var["units"] = v_var.units
 
                                 # Add variable to variable dictionary
-                                variables[c_var.label] = var
+                                # (which may be requested in more than one MIP table)
+                                v_key = c_var.label
+                                if v_key in variables and (
+                                    variables[v_key]["mipTable"] != var["mipTable"]
+                                ):
+                                    v_key = c_var.label + ":" + c_var.mipTable
+                                variables[v_key] = var
                     for a in axes_list:
                         if "grid_latitude" in a:
                             a = "gridlatitude"
-- 
2.43.0


From 648c4053bdd98950111f0da29a84ccdaf041f12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:44 +0000
Subject: [PATCH 51/88] fix: the compression asked for is the one xconform uses

---
 pyconform/cli/iconform.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyconform/cli/iconform.py b/pyconform/cli/iconform.py
index 854aca9..c605902 100755
--- a/pyconform/cli/iconform.py
+++ b/pyconform/cli/iconform.py
@@ -531,6 +531,7 @@ def defineVar(v, varName, attr, table_info, definition, ig, experiment, out_dir)
     var["file"]["format"] = f_format
     if compression is not None:
         var["file"]["compression"] = compression
+        var["file"]["deflate"] = int(compression)
     if shuffle is not None:
         var["file"]["shuffle"] = shuffle
 
-- 
2.43.0


From 84114426c1129c43d65d2bd923cce4e780507a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:38 +0000
Subject: [PATCH 52/88] fix: variables without dimensions have none

---
 pyconform/cli/iconform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyconform/cli/iconform.py b/pyconform/cli/iconform.py
index c605902..4049b01 100755
--- a/pyconform/cli/iconform.py
+++ b/pyconform/cli/iconform.py
@@ -559,7 +559,7 @@ def defineVar(v, varName, attr, table_info, definition, ig, experiment, out_dir)
     if "requested" in v.keys():
         if v["requested"] != "":
             var["definition"] = v["requested"]
-    if "coordinates" in v.keys():
+    if v.get("coordinates", "") != "":
         var["dimensions"] = list(reversed(v["coordinates"].split("|")))
         var["attributes"]["coordinates"] = " ".join(
             list(reversed(v["coordinates"].split("|")))
-- 
2.43.0


From 01c9d59624ba19ca7e882acd27251b18c180bed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:22 +0000
Subject: [PATCH 53/88] fix: variables keep all their extra dimensions

---
 pyconform/miptableparser.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pyconform/miptableparser.py b/pyconform/miptableparser.py
index de87c3f..f03eba1 100644
--- a/pyconform/miptableparser.py
+++ b/pyconform/miptableparser.py
@@ -568,15 +568,20 @@ class ParseXML(object):
                                     # Is there did?
                                     if hasattr(s_var, "dids"):
                                         if isinstance(s_var.dids, tuple):
-                                            extra_dim = dq.inx.uid[s_var.dids[0]].label
+                                            extra_dims = [
+                                                dq.inx.uid[did].label
+                                                for did in s_var.dids
+                                            ]
+                                            extra_dim = "|".join(extra_dims)
                                             if "coordinates" not in var.keys():
                                                 var["coordinates"] = extra_dim
                                             else:
                                                 var["coordinates"] = (
                                                     extra_dim + "|" + var["coordinates"]
                                                 )
-                                            if extra_dim not in axes_list:
-                                                axes_list.append(extra_dim)
+                                            for extra_dim in extra_dims:
+                                                if extra_dim not in axes_list:
+                                                    axes_list.append(extra_dim)
 
                                     # Set what we can from the spatial section
                                     if hasattr(s_var, "spid"):
-- 
2.43.0


From 21f73e08799f1a4b03a3bd6d633da525ebbd834e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:22 +0000
Subject: [PATCH 54/88] fix: a later global attributes file adds to the earlier
 ones

---
 pyconform/cli/iconform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyconform/cli/iconform.py b/pyconform/cli/iconform.py
index 4049b01..c581704 100755
--- a/pyconform/cli/iconform.py
+++ b/pyconform/cli/iconform.py
@@ -891,7 +891,7 @@ def main(argv=None):
                     attributes.update(ga)
                 else:
                     with open(gaFile) as y_attributes:
-                        attributes = load(y_attributes, key="ga")["ga"]
+                        attributes.update(load(y_attributes, key="ga")["ga"])
             else:
                 if args.globalAttrFile and not os.path.isfile(args.globalAttrFile):
                     print(
-- 
2.43.0


From 04a338d1edd52bf3e31e6698d1df2c89b8c4273f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:22 +0000
Subject: [PATCH 55/88] fix: requested values listed with commas

---
 pyconform/cli/iconform.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyconform/cli/iconform.py b/pyconform/cli/iconform.py
index c581704..0b036e1 100755
--- a/pyconform/cli/iconform.py
+++ b/pyconform/cli/iconform.py
@@ -594,9 +594,10 @@ def defineAxes(v, name):
     if "requested" in v.keys():
         if v["requested"] != "":
             try:
-                req = [float(val) for val in v["requested"].split()]
+                names = v["requested"].replace(",", " ").split()
+                req = [float(val) for val in names]
             except ValueError:
-                req = v["requested"].split()
+                req = names
             except AttributeError:
                 req = v["requested"]
             if len(req) > 0:
-- 
2.43.0


From 20f597aaa6f6fafad62dc4c7f2984b312cc3ed37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:54 +0000
Subject: [PATCH 56/88] fix: global attributes may be numbers

---
 pyconform/cli/iconform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyconform/cli/iconform.py b/pyconform/cli/iconform.py
index 0b036e1..0a82c2c 100755
--- a/pyconform/cli/iconform.py
+++ b/pyconform/cli/iconform.py
@@ -176,7 +176,7 @@ def load(defs, key=None):
 def fill_missing_glob_attributes(attr, table, v, grids):
 
     for a, d in attr.items():
-        if d is not None:
+        if isinstance(d, str):
             if "__FILL__" in d:
                 if a == "activity_id" and "activity_id" in table:
                     attr["activity_id"] = table["activity_id"]
-- 
2.43.0


From 6a832a248300eb926cfdebca2a0ae33acca4204a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:12 +0000
Subject: [PATCH 57/88] fix: real variables in files of the classic model

---
 pyconform/datasets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyconform/datasets.py b/pyconform/datasets.py
index 861bc2c..11da24b 100644
--- a/pyconform/datasets.py
+++ b/pyconform/datasets.py
@@ -772,7 +772,7 @@ class OutputDatasetDesc(DatasetDesc):
     """
 
     _NC_TYPES_ = {
-        3: ["byte", "char", "short", "int", "float", "double"],
+        3: ["byte", "char", "short", "int", "float", "real", "double"],
         4: [
             "byte",
             "ubyte",
-- 
2.43.0


From 6e542db263fed1177e2881486e3f1a69efaea713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:14 +0000
Subject: [PATCH 58/88] fix: count years and halve ranges in whole numbers in
 the module functions

---
 pyconform/modules/commonfunctions.py | 30 ++++++++++++++--------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/pyconform/modules/commonfunctions.py b/pyconform/modules/commonfunctions.py
index 7edc5f1..80b0eb8 100644
--- a/pyconform/modules/commonfunctions.py
+++ b/pyconform/modules/commonfunctions.py
@@ -224,12 +224,12 @@ class monthtoyear_noleapFunction(Function):
 
         if len(data.dimensions) == 3:
             a = np.ma.zeros(
-                (data.data.shape[0] / 12, data.data.shape[1], data.data.shape[2])
+                (data.data.shape[0] // 12, data.data.shape[1], data.data.shape[2])
             )
         elif len(data.dimensions) == 4:
             a = np.ma.zeros(
                 (
-                    data.data.shape[0] / 12,
+                    data.data.shape[0] // 12,
                     data.data.shape[1],
                     data.data.shape[2],
                     data.data.shape[3],
@@ -242,7 +242,7 @@ class monthtoyear_noleapFunction(Function):
 
         days_in_month = np.array([31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31])
 
-        for i in range(time / 12):
+        for i in range(time // 12):
             start = i * 12
             a[i, ...] = np.ma.average(
                 dataD[start : start + 12, ...], axis=0, weights=days_in_month
@@ -293,9 +293,9 @@ class monthtoyear_noleap_timeFunction(Function):
 
         time_bnds = p_time_bnds.data
 
-        b = np.zeros((time_bnds.shape[0] / 12))
+        b = np.zeros((time_bnds.shape[0] // 12))
         time = time_bnds.shape[0]
-        for i in range(time / 12):
+        for i in range(time // 12):
             start = i * 12
             end = (i * 12) + 11
             b[i] = ((time_bnds[start][0] + time_bnds[end][1]) / 2) - 365
@@ -332,9 +332,9 @@ class monthtoyear_noleap_timebndsFunction(Function):
             )
 
         time_bound = p_time_bound.data
-        b = np.zeros((time_bound.shape[0] / 12, 2))
+        b = np.zeros((time_bound.shape[0] // 12, 2))
 
-        for i in range(len(time_bound) / 12):
+        for i in range(len(time_bound) // 12):
             b[i][0] = time_bound[i * 12][0] - 365
             b[i][1] = time_bound[(i * 12) + 11][1] - 365
         new_name = "monthtoyear_noleap_timebnds({})".format(p_time_bound.name)
@@ -474,8 +474,8 @@ class AgeofAirFunction(Function):
 
         # Unpack month and year.  Adjust to compensate for the output
         # convention in h0 files
-        year = date / 10000
-        month = date / 100 % 100
+        year = date // 10000
+        month = date // 100 % 100
         # day = date - 10000 * year - 100 * month
 
         month = month - 1
@@ -1050,21 +1050,21 @@ class hemisphereFunction(Function):
         # dim0?
         if dim in p_data.dimensions[0]:
             if ">" in dr:
-                return p_data[(data.shape[0] / 2) : data.shape[0], :, :]
+                return p_data[(data.shape[0] // 2) : data.shape[0], :, :]
             elif "<" in dr:
-                return p_data[0 : (data.shape[0] / 2), :, :]
+                return p_data[0 : (data.shape[0] // 2), :, :]
         # dim1?
         if dim in p_data.dimensions[1]:
             if ">" in dr:
-                return p_data[:, (data.shape[1] / 2) : data.shape[1], :]
+                return p_data[:, (data.shape[1] // 2) : data.shape[1], :]
             elif "<" in dr:
-                return p_data[:, 0 : (data.shape[1] / 2), :]
+                return p_data[:, 0 : (data.shape[1] // 2), :]
         # dim2?
         if dim in p_data.dimensions[2]:
             if ">" in dr:
-                return p_data[:, :, (data.shape[2] / 2) : data.shape[2]]
+                return p_data[:, :, (data.shape[2] // 2) : data.shape[2]]
             elif "<" in dr:
-                return p_data[:, :, 0 : (data.shape[2] / 2)]
+                return p_data[:, :, 0 : (data.shape[2] // 2)]
 
 
 class cice_whereFunction(Function):
-- 
2.43.0


From 32eb5dceacadc039ffe342902f831e5837c4c2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:57 +0000
Subject: [PATCH 59/88] fix: keep the name given for the bounds dimension of
 climatology and yearly bounds

---
 pyconform/modules/commonfunctions.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyconform/modules/commonfunctions.py b/pyconform/modules/commonfunctions.py
index 80b0eb8..7d55e79 100644
--- a/pyconform/modules/commonfunctions.py
+++ b/pyconform/modules/commonfunctions.py
@@ -137,7 +137,7 @@ class oclim_timebndsFunction(Function):
     key = "oclim_timebnds"
 
     def __init__(self, time, bdim="bnds"):
-        super(oclim_timebndsFunction, self).__init__(time, bdim="d2")
+        super(oclim_timebndsFunction, self).__init__(time, bdim=bdim)
 
     def __getitem__(self, index):
         p_time = self.arguments[0][index]
@@ -315,7 +315,9 @@ class monthtoyear_noleap_timebndsFunction(Function):
     key = "monthtoyear_noleap_timebnds"
 
     def __init__(self, time_bound, bdim="bnds"):
-        super(monthtoyear_noleap_timebndsFunction, self).__init__(time_bound, bdim="d2")
+        super(monthtoyear_noleap_timebndsFunction, self).__init__(
+            time_bound, bdim=bdim
+        )
 
     def __getitem__(self, index):
         p_time_bound = self.arguments[0][index]
-- 
2.43.0


From cc70bec57d722b5431ee8be4533aa0d3d551aba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:57 +0000
Subject: [PATCH 60/88] fix: name the dimensions of what ageofair,
 POP_bottom_layer, masked_invalid and burntFraction return

---
 pyconform/modules/commonfunctions.py | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/pyconform/modules/commonfunctions.py b/pyconform/modules/commonfunctions.py
index 7d55e79..ed06976 100644
--- a/pyconform/modules/commonfunctions.py
+++ b/pyconform/modules/commonfunctions.py
@@ -499,7 +499,12 @@ class AgeofAirFunction(Function):
             p_spc_zm.name, p_date.name, p_time.name, p_lat.name, p_lev.name
         )
 
-        return PhysArray(a, name=new_name, units="yr")
+        return PhysArray(
+            a,
+            name=new_name,
+            dimensions=[p_time.dimensions[0], p_lev.dimensions[0], p_lat.dimensions[0]],
+            units="yr",
+        )
 
 
 class YeartoMonth_dataFunction(Function):
@@ -708,7 +713,16 @@ class POP_bottom_layerFunction(Function):
 
         new_name = "POP_bottom_layer({}{})".format(p_KMT.name, p_data.name)
 
-        return PhysArray(a, name=new_name, units=p_data.units)
+        return PhysArray(
+            a,
+            name=new_name,
+            dimensions=[
+                p_data.dimensions[0],
+                p_data.dimensions[2],
+                p_data.dimensions[3],
+            ],
+            units=p_data.units,
+        )
 
 
 class diff_axis1_ind0bczero_4dFunction(Function):
@@ -1033,7 +1047,9 @@ class masked_invalidFunction(Function):
 
         new_name = "masked_invalid({})".format(p_data.name)
 
-        return PhysArray(a, name=new_name, units=p_data.units)
+        return PhysArray(
+            a, name=new_name, dimensions=p_data.dimensions, units=p_data.units
+        )
 
 
 class hemisphereFunction(Function):
@@ -1321,7 +1337,9 @@ class burntFractionFunction(Function):
         a[a >= 1e16] = 1e20
         new_name = "burntFraction({})".format(p_data.name)
 
-        return PhysArray(a, name=new_name, units=p_data.units)
+        return PhysArray(
+            a, name=new_name, dimensions=p_data.dimensions, units=p_data.units
+        )
 
 
 class reduce_luFunction(Function):
-- 
2.43.0


From ad18b984c92bda1b4cac9dc6dd496e75f4ae7cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:57 +0000
Subject: [PATCH 61/88] fix: name the dimensions of what the CLM functions
 return

---
 .../modules/CLM_landunit_to_CMIP6_Lut.py      | 28 +++++++++++++++----
 pyconform/modules/CLM_pft_to_CMIP6_vegtype.py |  7 ++++-
 2 files changed, 29 insertions(+), 6 deletions(-)

diff --git a/pyconform/modules/CLM_landunit_to_CMIP6_Lut.py b/pyconform/modules/CLM_landunit_to_CMIP6_Lut.py
index 3101987..cba5a9f 100644
--- a/pyconform/modules/CLM_landunit_to_CMIP6_Lut.py
+++ b/pyconform/modules/CLM_landunit_to_CMIP6_Lut.py
@@ -232,25 +232,43 @@ class CLM_landunit_to_CMIP6_Lut_Function(Function):
         varo_lut[varo_lut >= 1e15] = 1e20
         mvaro_lut = np.ma.masked_values(varo_lut, 1e20)
 
+        dims3D = [pntim.dimensions[0], pnlat.dimensions[0], pnlon.dimensions[0]]
         if "crop" in vegType:
             return PhysArray(
-                mvaro_lut[:, crop, :, :], name=new_name, units=pEFLX_LH_TOT.units
+                mvaro_lut[:, crop, :, :],
+                name=new_name,
+                dimensions=dims3D,
+                units=pEFLX_LH_TOT.units,
             )
         elif "veg" in vegType:
             return PhysArray(
-                mvaro_lut[:, veg, :, :], name=new_name, units=pEFLX_LH_TOT.units
+                mvaro_lut[:, veg, :, :],
+                name=new_name,
+                dimensions=dims3D,
+                units=pEFLX_LH_TOT.units,
             )
         elif "urban" in vegType:
             return PhysArray(
-                mvaro_lut[:, urban, :, :], name=new_name, units=pEFLX_LH_TOT.units
+                mvaro_lut[:, urban, :, :],
+                name=new_name,
+                dimensions=dims3D,
+                units=pEFLX_LH_TOT.units,
             )
         elif "pasture" in vegType:
             return PhysArray(
-                mvaro_lut[:, pasture, :, :], name=new_name, units=pEFLX_LH_TOT.units
+                mvaro_lut[:, pasture, :, :],
+                name=new_name,
+                dimensions=dims3D,
+                units=pEFLX_LH_TOT.units,
             )
         elif "nlut" in vegType:
             return PhysArray(
                 mvaro_lut[:, nlut, :, :], name=new_name, units=pEFLX_LH_TOT.units
             )
         elif "all" in vegType:
-            return PhysArray(mvaro_lut, name=new_name, units=pEFLX_LH_TOT.units)
+            return PhysArray(
+                mvaro_lut,
+                name=new_name,
+                dimensions=[dims3D[0], landUse.dimensions[0]] + dims3D[1:],
+                units=pEFLX_LH_TOT.units,
+            )
diff --git a/pyconform/modules/CLM_pft_to_CMIP6_vegtype.py b/pyconform/modules/CLM_pft_to_CMIP6_vegtype.py
index 9717b97..b1d1679 100644
--- a/pyconform/modules/CLM_pft_to_CMIP6_vegtype.py
+++ b/pyconform/modules/CLM_pft_to_CMIP6_vegtype.py
@@ -264,7 +264,12 @@ class CLM_pft_to_CMIP6_vegtype_Function(Function):
         varo_vegType[varo_vegType >= 1e16] = 1e20
         ma_varo_vegType = np.ma.masked_values(varo_vegType, 1e20)
 
-        return PhysArray(ma_varo_vegType, name=new_name, units=pGPP.units)
+        return PhysArray(
+            ma_varo_vegType,
+            name=new_name,
+            dimensions=[ptime.dimensions[0], plat.dimensions[0], plon.dimensions[0]],
+            units=pGPP.units,
+        )
 
 
 def main(argv=None):
-- 
2.43.0


From 231c3d31d50753eb11ac3ebbcb945b7bf4d01488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:57 +0000
Subject: [PATCH 62/88] fix: burntFraction counts every year from January and
 hides missing points

---
 pyconform/modules/commonfunctions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyconform/modules/commonfunctions.py b/pyconform/modules/commonfunctions.py
index ed06976..2b0f10e 100644
--- a/pyconform/modules/commonfunctions.py
+++ b/pyconform/modules/commonfunctions.py
@@ -1333,8 +1333,9 @@ class burntFractionFunction(Function):
                         a[t, x, y] = 1e20
             i += 1
             if i == 12:
-                i = 1
+                i = 0
         a[a >= 1e16] = 1e20
+        a = np.ma.masked_values(a, 1e20)
         new_name = "burntFraction({})".format(p_data.name)
 
         return PhysArray(
-- 
2.43.0


From c7792c1303eff4e931ced76112054174e3f36443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:57 +0000
Subject: [PATCH 63/88] fix: cice_where takes the values of its own time step

---
 pyconform/modules/commonfunctions.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyconform/modules/commonfunctions.py b/pyconform/modules/commonfunctions.py
index 2b0f10e..673c580 100644
--- a/pyconform/modules/commonfunctions.py
+++ b/pyconform/modules/commonfunctions.py
@@ -1107,15 +1107,15 @@ class cice_whereFunction(Function):
         a = np.ma.zeros(a1.shape)
         for t in range(a1.data.shape[0]):
             if ">=" in condition:
-                a[t, :, :] = np.ma.where(a1[t, :, :] >= a2, var, value)
+                a[t, :, :] = np.ma.where(a1[t, :, :] >= a2, var[t, :, :], value)
             elif "<=" in condition:
-                a[t, :, :] = np.ma.where(a1[t, :, :] <= a2, var, value)
+                a[t, :, :] = np.ma.where(a1[t, :, :] <= a2, var[t, :, :], value)
             elif "==" in condition:
-                a[t, :, :] = np.ma.where(a1[t, :, :] == a2, var, value)
+                a[t, :, :] = np.ma.where(a1[t, :, :] == a2, var[t, :, :], value)
             elif "<" in condition:
-                a[t, :, :] = np.ma.where(a1[t, :, :] < a2, var, value)
+                a[t, :, :] = np.ma.where(a1[t, :, :] < a2, var[t, :, :], value)
             elif ">" in condition:
-                a[t, :, :] = np.ma.where(a1[t, :, :] > a2, var, value)
+                a[t, :, :] = np.ma.where(a1[t, :, :] > a2, var[t, :, :], value)
 
         new_name = "cice_where()".format()
         return PhysArray(
-- 
2.43.0


From cbd61ae2a6c0b6747f77d6428ae9a2e8c0bcf378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:57 +0000
Subject: [PATCH 64/88] fix: get_nonwoodyveg describes its result before it is
 computed

---
 pyconform/modules/commonfunctions.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/pyconform/modules/commonfunctions.py b/pyconform/modules/commonfunctions.py
index 673c580..5cf18e6 100644
--- a/pyconform/modules/commonfunctions.py
+++ b/pyconform/modules/commonfunctions.py
@@ -1446,8 +1446,14 @@ class get_nonwoodyvegFunction(Function):
         data = np.ma.zeros(
             (p_pct_nat_pft.shape[0], 4, p_pct_nat_pft.shape[2], p_pct_nat_pft.shape[3])
         )
+        new_dims = [
+            p_pct_nat_pft.dimensions[0],
+            p_landUse.dimensions[0],
+            p_pct_nat_pft.dimensions[2],
+            p_pct_nat_pft.dimensions[3],
+        ]
         if index is None:
-            return data
+            return PhysArray(data, dimensions=new_dims, units=p_pct_nat_pft.units)
 
         data[:, 0, :, :] = (
             pct_nat_pft[:, 12, :, :]
@@ -1476,12 +1482,7 @@ class get_nonwoodyvegFunction(Function):
         return PhysArray(
             data,
             name=new_name,
-            dimensions=[
-                p_pct_nat_pft.dimensions[0],
-                p_landUse.dimensions[0],
-                p_pct_nat_pft.dimensions[1],
-                p_pct_nat_pft.dimensions[2],
-            ],
+            dimensions=new_dims,
             units=p_pct_nat_pft.units,
         )
 
-- 
2.43.0


From 717e2c6dcd529fd4c7aa7d8a232aa6c1d8a4de51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:57 +0000
Subject: [PATCH 65/88] fix: bounds of part of a dimension are part of its
 bounds

---
 pyconform/modules/commonfunctions.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/pyconform/modules/commonfunctions.py b/pyconform/modules/commonfunctions.py
index 5cf18e6..26c5a96 100644
--- a/pyconform/modules/commonfunctions.py
+++ b/pyconform/modules/commonfunctions.py
@@ -380,7 +380,7 @@ class BoundsFunction(Function):
             # self.add_sumlike_dimensions(idata_info.dimensions[0])
 
     def __getitem__(self, index):
-        data = self.arguments[0][index]
+        data = self.arguments[0][None if index is None else {}]
         bdim = self.keywords["bdim"]
         location = self.keywords["location"]
 
@@ -408,13 +408,10 @@ class BoundsFunction(Function):
                 new_data[1:, 0] = data.data[1:] - dx
                 if self._mod_end:
                     new_data[0, 0] = data.data[0] - dx[0]
-            return new_data
+            return new_data[index]
 
         else:
-            ddim = data.dimensions[0]
-            dslice = index[ddim] if ddim in index else slice(None)
-            islice = slice(None, None, dslice.step)
-            idata = self.keywords["idata"][islice]
+            idata = self.keywords["idata"][{}]
 
             ifc_len = len(data) + 1
             ifc_data = empty(ifc_len, dtype=data.dtype)
@@ -440,7 +437,7 @@ class BoundsFunction(Function):
             new_data[:, 0] = ifc_data[:-1]
             new_data[:, 1] = ifc_data[1:]
 
-        return new_data
+        return new_data[index]
 
 
 class AgeofAirFunction(Function):
-- 
2.43.0


From 5b22d6902922638388c44f901992d8f7f91759b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:46 +0000
Subject: [PATCH 66/88] fix: bounds of integer coordinates are not cut to
 integers

---
 pyconform/modules/commonfunctions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyconform/modules/commonfunctions.py b/pyconform/modules/commonfunctions.py
index 26c5a96..cb37d69 100644
--- a/pyconform/modules/commonfunctions.py
+++ b/pyconform/modules/commonfunctions.py
@@ -384,7 +384,7 @@ class BoundsFunction(Function):
         bdim = self.keywords["bdim"]
         location = self.keywords["location"]
 
-        bnds = PhysArray([1, 1], dimensions=(bdim,))
+        bnds = PhysArray([1.0, 1.0], dimensions=(bdim,))
         new_data = PhysArray(
             data * bnds, name="bounds({})".format(data.name), units=data.units
         )
@@ -414,7 +414,7 @@ class BoundsFunction(Function):
             idata = self.keywords["idata"][{}]
 
             ifc_len = len(data) + 1
-            ifc_data = empty(ifc_len, dtype=data.dtype)
+            ifc_data = empty(ifc_len, dtype=new_data.dtype)
             if len(idata) == ifc_len:
                 ifc_data[:] = idata.data[:]
             elif len(idata) == ifc_len - 2:
-- 
2.43.0


From 6b004ddab908ab10892a3c47337686ba5a954067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:46 +0000
Subject: [PATCH 67/88] fix: module functions do not take what lies below a
 mask for data

---
 .../modules/CLM_landunit_to_CMIP6_Lut.py      |  2 +-
 pyconform/modules/CLM_pft_to_CMIP6_vegtype.py |  2 +-
 pyconform/modules/commonfunctions.py          | 41 +++++++++++--------
 3 files changed, 26 insertions(+), 19 deletions(-)

diff --git a/pyconform/modules/CLM_landunit_to_CMIP6_Lut.py b/pyconform/modules/CLM_landunit_to_CMIP6_Lut.py
index cba5a9f..bac241d 100644
--- a/pyconform/modules/CLM_landunit_to_CMIP6_Lut.py
+++ b/pyconform/modules/CLM_landunit_to_CMIP6_Lut.py
@@ -88,7 +88,7 @@ class CLM_landunit_to_CMIP6_Lut_Function(Function):
                     ],
                 )
 
-        EFLX_LH_TOT = pEFLX_LH_TOT.data
+        EFLX_LH_TOT = np.ma.filled(np.ma.asarray(pEFLX_LH_TOT, dtype="d"), 1e20)
         ntim = pntim.data
         nlat = pnlat.data
         nlon = pnlon.data
diff --git a/pyconform/modules/CLM_pft_to_CMIP6_vegtype.py b/pyconform/modules/CLM_pft_to_CMIP6_vegtype.py
index b1d1679..6ad9e92 100644
--- a/pyconform/modules/CLM_pft_to_CMIP6_vegtype.py
+++ b/pyconform/modules/CLM_pft_to_CMIP6_vegtype.py
@@ -89,7 +89,7 @@ class CLM_pft_to_CMIP6_vegtype_Function(Function):
                 ],
             )
 
-        GPP = pGPP.data
+        GPP = np.ma.filled(np.ma.asarray(pGPP, dtype="d"), 1e20)
         time = ptime.data
         lat = plat.data
         lon = plon.data
diff --git a/pyconform/modules/commonfunctions.py b/pyconform/modules/commonfunctions.py
index cb37d69..2f39554 100644
--- a/pyconform/modules/commonfunctions.py
+++ b/pyconform/modules/commonfunctions.py
@@ -9,6 +9,14 @@ from pyconform.functions import Function, is_constant
 from pyconform.physarray import DimensionsError, PhysArray
 
 
+def _fill_missing_(array):
+    """
+    The values of an array, with 1e20 in place of the missing ones
+    """
+    mask = np.ma.getmaskarray(array)
+    return np.where(mask, 1e20, array.data) if mask.any() else array.data
+
+
 class ZonalMeanFunction(Function):
     key = "zonalmean"
 
@@ -68,7 +76,7 @@ class OclimFunction(Function):
             )
 
         dim_count = len(data.dimensions)
-        dataD = data.data
+        dataD = _fill_missing_(data)
 
         for i in range(12):
             a[i, ...] = np.ma.mean(dataD[i::12, ...], axis=0)
@@ -238,7 +246,7 @@ class monthtoyear_noleapFunction(Function):
 
         dim_count = len(data.dimensions)
         time = data.data.shape[0]
-        dataD = data.data
+        dataD = _fill_missing_(data)
 
         days_in_month = np.array([31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31])
 
@@ -526,7 +534,7 @@ class YeartoMonth_dataFunction(Function):
                 ],
             )
 
-        data = p_data.data
+        data = _fill_missing_(p_data)
         time = p_time.data
         lat = p_lat.data
         lon = p_lon.data
@@ -581,7 +589,7 @@ class YeartoMonth_data3DFunction(Function):
                 ],
             )
 
-        data = p_data.data
+        data = _fill_missing_(p_data)
         time = p_time.data
         lat = p_lat.data
         lon = p_lon.data
@@ -946,7 +954,7 @@ class POP_bottom_layer_multaddFunction(Function):
         p_data2 = self.arguments[2][index]
 
         data1 = p_data1.data
-        data2 = p_data2.data
+        data2 = _fill_missing_(p_data2)
         KMT = p_KMT.data
 
         a1 = np.zeros((p_data2.shape[0], p_data2.shape[2], p_data2.shape[3]))
@@ -1038,9 +1046,7 @@ class masked_invalidFunction(Function):
                 ],
             )
 
-        data = p_data.data
-
-        a = np.ma.masked_invalid(data)
+        a = np.ma.masked_invalid(np.ma.asarray(p_data))
 
         new_name = "masked_invalid({})".format(p_data.name)
 
@@ -1314,7 +1320,7 @@ class burntFractionFunction(Function):
                 ],
             )
 
-        data = p_data.data
+        data = _fill_missing_(p_data)
 
         ml = [31.0, 28.0, 31.0, 30.0, 31.0, 30.0, 31.0, 31.0, 30.0, 31.0, 30.0, 31.0]
 
@@ -1350,7 +1356,7 @@ class reduce_luFunction(Function):
         p_data = self.arguments[0][index]
         p_lu = self.arguments[1][index]
 
-        data = p_data.data
+        data = _fill_missing_(p_data)
 
         data2 = np.ma.zeros((data.shape[0], 4, data.shape[2], data.shape[3]))
 
@@ -1364,6 +1370,7 @@ class reduce_luFunction(Function):
                         data[t, 6, x, y] + data[t, 7, x, y] + data[t, 8, x, y]
                     )
         data2[data2 >= 1e16] = 1e20
+        data2 = np.ma.masked_values(data2, 1e20)
 
         new_name = "reduce_lu({}{})".format(p_data.name, p_lu.name)
         return PhysArray(
@@ -1393,9 +1400,9 @@ class get_soilpoolsFunction(Function):
         p_data3 = self.arguments[2][index]
         p_soilpool = self.arguments[3][index]
 
-        data1 = p_data1.data
-        data2 = p_data2.data
-        data3 = p_data3.data
+        data1 = _fill_missing_(p_data1)
+        data2 = _fill_missing_(p_data2)
+        data3 = _fill_missing_(p_data3)
 
         data = np.ma.zeros((data1.shape[0], 3, data1.shape[1], data1.shape[2]))
 
@@ -1436,9 +1443,9 @@ class get_nonwoodyvegFunction(Function):
         p_landfrac = self.arguments[2][index]
         p_landUse = self.arguments[3][index]
 
-        pct_nat_pft = p_pct_nat_pft.data
+        pct_nat_pft = _fill_missing_(p_pct_nat_pft)
         pct_crop = p_pct_crop.data
-        landfrac = p_landfrac.data
+        landfrac = _fill_missing_(p_landfrac)
 
         data = np.ma.zeros(
             (p_pct_nat_pft.shape[0], 4, p_pct_nat_pft.shape[2], p_pct_nat_pft.shape[3])
@@ -1495,7 +1502,7 @@ class expand_latlonFunction(Function):
         p_lat = self.arguments[1][index]
         p_lon = self.arguments[2][index]
 
-        data1 = p_data1.data
+        data1 = _fill_missing_(p_data1)
         lat = p_lat.data
         lon = p_lon.data
 
@@ -1532,7 +1539,7 @@ class ocean_basinFunction(Function):
         p_comp = self.arguments[1]
         p_basin = self.arguments[2][index]
 
-        data1 = p_data1.data
+        data1 = _fill_missing_(p_data1)
         comp = int(p_comp)
         basin = p_basin.data
 
-- 
2.43.0


From 1720e66113aa311e44be2722f23bc57cfac5880a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:18 +0000
Subject: [PATCH 68/88] fix: POP bottom layer functions leave out points
 without an ocean

---
 pyconform/modules/commonfunctions.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pyconform/modules/commonfunctions.py b/pyconform/modules/commonfunctions.py
index 2f39554..24c1442 100644
--- a/pyconform/modules/commonfunctions.py
+++ b/pyconform/modules/commonfunctions.py
@@ -707,14 +707,20 @@ class POP_bottom_layerFunction(Function):
                 ],
             )
 
-        data = p_data.data
+        data = _fill_missing_(p_data)
         KMT = p_KMT.data
 
         a = np.zeros((p_data.shape[0], p_data.shape[2], p_data.shape[3]))
 
         for j in range(KMT.shape[0]):
             for i in range(KMT.shape[1]):
-                a[:, j, i] = data[:, KMT[j, i] - 1, j, i]
+                if KMT[j, i] > 0:
+                    a[:, j, i] = data[:, KMT[j, i] - 1, j, i]
+                else:
+                    a[:, j, i] = 1e20
+
+        a[a >= 1e16] = 1e20
+        a = np.ma.masked_values(a, 1e20)
 
         new_name = "POP_bottom_layer({}{})".format(p_KMT.name, p_data.name)
 
@@ -964,7 +970,7 @@ class POP_bottom_layer_multaddFunction(Function):
             for j in range(KMT.shape[0]):
                 for i in range(KMT.shape[1]):
                     k = KMT[j, i] - 1
-                    if data2[t, k, j, i] < 1e16:
+                    if k >= 0 and data2[t, k, j, i] < 1e16:
                         a1[t, j, i] = data1[k] * data2[t, k, j, i]
                         # print a1[t,j,i],data1[k],data2[t,k,j,i]
         for t in range(p_data2.shape[0]):
-- 
2.43.0


From e79a0f5aa3f14edf3f3e466d32aa043ad67292e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:01 +0000
Subject: [PATCH 69/88] fix: module functions tell the units of their results
 before they are computed

---
 .../modules/CLM_landunit_to_CMIP6_Lut.py      |  2 ++
 pyconform/modules/CLM_pft_to_CMIP6_vegtype.py |  1 +
 pyconform/modules/commonfunctions.py          | 26 ++++++++++++++++---
 3 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/pyconform/modules/CLM_landunit_to_CMIP6_Lut.py b/pyconform/modules/CLM_landunit_to_CMIP6_Lut.py
index bac241d..c1b64b7 100644
--- a/pyconform/modules/CLM_landunit_to_CMIP6_Lut.py
+++ b/pyconform/modules/CLM_landunit_to_CMIP6_Lut.py
@@ -77,6 +77,7 @@ class CLM_landunit_to_CMIP6_Lut_Function(Function):
                         pnlat.dimensions[0],
                         pnlon.dimensions[0],
                     ],
+                    units=pEFLX_LH_TOT.units,
                 )
             else:
                 return PhysArray(
@@ -86,6 +87,7 @@ class CLM_landunit_to_CMIP6_Lut_Function(Function):
                         pnlat.dimensions[0],
                         pnlon.dimensions[0],
                     ],
+                    units=pEFLX_LH_TOT.units,
                 )
 
         EFLX_LH_TOT = np.ma.filled(np.ma.asarray(pEFLX_LH_TOT, dtype="d"), 1e20)
diff --git a/pyconform/modules/CLM_pft_to_CMIP6_vegtype.py b/pyconform/modules/CLM_pft_to_CMIP6_vegtype.py
index 6ad9e92..2452ef0 100644
--- a/pyconform/modules/CLM_pft_to_CMIP6_vegtype.py
+++ b/pyconform/modules/CLM_pft_to_CMIP6_vegtype.py
@@ -87,6 +87,7 @@ class CLM_pft_to_CMIP6_vegtype_Function(Function):
                     plat.dimensions[0],
                     plon.dimensions[0],
                 ],
+                units=pGPP.units,
             )
 
         GPP = np.ma.filled(np.ma.asarray(pGPP, dtype="d"), 1e20)
diff --git a/pyconform/modules/commonfunctions.py b/pyconform/modules/commonfunctions.py
index 24c1442..38d12e3 100644
--- a/pyconform/modules/commonfunctions.py
+++ b/pyconform/modules/commonfunctions.py
@@ -469,6 +469,7 @@ class AgeofAirFunction(Function):
                     p_lev.dimensions[0],
                     p_lat.dimensions[0],
                 ],
+                units="yr",
             )
 
         spc_zm = p_spc_zm.data
@@ -532,6 +533,7 @@ class YeartoMonth_dataFunction(Function):
                     p_lat.dimensions[0],
                     p_lon.dimensions[0],
                 ],
+                units=p_data.units,
             )
 
         data = _fill_missing_(p_data)
@@ -587,6 +589,7 @@ class YeartoMonth_data3DFunction(Function):
                     p_lat.dimensions[0],
                     p_lon.dimensions[0],
                 ],
+                units=p_data.units,
             )
 
         data = _fill_missing_(p_data)
@@ -705,6 +708,7 @@ class POP_bottom_layerFunction(Function):
                     p_data.dimensions[2],
                     p_data.dimensions[3],
                 ],
+                units=p_data.units,
             )
 
         data = _fill_missing_(p_data)
@@ -852,7 +856,11 @@ class POP_surf_meanFunction(Function):
         p_FIELD = self.arguments[2][index]
 
         if index is None:
-            return PhysArray(np.zeros((0,)), dimensions=[p_FIELD.dimensions[0]])
+            return PhysArray(
+                np.zeros((0,)),
+                dimensions=[p_FIELD.dimensions[0]],
+                units=p_FIELD.units,
+            )
 
         KMT = p_KMT.data
         TAREA = p_TAREA.data
@@ -888,7 +896,11 @@ class POP_3D_meanFunction(Function):
         p_FIELD = self.arguments[3][index]
 
         if index is None:
-            return PhysArray(np.zeros((0,)), dimensions=[p_FIELD.dimensions[0]])
+            return PhysArray(
+                np.zeros((0,)),
+                dimensions=[p_FIELD.dimensions[0]],
+                units=p_FIELD.units,
+            )
 
         KMT = p_KMT.data
         dz = p_dz.data
@@ -926,7 +938,9 @@ class sftofFunction(Function):
 
         if index is None:
             return PhysArray(
-                np.zeros((0, 0)), dimensions=[p_KMT.dimensions[0], p_KMT.dimensions[1]]
+                np.zeros((0, 0)),
+                dimensions=[p_KMT.dimensions[0], p_KMT.dimensions[1]],
+                units=p_KMT.units,
             )
 
         KMT = p_KMT.data
@@ -1050,6 +1064,7 @@ class masked_invalidFunction(Function):
                     p_data.dimensions[1],
                     p_data.dimensions[2],
                 ],
+                units=p_data.units,
             )
 
         a = np.ma.masked_invalid(np.ma.asarray(p_data))
@@ -1111,6 +1126,7 @@ class cice_whereFunction(Function):
             return PhysArray(
                 a1.data,
                 dimensions=[a1.dimensions[0], a1.dimensions[1], a1.dimensions[2]],
+                units=var.units,
             )
 
         a = np.ma.zeros(a1.shape)
@@ -1324,6 +1340,7 @@ class burntFractionFunction(Function):
                     p_data.dimensions[1],
                     p_data.dimensions[2],
                 ],
+                units=p_data.units,
             )
 
         data = _fill_missing_(p_data)
@@ -1631,6 +1648,7 @@ class emilnoxFunction(Function):
                     p_PS.dimensions[1],
                     p_PS.dimensions[2],
                 ],
+                units="mol s-1",
             )
 
         p0 = p_PO.data
@@ -1809,6 +1827,7 @@ class rhoFunction(Function):
                     p_T.dimensions[2],
                     p_T.dimensions[3],
                 ],
+                units="cm-3",
             )
 
         PO = p_PO
@@ -1850,6 +1869,7 @@ class pm25Function(Function):
                     p_T.dimensions[2],
                     p_T.dimensions[3],
                 ],
+                units="kg/kg",
             )
 
         PO = p_PO
-- 
2.43.0


From 67430717fe5c9d03329a263084436df7d60ddc43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:01 +0000
Subject: [PATCH 70/88] fix: module functions say over which dimensions they
 cannot be chunked

---
 pyconform/modules/commonfunctions.py | 36 ++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/pyconform/modules/commonfunctions.py b/pyconform/modules/commonfunctions.py
index 38d12e3..95856b1 100644
--- a/pyconform/modules/commonfunctions.py
+++ b/pyconform/modules/commonfunctions.py
@@ -17,6 +17,14 @@ def _fill_missing_(array):
     return np.where(mask, 1e20, array.data) if mask.any() else array.data
 
 
+def _dims_(data):
+    """
+    The dimensions of an argument of a function
+    """
+    info = data if is_constant(data) else data[None]
+    return getattr(info, "dimensions", ())
+
+
 class ZonalMeanFunction(Function):
     key = "zonalmean"
 
@@ -25,6 +33,7 @@ class ZonalMeanFunction(Function):
         data_info = data if is_constant(data) else data[None]
         if not isinstance(data_info, PhysArray):
             raise TypeError("mean: Data must be a PhysArray")
+        self.add_sumlike_dimensions(data_info.dimensions[3])
 
     def __getitem__(self, index):
         data = self.arguments[0][index]
@@ -39,6 +48,7 @@ class OclimFunction(Function):
         data_info = data if is_constant(data) else data[None]
         if not isinstance(data_info, PhysArray):
             raise TypeError("oclim: Data must be a PhysArray")
+        self.add_sumlike_dimensions(data_info.dimensions[0])
 
     def __getitem__(self, index):
 
@@ -112,6 +122,7 @@ class oclim_timeFunction(Function):
 
     def __init__(self, time_bnds):
         super(oclim_timeFunction, self).__init__(time_bnds)
+        self.add_sumlike_dimensions(_dims_(time_bnds)[0])
 
     def __getitem__(self, index):
         p_time_bnds = self.arguments[0][index]
@@ -146,6 +157,7 @@ class oclim_timebndsFunction(Function):
 
     def __init__(self, time, bdim="bnds"):
         super(oclim_timebndsFunction, self).__init__(time, bdim=bdim)
+        self.add_sumlike_dimensions(_dims_(time)[0])
 
     def __getitem__(self, index):
         p_time = self.arguments[0][index]
@@ -201,6 +213,7 @@ class monthtoyear_noleapFunction(Function):
         data_info = data if is_constant(data) else data[None]
         if not isinstance(data_info, PhysArray):
             raise TypeError("monthtoyear_noleap: Data must be a PhysArray")
+        self.add_sumlike_dimensions(data_info.dimensions[0])
 
     def __getitem__(self, index):
 
@@ -287,6 +300,7 @@ class monthtoyear_noleap_timeFunction(Function):
 
     def __init__(self, time_bnds):
         super(monthtoyear_noleap_timeFunction, self).__init__(time_bnds)
+        self.add_sumlike_dimensions(_dims_(time_bnds)[0])
 
     def __getitem__(self, index):
         p_time_bnds = self.arguments[0][index]
@@ -326,6 +340,7 @@ class monthtoyear_noleap_timebndsFunction(Function):
         super(monthtoyear_noleap_timebndsFunction, self).__init__(
             time_bound, bdim=bdim
         )
+        self.add_sumlike_dimensions(_dims_(time_bound)[0])
 
     def __getitem__(self, index):
         p_time_bound = self.arguments[0][index]
@@ -453,6 +468,7 @@ class AgeofAirFunction(Function):
 
     def __init__(self, spc_zm, date, time, lat, lev):
         super(AgeofAirFunction, self).__init__(spc_zm, date, time, lat, lev)
+        self.add_sumlike_dimensions(*_dims_(spc_zm))
 
     def __getitem__(self, index):
         p_spc_zm = self.arguments[0][index]
@@ -518,6 +534,7 @@ class YeartoMonth_dataFunction(Function):
 
     def __init__(self, data, time, lat, lon):
         super(YeartoMonth_dataFunction, self).__init__(data, time, lat, lon)
+        self.add_sumlike_dimensions(_dims_(time)[0])
 
     def __getitem__(self, index):
         p_data = self.arguments[0][index]
@@ -572,6 +589,7 @@ class YeartoMonth_data3DFunction(Function):
 
     def __init__(self, data, time, lat, lon, v):
         super(YeartoMonth_data3DFunction, self).__init__(data, time, lat, lon, v)
+        self.add_sumlike_dimensions(_dims_(time)[0])
 
     def __getitem__(self, index):
         p_data = self.arguments[0][index]
@@ -634,6 +652,7 @@ class YeartoMonth_timeFunction(Function):
 
     def __init__(self, time):
         super(YeartoMonth_timeFunction, self).__init__(time)
+        self.add_sumlike_dimensions(_dims_(time)[0])
 
     def __getitem__(self, index):
         p_time = self.arguments[0][index]
@@ -695,6 +714,7 @@ class POP_bottom_layerFunction(Function):
 
     def __init__(self, KMT, data):
         super(POP_bottom_layerFunction, self).__init__(KMT, data)
+        self.add_sumlike_dimensions(_dims_(data)[1])
 
     def __getitem__(self, index):
         p_KMT = self.arguments[0][index]
@@ -750,6 +770,7 @@ class diff_axis1_ind0bczero_4dFunction(Function):
             raise TypeError("diff_axis1_ind0bczero_4d: data must be a PhysArray")
         if len(data_info.dimensions) != 4:
             raise DimensionsError("diff_axis1_ind0bczero_4d: data can only be 4D")
+        self.add_sumlike_dimensions(data_info.dimensions[1], *_dims_(new_coord_var))
 
     def __getitem__(self, index):
         p_KMT = self.arguments[0][index]
@@ -797,6 +818,7 @@ class rsdoabsorbFunction(Function):
             raise TypeError("rsdoabsorb: QSW_3D must be a PhysArray")
         if len(QSW_3D_info.dimensions) != 4:
             raise DimensionsError("rsdoabsorb: QSW_3D can only be 4D")
+        self.add_sumlike_dimensions(QSW_3D_info.dimensions[1], *_dims_(z_t))
 
     def __getitem__(self, index):
         p_KMT = self.arguments[0][index]
@@ -849,6 +871,7 @@ class POP_surf_meanFunction(Function):
             raise TypeError("POP_surf_mean: FIELD must be a PhysArray")
         if len(FIELD_info.dimensions) != 3:
             raise DimensionsError("POP_surf_mean: FIELD can only be 3D")
+        self.add_sumlike_dimensions(*FIELD_info.dimensions[1:])
 
     def __getitem__(self, index):
         p_KMT = self.arguments[0][index]
@@ -888,6 +911,7 @@ class POP_3D_meanFunction(Function):
             raise TypeError("POP_3D_mean: FIELD must be a PhysArray")
         if len(FIELD_info.dimensions) != 4:
             raise DimensionsError("POP_3D_mean: FIELD can only be 4D")
+        self.add_sumlike_dimensions(*FIELD_info.dimensions[1:])
 
     def __getitem__(self, index):
         p_KMT = self.arguments[0][index]
@@ -967,6 +991,7 @@ class POP_bottom_layer_multaddFunction(Function):
 
     def __init__(self, KMT, data1, data2):
         super(POP_bottom_layer_multaddFunction, self).__init__(KMT, data1, data2)
+        self.add_sumlike_dimensions(*_dims_(data2)[1:])
 
     def __getitem__(self, index):
         p_KMT = self.arguments[0][index]
@@ -1005,6 +1030,7 @@ class POP_layer_sum_multFunction(Function):
 
     def __init__(self, KMT, data1, data2):
         super(POP_layer_sum_multFunction, self).__init__(KMT, data1, data2)
+        self.add_sumlike_dimensions(_dims_(data2)[1])
 
     def __getitem__(self, index):
         p_KMT = self.arguments[0][index]
@@ -1081,6 +1107,7 @@ class hemisphereFunction(Function):
 
     def __init__(self, data, dim="dim", dr="dr"):
         super(hemisphereFunction, self).__init__(data, dim=dim, dr=dr)
+        self.add_sumlike_dimensions(*(d for d in _dims_(data) if dim in d))
 
     def __getitem__(self, index):
         p_data = self.arguments[0][index]
@@ -1158,6 +1185,8 @@ class cice_regionsFunction(Function):
         super(cice_regionsFunction, self).__init__(
             p_aice, p_uvel, p_vvel, p_HTE, p_HTN, p_siline, multiple
         )
+        self.add_sumlike_dimensions(*_dims_(p_aice)[1:])
+        self.add_sumlike_dimensions(*_dims_(p_siline))
 
     def __getitem__(self, index):
         p_aice = self.arguments[0][index]
@@ -1328,6 +1357,7 @@ class burntFractionFunction(Function):
 
     def __init__(self, data):
         super(burntFractionFunction, self).__init__(data)
+        self.add_sumlike_dimensions(_dims_(data)[0])
 
     def __getitem__(self, index):
         p_data = self.arguments[0][index]
@@ -1374,6 +1404,7 @@ class reduce_luFunction(Function):
 
     def __init__(self, p_data, p_lu):
         super(reduce_luFunction, self).__init__(p_data, p_lu)
+        self.add_sumlike_dimensions(_dims_(p_data)[1], *_dims_(p_lu))
 
     def __getitem__(self, index):
         p_data = self.arguments[0][index]
@@ -1416,6 +1447,7 @@ class get_soilpoolsFunction(Function):
         super(get_soilpoolsFunction, self).__init__(
             p_data1, p_data2, p_data3, p_soilpool
         )
+        self.add_sumlike_dimensions(*_dims_(p_soilpool))
 
     def __getitem__(self, index):
         p_data1 = self.arguments[0][index]
@@ -1459,6 +1491,7 @@ class get_nonwoodyvegFunction(Function):
         super(get_nonwoodyvegFunction, self).__init__(
             p_pct_nat_pft, p_pct_crop, p_landfrac, p_landUse
         )
+        self.add_sumlike_dimensions(_dims_(p_pct_nat_pft)[1], *_dims_(p_landUse))
 
     def __getitem__(self, index):
         p_pct_nat_pft = self.arguments[0][index]
@@ -1556,6 +1589,7 @@ class ocean_basinFunction(Function):
 
     def __init__(self, p_data1, p_comp, p_basin):
         super(ocean_basinFunction, self).__init__(p_data1, p_comp, p_basin)
+        self.add_sumlike_dimensions(*_dims_(p_basin))
 
     def __getitem__(self, index):
         p_data1 = self.arguments[0][index]
@@ -1624,6 +1658,8 @@ class emilnoxFunction(Function):
             p_lat,
             p_time,
         )
+        for coord in (p_hyai, p_hyam, p_lon, p_lat):
+            self.add_sumlike_dimensions(*_dims_(coord))
 
     def __getitem__(self, index):
 
-- 
2.43.0


From ee9e8a1f6e2c48ae362c57c03d7d8ae012a2081c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:27 +0000
Subject: [PATCH 71/88] fix: ocean_basin takes no difference of missing values

---
 pyconform/modules/commonfunctions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyconform/modules/commonfunctions.py b/pyconform/modules/commonfunctions.py
index 95856b1..9f40b5b 100644
--- a/pyconform/modules/commonfunctions.py
+++ b/pyconform/modules/commonfunctions.py
@@ -1596,7 +1596,7 @@ class ocean_basinFunction(Function):
         p_comp = self.arguments[1]
         p_basin = self.arguments[2][index]
 
-        data1 = _fill_missing_(p_data1)
+        data1 = np.ma.asarray(p_data1)
         comp = int(p_comp)
         basin = p_basin.data
 
-- 
2.43.0


From 924880fb5f1ac869b775234d7bfe1f5731c4fe46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:27 +0000
Subject: [PATCH 72/88] fix: cice_regions knows missing values by their mask
 and leaves the velocities as they are

---
 pyconform/modules/commonfunctions.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyconform/modules/commonfunctions.py b/pyconform/modules/commonfunctions.py
index 9f40b5b..4521292 100644
--- a/pyconform/modules/commonfunctions.py
+++ b/pyconform/modules/commonfunctions.py
@@ -1197,16 +1197,16 @@ class cice_regionsFunction(Function):
         p_siline = self.arguments[5][index]
         multiple = self.arguments[6]
 
-        aice = p_aice.data
-        uvel = p_uvel.data
-        vvel = p_vvel.data
+        aice = _fill_missing_(p_aice)
+        uvel = _fill_missing_(p_uvel)
+        vvel = _fill_missing_(p_vvel)
         HTE = p_HTE.data
         HTN = p_HTN.data
         siline = p_siline.data
         a = np.ma.zeros((aice.shape[0], siline.shape[0]))
 
-        uvel[uvel >= 1e16] = 0.0
-        vvel[vvel >= 1e16] = 0.0
+        uvel = np.where(uvel >= 1e16, 0.0, uvel)
+        vvel = np.where(vvel >= 1e16, 0.0, vvel)
 
         for t in range(aice.shape[0]):
             # 1
-- 
2.43.0


From 96a9e65fb14f6218e568a3f4037d5251f885e1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:06 +0000
Subject: [PATCH 73/88] fix: CLM functions cannot be chunked over latitude,
 longitude and land use

---
 pyconform/modules/CLM_landunit_to_CMIP6_Lut.py | 5 ++++-
 pyconform/modules/CLM_pft_to_CMIP6_vegtype.py  | 2 ++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyconform/modules/CLM_landunit_to_CMIP6_Lut.py b/pyconform/modules/CLM_landunit_to_CMIP6_Lut.py
index c1b64b7..d40f9da 100644
--- a/pyconform/modules/CLM_landunit_to_CMIP6_Lut.py
+++ b/pyconform/modules/CLM_landunit_to_CMIP6_Lut.py
@@ -5,7 +5,7 @@ import sys
 
 import numpy as np
 
-from pyconform.functions import Function
+from pyconform.functions import Function, is_constant
 from pyconform.physarray import PhysArray
 
 
@@ -48,6 +48,9 @@ class CLM_landunit_to_CMIP6_Lut_Function(Function):
             land1d_wtgcell,
             landUse,
         )
+        for coord in (nlat, nlon, landUse):
+            if not is_constant(coord):
+                self.add_sumlike_dimensions(*coord[None].dimensions)
 
     def __getitem__(self, index):
 
diff --git a/pyconform/modules/CLM_pft_to_CMIP6_vegtype.py b/pyconform/modules/CLM_pft_to_CMIP6_vegtype.py
index 2452ef0..f97fdf3 100644
--- a/pyconform/modules/CLM_pft_to_CMIP6_vegtype.py
+++ b/pyconform/modules/CLM_pft_to_CMIP6_vegtype.py
@@ -55,6 +55,8 @@ class CLM_pft_to_CMIP6_vegtype_Function(Function):
             pfts1d_wtgcell,
             pfts1d_wtlunit,
         )
+        self.add_sumlike_dimensions(*lat[None].dimensions)
+        self.add_sumlike_dimensions(*lon[None].dimensions)
 
     def __getitem__(self, index):
 
-- 
2.43.0


From 39a224c2bac6bec51e5dd523bdcc6fd0486112bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:33 +0000
Subject: [PATCH 74/88] fix: DynVarMIP functions cannot be chunked over levels
 and latitudes

---
 pyconform/modules/dynvarmipfunctions.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyconform/modules/dynvarmipfunctions.py b/pyconform/modules/dynvarmipfunctions.py
index 4f75675..e4c75ef 100644
--- a/pyconform/modules/dynvarmipfunctions.py
+++ b/pyconform/modules/dynvarmipfunctions.py
@@ -8,7 +8,7 @@ LICENSE: See the LICENSE.rst file for details
 import numpy as np
 
 import pyconform.modules.dynvarmipdiags as dvmd
-from pyconform.functions import Function
+from pyconform.functions import Function, is_constant
 from pyconform.physarray import PhysArray
 
 
@@ -17,6 +17,9 @@ class DynVarMIPFunction(Function):
 
     def __init__(self, time, lev, lat, *args):
         super(DynVarMIPFunction, self).__init__(time, lev, lat, *args)
+        for coord in (lev, lat):
+            info = coord if is_constant(coord) else coord[None]
+            self.add_sumlike_dimensions(*getattr(info, "dimensions", ()))
         self._dynvarmip_func = None
         self._units = None
         self._positive = None
-- 
2.43.0


From c85f7bb0cbf9c53f7315050bb203376a6c7c5e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:33 +0000
Subject: [PATCH 75/88] fix: DynVarMIP functions keep missing values missing

---
 pyconform/modules/dynvarmipfunctions.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyconform/modules/dynvarmipfunctions.py b/pyconform/modules/dynvarmipfunctions.py
index e4c75ef..044a57c 100644
--- a/pyconform/modules/dynvarmipfunctions.py
+++ b/pyconform/modules/dynvarmipfunctions.py
@@ -25,9 +25,11 @@ class DynVarMIPFunction(Function):
         self._positive = None
 
     def __getitem__(self, index):
-        args = [np.ma.asarray(arg[index]) for arg in self.arguments]
+        args = [arg[index] for arg in self.arguments]
         arg_names = ",".join([arg.name for arg in args])
-        data = self._dynvarmip_func(*args)
+        arrays = [np.ma.filled(np.ma.asarray(arg, dtype="d"), np.nan) for arg in args]
+        with np.errstate(divide="ignore", invalid="ignore"):
+            data = np.ma.masked_invalid(self._dynvarmip_func(*arrays))
         name = "{}({})".format(self.key, arg_names)
         return PhysArray(
             data,
-- 
2.43.0


From b907cbff78223c1b1629a20e963da590f4f5e09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:33 +0000
Subject: [PATCH 76/88] fix: DynVarMIP tendencies are in m s-2

---
 pyconform/modules/dynvarmipfunctions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyconform/modules/dynvarmipfunctions.py b/pyconform/modules/dynvarmipfunctions.py
index 044a57c..e4f06be 100644
--- a/pyconform/modules/dynvarmipfunctions.py
+++ b/pyconform/modules/dynvarmipfunctions.py
@@ -58,7 +58,7 @@ class utendwtemDynVarMIPFunction(DynVarMIPFunction):
             time, lev, lat, uzm, wzm, vthzm, thzm
         )
         self._dynvarmip_func = dvmd.utendwtem
-        self._units = "m s-1 d-1"
+        self._units = "m s-2"
         self._positive = None
 
 
@@ -80,7 +80,7 @@ class utendvtemDynVarMIPFunction(DynVarMIPFunction):
             time, lev, lat, uzm, vzm, vthzm, thzm
         )
         self._dynvarmip_func = dvmd.utendvtem
-        self._units = "m s-1 d-1"
+        self._units = "m s-2"
         self._positive = None
 
 
-- 
2.43.0


From b96124a36b8d9fe871e090d14866e9c989f03665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:19 +0000
Subject: [PATCH 77/88] fix: emilnox keeps missing values missing

---
 pyconform/modules/commonfunctions.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyconform/modules/commonfunctions.py b/pyconform/modules/commonfunctions.py
index 4521292..99df62c 100644
--- a/pyconform/modules/commonfunctions.py
+++ b/pyconform/modules/commonfunctions.py
@@ -1688,13 +1688,13 @@ class emilnoxFunction(Function):
             )
 
         p0 = p_PO.data
-        psurf = p_PS.data
+        psurf = np.ma.asarray(p_PS)
         hyai = np.flip(p_hyai.data)
         hybi = np.flip(p_hybi.data)
         hyam = p_hyam.data
         hybm = p_hybm.data
-        temp = p_T.data
-        lno_prod = p_LNO_PROD.data
+        temp = np.ma.asarray(p_T)
+        lno_prod = np.ma.asarray(p_LNO_PROD)
         lon = p_lon.data
         lat = p_lat.data
         timex = p_time.data
@@ -1725,10 +1725,10 @@ class emilnoxFunction(Function):
         dx = Rearth * np.cos(lat / deg_rad) * dlon / deg_rad  # m
         dy = Rearth * dlat / deg_rad  # m
 
-        pres = np.zeros((nmon, nlev, nlat, nlon))
-        presi = np.zeros((nmon, nlev + 1, nlat, nlon))
+        pres = np.ma.zeros((nmon, nlev, nlat, nlon))
+        presi = np.ma.zeros((nmon, nlev + 1, nlat, nlon))
         rho = np.zeros((nmon, nlev, nlat, nlon))
-        delp = np.zeros((nmon, nlev, nlat, nlon))
+        delp = np.ma.zeros((nmon, nlev, nlat, nlon))
         area = np.zeros((nmon, nlev, nlat, nlon))
 
         # print "Start of main assignment loop:", time.ctime()
-- 
2.43.0


From b0ae048007748133ce85cc5ac1c086356f90f6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:10 +0000
Subject: [PATCH 78/88] fix: climIO writes values as they are, at the step
 given

---
 pyconform/climIO.py | 24 +++++-------------------
 1 file changed, 5 insertions(+), 19 deletions(-)

diff --git a/pyconform/climIO.py b/pyconform/climIO.py
index 9dcae9e..f5371e2 100644
--- a/pyconform/climIO.py
+++ b/pyconform/climIO.py
@@ -560,23 +560,9 @@ class NetCDF4PyPort(object):
             var_name (str): The name of the variable.
             index (int): Optional.  The time index to write.  Default time index is set to 0.
         """
-        import numpy as np
-
-        if all_vars[var_name].datatype == "i":
-            t = np.long
-        else:
-            t = np.float32
+        if index == -99:
+            index = 0
 
-        if not values.shape:
-            if index == -99:
-                all_vars[var_name][0] = values.astype(t)
-            else:
-                all_vars[var_name][index] = values.astype(t)
-        else:
-            if "time" == var_name:
-                all_vars[var_name][0] = values[0].astype(t)
-            else:
-                if index == -99:
-                    all_vars[var_name][0, :] = values[:].astype(t)
-                else:
-                    all_vars[var_name][index, :] = values[:].astype(t)
+        if values.shape and var_name == "time":
+            values = values[0]
+        all_vars[var_name][index] = values
-- 
2.43.0


From 6f7dcf36deb1d2e550eb38f70479be7ff09be672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:10 +0000
Subject: [PATCH 79/88] fix: climIO compresses files at the level asked for

---
 pyconform/climIO.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyconform/climIO.py b/pyconform/climIO.py
index f5371e2..b9744d9 100644
--- a/pyconform/climIO.py
+++ b/pyconform/climIO.py
@@ -398,10 +398,10 @@ class NetCDF4PyPort(object):
             new_file (netCDF4.Dataset): A pointer to a netCDF4.Dataset object.
         """
         # The netcdf output format
+        self.compressionLevel = 0
         if "netcdf4c" in ncformat:
             Format = "NETCDF4_CLASSIC"
-            if ncformat[-1].isdigit():
-                self.compressionLevel = ncformat[-1]
+            self.compressionLevel = int(ncformat[-1]) if ncformat[-1].isdigit() else 1
         elif ncformat == "netcdf4":
             Format = "NETCDF4_CLASSIC"
         elif ncformat == "netcdf":
@@ -453,7 +453,7 @@ class NetCDF4PyPort(object):
                 typeCode,
                 tuple(dims),
                 zlib=True,
-                complevel=int(self.compressionLevel),
+                complevel=self.compressionLevel,
             )
         else:
             var = new_file.createVariable(var_name, typeCode, tuple(dims))
-- 
2.43.0


From 1b7c2451817ce57aea842f8cdd875936b779187e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:10 +0000
Subject: [PATCH 80/88] fix: climIO copies the attributes of variables

---
 pyconform/climIO.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pyconform/climIO.py b/pyconform/climIO.py
index b9744d9..0962e80 100644
--- a/pyconform/climIO.py
+++ b/pyconform/climIO.py
@@ -447,6 +447,8 @@ class NetCDF4PyPort(object):
         Returns:
             var (netCDF4.Variable): Returns a netCDF4.Variable object.
         """
+        # The fill value can only be set when the variable is created
+        fill_value = attrib.get("_FillValue", None)
         if self.compressionLevel > 0:
             var = new_file.createVariable(
                 var_name,
@@ -454,11 +456,15 @@ class NetCDF4PyPort(object):
                 tuple(dims),
                 zlib=True,
                 complevel=self.compressionLevel,
+                fill_value=fill_value,
             )
         else:
-            var = new_file.createVariable(var_name, typeCode, tuple(dims))
-        for att in attrib:
-            var.setncattr(var_name, att)
+            var = new_file.createVariable(
+                var_name, typeCode, tuple(dims), fill_value=fill_value
+            )
+        for att, value in attrib.items():
+            if att != "_FillValue":
+                var.setncattr(att, value)
         return var
 
     def get_var_info(self, template_file, var_name):
@@ -483,7 +489,7 @@ class NetCDF4PyPort(object):
 
         attribs = {}
         for n in var_hndl.ncattrs():
-            attribs[n] = var_hndl.__getattribute__(n)
+            attribs[n] = var_hndl.getncattr(n)
 
         return typeCode, dimnames, attribs
 
-- 
2.43.0


From 2f4f3d3b8168575590c2aa3fae6d4b3a23199d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:18 +0000
Subject: [PATCH 81/88] fix: missing land values stay missing whatever the
 weight of their unit

---
 pyconform/modules/CLM_landunit_to_CMIP6_Lut.py | 2 +-
 pyconform/modules/CLM_pft_to_CMIP6_vegtype.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyconform/modules/CLM_landunit_to_CMIP6_Lut.py b/pyconform/modules/CLM_landunit_to_CMIP6_Lut.py
index d40f9da..1bc9034 100644
--- a/pyconform/modules/CLM_landunit_to_CMIP6_Lut.py
+++ b/pyconform/modules/CLM_landunit_to_CMIP6_Lut.py
@@ -93,7 +93,7 @@ class CLM_landunit_to_CMIP6_Lut_Function(Function):
                     units=pEFLX_LH_TOT.units,
                 )
 
-        EFLX_LH_TOT = np.ma.filled(np.ma.asarray(pEFLX_LH_TOT, dtype="d"), 1e20)
+        EFLX_LH_TOT = np.ma.filled(np.ma.asarray(pEFLX_LH_TOT, dtype="d"), 1e36)
         ntim = pntim.data
         nlat = pnlat.data
         nlon = pnlon.data
diff --git a/pyconform/modules/CLM_pft_to_CMIP6_vegtype.py b/pyconform/modules/CLM_pft_to_CMIP6_vegtype.py
index f97fdf3..2ea8896 100644
--- a/pyconform/modules/CLM_pft_to_CMIP6_vegtype.py
+++ b/pyconform/modules/CLM_pft_to_CMIP6_vegtype.py
@@ -92,7 +92,7 @@ class CLM_pft_to_CMIP6_vegtype_Function(Function):
                 units=pGPP.units,
             )
 
-        GPP = np.ma.filled(np.ma.asarray(pGPP, dtype="d"), 1e20)
+        GPP = np.ma.filled(np.ma.asarray(pGPP, dtype="d"), 1e36)
         time = ptime.data
         lat = plat.data
         lon = plon.data
-- 
2.43.0


From 4e624d069d54a0bc869c1e8b01e9ff34c018adff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:18 +0000
Subject: [PATCH 82/88] fix: lightning emissions are positive whatever the
 order of latitudes

---
 pyconform/modules/commonfunctions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyconform/modules/commonfunctions.py b/pyconform/modules/commonfunctions.py
index 99df62c..62032c8 100644
--- a/pyconform/modules/commonfunctions.py
+++ b/pyconform/modules/commonfunctions.py
@@ -1719,8 +1719,8 @@ class emilnoxFunction(Function):
 
         emilnox = np.zeros((nmon, nlev, nlat, nlon))
 
-        dlon = lon[1] - lon[0]
-        dlat = lat[1] - lat[0]
+        dlon = abs(lon[1] - lon[0])
+        dlat = abs(lat[1] - lat[0])
 
         dx = Rearth * np.cos(lat / deg_rad) * dlon / deg_rad  # m
         dy = Rearth * dlat / deg_rad  # m
-- 
2.43.0


From 53992af5979298f375f76b9acb301d483fdcea04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:39 +0000
Subject: [PATCH 83/88] fix: splines of whole numbers have second derivatives
 which are not whole

---
 pyconform/modules/idl.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyconform/modules/idl.py b/pyconform/modules/idl.py
index 839e345..ef0aac9 100644
--- a/pyconform/modules/idl.py
+++ b/pyconform/modules/idl.py
@@ -94,8 +94,8 @@ def spl_init(x1, y1, axis=0):
     pu_b = numpy.einsum(sig, y1 - y0, 1.0 / ((x1 - x0) * (x2 - x0)))
     pu = pu_a - pu_b
 
-    b = numpy.empty_like(y1)
-    u = numpy.empty_like(y1)
+    b = numpy.empty_like(y1, dtype="d")
+    u = numpy.empty_like(y1, dtype="d")
 
     i0 = tuple(0 if i == axis else slice(None) for i in range(numpy.ndim(y1)))
     b[i0] = 0.0
-- 
2.43.0


From 19efc78e8bf6df620b63b101a1bf728f741afea4 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 06:00:42 +0000
Subject: [PATCH 84/88] fix: values which the declared integer type cannot hold
 are refused, not wrapped

---
 pyconform/flownodes.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pyconform/flownodes.py b/pyconform/flownodes.py
index b61a57f..8852426 100644
--- a/pyconform/flownodes.py
+++ b/pyconform/flownodes.py
@@ -505,7 +505,16 @@ class ValidateNode(FlowNode):
         else:
             odtype = self._vdesc.dtype
         if numpy.can_cast(indata.dtype, odtype, casting="same_kind"):
-            indata = indata.astype(odtype)
+            casted = indata.astype(odtype)
+            if casted.dtype.kind in "iu" and numpy.any(
+                numpy.ma.compressed(casted) != numpy.ma.compressed(indata)
+            ):
+                raise TypeError(
+                    "Datatype {!s} cannot hold all values of {!r} in ValidateNode".format(
+                        casted.dtype, self.label
+                    )
+                )
+            indata = casted
         else:
             raise TypeError(
                 ("Cannot cast datatype {!s} to {!s} in ValidateNode " "{!r}").format(
-- 
2.43.0


From 4d5f7fdf3b4c6bf642f1f4f9ff5925048a9993af Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 06:00:42 +0000
Subject: [PATCH 85/88] fix: files of another time step than the first are
 found

---
 pyconform/mapdates.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/pyconform/mapdates.py b/pyconform/mapdates.py
index 6a20507..440c1ba 100644
--- a/pyconform/mapdates.py
+++ b/pyconform/mapdates.py
@@ -152,6 +152,23 @@ def __check_date_alignment__(keys, date_info):
     return 0
 
 
+def __check_time_steps__(keys, date_info):
+    """
+    Verifies that all files have the time step of the first file.
+
+    Parameters:
+        keys (list): A list of time slice references that are in correct time order.
+        date_info (dict): Contains file information, such as time period(t_per), time step(t_step),
+            first/last step(t0 and tn), slice counts(cnt).
+    """
+    for key in keys[1:]:
+        t = date_info[key]["time"]
+        if not __is_next__(t[0], t[1], date_info[keys[0]]):
+            print("Different time step? First: ", t[0], " Next: ", t[1])
+            return 1
+    return 0
+
+
 def __check_date_alignment_in_file__(date):
     """
     Evaluates the dates between time steps to verify that
@@ -210,6 +227,8 @@ def get_files_in_order(files, alignment=True):
     # If there are more than 1 files, make sure the dates are aligned correctly
     if len(files) > 1:
         error = __check_date_alignment__(sorted(date_info.keys()), date_info)
+        if error == 0 and alignment:
+            error = __check_time_steps__(sorted(date_info.keys()), date_info)
         if error != 0:
             return file_list, counts, error
 
-- 
2.43.0


From f2e737f98be8cde5b45ab342b9be180f4a2377b8 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 06:00:42 +0000
Subject: [PATCH 86/88] fix: the probe of min and max knows the type of the
 data

---
 pyconform/functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyconform/functions.py b/pyconform/functions.py
index 20c94b7..461d3fd 100644
--- a/pyconform/functions.py
+++ b/pyconform/functions.py
@@ -347,7 +347,7 @@ class MinFunction(Function):
         newdims = [d for d in data.dimensions if d not in dimensions]
         new_name = "min({},{})".format(data.name, dimensions)
         if index is None:
-            m = np.zeros((0,) * len(newdims))
+            m = np.zeros((0,) * len(newdims), dtype=data.dtype)
         else:
             m = data.view(np.ma.MaskedArray).min(axis=inaxes)
         return PhysArray(
@@ -380,7 +380,7 @@ class MaxFunction(Function):
         newdims = [d for d in data.dimensions if d not in dimensions]
         new_name = "max({},{})".format(data.name, ",".join(dimensions))
         if index is None:
-            m = np.zeros((0,) * len(newdims))
+            m = np.zeros((0,) * len(newdims), dtype=data.dtype)
         else:
             m = data.view(np.ma.MaskedArray).max(axis=inaxes)
         return PhysArray(
-- 
2.43.0


From 734239b87d2dc740da63be71f6f1ce9b745ef2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:27 +0000
Subject: [PATCH 87/88] fix: output dimensions have the size of what is read;
 data which do not fill their part are refused, chunked or not

---
 pyconform/dataflow.py  | 31 ++++++++++++++++++++++++---
 pyconform/flownodes.py | 48 +++++++++++++++++++++++++++++++++++++++++-
 2 files changed, 75 insertions(+), 4 deletions(-)

diff --git a/pyconform/dataflow.py b/pyconform/dataflow.py
index 81755dc..605b510 100644
--- a/pyconform/dataflow.py
+++ b/pyconform/dataflow.py
@@ -22,7 +22,12 @@ import numpy
 from asaptools.partition import WeightBalanced
 from asaptools.simplecomm import SimpleComm, create_comm
 
-from pyconform.datasets import DefinitionWarning, InputDatasetDesc, OutputDatasetDesc
+from pyconform.datasets import (
+    DefinitionWarning,
+    DimensionDesc,
+    InputDatasetDesc,
+    OutputDatasetDesc,
+)
 from pyconform.flownodes import (
     DataNode,
     EvalNode,
@@ -78,7 +83,9 @@ class DataFlow(object):
         definfos = self._compute_node_infos_(defnodes)
 
         # Construct the dimension map
-        self._i2omap, self._o2imap = self._compute_dimension_maps_(definfos)
+        self._i2omap, self._o2imap = self._compute_dimension_maps_(
+            definfos, self._find_read_sizes_(defnodes)
+        )
 
         # Create the map nodes
         defnodes = self._create_map_nodes_(defnodes, definfos)
@@ -189,7 +196,19 @@ class DataFlow(object):
                 infos[name] = info
         return infos
 
-    def _compute_dimension_maps_(self, definfos):
+    def _find_read_sizes_(self, nodes):
+        # Dimensions of the input variables may be read in part.  What matters
+        # are their sizes as they are read, if they are the same everywhere
+        # (and not zero)
+        sizes = {}
+        for name in nodes:
+            for nd in iter_dfs(nodes[name]):
+                if isinstance(nd, ReadNode):
+                    for dname, size in nd.sizes.items():
+                        sizes.setdefault(dname, set()).add(size)
+        return {d: max(sizes[d]) for d in sizes if len(sizes[d]) == 1 and any(sizes[d])}
+
+    def _compute_dimension_maps_(self, definfos, sizes={}):
         # Each output variable FlowNode must be mapped to its output dimensions.
         # To aid with this, we sort by number of dimensions:
         nodeorder = [
@@ -229,6 +248,12 @@ class DataFlow(object):
         for dname, ddesc in self._ods.dimensions.items():
             if dname in o2imap and o2imap[dname] in self._ids.dimensions:
                 idd = self._ids.dimensions[o2imap[dname]]
+                idd = DimensionDesc(
+                    idd.name,
+                    size=sizes.get(idd.name, idd.size),
+                    unlimited=idd.unlimited,
+                    stringlen=idd.stringlen,
+                )
                 if (
                     ddesc.is_set() and ddesc.stringlen and ddesc.size < idd.size
                 ) or not ddesc.is_set():
diff --git a/pyconform/flownodes.py b/pyconform/flownodes.py
index 8852426..8f0a02c 100644
--- a/pyconform/flownodes.py
+++ b/pyconform/flownodes.py
@@ -212,6 +212,18 @@ class ReadNode(FlowNode):
             label = "{}[{}]".format(variable.name, index_str(index))
         super(ReadNode, self).__init__(label)
 
+    @property
+    def sizes(self):
+        """Dictionary of the sizes of the dimensions of the data, by dimension name"""
+        with Dataset(self._filepath, "r") as ncfile:
+            ncvar = ncfile.variables[self._variable]
+            index = align_index(self._index, ncvar.dimensions)
+            return {
+                d: len(range(*i.indices(n)))
+                for d, n, i in zip(ncvar.dimensions, ncvar.shape, index)
+                if isinstance(i, slice)
+            }
+
     def __getitem__(self, index):
         """
         Read PhysArray from file
@@ -976,6 +988,40 @@ class WriteNode(FlowNode):
                 ichunk[d] = c
         return ichunk
 
+    def _fit_(self, vname, chunk, data, dsizes):
+        """
+        Fit the part of a variable to be written to the data to be written there
+
+        Data which do not fill the part can only be written to an unlimited dimension which is
+        not inverted, and if they end in the part or the part is the whole of the dimension.
+
+        Parameters:
+            vname (str): The name of the variable
+            chunk (tuple): The slices of the variable to write
+            data (PhysArray): The data to write
+            dsizes (dict): The sizes of the dimensions
+        """
+        fitted = []
+        dims = self._filedesc.variables[vname].dimensions
+        for d, c, n in zip(dims, chunk, data.shape):
+            lb, ub, _ = c.indices(dsizes[d])
+            whole = lb == 0 and ub == dsizes[d]
+            if n != ub - lb:
+                if (
+                    not dims[d].unlimited
+                    or d in self._idims
+                    or not (whole or n < ub - lb)
+                ):
+                    raise ValueError(
+                        (
+                            "Data of variable {!r} do not have the size of dimension {!r} "
+                            "in file {!r}"
+                        ).format(vname, d, self.label)
+                    )
+                c = slice(lb, lb + n)
+            fitted.append(c)
+        return tuple(fitted)
+
     @staticmethod
     def _direction_(data):
         diff = numpy.diff(data)
@@ -1053,7 +1099,7 @@ class WriteNode(FlowNode):
                     if isinstance(vdata, CharArray):
                         lb, ub, _ = wchunk[-1].indices(ncvar.shape[-1])
                         vdata = vdata.stretch(ub - lb)
-                    ncvar[wchunk] = vdata
+                    ncvar[self._fit_(vname, wchunk, vdata, gdims)] = vdata
                     vchunks[vname].add(repr(wchunk))
 
         # Close the file after completion
-- 
2.43.0


From ef0d2f8cb3318abbe41de79d8d75a9af34eed173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:14:50 +0000
Subject: [PATCH 88/88] fix: each file of a climIO port has its own compression
 level

---
 pyconform/climIO.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pyconform/climIO.py b/pyconform/climIO.py
index 0962e80..cd78359 100644
--- a/pyconform/climIO.py
+++ b/pyconform/climIO.py
@@ -334,7 +334,8 @@ class PyNioPort(object):
 class NetCDF4PyPort(object):
     def __init__(self):
         super(NetCDF4PyPort, self).__init__()
-        self.compressionLevel = 0
+        # The compression levels of the files made, by name
+        self.compressionLevels = {}
 
     def open_file(self, file_name):
         """
@@ -398,10 +399,10 @@ class NetCDF4PyPort(object):
             new_file (netCDF4.Dataset): A pointer to a netCDF4.Dataset object.
         """
         # The netcdf output format
-        self.compressionLevel = 0
+        compressionLevel = 0
         if "netcdf4c" in ncformat:
             Format = "NETCDF4_CLASSIC"
-            self.compressionLevel = int(ncformat[-1]) if ncformat[-1].isdigit() else 1
+            compressionLevel = int(ncformat[-1]) if ncformat[-1].isdigit() else 1
         elif ncformat == "netcdf4":
             Format = "NETCDF4_CLASSIC"
         elif ncformat == "netcdf":
@@ -421,6 +422,7 @@ class NetCDF4PyPort(object):
         # Open new output file
         new_file = netCDF4.Dataset(new_file_name, "w", format=Format)
         new_file.history = hist_string
+        self.compressionLevels[new_file.filepath()] = compressionLevel
 
         return new_file
 
@@ -449,13 +451,14 @@ class NetCDF4PyPort(object):
         """
         # The fill value can only be set when the variable is created
         fill_value = attrib.get("_FillValue", None)
-        if self.compressionLevel > 0:
+        compressionLevel = self.compressionLevels.get(new_file.filepath(), 0)
+        if compressionLevel > 0:
             var = new_file.createVariable(
                 var_name,
                 typeCode,
                 tuple(dims),
                 zlib=True,
-                complevel=self.compressionLevel,
+                complevel=compressionLevel,
                 fill_value=fill_value,
             )
         else:
-- 
2.43.0

