From 3c18166e45c98b0cbc33cc3bce25c7c9889df27b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:20 +0000
Subject: [PATCH 01/43] fix: do not serve stale cache from aggregated
 timeseries views

---
 openscm/core/views.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/openscm/core/views.py b/openscm/core/views.py
index be0af3b..ad408b0 100644
--- a/openscm/core/views.py
+++ b/openscm/core/views.py
@@ -346,7 +346,9 @@ class TimeseriesView(ParameterInfo):  # pylint: disable=too-many-instance-attrib
         if self._data is None:
             self._data = self._get_values()
             self._version = self._parameter.version
-        elif self._version != self._parameter.version:
+        elif self._parameter.children or self._version != self._parameter.version:
+            # the version of an aggregated parameter does not change when one of its
+            # child parameters is written to, hence it is always read
             np.copyto(self._data, self._get_values())
             self._version = self._parameter.version
 
-- 
2.43.0


From acd67bd16a2b27bd234fd1fb7dbb38861e04e81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:05 +0000
Subject: [PATCH 02/43] fix: reject item assignment on aggregated timeseries
 views

---
 openscm/core/views.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/openscm/core/views.py b/openscm/core/views.py
index ad408b0..7dd87e7 100644
--- a/openscm/core/views.py
+++ b/openscm/core/views.py
@@ -10,7 +10,11 @@ import numpy as np
 from numpy.lib.mixins import NDArrayOperatorsMixin
 from pandas.core.arrays.base import ExtensionOpsMixin
 
-from ..errors import ParameterEmptyError, TimeseriesPointsValuesMismatchError
+from ..errors import (
+    ParameterEmptyError,
+    ParameterReadonlyError,
+    TimeseriesPointsValuesMismatchError,
+)
 from .parameters import ParameterInfo, ParameterType, _Parameter
 from .time import ExtrapolationType, InterpolationType, TimeseriesConverter
 from .units import UnitConverter
@@ -362,6 +366,8 @@ class TimeseriesView(ParameterInfo):  # pylint: disable=too-many-instance-attrib
             self._writable = True
 
     def _write(self):
+        if self._parameter.children:
+            raise ParameterReadonlyError
         if not self._locked:
             self._parameter.data = self._timeseries_converter.convert_to(
                 self._unit_converter.convert_to(self._data)
-- 
2.43.0


From b42a674365959338876e9be70e058abfe0e8b785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:05 +0000
Subject: [PATCH 03/43] fix: failed scalar writes do not mark the parameter as
 written

---
 openscm/core/views.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openscm/core/views.py b/openscm/core/views.py
index 7dd87e7..a1a0fdf 100644
--- a/openscm/core/views.py
+++ b/openscm/core/views.py
@@ -224,12 +224,13 @@ class ScalarView(ParameterInfo):
         """
         Value of scalar parameter
         """
+        data = self._unit_converter.convert_to(v)
         if not self._writable:
             self._parameter.attempt_write(
                 ParameterType.SCALAR, self._unit_converter.target
             )
             self._writable = True
-        self._parameter.data = self._unit_converter.convert_to(v)
+        self._parameter.data = data
         self._parameter.version += 1
 
     @property
-- 
2.43.0


From 396786c2cd30f67ad1a8e0c85d65585b9474b024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:05 +0000
Subject: [PATCH 04/43] fix: failed timeseries writes leave parameter and cache
 untouched

---
 openscm/core/views.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/openscm/core/views.py b/openscm/core/views.py
index a1a0fdf..9403a8d 100644
--- a/openscm/core/views.py
+++ b/openscm/core/views.py
@@ -273,8 +273,8 @@ class TimeseriesView(ParameterInfo):  # pylint: disable=too-many-instance-attrib
     _unit_converter: UnitConverter
     """Unit converter"""
 
-    _version: int
-    """Version of cache"""
+    _version: Optional[int]
+    """Version of cache (``None`` if the cache is invalid)"""
 
     _writable: bool
     """Is this view writable? Is set to ``True`` once this view is written to."""
@@ -370,9 +370,12 @@ class TimeseriesView(ParameterInfo):  # pylint: disable=too-many-instance-attrib
         if self._parameter.children:
             raise ParameterReadonlyError
         if not self._locked:
-            self._parameter.data = self._timeseries_converter.convert_to(
+            self._version = None  # makes sure to discard the cache if the write fails
+            data = self._timeseries_converter.convert_to(
                 self._unit_converter.convert_to(self._data)
             )
+            self._check_write()
+            self._parameter.data = data
             self._parameter.version += 1
             self._version = self._parameter.version
 
@@ -420,7 +423,8 @@ class TimeseriesView(ParameterInfo):  # pylint: disable=too-many-instance-attrib
         """
         Value of the full timeseries
         """
-        self._check_write()
+        if self._parameter.children:
+            raise ParameterReadonlyError
         if len(v) != self._timeseries_converter.target_length:
             raise TimeseriesPointsValuesMismatchError
         if self._data is None:
-- 
2.43.0


From ddba7eaedab088c19f476484367a557892b71ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:05 +0000
Subject: [PATCH 05/43] fix: unlocking a timeseries view only publishes pending
 writes

---
 openscm/core/views.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/openscm/core/views.py b/openscm/core/views.py
index 9403a8d..9c3ef25 100644
--- a/openscm/core/views.py
+++ b/openscm/core/views.py
@@ -264,6 +264,9 @@ class TimeseriesView(ParameterInfo):  # pylint: disable=too-many-instance-attrib
     write)?
     """
 
+    _pending: bool
+    """Has this view been written to since it was locked?"""
+
     _timeseries: Optional[_Timeseries]
     """Time series handler"""
 
@@ -317,7 +320,9 @@ class TimeseriesView(ParameterInfo):  # pylint: disable=too-many-instance-attrib
         )
         self._data = None
         self._locked = False
+        self._pending = False
         self._timeseries = None
+        self._version = parameter.version
         self._writable = False
 
         def get_data_views_for_children_or_parameter(
@@ -369,6 +374,7 @@ class TimeseriesView(ParameterInfo):  # pylint: disable=too-many-instance-attrib
     def _write(self):
         if self._parameter.children:
             raise ParameterReadonlyError
+        self._pending = self._locked
         if not self._locked:
             self._version = None  # makes sure to discard the cache if the write fails
             data = self._timeseries_converter.convert_to(
@@ -464,10 +470,12 @@ class TimeseriesView(ParameterInfo):  # pylint: disable=too-many-instance-attrib
         """
         Unlock this view (i.e., update the underlying parameter on every write).
 
-        Updates the underlying parameter.
+        Updates the underlying parameter (if this view has been written to since it was
+        locked).
         """
         self._locked = False
-        self._write()
+        if self._pending:
+            self._write()
 
 
 class GenericView(ParameterInfo):
-- 
2.43.0


From 702f45b713c15601f33da5680a6698d0ae239fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:05 +0000
Subject: [PATCH 06/43] fix: refresh held timeseries values before arithmetic
 operations

---
 openscm/core/views.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/openscm/core/views.py b/openscm/core/views.py
index 9c3ef25..9a985c5 100644
--- a/openscm/core/views.py
+++ b/openscm/core/views.py
@@ -63,10 +63,10 @@ class _Timeseries(ExtensionOpsMixin, NDArrayOperatorsMixin):  # type: ignore
     def _create_arithmetic_method(cls, op):
         def arithmetic_method(self, other):
             if isinstance(other, cls):
-                other = other._ndarray
+                other = other.__read__()._ndarray
 
             with np.errstate(all="ignore"):
-                return op(self._ndarray, other)
+                return op(self.__read__()._ndarray, other)
 
         arithmetic_method.__name__ = "__{}__".format(op.__name__)
         arithmetic_method.__qualname__ = "{cl}.__{name}__".format(
@@ -116,10 +116,10 @@ class _Timeseries(ExtensionOpsMixin, NDArrayOperatorsMixin):  # type: ignore
             yield i
 
     def __repr__(self):
-        return "timeseries({})".format(repr(self._ndarray))
+        return "timeseries({})".format(repr(self.__read__()._ndarray))
 
     def __array__(self, dtype=None):
-        return np.asarray(self._ndarray, dtype=dtype)
+        return np.asarray(self.__read__()._ndarray, dtype=dtype)
 
     def __len__(self):
         return len(self._ndarray)
-- 
2.43.0


From 5627124c1849805ff65703283b57d7b04becddd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:44 +0000
Subject: [PATCH 07/43] fix: convert time points to a common resolution before
 interpolating

---
 openscm/core/time.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/openscm/core/time.py b/openscm/core/time.py
index b872cae..374bfa3 100644
--- a/openscm/core/time.py
+++ b/openscm/core/time.py
@@ -366,6 +366,12 @@ def _calc_integral_preserving_linear_interpolation(values: np.ndarray) -> np.nda
     )
 
 
+def _time_points_to_seconds(time_points: np.ndarray) -> np.ndarray:
+    # both time points arrays have to be in the same unit (seconds) independent of the
+    # resolution in which they are given
+    return np.array(time_points).astype("datetime64[s]").astype(_TARGET_TYPE)
+
+
 class TimeseriesConverter:
     """
     Converts timeseries and their points between two timeseriess (each defined by a time
@@ -416,8 +422,8 @@ class TimeseriesConverter:
         InsufficientDataError
             Timeseries too short to extrapolate
         """
-        self._source = np.array(source_time_points).astype(_TARGET_TYPE, copy=True)
-        self._target = np.array(target_time_points).astype(_TARGET_TYPE, copy=True)
+        self._source = _time_points_to_seconds(source_time_points)
+        self._target = _time_points_to_seconds(target_time_points)
         self._timeseries_type = timeseries_type
         self._interpolation_type = interpolation_type
         self._extrapolation_type = extrapolation_type
-- 
2.43.0


From acc15df2f7f1ae6d6bfbfd407ffca1c0651e3b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:22 +0000
Subject: [PATCH 08/43] fix: do not keep a reference to the time points array
 of the caller

---
 openscm/core/time.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openscm/core/time.py b/openscm/core/time.py
index 374bfa3..00a78bf 100644
--- a/openscm/core/time.py
+++ b/openscm/core/time.py
@@ -144,7 +144,7 @@ def _format_datetime(dts: np.ndarray) -> np.ndarray:
     if dts.dtype.kind == "O":
         dtype = np.dtype(type(dts[0])).type
     if issubclass(dtype, np.datetime64):
-        return np.asarray(dts, dtype="datetime64[s]")
+        return np.array(dts, dtype="datetime64[s]")
     if issubclass(dtype, np.floating):
         return _ufunc_float_year_to_datetime(dts).astype("datetime64[s]")
     if issubclass(dtype, np.integer):
-- 
2.43.0


From dd9434d31da0e8dd53e169bc89ea449adeab4911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:22 +0000
Subject: [PATCH 09/43] fix: define sulfur as a base unit

---
 openscm/core/units.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openscm/core/units.py b/openscm/core/units.py
index 6d23e2d..3f01a78 100644
--- a/openscm/core/units.py
+++ b/openscm/core/units.py
@@ -136,7 +136,7 @@ _standard_gases = {
     "NOx": "NOx",
     "nox": ["NOx"],
     "NH3": ["14/17 * N", "ammonia"],
-    "S": ["sulfur"],
+    "S": "sulfur",
     "SO2": ["32/64 * S", "sulfur_dioxide"],
     "SOx": ["SO2"],
     "BC": "black_carbon",
-- 
2.43.0


From c11b099c250860b6adc4a1fbe4119badf33aa640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:22 +0000
Subject: [PATCH 10/43] fix: list all available unit contexts before the first
 conversion

---
 openscm/core/units.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/openscm/core/units.py b/openscm/core/units.py
index 3f01a78..19e8908 100644
--- a/openscm/core/units.py
+++ b/openscm/core/units.py
@@ -274,10 +274,16 @@ class ScmUnitRegistry(pint.UnitRegistry):  # type: ignore
         Overload pint's :func:`enable_contexts` to load contexts once (the first time
         they are used) to avoid (unnecessary) file operations on import.
         """
+        self.ensure_contexts_loaded()
+        super().enable_contexts(*names_or_contexts, **kwargs)
+
+    def ensure_contexts_loaded(self) -> None:
+        """
+        Load contexts if this has not been done yet.
+        """
         if not self._contexts_loaded:
             self._load_contexts()
         self._contexts_loaded = True
-        super().enable_contexts(*names_or_contexts, **kwargs)
 
     def _add_mass_emissions_joint_version(self, symbol: str) -> None:
         """
@@ -563,6 +569,7 @@ class UnitConverter:
         """
         Available contexts for unit conversions
         """
+        _unit_registry.ensure_contexts_loaded()
         return list(_unit_registry._contexts.keys())  # pylint: disable=protected-access
 
     @property
-- 
2.43.0


From b4aed0717ed86a87c5087046fc1d0467ef2d78d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:22 +0000
Subject: [PATCH 11/43] fix: match all characters but `*` literally when
 filtering

---
 openscm/scmdataframe/filters.py | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/openscm/scmdataframe/filters.py b/openscm/scmdataframe/filters.py
index 32ea694..65fa59e 100644
--- a/openscm/scmdataframe/filters.py
+++ b/openscm/scmdataframe/filters.py
@@ -169,16 +169,8 @@ def pattern_match(  # pylint: disable=too-many-arguments,too-many-locals
 
     for s in _values:
         if isinstance(s, str):
-            _regexp = (
-                str(s)
-                .replace("|", "\\|")
-                .replace(".", r"\.")  # `.` has to be replaced before `*`
-                .replace("*", ".*")
-                .replace("+", r"\+")
-                .replace("(", r"\(")
-                .replace(")", r"\)")
-                .replace("$", "\\$")
-            ) + "$"
+            # only `*` has a special meaning
+            _regexp = re.escape(str(s)).replace("\\*", ".*") + "$"
             pattern = re.compile(_regexp if not regexp else str(s))
             try:
                 subset = [m for m in _meta_col if pattern.match(m)]
-- 
2.43.0


From 25194f1197b8cd5dc9a313b3e6e779d68ca9fa5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:22 +0000
Subject: [PATCH 12/43] fix: filtering on metadata columns containing None

---
 openscm/scmdataframe/filters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openscm/scmdataframe/filters.py b/openscm/scmdataframe/filters.py
index 65fa59e..dd04e53 100644
--- a/openscm/scmdataframe/filters.py
+++ b/openscm/scmdataframe/filters.py
@@ -164,7 +164,7 @@ def pattern_match(  # pylint: disable=too-many-arguments,too-many-locals
     _meta_col = meta_col.copy()
     if has_nan:
         _meta_col.loc[
-            [np.isnan(i) if not isinstance(i, str) else False for i in _meta_col]
+            [pd.isnull(i) if not isinstance(i, str) else False for i in _meta_col]
         ] = ""
 
     for s in _values:
-- 
2.43.0


From cf8e0ba31fb101c973d8f8ed731ecd3e7392b0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:22 +0000
Subject: [PATCH 13/43] fix: filtering with several month or weekday ranges
 (and leave filter list untouched)

---
 openscm/scmdataframe/filters.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/openscm/scmdataframe/filters.py b/openscm/scmdataframe/filters.py
index dd04e53..9fe7fb0 100644
--- a/openscm/scmdataframe/filters.py
+++ b/openscm/scmdataframe/filters.py
@@ -360,9 +360,9 @@ def time_match(
         return res
 
     if isinstance(times_list[0], str):
-        to_delete = []
+        to_convert = []
         to_append = []  # type: List
-        for i, timeset in enumerate(times_list):
+        for timeset in times_list:
             # ignore type as already established we're looking at strings
             if "-" in timeset:  # type: ignore
                 ints = conv_strs(timeset.split("-"), conv_codes, name)  # type: ignore
@@ -375,13 +375,10 @@ def time_match(
 
                 # + 1 to include last month
                 to_append += [j for j in range(ints[0], ints[1] + 1)]
-                to_delete.append(i)
+            else:
+                to_convert.append(timeset)
 
-        for i in to_delete:
-            del times_list[i]
-
-        times_list = conv_strs(times_list, conv_codes, name)
-        times_list += to_append
+        times_list = conv_strs(to_convert, conv_codes, name) + to_append
 
     return is_in(data, times_list)
 
-- 
2.43.0


From 7e3dec74053ac7885f9c8d3f1a3427365f13cae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:22 +0000
Subject: [PATCH 14/43] fix: do not change index of the dataframe used to
 initialize an ScmDataFrame

---
 openscm/scmdataframe/base.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/openscm/scmdataframe/base.py b/openscm/scmdataframe/base.py
index 4beb8ce..a60044b 100644
--- a/openscm/scmdataframe/base.py
+++ b/openscm/scmdataframe/base.py
@@ -231,8 +231,7 @@ def _from_ts(
     ValueError
         Not all required columns are present
     """
-    if not isinstance(df, pd.DataFrame):
-        df = pd.DataFrame(df)
+    df = pd.DataFrame(df).copy()
     if index is not None:
         if isinstance(index, np.ndarray):
             df.index = TimePoints(index).to_index()
-- 
2.43.0


From 62cfee113ea4d928e6222e8123960d1f7c045c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:22 +0000
Subject: [PATCH 15/43] fix: setting time points of wrong length does not
 unalign the dataframe

---
 openscm/scmdataframe/base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/openscm/scmdataframe/base.py b/openscm/scmdataframe/base.py
index a60044b..6030786 100644
--- a/openscm/scmdataframe/base.py
+++ b/openscm/scmdataframe/base.py
@@ -444,8 +444,9 @@ class ScmDataFrameBase:  # pylint: disable=too-many-public-methods
         Provides direct access to set "time" as well as the columns in :attr:`meta`.
         """
         if key == "time":
-            self._time_points = TimePoints(value)
-            self._data.index = self._time_points.to_index()
+            time_points = TimePoints(value)
+            self._data.index = time_points.to_index()
+            self._time_points = time_points
             return value
         return self.set_meta(value, name=key)
 
-- 
2.43.0


From 6ac13f90b8363e48e14c501fb37ea1497b1d1129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:22 +0000
Subject: [PATCH 16/43] fix: do not hand out internal time points array

---
 openscm/scmdataframe/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openscm/scmdataframe/base.py b/openscm/scmdataframe/base.py
index 6030786..86d6113 100644
--- a/openscm/scmdataframe/base.py
+++ b/openscm/scmdataframe/base.py
@@ -538,7 +538,7 @@ class ScmDataFrameBase:  # pylint: disable=too-many-public-methods
         """
         Time points of the data
         """
-        return self._time_points.values
+        return self._time_points.values.copy()
 
     def timeseries(self, meta: Optional[List[str]] = None) -> pd.DataFrame:
         """
-- 
2.43.0


From 79574c9f36cf2eab0f02d271a42ec9943ab09b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:22 +0000
Subject: [PATCH 17/43] fix: failed inplace rename leaves the dataframe
 untouched

---
 openscm/scmdataframe/base.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/openscm/scmdataframe/base.py b/openscm/scmdataframe/base.py
index 86d6113..079f2ec 100644
--- a/openscm/scmdataframe/base.py
+++ b/openscm/scmdataframe/base.py
@@ -853,16 +853,16 @@ class ScmDataFrameBase:  # pylint: disable=too-many-public-methods
         ValueError
             Column is not in meta or renaming will cause non-unique metadata
         """
-        ret = copy.deepcopy(self) if not inplace else self
+        meta = self.meta
         for col, _mapping in mapping.items():
-            if col not in self.meta.columns:
+            if col not in meta.columns:
                 raise ValueError("Renaming by {} not supported!".format(col))
-            ret._meta[col] = ret._meta[col].replace(  # pylint: disable=protected-access
-                _mapping
-            )
-            if ret._meta.duplicated().any():  # pylint: disable=protected-access
+            meta[col] = meta[col].replace(_mapping)
+            if meta.duplicated().any():
                 raise ValueError("Renaming to non-unique metadata for {}!".format(col))
 
+        ret = copy.deepcopy(self) if not inplace else self
+        ret._meta = meta  # pylint: disable=protected-access
         if not inplace:
             return ret
 
-- 
2.43.0


From 81ddaeaf4b50372d57e52a351514257d7c369b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:58 +0000
Subject: [PATCH 18/43] fix: failed inplace unit conversion leaves the
 dataframe untouched

---
 openscm/scmdataframe/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openscm/scmdataframe/base.py b/openscm/scmdataframe/base.py
index 079f2ec..f414ead 100644
--- a/openscm/scmdataframe/base.py
+++ b/openscm/scmdataframe/base.py
@@ -1252,7 +1252,7 @@ class ScmDataFrameBase:  # pylint: disable=too-many-public-methods
             with the converted units.
         """
         # pylint: disable=protected-access
-        ret = self if inplace else self.copy()
+        ret = self.copy()
 
         if "unit_context" not in ret._meta:
             ret._meta["unit_context"] = None
@@ -1269,6 +1269,7 @@ class ScmDataFrameBase:  # pylint: disable=too-many-public-methods
 
         if not inplace:
             return ret
+        self._data, self._meta = ret._data, ret._meta
         return None
 
     def relative_to_ref_period_mean(
-- 
2.43.0


From 253ff255756931e69d2f7f499804e10fa38feaab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:58 +0000
Subject: [PATCH 19/43] fix: guess missing parameter types of all timeseries
 when interpolating

---
 openscm/scmdataframe/base.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/openscm/scmdataframe/base.py b/openscm/scmdataframe/base.py
index f414ead..c8cdf36 100644
--- a/openscm/scmdataframe/base.py
+++ b/openscm/scmdataframe/base.py
@@ -987,19 +987,19 @@ class ScmDataFrameBase:  # pylint: disable=too-many-public-methods
             res._sort_meta_cols()
 
         def guess(r):
-            if r.parameter_type is None:
+            if pd.isnull(r.parameter_type):
                 warnings.warn(
                     "`parameter_type` metadata not available. Guessing parameter types where unavailable."
                 )
                 parameter_type = guess_parameter_type(r.variable, r.unit)
-                r.parameter_type = (
+                return (
                     "average"
                     if parameter_type == ParameterType.AVERAGE_TIMESERIES
                     else "point"
                 )
-            return r
+            return r.parameter_type
 
-        res._meta.apply(guess, axis=1)
+        res._meta["parameter_type"] = [guess(r) for _, r in res._meta.iterrows()]
 
         # Resize dataframe to new index length
         old_data = res._data
-- 
2.43.0


From 6fd7474e0e960ddbf781d7b3976ad619f83ca177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:14 +0000
Subject: [PATCH 20/43] fix: interpolating dataframes with average and point
 timeseries

---
 openscm/scmdataframe/base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/openscm/scmdataframe/base.py b/openscm/scmdataframe/base.py
index c8cdf36..425022a 100644
--- a/openscm/scmdataframe/base.py
+++ b/openscm/scmdataframe/base.py
@@ -1008,13 +1008,14 @@ class ScmDataFrameBase:  # pylint: disable=too-many-public-methods
         for parameter_type, grp in res._meta.groupby("parameter_type"):
             p_type = ParameterType.from_timeseries_type(parameter_type)
             time_points = self.time_points
+            target_points = target_times
 
             if p_type == ParameterType.AVERAGE_TIMESERIES:
                 # With an average time series we are making the assumption that the last value is the
                 # average value between t[-1] and (t[-1] - t[-2]). This will ensure that both the
                 # point and average timeseries can use the same time grid.
                 delta_t = target_times[-1] - target_times[-2]
-                target_times = np.concatenate(
+                target_points = np.concatenate(
                     (target_times, [target_times[-1] + delta_t])
                 )
 
@@ -1023,7 +1024,7 @@ class ScmDataFrameBase:  # pylint: disable=too-many-public-methods
 
             timeseries_converter = TimeseriesConverter(
                 time_points,
-                target_times,
+                target_points,
                 p_type,
                 InterpolationType.from_interpolation_type(interpolation_type),
                 ExtrapolationType.from_extrapolation_type(extrapolation_type),
-- 
2.43.0


From 1522bbe2817aa7cbe3305e7ed6568f8ef4b5ae1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:14 +0000
Subject: [PATCH 21/43] fix: include all levels of subregions when converting
 to ScmDataFrame

---
 openscm/scmdataframe/__init__.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/openscm/scmdataframe/__init__.py b/openscm/scmdataframe/__init__.py
index f032309..95e727f 100644
--- a/openscm/scmdataframe/__init__.py
+++ b/openscm/scmdataframe/__init__.py
@@ -10,6 +10,7 @@ import numpy as np
 
 from ..core.parameters import ParameterInfo, ParameterType, _Parameter
 from ..core.parameterset import ParameterSet
+from ..core.regions import _Region
 from .base import ScmDataFrameBase, df_append  # noqa: F401
 
 
@@ -108,18 +109,14 @@ def convert_openscm_to_scmdataframe(  # pylint: disable=too-many-locals
     data = []
 
     root_params: Dict[Tuple, ParameterInfo] = {}
-    for (
-        _,
-        value,
-    ) in parameterset._root._parameters.items():  # pylint: disable=protected-access
-        root_params.update(walk_parameters(value))
-    for (
-        _,
-        r,
-    ) in parameterset._root._children.items():  # pylint: disable=protected-access
-        for _, value in r._parameters.items():  # pylint: disable=protected-access
+    def walk_regions(region: _Region) -> None:
+        # pylint: disable=protected-access
+        for value in region._parameters.values():
             root_params.update(walk_parameters(value))
+        for subregion in region._children.values():
+            walk_regions(subregion)
 
+    walk_regions(parameterset._root)  # pylint: disable=protected-access
     for (param_name, region), p_info in root_params.items():
         # All meta values are stored as generic value (AKA no units)
         # TODO: fix this
-- 
2.43.0


From 5e9a50e3648252c70a8c619945709b207efc235e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:42 +0000
Subject: [PATCH 22/43] fix: leave parameter unchanged when generic access is
 rejected

---
 openscm/core/parameters.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openscm/core/parameters.py b/openscm/core/parameters.py
index 09d199b..86ff0f8 100644
--- a/openscm/core/parameters.py
+++ b/openscm/core/parameters.py
@@ -256,14 +256,14 @@ class _Parameter:
         """
         if self.parameter_type is not None and self.parameter_type != parameter_type:
             raise ParameterTypeError
+        if self.children and parameter_type == ParameterType.GENERIC:
+            raise ParameterAggregationError
         if self.parameter_type is None:
             self.unit = unit
             self.parameter_type = parameter_type
             if parameter_type == ParameterType.SCALAR:
                 self.data = float("NaN")
             elif parameter_type == ParameterType.GENERIC:
-                if self.children:
-                    raise ParameterAggregationError
                 self.data = None
             else:  # parameter is a timeseries
                 self.data = np.full(
-- 
2.43.0


From fa446b819487d9e34adc8bfda2f2df8dedd36d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:42 +0000
Subject: [PATCH 23/43] fix: check type and mark descendants as read on
 aggregated access

---
 openscm/core/parameters.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/openscm/core/parameters.py b/openscm/core/parameters.py
index 86ff0f8..2ce8d2d 100644
--- a/openscm/core/parameters.py
+++ b/openscm/core/parameters.py
@@ -258,6 +258,8 @@ class _Parameter:
             raise ParameterTypeError
         if self.children and parameter_type == ParameterType.GENERIC:
             raise ParameterAggregationError
+        for child in self.children.values():
+            child.attempt_read(parameter_type, unit, time_points)
         if self.parameter_type is None:
             self.unit = unit
             self.parameter_type = parameter_type
-- 
2.43.0


From b5711d9dc12d99c31d084f234da38a55199ddf51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:06 +0000
Subject: [PATCH 24/43] fix: reject empty parameter and region names
 consistently

---
 openscm/core/parameterset.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/openscm/core/parameterset.py b/openscm/core/parameterset.py
index 6dd69a7..1750db4 100644
--- a/openscm/core/parameterset.py
+++ b/openscm/core/parameterset.py
@@ -90,7 +90,14 @@ class ParameterSet:
         -------
         Optional[_Region]
             Region or ``None`` if not found
+
+        Raises
+        ------
+        ValueError
+            No name given
         """
+        if not name:
+            raise ValueError("No region name given")
         if isinstance(name, str):
             name = name.split(HIERARCHY_SEPARATOR)
 
@@ -122,6 +129,8 @@ class ParameterSet:
         ValueError
             Name not given
         """
+        if not name:
+            raise ValueError("No parameter name given")
         if isinstance(name, str):
             name = name.split(HIERARCHY_SEPARATOR)
 
@@ -129,11 +138,7 @@ class ParameterSet:
             p = self._get_or_create_parameter(name[:-1], region)
             return p.get_or_create_child_parameter(name[-1])
 
-        if len(name) == 1:
-            return region.get_or_create_parameter(name[0])
-
-        # len(name) == 0
-        raise ValueError("No parameter name given")
+        return region.get_or_create_parameter(name[0])
 
     def scalar(
         self, name: HierarchicalName, unit: str, region: HierarchicalName = ("World",)
-- 
2.43.0


From c710f2df2d0b00841a4445111dd3c5dd05df9249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:22 +0000
Subject: [PATCH 25/43] fix: refresh held timeseries before assigning items

---
 openscm/core/views.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/openscm/core/views.py b/openscm/core/views.py
index 9a985c5..18d899b 100644
--- a/openscm/core/views.py
+++ b/openscm/core/views.py
@@ -107,6 +107,7 @@ class _Timeseries(ExtensionOpsMixin, NDArrayOperatorsMixin):  # type: ignore
         return result
 
     def __setitem__(self, key, val):
+        self.__read__()
         self._ndarray[key] = val
         self.__write__()
 
-- 
2.43.0


From 09711a5e04ccffe4947ea2e1bb38a4ff5f8e7a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:50 +0000
Subject: [PATCH 26/43] fix: reading a locked view keeps its pending values

---
 openscm/core/views.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/openscm/core/views.py b/openscm/core/views.py
index 18d899b..19951a6 100644
--- a/openscm/core/views.py
+++ b/openscm/core/views.py
@@ -357,9 +357,12 @@ class TimeseriesView(ParameterInfo):  # pylint: disable=too-many-instance-attrib
         if self._data is None:
             self._data = self._get_values()
             self._version = self._parameter.version
-        elif self._parameter.children or self._version != self._parameter.version:
-            # the version of an aggregated parameter does not change when one of its
-            # child parameters is written to, hence it is always read
+        elif not self._pending and (
+            self._parameter.children or self._version != self._parameter.version
+        ):
+            # values which are still to be published are kept; the version of an
+            # aggregated parameter does not change when one of its child parameters is
+            # written to, hence it is always read
             np.copyto(self._data, self._get_values())
             self._version = self._parameter.version
 
-- 
2.43.0


From afcbadfee409a6f6efc6b9f2867e81981d3420af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:48 +0000
Subject: [PATCH 27/43] fix: do not rename the index passed to ScmDataFrame

---
 openscm/scmdataframe/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openscm/scmdataframe/base.py b/openscm/scmdataframe/base.py
index 425022a..049a833 100644
--- a/openscm/scmdataframe/base.py
+++ b/openscm/scmdataframe/base.py
@@ -236,7 +236,8 @@ def _from_ts(
         if isinstance(index, np.ndarray):
             df.index = TimePoints(index).to_index()
         else:
-            df.index = index
+            # pandas keeps the index object itself, whose name is set below
+            df.index = index.copy() if isinstance(index, pd.Index) else index
 
     # format columns to lower-case and check that all required columns exist
     if not set(REQUIRED_COLS).issubset(columns.keys()):
-- 
2.43.0


From 754fec334133ef6f10f324abac9525d7af72864d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:48 +0000
Subject: [PATCH 28/43] fix: repeat single metadata values given as arrays

---
 openscm/scmdataframe/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openscm/scmdataframe/base.py b/openscm/scmdataframe/base.py
index 049a833..c866bb7 100644
--- a/openscm/scmdataframe/base.py
+++ b/openscm/scmdataframe/base.py
@@ -260,7 +260,7 @@ def _from_ts(
                 "1 or {}".format(c_name, num_ts)
             )
             raise ValueError(error_msg)
-        columns[c_name] = col_list * num_ts
+        columns[c_name] = list(col_list) * num_ts
 
     meta = pd.DataFrame(columns, index=df.columns)
 
-- 
2.43.0


From 2cfc4512a432e98559356e009fd5a95302aa014b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:48 +0000
Subject: [PATCH 29/43] fix: keep metadata rows in line with the data in
 set_meta

---
 openscm/scmdataframe/base.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/openscm/scmdataframe/base.py b/openscm/scmdataframe/base.py
index c866bb7..5e0d87b 100644
--- a/openscm/scmdataframe/base.py
+++ b/openscm/scmdataframe/base.py
@@ -928,14 +928,18 @@ class ScmDataFrameBase:  # pylint: disable=too-many-public-methods
         df = self.meta.reset_index()
         if all(index.names):
             df = df.set_index(index.names)
-        self._meta = (
+        new_meta = (
             pd.merge(df, meta, left_index=True, right_index=True, how="outer")
             .reset_index()
             .set_index("index")
         )
         # Edge case of using a different index on meta
-        if "level_0" in self._meta:
-            self._meta.drop("level_0", axis=1, inplace=True)
+        if "level_0" in new_meta:
+            new_meta.drop("level_0", axis=1, inplace=True)
+        if len(new_meta) != len(self._meta):
+            raise ValueError("index does not match the timeseries uniquely")
+        # merging sorts the rows, they have to stay in line with the data
+        self._meta = new_meta.loc[self._meta.index]
         self._sort_meta_cols()
 
     def interpolate(  # pylint: disable=too-many-locals
-- 
2.43.0


From 43a467f1b9d33131418ac8e7dc4db7236b63f648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:48 +0000
Subject: [PATCH 30/43] fix: replace existing metadata columns in set_meta with
 an index

---
 openscm/scmdataframe/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/openscm/scmdataframe/base.py b/openscm/scmdataframe/base.py
index 5e0d87b..85da987 100644
--- a/openscm/scmdataframe/base.py
+++ b/openscm/scmdataframe/base.py
@@ -926,6 +926,8 @@ class ScmDataFrameBase:  # pylint: disable=too-many-public-methods
         meta = pd.Series(meta, index=index, name=name)
 
         df = self.meta.reset_index()
+        if name not in index.names:
+            df = df.drop(name, axis=1, errors="ignore")
         if all(index.names):
             df = df.set_index(index.names)
         new_meta = (
-- 
2.43.0


From 5e7391a5980a2aa9fd5451dd28ab47c7fc509c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:48 +0000
Subject: [PATCH 31/43] fix: filtering by an empty list of values selects
 nothing

---
 openscm/scmdataframe/filters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openscm/scmdataframe/filters.py b/openscm/scmdataframe/filters.py
index 9fe7fb0..eb804c1 100644
--- a/openscm/scmdataframe/filters.py
+++ b/openscm/scmdataframe/filters.py
@@ -151,7 +151,7 @@ def pattern_match(  # pylint: disable=too-many-arguments,too-many-locals
         Filtering is performed on a string metadata column which contains
         :class:`np.nan` and :obj:`has_nan` is ``False``
     """
-    matches = np.array([False] * len(meta_col))
+    matches = pd.Series([False] * len(meta_col), index=meta_col.index)
     _values = (
         [values]
         if not isinstance(values, Iterable) or isinstance(values, str)
-- 
2.43.0


From 9ac24e3cbbedbd6ca907bc1c2e6dda7bd9879764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:48 +0000
Subject: [PATCH 32/43] fix: raise ValueError for an empty level string

---
 openscm/scmdataframe/filters.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openscm/scmdataframe/filters.py b/openscm/scmdataframe/filters.py
index eb804c1..1b2fa81 100644
--- a/openscm/scmdataframe/filters.py
+++ b/openscm/scmdataframe/filters.py
@@ -79,13 +79,13 @@ def find_depth(
         def test(x):
             return level == x
 
-    elif level[-1] == "-":
+    elif level.endswith("-"):
         _level = int(level[:-1])
 
         def test(x):
             return _level >= x
 
-    elif level[-1] == "+":
+    elif level.endswith("+"):
         _level = int(level[:-1])
 
         def test(x):
-- 
2.43.0


From 1b26e8b5e7d3921e5d711dcd6ae6de3e21e07d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:48 +0000
Subject: [PATCH 33/43] fix: match sequences of weekday names which are not
 lists

---
 openscm/scmdataframe/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openscm/scmdataframe/base.py b/openscm/scmdataframe/base.py
index 85da987..5192488 100644
--- a/openscm/scmdataframe/base.py
+++ b/openscm/scmdataframe/base.py
@@ -771,7 +771,7 @@ class ScmDataFrameBase:  # pylint: disable=too-many-public-methods
     def _day_match(self, values):
         if isinstance(values, str):
             wday = True
-        elif isinstance(values, list) and isinstance(values[0], str):
+        elif not isinstance(values, int) and isinstance(values[0], str):
             wday = True
         else:
             wday = False
-- 
2.43.0


From 980286740027fc1472a2b02d91672c04d9aa4bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:48 +0000
Subject: [PATCH 34/43] fix: appending does not drop metadata values which
 equal the fill value

---
 openscm/scmdataframe/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/openscm/scmdataframe/base.py b/openscm/scmdataframe/base.py
index 5192488..3cca524 100644
--- a/openscm/scmdataframe/base.py
+++ b/openscm/scmdataframe/base.py
@@ -1502,6 +1502,8 @@ def df_append(
 
     # should probably solve this https://github.com/pandas-dev/pandas/issues/3729
     na_fill_value = -999
+    while any(d.meta.isin([na_fill_value]).any().any() for d in joint_dfs):
+        na_fill_value -= 1
     for i, _ in enumerate(joint_dfs):
         for col in joint_meta_set:
             if col not in joint_dfs[i].meta:
-- 
2.43.0


From 0af0b39049058afe6a556f712847d9b83293e774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:18 +0000
Subject: [PATCH 35/43] fix: guess the parameter type of timeseries with a
 plain number as unit

---
 openscm/scmdataframe/parameter_type.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openscm/scmdataframe/parameter_type.py b/openscm/scmdataframe/parameter_type.py
index 5a15f16..419b351 100644
--- a/openscm/scmdataframe/parameter_type.py
+++ b/openscm/scmdataframe/parameter_type.py
@@ -54,7 +54,7 @@ def guess_parameter_type(variable_name: str, unit: Optional[str]) -> ParameterTy
     if unit:
         # try and determine if the unit contains a time dimension
         try:
-            pint_unit = _unit_registry(unit).units
+            pint_unit = _unit_registry.Quantity(unit).units
             if "[time]" in str(pint_unit.dimensionality):
                 return ParameterType.AVERAGE_TIMESERIES
 
-- 
2.43.0


From 31bd6d777c92b0063b48b74ed3c47b3c1f89849f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:18 +0000
Subject: [PATCH 36/43] fix: accept single values for the reference period

---
 openscm/scmdataframe/base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/openscm/scmdataframe/base.py b/openscm/scmdataframe/base.py
index 3cca524..ad67f59 100644
--- a/openscm/scmdataframe/base.py
+++ b/openscm/scmdataframe/base.py
@@ -1315,8 +1315,12 @@ class ScmDataFrameBase:  # pylint: disable=too-many-public-methods
         res.reset_index(inplace=True)
 
         if append_str is None:
+            limits = {
+                k: [v] if isinstance(v, str) or not isinstance(v, Iterable) else v
+                for k, v in kwargs.items()
+            }
             append_str = ";".join(
-                ["{}: {} - {}".format(k, v[0], v[-1]) for k, v in kwargs.items()]
+                ["{}: {} - {}".format(k, v[0], v[-1]) for k, v in limits.items()]
             )
             append_str = "(ref. period {})".format(append_str)
 
-- 
2.43.0


From 3f9f8643c94ba5834513b1426f7817051b62975b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:58 +0000
Subject: [PATCH 37/43] fix: filtering by an empty list of months or days
 selects nothing

---
 openscm/scmdataframe/base.py    | 4 +++-
 openscm/scmdataframe/filters.py | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/openscm/scmdataframe/base.py b/openscm/scmdataframe/base.py
index ad67f59..f66d05c 100644
--- a/openscm/scmdataframe/base.py
+++ b/openscm/scmdataframe/base.py
@@ -771,7 +771,9 @@ class ScmDataFrameBase:  # pylint: disable=too-many-public-methods
     def _day_match(self, values):
         if isinstance(values, str):
             wday = True
-        elif not isinstance(values, int) and isinstance(values[0], str):
+        elif (
+            not isinstance(values, int) and len(values) and isinstance(values[0], str)
+        ):
             wday = True
         else:
             wday = False
diff --git a/openscm/scmdataframe/filters.py b/openscm/scmdataframe/filters.py
index 1b2fa81..58d2282 100644
--- a/openscm/scmdataframe/filters.py
+++ b/openscm/scmdataframe/filters.py
@@ -359,7 +359,7 @@ def time_match(
             raise ValueError(error_msg)
         return res
 
-    if isinstance(times_list[0], str):
+    if len(times_list) and isinstance(times_list[0], str):
         to_convert = []
         to_append = []  # type: List
         for timeset in times_list:
-- 
2.43.0


From 13e815de134019b90e6af311ea85e82fac0fa9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:19 +0000
Subject: [PATCH 38/43] fix: filtering by level alone works with regexp

---
 openscm/scmdataframe/base.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/openscm/scmdataframe/base.py b/openscm/scmdataframe/base.py
index f66d05c..b6b4125 100644
--- a/openscm/scmdataframe/base.py
+++ b/openscm/scmdataframe/base.py
@@ -757,7 +757,6 @@ class ScmDataFrameBase:  # pylint: disable=too-many-public-methods
                         self.meta["variable"],
                         "*",
                         values,
-                        regexp=regexp,
                         has_nan=has_nan,
                         separator=self.data_hierarchy_separator,
                     ).values
-- 
2.43.0


From f79921f8d32189a4f23978b2b07f1809cddb37a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:12 +0000
Subject: [PATCH 39/43] fix: resampling works with times outside the range of
 pandas' timestamps

Rolling a time which is not on the rule used the offset's own arithmetic, which
converts to pd.Timestamp, and fixed steps such as days always did.
---
 openscm/scmdataframe/offsets.py | 38 +++++++++++++++++++++++----------
 1 file changed, 27 insertions(+), 11 deletions(-)

diff --git a/openscm/scmdataframe/offsets.py b/openscm/scmdataframe/offsets.py
index 93b2f94..ce3c693 100644
--- a/openscm/scmdataframe/offsets.py
+++ b/openscm/scmdataframe/offsets.py
@@ -18,6 +18,8 @@ from pandas.tseries.offsets import (
     BusinessMixin,
     DateOffset,
     NaT,
+    Nano,
+    Tick,
     as_datetime,
     conversion,
     normalize_date,
@@ -59,6 +61,26 @@ def apply_dt(func, self):
     return wrapper
 
 
+def wrap_apply(offset: DateOffset) -> DateOffset:
+    """
+    Replace ``offset.apply`` so that it keeps datetimes instead of converting them to
+    :class:`pd.Timestamp`.
+    """
+    # only functions which pandas has wrapped need replacing
+    if hasattr(offset.apply, "__wrapped__"):
+        orig_func = offset.apply.__wrapped__
+        object.__setattr__(offset, "apply", apply_dt(orig_func, offset))
+    elif isinstance(offset, Tick) and not isinstance(offset, Nano):
+        # fixed steps are added by :class:`pd.Timestamp` rather than a wrapped function
+        object.__setattr__(offset, "apply", apply_dt(_apply_tick, offset))
+
+    return offset
+
+
+def _apply_tick(tick: Tick, other: datetime.datetime) -> datetime.datetime:
+    return other + tick.delta.to_pytimedelta()
+
+
 def apply_rollforward(obj):
     """
     Roll provided date forward to next offset, only if not on offset.
@@ -67,7 +89,8 @@ def apply_rollforward(obj):
     def wrapper(dt: datetime.datetime) -> datetime.datetime:
         dt = as_datetime(dt)
         if not obj.onOffset(dt):
-            dt = dt + obj.__class__(1, normalize=obj.normalize, **obj.kwds)
+            step = obj.__class__(1, normalize=obj.normalize, **obj.kwds)
+            dt = wrap_apply(step).apply(dt)
         return as_datetime(dt)  # type: ignore # pandas doesn't have type annotations
 
     return wrapper
@@ -81,7 +104,8 @@ def apply_rollback(obj):
     def wrapper(dt: datetime.datetime) -> datetime.datetime:
         dt = as_datetime(dt)
         if not obj.onOffset(dt):
-            dt = dt - obj.__class__(1, normalize=obj.normalize, **obj.kwds)
+            step = obj.__class__(-1, normalize=obj.normalize, **obj.kwds)
+            dt = wrap_apply(step).apply(dt)
         return as_datetime(dt)  # type: ignore # pandas doesn't have type annotations
 
     return wrapper
@@ -119,15 +143,7 @@ def to_offset(rule: str) -> DateOffset:
             "Invalid rule for offset - Business related offsets are not supported"
         )
 
-    def wrap_funcs(fname):
-        # Checks if the function has been wrapped and replace with `apply_dt` wrapper
-        func = getattr(offset, fname)
-
-        if hasattr(func, "__wrapped__"):  # pragma: no cover
-            orig_func = func.__wrapped__
-            object.__setattr__(offset, fname, apply_dt(orig_func, offset))
-
-    wrap_funcs("apply")
+    wrap_apply(offset)
     object.__setattr__(offset, "rollforward", apply_rollforward(offset))
     object.__setattr__(offset, "rollback", apply_rollback(offset))
 
-- 
2.43.0


From 61bb2238c7d29e220b3309838f7b595cfbf85717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:18 +0000
Subject: [PATCH 40/43] fix: metadata given as a series with an index of its
 own is kept

Metadata columns passed as pandas.Series were aligned by their index when a
data frame was created, so that all values became missing unless the index
happened to be that of the data's columns.
---
 openscm/scmdataframe/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/openscm/scmdataframe/base.py b/openscm/scmdataframe/base.py
index b6b4125..44b1cd7 100644
--- a/openscm/scmdataframe/base.py
+++ b/openscm/scmdataframe/base.py
@@ -253,6 +253,8 @@ def _from_ts(
         )
 
         if len(col_list) == num_ts:
+            # one for each series in turn, also if it has an index of its own
+            columns[c_name] = list(col_list)
             continue
         if len(col_list) != 1:
             error_msg = (
-- 
2.43.0


From 8af85ff44221ed8d5d77d62b62bb05aa0f755197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:55 +0000
Subject: [PATCH 41/43] fix: data frames can be made from data with repeated
 labels

E.g. concatenated frames in wide format repeat the labels of their rows, which
identify the series, so that converting units or interpolating failed.
---
 openscm/scmdataframe/base.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/openscm/scmdataframe/base.py b/openscm/scmdataframe/base.py
index 44b1cd7..15ee902 100644
--- a/openscm/scmdataframe/base.py
+++ b/openscm/scmdataframe/base.py
@@ -389,6 +389,11 @@ class ScmDataFrameBase:  # pylint: disable=too-many-public-methods
 
             (_df, _meta) = _read_file(data, **kwargs)
 
+        if not _meta.index.is_unique:
+            # e.g. concatenated data, but the series are identified by their labels
+            _meta = _meta.reset_index(drop=True)
+            _df.columns = _meta.index
+
         self._time_points = TimePoints(_df.index.values)
         _df.index = self._time_points.to_index()
         _df = _df.astype(float)
-- 
2.43.0


From d1911819e8da35f6751a5e08fff6933ebf5c3857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:17 +0000
Subject: [PATCH 42/43] fix: units and names with parentheses survive the
 conversion to parameter sets

---
 openscm/scmdataframe/base.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/openscm/scmdataframe/base.py b/openscm/scmdataframe/base.py
index 15ee902..49868c9 100644
--- a/openscm/scmdataframe/base.py
+++ b/openscm/scmdataframe/base.py
@@ -530,11 +530,13 @@ class ScmDataFrameBase:  # pylint: disable=too-many-public-methods
                 timeseries_type=timeseries_type,
             ).values = vals.values
 
-        unit_regexp = re.compile(r".*\(.*\)")
+        # the name is followed by the unit, which may itself contain parentheses
+        unit_regexp = re.compile(r"(.*\S)\s*\(((?:[^()]|\([^()]*\))*)\)$")
         for k, v in meta_values.iteritems():
-            if unit_regexp.match(k):
-                para_name = k.split("(")[0].strip()
-                para_unit = k.split("(")[1].split(")")[0].strip()
+            match = unit_regexp.match(k)
+            if match:
+                para_name = match.group(1).strip()
+                para_unit = match.group(2).strip()
                 parameterset.scalar(para_name, para_unit).value = v
             else:
                 parameterset.generic(k).value = v
-- 
2.43.0


From 61f27f04b4b0e7a1cd8a70ed57eaf18f579a95af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:56:25 +0000
Subject: [PATCH 43/43] fix: global warming potentials of ethers are listed
 under the assessment report they belong to

---
 openscm/data/metric_conversions.csv | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/openscm/data/metric_conversions.csv b/openscm/data/metric_conversions.csv
index fc37bb9..5d36c32 100644
--- a/openscm/data/metric_conversions.csv
+++ b/openscm/data/metric_conversions.csv
@@ -55,19 +55,19 @@ C6F14,7400,9300,7910
 C10F18,,,7190
 SF5CF3,,17700,17400
 cC3F6,,,9200
-HFE125,14900,12400,
-HFE134,6320,5560,
-HFE143a,756,523,
-HCFE235da2,350,491,
-HFE245cb2,708,654,
-HFE245fa2,659,812,
-HFE347mcc3,575,530,
-HFE347pcf2,580,889,
+HFE125,,14900,12400
+HFE134,,6320,5560
+HFE143a,,756,523
+HCFE235da2,,350,491
+HFE245cb2,,708,654
+HFE245fa2,,659,812
+HFE347mcc3,,575,530
+HFE347pcf2,,580,889
 HFE356pcc3,110,413,
-HFE449sl,297,421,
-HFE569sf2,59,57,
-HFE4310pccc124,1870,2820,
-HFE236ca12,2800,5350,
+HFE449sl,,297,421
+HFE569sf2,,59,57
+HFE4310pccc124,,1870,2820
+HFE236ca12,,2800,5350
 HFE338pcc13,,1500,2910
 HFE227ea,,,6450
 HFE236ea2,,,1790
-- 
2.43.0

