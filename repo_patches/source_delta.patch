From 1bb399ed35de4e920699aa657346faae060a8e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:34 +0000
Subject: [PATCH 01/70] fix: neutral activation weight stays 0.5 for integer
 feature values

---
 .../features/weights/activation_monotonic_weight_kernel.py      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mt_metadata/features/weights/activation_monotonic_weight_kernel.py b/mt_metadata/features/weights/activation_monotonic_weight_kernel.py
index f723a09..214d8fb 100644
--- a/mt_metadata/features/weights/activation_monotonic_weight_kernel.py
+++ b/mt_metadata/features/weights/activation_monotonic_weight_kernel.py
@@ -88,7 +88,7 @@ class ActivationMonotonicWeightKernel(MonotonicWeightKernel):
         # Infinite bounds: fallback (could be extended for custom behavior)
         msg = "ActivationMonotonicWeightKernel only supports finite transition bounds. "
         logger.warning(msg + "Returning 0.5 for all values.")
-        return np.full_like(values, 0.5)
+        return np.full_like(values, 0.5, dtype=float)
 
     def evaluate(self, values: NDArray) -> NDArray:
         """
-- 
2.43.0


From 5b910587d233d494b6176824fa3c5aa6f1afe3f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:19 +0000
Subject: [PATCH 02/70] fix: leap seconds are defined on 2012-06-30 and
 2016-12-31

---
 mt_metadata/common/mttime.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mt_metadata/common/mttime.py b/mt_metadata/common/mttime.py
index 552d8de..b37706e 100644
--- a/mt_metadata/common/mttime.py
+++ b/mt_metadata/common/mttime.py
@@ -57,9 +57,9 @@ leap_second_dict = {
     12: {"min": datetime.date(1997, 7, 1), "max": datetime.date(1999, 1, 1)},
     13: {"min": datetime.date(1999, 1, 1), "max": datetime.date(2006, 1, 1)},
     14: {"min": datetime.date(2006, 1, 1), "max": datetime.date(2009, 1, 1)},
-    15: {"min": datetime.date(2009, 1, 1), "max": datetime.date(2012, 6, 30)},
+    15: {"min": datetime.date(2009, 1, 1), "max": datetime.date(2012, 7, 1)},
     16: {"min": datetime.date(2012, 7, 1), "max": datetime.date(2015, 7, 1)},
-    17: {"min": datetime.date(2015, 7, 1), "max": datetime.date(2016, 12, 31)},
+    17: {"min": datetime.date(2015, 7, 1), "max": datetime.date(2017, 1, 1)},
     18: {"min": datetime.date(2017, 1, 1), "max": datetime.date(2026, 7, 1)},
 }
 
-- 
2.43.0


From f0668db2286740fa62a5bdabf545794c310404bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:19 +0000
Subject: [PATCH 03/70] fix: a time is not greater than itself

---
 mt_metadata/common/mttime.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mt_metadata/common/mttime.py b/mt_metadata/common/mttime.py
index b37706e..8c6e4fd 100644
--- a/mt_metadata/common/mttime.py
+++ b/mt_metadata/common/mttime.py
@@ -707,7 +707,10 @@ class MTime(BaseModel):
         bool
             True if other is greater than the current time stamp, otherwise False
         """
-        return not self.__lt__(other)
+        if not isinstance(other, MTime):
+            other = MTime(time_stamp=other)
+
+        return bool(self.time_stamp > other.time_stamp)
 
     def __ge__(
         self,
-- 
2.43.0


From b19f7a0151f61dd4dab80313d227f2712f45fd43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:53 +0000
Subject: [PATCH 04/70] fix: time stamps given with an offset are converted to
 UTC

---
 mt_metadata/common/mttime.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mt_metadata/common/mttime.py b/mt_metadata/common/mttime.py
index 8c6e4fd..a10afae 100644
--- a/mt_metadata/common/mttime.py
+++ b/mt_metadata/common/mttime.py
@@ -162,6 +162,8 @@ def _localize_utc(stamp: pd.Timestamp) -> pd.Timestamp:
     # check time zone and enforce UTC
     if stamp.tz is None:
         stamp = stamp.tz_localize("UTC").tz_convert("UTC")
+    else:
+        stamp = stamp.tz_convert("UTC")
 
     return stamp
 
-- 
2.43.0


From 19af2d7f001cf1a18e5af51e679204948753be62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:10 +0000
Subject: [PATCH 05/70] fix: MTime.from_dict parses the value it is given

---
 mt_metadata/common/mttime.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mt_metadata/common/mttime.py b/mt_metadata/common/mttime.py
index a10afae..c33def8 100644
--- a/mt_metadata/common/mttime.py
+++ b/mt_metadata/common/mttime.py
@@ -838,7 +838,7 @@ class MTime(BaseModel):
         value : str | int | float | np.datetime64 | pd.Timestamp
             time stamp value
         """
-        self.time_stamp = value
+        self.time_stamp = parse(value, gps_time=self.gps_time)
 
     @property
     def iso_str(self) -> str:
@@ -1270,4 +1270,4 @@ class MDate(MTime):
         value : str | int | float | np.datetime64 | pd.Timestamp
             time stamp value
         """
-        self.time_stamp = value
+        self.time_stamp = parse(value, gps_time=self.gps_time)
-- 
2.43.0


From 1e345b36e121bf494e7631bf70a957b9a585cb78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:50 +0000
Subject: [PATCH 06/70] fix: normalization frequency without a pass band is nan

---
 mt_metadata/timeseries/filters/pole_zero_filter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mt_metadata/timeseries/filters/pole_zero_filter.py b/mt_metadata/timeseries/filters/pole_zero_filter.py
index db28d28..9686b68 100644
--- a/mt_metadata/timeseries/filters/pole_zero_filter.py
+++ b/mt_metadata/timeseries/filters/pole_zero_filter.py
@@ -222,9 +222,9 @@ class PoleZeroFilter(FilterBase):
         """
         pass_band = self.pass_band(frequencies, window_len, tol)
         if pass_band is None:
-            return np.NAN
+            return np.nan
         if pass_band.size == 0:
-            return np.NAN
+            return np.nan
 
         if estimate == "mean":
             return pass_band.mean()
-- 
2.43.0


From d442b81e59b6b79581120fa9f2e341f82f2e75af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:50 +0000
Subject: [PATCH 07/70] fix: a time delay filter applies its gain

---
 mt_metadata/timeseries/filters/time_delay_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mt_metadata/timeseries/filters/time_delay_filter.py b/mt_metadata/timeseries/filters/time_delay_filter.py
index 68b9638..8a67536 100644
--- a/mt_metadata/timeseries/filters/time_delay_filter.py
+++ b/mt_metadata/timeseries/filters/time_delay_filter.py
@@ -120,4 +120,4 @@ class TimeDelayFilter(FilterBase):
         w = 2 * np.pi * frequencies
         exponent = -1.0j * w * self.delay
         spectral_shift_multiplier = np.exp(exponent)
-        return spectral_shift_multiplier
+        return self.gain * spectral_shift_multiplier
-- 
2.43.0


From 419de6467d411efea8f819b439c7f8710bf09501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:44 +0000
Subject: [PATCH 08/70] fix: ListDict.pop removes the named item instead of the
 last one

---
 mt_metadata/common/list_dict.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mt_metadata/common/list_dict.py b/mt_metadata/common/list_dict.py
index 0ba55c1..d4aa581 100644
--- a/mt_metadata/common/list_dict.py
+++ b/mt_metadata/common/list_dict.py
@@ -297,7 +297,7 @@ class ListDict:
         """
 
         if key in self.keys():
-            return dict([self._home.popitem(key)])
+            return {key: self._home.pop(key)}
         else:
             raise KeyError(f"{key} is not in ListDict keys.")
 
-- 
2.43.0


From 49830050f6db666a7852c55fa50b2cf67de8911e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:21 +0000
Subject: [PATCH 09/70] fix: a separator other than a dot is used at every
 nesting level

---
 mt_metadata/base/helpers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mt_metadata/base/helpers.py b/mt_metadata/base/helpers.py
index cab2b67..288f29e 100644
--- a/mt_metadata/base/helpers.py
+++ b/mt_metadata/base/helpers.py
@@ -601,7 +601,7 @@ def recursive_split_dict(key, value, remainder, sep="."):
 
     key, *other = key.split(sep, 1)
     if other:
-        recursive_split_dict(other[0], value, remainder.setdefault(key, {}))
+        recursive_split_dict(other[0], value, remainder.setdefault(key, {}), sep=sep)
     else:
         remainder[key] = value
 
@@ -647,7 +647,7 @@ def recursive_split_getattr(base_object, name, sep="."):
 
     if other:
         base_object = getattr(base_object, key)
-        value, prop = recursive_split_getattr(base_object, other[0])
+        value, prop = recursive_split_getattr(base_object, other[0], sep=sep)
     else:
         # with Pydantic, if the attribute does not exist an attribute error
         # will be raised, which is desired. The only issue will be if the
@@ -688,7 +688,7 @@ def recursive_split_setattr(base_object, name, value, sep=".", skip_validation=F
 
     if other:
         base_object = getattr(base_object, key)
-        recursive_split_setattr(base_object, other[0], value)
+        recursive_split_setattr(base_object, other[0], value, sep=sep)
     else:
         # if the value is a list or dict then we need to add accordingly
         if isinstance(value, list):
-- 
2.43.0


From 66bad546014f4978047d1e938d769a67b99317a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:55 +0000
Subject: [PATCH 10/70] fix: reading a class attribute by name does not raise
 UnboundLocalError

---
 mt_metadata/base/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mt_metadata/base/helpers.py b/mt_metadata/base/helpers.py
index 288f29e..e74a7cf 100644
--- a/mt_metadata/base/helpers.py
+++ b/mt_metadata/base/helpers.py
@@ -652,11 +652,11 @@ def recursive_split_getattr(base_object, name, sep="."):
         # with Pydantic, if the attribute does not exist an attribute error
         # will be raised, which is desired. The only issue will be if the
         # attribute is an alias, then TODO create a get from alias method.
+        prop = False
         try:
             value = getattr(base_object, key)
         except AttributeError:
             value = None
-            prop = False
         try:
             if isinstance(getattr(type(base_object), key), property):
                 prop = True
-- 
2.43.0


From 36f590c4072f1faf80a6fce71c0d198dfe385185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:17 +0000
Subject: [PATCH 11/70] fix: positions between -1 and 0 degrees keep their sign

---
 mt_metadata/utils/location_helpers.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/mt_metadata/utils/location_helpers.py b/mt_metadata/utils/location_helpers.py
index 6bf886b..59ed120 100644
--- a/mt_metadata/utils/location_helpers.py
+++ b/mt_metadata/utils/location_helpers.py
@@ -26,12 +26,12 @@ def convert_position_float2str(position: float | int) -> str:
         logger.error(msg)
         raise TypeError(msg)
 
-    deg = int(position)
-    sign = 1
-    if deg < 0:
-        sign = -1
+    # the sign is kept apart from the degrees, which may be 0
+    sign = ""
+    if position < 0:
+        sign = "-"
 
-    deg = abs(deg)
+    deg = abs(int(position))
     minutes = (abs(position) - deg) * 60.0
     # need to round seconds to 4 decimal places otherwise machine precision
     # keeps the 60 second roll over and the string is incorrect.
@@ -44,7 +44,7 @@ def convert_position_float2str(position: float | int) -> str:
         deg += 1
         minutes = 0
 
-    position_str = f"{sign * int(deg)}:{int(minutes):02.0f}:{sec:05.6f}"
+    position_str = f"{sign}{int(deg)}:{int(minutes):02.0f}:{sec:05.6f}"
     logger.debug(f"Converted {position} to {position_str}")
 
     return position_str
@@ -92,7 +92,7 @@ def convert_position_str2float(position_str: str) -> float:
     # get the sign of the position so that when all are added together the
     # position is in the correct place
     sign = 1
-    if deg < 0:
+    if p_list[0].strip().startswith("-"):
         sign = -1
 
     position_value = sign * (abs(deg) + minutes / 60.0 + sec / 3600.0)
-- 
2.43.0


From 598c502eab33131a9985fcb8ead96cc16d683c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:57 +0000
Subject: [PATCH 12/70] fix: channel dictionaries are typed by their component
 when no type is given, h is magnetic

---
 mt_metadata/timeseries/run.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mt_metadata/timeseries/run.py b/mt_metadata/timeseries/run.py
index 77867e7..ad9d6ec 100644
--- a/mt_metadata/timeseries/run.py
+++ b/mt_metadata/timeseries/run.py
@@ -1067,14 +1067,14 @@ class Run(MetadataBase):
 
         elif isinstance(channel_obj, (dict, OrderedDict)):
             try:
-                ch_type = channel_obj["type"]
+                ch_type = channel_obj.get("type")
                 if ch_type is None:
                     ch_type = channel_obj["component"][0]
 
                 if ch_type.lower().startswith("e"):
                     return Electric(**channel_obj)
                 elif (
-                    ch_type.lower().startswith("b")
+                    ch_type.lower().startswith("h")
                     or ch_type.lower().startswith("b")
                     or ch_type.lower() in ["magnetic"]
                 ):
-- 
2.43.0


From a741061c0ad6df627dcc254abae25c6aa02412be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:57 +0000
Subject: [PATCH 13/70] fix: removing a run does not add its channels to
 another run

---
 mt_metadata/timeseries/station.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mt_metadata/timeseries/station.py b/mt_metadata/timeseries/station.py
index ff04a64..d33ff0a 100644
--- a/mt_metadata/timeseries/station.py
+++ b/mt_metadata/timeseries/station.py
@@ -512,6 +512,9 @@ class Station(MetadataBase):
         if self.has_run(run_id):
             self.runs.remove(run_id)
             if update:
+                # otherwise the channels of the removed run would be given to
+                # the first of the remaining runs
+                self._empty_channels_recorded()
                 self.update_all()
         else:
             logger.warning(f"Could not find {run_id} to remove.")
-- 
2.43.0


From 5a8b1e04e928356ca376378a54a6817371cdf12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:57 +0000
Subject: [PATCH 14/70] fix: sorting runs by start time works and follows the
 requested order

---
 mt_metadata/timeseries/station.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/mt_metadata/timeseries/station.py b/mt_metadata/timeseries/station.py
index d33ff0a..6a87fe8 100644
--- a/mt_metadata/timeseries/station.py
+++ b/mt_metadata/timeseries/station.py
@@ -554,17 +554,15 @@ class Station(MetadataBase):
 
         """
 
-        run_ids = []
-        run_starts = []
-        for run_key, run_obj in self.runs.items():
-            run_ids.append(run_key)
-            run_starts.append(run_obj.time_period.start.split("+")[0])
-
-        index = np.argsort(np.array(run_starts, dtype=np.datetime64))
+        sorted_runs = sorted(
+            self.runs.items(),
+            key=lambda item: item[1].time_period.start,
+            reverse=not ascending,
+        )
 
         new_runs = ListDict()
-        for ii in index:
-            new_runs[run_ids[ii]] = self.runs[run_ids[ii]]
+        for run_key, run_obj in sorted_runs:
+            new_runs[run_key] = run_obj
 
         if inplace:
             self.runs = new_runs
-- 
2.43.0


From 9cf68871d28c1421400a42bcb9bef1afb345ab0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:03 +0000
Subject: [PATCH 15/70] fix: the transfer function model error can be set

---
 mt_metadata/transfer_functions/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mt_metadata/transfer_functions/core.py b/mt_metadata/transfer_functions/core.py
index 098d36f..8894836 100644
--- a/mt_metadata/transfer_functions/core.py
+++ b/mt_metadata/transfer_functions/core.py
@@ -622,6 +622,7 @@ class TF:
             "res": self.ex_ey_hz,
             "tf": self.hx_hy,
             "tf_error": self.hx_hy,
+            "tf_model_error": self.hx_hy,
             "all": [self.ex, self.ey, self.hz, self.hx, self.hy],
         }
 
@@ -638,6 +639,7 @@ class TF:
             "res": self.ex_ey_hz,
             "tf": self.ex_ey_hz,
             "tf_error": self.ex_ey_hz,
+            "tf_model_error": self.ex_ey_hz,
             "all": [self.ex, self.ey, self.hz, self.hx, self.hy],
         }
 
@@ -771,6 +773,7 @@ class TF:
             "transfer_function_error": (3, 2),
             "tf": (3, 2),
             "tf_error": (3, 2),
+            "tf_model_error": (3, 2),
         }
 
         shape = shape_dict[atype]
-- 
2.43.0


From d76ecaaaa6c4e5c3f499729cffc563bb8c538ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:03 +0000
Subject: [PATCH 16/70] fix: comparing a TF with another type is False

---
 mt_metadata/transfer_functions/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mt_metadata/transfer_functions/core.py b/mt_metadata/transfer_functions/core.py
index 8894836..757f658 100644
--- a/mt_metadata/transfer_functions/core.py
+++ b/mt_metadata/transfer_functions/core.py
@@ -180,7 +180,7 @@ class TF:
         is_equal = True
         if not isinstance(other, TF):
             logger.info(f"Comparing object is not TF, type {type(other)}")
-            is_equal = False
+            return False
         if self.station_metadata != other.station_metadata:
             logger.info("Station metadata is not equal")
             is_equal = False
-- 
2.43.0


From 9a51223571bcd36e570debd659d3142672cb7a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:03 +0000
Subject: [PATCH 17/70] fix: the inverse channel nomenclature follows the
 channel nomenclature

---
 mt_metadata/transfer_functions/core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mt_metadata/transfer_functions/core.py b/mt_metadata/transfer_functions/core.py
index 757f658..8f9d2db 100644
--- a/mt_metadata/transfer_functions/core.py
+++ b/mt_metadata/transfer_functions/core.py
@@ -599,6 +599,7 @@ class TF:
             )
 
         self._channel_nomenclature = ch_dict
+        self._inverse_channel_nomenclature = {}
         # unpack channel nomenclature dict
         self.ex = self._channel_nomenclature["ex"]
         self.ey = self._channel_nomenclature["ey"]
-- 
2.43.0


From b8218b7e17a3d74bd088bf359270ef7710885372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:03 +0000
Subject: [PATCH 18/70] fix: TF arguments are applied to a data set with the
 given channel names

---
 mt_metadata/transfer_functions/core.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/mt_metadata/transfer_functions/core.py b/mt_metadata/transfer_functions/core.py
index 8f9d2db..2367e64 100644
--- a/mt_metadata/transfer_functions/core.py
+++ b/mt_metadata/transfer_functions/core.py
@@ -87,6 +87,9 @@ class TF:
             "avg": {"write": self.to_avg, "read": self.from_avg},
         }
 
+        if "channel_nomenclature" in kwargs:
+            self.channel_nomenclature = kwargs.pop("channel_nomenclature")
+
         tf_set = False
         try:
             period = kwargs.pop("period")
@@ -102,12 +105,12 @@ class TF:
             except KeyError:
                 pass
 
-        for key, value in kwargs.items():
-            setattr(self, key, value)
-
         if not tf_set:
             self._transfer_function = self._initialize_transfer_function()
 
+        for key, value in kwargs.items():
+            setattr(self, key, value)
+
         self.fn = fn
 
     @property
-- 
2.43.0


From d1222bca90b84fe9afcde759bc2c9643933288b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:03 +0000
Subject: [PATCH 19/70] fix: merging sorts the periods of every transfer
 function and leaves the inputs alone

---
 mt_metadata/transfer_functions/core.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/mt_metadata/transfer_functions/core.py b/mt_metadata/transfer_functions/core.py
index 2367e64..3ae75d0 100644
--- a/mt_metadata/transfer_functions/core.py
+++ b/mt_metadata/transfer_functions/core.py
@@ -1808,9 +1808,6 @@ class TF:
             """
             item = validate_dict(item)
             period_slice = get_slice_dict(item["period_min"], item["period_max"])
-            item["tf"]._transfer_function = sort_by_period(
-                item["tf"]._transfer_function
-            )
             return get_slice(item["tf"], period_slice)
 
         def get_slice(tf, period_slice: dict[str, slice]) -> xr.Dataset | None:
@@ -1834,7 +1831,7 @@ class TF:
                 The sliced transfer function.
             """
             try:
-                return tf._transfer_function.loc[period_slice]
+                return sort_by_period(tf._transfer_function).loc[period_slice]
 
             except KeyError:
                 if (
-- 
2.43.0


From 51d14a87d052d49bc9857fbdde8a130d5e992b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:46 +0000
Subject: [PATCH 20/70] fix: setting an all zero covariance does not raise
 AttributeError

---
 mt_metadata/transfer_functions/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mt_metadata/transfer_functions/core.py b/mt_metadata/transfer_functions/core.py
index 3ae75d0..bac3de5 100644
--- a/mt_metadata/transfer_functions/core.py
+++ b/mt_metadata/transfer_functions/core.py
@@ -1395,7 +1395,7 @@ class TF:
 
         """
         self._set_data_array(value, "isp")
-        if self.has_residual_covariance():
+        if self.has_inverse_signal_power() and self.has_residual_covariance():
             self._compute_error_from_covariance()
 
     def has_residual_covariance(self) -> bool:
@@ -1461,7 +1461,7 @@ class TF:
 
         """
         self._set_data_array(value, "res")
-        if self.has_inverse_signal_power():
+        if self.has_inverse_signal_power() and self.has_residual_covariance():
             self._compute_error_from_covariance()
 
     def _compute_impedance_error_from_covariance(self) -> None:
-- 
2.43.0


From 2ae318a616f16572d1365b6fb511f6888335f382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:19 +0000
Subject: [PATCH 21/70] fix: declination written to an EDI header is read back

---
 mt_metadata/transfer_functions/io/edi/metadata/header.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mt_metadata/transfer_functions/io/edi/metadata/header.py b/mt_metadata/transfer_functions/io/edi/metadata/header.py
index a9cdd47..34f809b 100644
--- a/mt_metadata/transfer_functions/io/edi/metadata/header.py
+++ b/mt_metadata/transfer_functions/io/edi/metadata/header.py
@@ -420,6 +420,9 @@ class Header(BasicLocation, GeographicLocation):
             if key == "declination":
                 setattr(self.declination, "value", value)
                 continue
+            elif key.startswith("declination."):
+                self.update_attribute(key, value)
+                continue
             elif key in ["long", "lon", "lonigutde"]:
                 key = "longitude"
             elif key in ["lat", "latitude"]:
-- 
2.43.0


From 00829131f60ee4c5158fe893598ea17cd793b600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:33 +0000
Subject: [PATCH 22/70] fix: impedance from apparent resistivity and phase
 keeps its quadrant

---
 mt_metadata/transfer_functions/io/edi/edi.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/mt_metadata/transfer_functions/io/edi/edi.py b/mt_metadata/transfer_functions/io/edi/edi.py
index e0f9d26..450577e 100644
--- a/mt_metadata/transfer_functions/io/edi/edi.py
+++ b/mt_metadata/transfer_functions/io/edi/edi.py
@@ -431,16 +431,15 @@ class EDI:
                     self.logger.debug("Reading RHO and PHS to compute impedance")
                     if (self.z[:, ii, jj] == 0).all():
                         phase = data_dict[f"phs{key[-2:]}"]
-                        z_real = np.sqrt(
-                            (5 * self.frequency * data_dict[key])
-                            / (np.tan(np.deg2rad(phase)) ** 2 + 1)
-                        )
-                        z_imag = (np.tan(np.deg2rad(phase))) * z_real
+                        z_abs = np.sqrt(5 * self.frequency * data_dict[key])
+                        z_real = z_abs * np.cos(np.deg2rad(phase))
+                        z_imag = z_abs * np.sin(np.deg2rad(phase))
+                        obj[:, ii, jj] = z_real + 1j * z_imag
+                        # the phase of yx can be given in the first quadrant,
+                        # its real part is negative
                         if ii == 1 and jj == 0:
                             if phase.mean() < 90 and phase.mean() > 0:
-                                obj[:, ii, jj] = -1 * (z_real + 1j * z_imag)
-                        else:
-                            obj[:, ii, jj] = z_real + 1j * z_imag
+                                obj[:, ii, jj] *= -1 * np.sign(z_real)
                         error_obj[:, ii, jj] = np.deg2rad(
                             data_dict[f"phs{key[-2:]}.err"]
                         ) * np.sqrt(data_dict[key] * (self.frequency * 5))
-- 
2.43.0


From 0a1679f69f3849b62d061a3cac91ffe86de9f0b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:33 +0000
Subject: [PATCH 23/70] fix: cross powers of an EDI file with spectra of four
 channels

---
 mt_metadata/transfer_functions/io/edi/edi.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mt_metadata/transfer_functions/io/edi/edi.py b/mt_metadata/transfer_functions/io/edi/edi.py
index 450577e..b4bb9f0 100644
--- a/mt_metadata/transfer_functions/io/edi/edi.py
+++ b/mt_metadata/transfer_functions/io/edi/edi.py
@@ -618,11 +618,11 @@ class EDI:
                 re[0, 0] = s_arr[cc.rhx, cc.ex]
                 re[0, 1] = s_arr[cc.rhx, cc.ey]
                 re[1, 0] = s_arr[cc.rhy, cc.ex]
-                re[1, 0] = s_arr[cc.rhy, cc.ey]
+                re[1, 1] = s_arr[cc.rhy, cc.ey]
 
                 he[0, 0] = s_arr[cc.hx, cc.ex]
                 he[0, 1] = s_arr[cc.hx, cc.ey]
-                he[0, 1] = s_arr[cc.hy, cc.ex]
+                he[1, 0] = s_arr[cc.hy, cc.ex]
                 he[1, 1] = s_arr[cc.hy, cc.ey]
 
                 ee[0, 0] = s_arr[cc.ex, cc.ex]
-- 
2.43.0


From edea041bb689635c14ce599187b90f51240f0081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:33 +0000
Subject: [PATCH 24/70] fix: an EDI file written with channel filters can be
 read

---
 mt_metadata/transfer_functions/io/edi/edi.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mt_metadata/transfer_functions/io/edi/edi.py b/mt_metadata/transfer_functions/io/edi/edi.py
index b4bb9f0..294fd12 100644
--- a/mt_metadata/transfer_functions/io/edi/edi.py
+++ b/mt_metadata/transfer_functions/io/edi/edi.py
@@ -1345,6 +1345,9 @@ class EDI:
                     continue
                 elif ".type" in key:
                     continue
+                # filters cannot be recovered from a line of text
+                elif key.endswith(".filters") and isinstance(value, str):
+                    continue
                 if f".{comp}." in key:
                     key = key.split(f".{comp}.", 1)[-1]
                     electric.update_attribute(key, value)
-- 
2.43.0


From 41efd407b647b89860b8cd3f1a47a0fe15f3654d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:33 +0000
Subject: [PATCH 25/70] fix: an EDI file with one frequency is read and
 rotation angles follow the frequencies

---
 mt_metadata/transfer_functions/io/edi/edi.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/mt_metadata/transfer_functions/io/edi/edi.py b/mt_metadata/transfer_functions/io/edi/edi.py
index 294fd12..1e1e182 100644
--- a/mt_metadata/transfer_functions/io/edi/edi.py
+++ b/mt_metadata/transfer_functions/io/edi/edi.py
@@ -250,7 +250,7 @@ class EDI:
         frequency.
 
         """
-        if self.frequency is not None:
+        if self.frequency is not None and len(self.frequency) > 1:
             if self.frequency[0] < self.frequency[1]:
                 self.logger.debug(
                     "Ordered arrays to be arranged from high to low frequency"
@@ -264,6 +264,8 @@ class EDI:
                     self.t = self.t[::-1]
                 if self.t_err is not None:
                     self.t_err = self.t_err[::-1]
+                if isinstance(self.rotation_angle, np.ndarray):
+                    self.rotation_angle = self.rotation_angle[::-1]
 
     def read(self, fn: str | Path | None = None, get_elevation: bool = False) -> None:
         """
@@ -445,9 +447,6 @@ class EDI:
                         ) * np.sqrt(data_dict[key] * (self.frequency * 5))
             except KeyError as error:
                 self.logger.debug(error)
-        # check for order of frequency, we want high togit  low
-        self._assert_descending_frequency()
-
         try:
             self.rotation_angle = np.array(data_dict["zrot"])
         except KeyError:
@@ -456,6 +455,9 @@ class EDI:
             except KeyError:
                 self.rotation_angle = np.zeros_like(self.frequency)
 
+        # check for order of frequency, we want high togit  low
+        self._assert_descending_frequency()
+
     def _read_spectra(
         self,
         data_lines: list[str],
-- 
2.43.0


From 17cce09c6effb7aad1086ece40b3c76b4d40a1d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:43 +0000
Subject: [PATCH 26/70] fix: read empty and optional EMTF XML elements, write
 enumerations by value

---
 .../io/emtfxml/metadata/data_types.py         |  2 +-
 .../io/emtfxml/metadata/helpers.py            | 27 +++++++++++++++++--
 .../emtfxml/metadata/statistical_estimates.py |  2 +-
 3 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/mt_metadata/transfer_functions/io/emtfxml/metadata/data_types.py b/mt_metadata/transfer_functions/io/emtfxml/metadata/data_types.py
index 108cc9f..d9177f0 100644
--- a/mt_metadata/transfer_functions/io/emtfxml/metadata/data_types.py
+++ b/mt_metadata/transfer_functions/io/emtfxml/metadata/data_types.py
@@ -62,7 +62,7 @@ class DataTypes(MetadataBase):
         """
         try:
             self.data_types_list = input_dict["data_types"]["data_type"]
-        except KeyError:
+        except (KeyError, TypeError):
             logger.warning("Could not read Data Types")
 
     def to_xml(self, string: bool = False, required: bool = True) -> str | et.Element:
diff --git a/mt_metadata/transfer_functions/io/emtfxml/metadata/helpers.py b/mt_metadata/transfer_functions/io/emtfxml/metadata/helpers.py
index 3703df0..bd0bbd7 100644
--- a/mt_metadata/transfer_functions/io/emtfxml/metadata/helpers.py
+++ b/mt_metadata/transfer_functions/io/emtfxml/metadata/helpers.py
@@ -9,6 +9,7 @@ Created on Wed Mar  8 19:53:04 2023
 # Imports
 # =============================================================================
 from collections import OrderedDict
+from enum import Enum
 from xml.etree import cElementTree as et
 
 from loguru import logger
@@ -117,10 +118,32 @@ def _write_single(
 
     element = et.SubElement(parent, _capwords(key), attributes)
     if value not in NULL_VALUES:
-        element.text = str(value)
+        element.text = str(value.value if isinstance(value, Enum) else value)
     return element
 
 
+def _remove_empty(root_dict: dict) -> dict:
+    """
+    Remove elements that hold no value, those are the empty ones.
+
+    Parameters
+    ----------
+    root_dict : dict
+        The dictionary containing the data.
+
+    Returns
+    -------
+    dict
+        The dictionary without empty elements.
+    """
+
+    return {
+        key: _remove_empty(value) if isinstance(value, dict) else value
+        for key, value in root_dict.items()
+        if value is not None
+    }
+
+
 def _read_element(cls: type, root_dict: dict, element_name: str) -> None:
     """
     Read an XML element into a class instance.
@@ -137,7 +160,7 @@ def _read_element(cls: type, root_dict: dict, element_name: str) -> None:
 
     try:
         element_dict = {element_name: root_dict[element_name]}
-        cls.from_dict(element_dict)
+        cls.from_dict(_remove_empty(element_dict))
 
     except KeyError:
         logger.warning(f"No {element_name} in EMTF XML")
diff --git a/mt_metadata/transfer_functions/io/emtfxml/metadata/statistical_estimates.py b/mt_metadata/transfer_functions/io/emtfxml/metadata/statistical_estimates.py
index 24c2299..7ca6c80 100644
--- a/mt_metadata/transfer_functions/io/emtfxml/metadata/statistical_estimates.py
+++ b/mt_metadata/transfer_functions/io/emtfxml/metadata/statistical_estimates.py
@@ -59,7 +59,7 @@ class StatisticalEstimates(MetadataBase):
 
         try:
             self.estimates_list = input_dict["statistical_estimates"]["estimate"]
-        except KeyError:
+        except (KeyError, TypeError):
             logger.warning("Could not statistical estimates")
 
     def to_xml(self, string: bool = False, required: bool = True) -> str | et.Element:
-- 
2.43.0


From 3e303b6d00cd84321ac5496e9ebecbe633d0529a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:43 +0000
Subject: [PATCH 27/70] fix: read an EMTF XML file with a single period

---
 .../transfer_functions/io/emtfxml/metadata/data.py        | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mt_metadata/transfer_functions/io/emtfxml/metadata/data.py b/mt_metadata/transfer_functions/io/emtfxml/metadata/data.py
index dcfa9d9..567471d 100644
--- a/mt_metadata/transfer_functions/io/emtfxml/metadata/data.py
+++ b/mt_metadata/transfer_functions/io/emtfxml/metadata/data.py
@@ -352,13 +352,17 @@ class TransferFunction(MetadataBase):
         """
         if self._skip_derived_data:
             logger.debug("Skipping derived quantities.")
+        # a single period is not in a list
+        blocks = root_dict["data"]["period"]
+        if not isinstance(blocks, list):
+            blocks = [blocks]
         try:
             n_periods = int(float((root_dict["data"]["count"].strip())))
         except KeyError:
-            n_periods = len(root_dict["data"]["period"])
+            n_periods = len(blocks)
 
         self.initialize_arrays(n_periods)
-        for ii, block in enumerate(root_dict["data"]["period"]):
+        for ii, block in enumerate(blocks):
             self.period[ii] = float(block["value"])  # type: ignore[assignment]
             self.read_block(block, ii)
 
-- 
2.43.0


From fdf985556371d8cd7fc5052c4c090c91a9a3dd73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:43 +0000
Subject: [PATCH 28/70] fix: read EMTF XML field notes without errors

---
 mt_metadata/transfer_functions/io/emtfxml/metadata/run.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mt_metadata/transfer_functions/io/emtfxml/metadata/run.py b/mt_metadata/transfer_functions/io/emtfxml/metadata/run.py
index 821d31d..927a098 100644
--- a/mt_metadata/transfer_functions/io/emtfxml/metadata/run.py
+++ b/mt_metadata/transfer_functions/io/emtfxml/metadata/run.py
@@ -181,7 +181,9 @@ class Run(MetadataBase):
                 self.comments.from_dict({"comments": input_dict["comments"]})
         except KeyError:
             logger.debug("run has no comments")
-        self.errors = input_dict["errors"]
+        # errors are only written if there are any
+        if input_dict.get("errors") is not None:
+            self.errors = input_dict["errors"]
 
         try:
             if isinstance(input_dict["magnetometer"], list):
-- 
2.43.0


From 9591765e76340c417f6cf005f56ab2d7fbe3c139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:43 +0000
Subject: [PATCH 29/70] fix: EMTF XML station without sampled runs or with
 channels missing from the field notes

---
 mt_metadata/transfer_functions/io/emtfxml/emtfxml.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py b/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py
index fa0566c..93f6d13 100644
--- a/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py
+++ b/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py
@@ -1107,9 +1107,8 @@ class EMTFXML:
             for ch in (
                 self.site_layout.input_channels + self.site_layout.output_channels
             ):
-                try:
-                    c = r.get_channel(ch.name.lower())
-                except AttributeError:
+                c = r.get_channel(ch.name.lower())
+                if c is None:
                     # if the channel does not exist, create it.
                     if ch.name.lower() in ["ex", "ey"]:  # electric channels
                         c = Electric()
@@ -1136,10 +1135,12 @@ class EMTFXML:
                 c.time_period.end = fn.end
             s.add_run(r)
 
-        if self.field_notes._run_list == []:
+        if len(s.runs) == 0:
             r = Run(id=f"{s.id}a")
             r.channels_recorded_electric = ["ex", "ey"]
-            if (self.data.t == 0).all():
+            if (
+                self.data.t == 0
+            ).all() and "hz" not in self.site_layout.output_channel_names:
                 r.channels_recorded_magnetic = ["hx", "hy"]
             else:
                 r.channels_recorded_magnetic = ["hx", "hy", "hz"]
-- 
2.43.0


From 8575d4f400715d82705db969ffbf93d7b2c37a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:43 +0000
Subject: [PATCH 30/70] fix: convert EMTFXML objects that do not have every
 quantity

---
 mt_metadata/transfer_functions/core.py | 50 ++++++++++++++++----------
 1 file changed, 31 insertions(+), 19 deletions(-)

diff --git a/mt_metadata/transfer_functions/core.py b/mt_metadata/transfer_functions/core.py
index bac3de5..5ee0a2d 100644
--- a/mt_metadata/transfer_functions/core.py
+++ b/mt_metadata/transfer_functions/core.py
@@ -2238,26 +2238,38 @@ class TF:
         self.station_metadata = self.survey_metadata.stations[0]
 
         self.period = emtfxml_obj.data.period
-        self.impedance = emtfxml_obj.data.z
-        # Handle negative or invalid values in z_var before taking sqrt
+
+        # a quantity the object does not have stays empty
+        def has(value):
+            return value is not None and value.size > 0
+
+        if has(emtfxml_obj.data.z):
+            self.impedance = emtfxml_obj.data.z
         z_var = emtfxml_obj.data.z_var
-        with np.errstate(invalid="ignore"):
-            self.impedance_error = np.sqrt(np.where(z_var >= 0, z_var, np.nan))
-        self._transfer_function.inverse_signal_power.loc[
-            dict(input=["hx", "hy"], output=["hx", "hy"])
-        ] = emtfxml_obj.data.z_invsigcov
-        self._transfer_function.residual_covariance.loc[
-            dict(input=["ex", "ey"], output=["ex", "ey"])
-        ] = emtfxml_obj.data.z_residcov
-
-        self.tipper = emtfxml_obj.data.t
-        self.tipper_error = np.sqrt(emtfxml_obj.data.t_var)
-        self._transfer_function.inverse_signal_power.loc[
-            dict(input=["hx", "hy"], output=["hx", "hy"])
-        ] = emtfxml_obj.data.t_invsigcov
-        self._transfer_function.residual_covariance.loc[
-            dict(input=["hz"], output=["hz"])
-        ] = emtfxml_obj.data.t_residcov
+        if has(z_var):
+            # Handle negative or invalid values in z_var before taking sqrt
+            with np.errstate(invalid="ignore"):
+                self.impedance_error = np.sqrt(np.where(z_var >= 0, z_var, np.nan))
+        if has(emtfxml_obj.data.t):
+            self.tipper = emtfxml_obj.data.t
+        if has(emtfxml_obj.data.t_var):
+            self.tipper_error = np.sqrt(emtfxml_obj.data.t_var)
+
+        # the impedance and the tipper share the inverse signal power, either
+        # can be missing
+        for invsigcov in [emtfxml_obj.data.z_invsigcov, emtfxml_obj.data.t_invsigcov]:
+            if has(invsigcov) and (invsigcov != 0).any():
+                self._transfer_function.inverse_signal_power.loc[
+                    dict(input=["hx", "hy"], output=["hx", "hy"])
+                ] = invsigcov
+        if has(emtfxml_obj.data.z_residcov):
+            self._transfer_function.residual_covariance.loc[
+                dict(input=["ex", "ey"], output=["ex", "ey"])
+            ] = emtfxml_obj.data.z_residcov
+        if has(emtfxml_obj.data.t_residcov):
+            self._transfer_function.residual_covariance.loc[
+                dict(input=["hz"], output=["hz"])
+            ] = emtfxml_obj.data.t_residcov
 
     def to_jfile(self) -> None:
         """
-- 
2.43.0


From fb5f516c7b1ec9e42b3b0703c95256052f785051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:38 +0000
Subject: [PATCH 31/70] fix: the survey id is written to EMTF XML when there is
 no geographic name

---
 mt_metadata/transfer_functions/io/emtfxml/emtfxml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py b/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py
index 93f6d13..17c20da 100644
--- a/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py
+++ b/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py
@@ -868,7 +868,7 @@ class EMTFXML:
         """
         self.description = sm.summary
         self.site.project = sm.project
-        if sm.geographic_name is None:
+        if sm.geographic_name in NULL_VALUES:
             self.site.survey = sm.id
         else:
             self.site.survey = sm.geographic_name
-- 
2.43.0


From 445b5568914ca7f5bc990cea5d72afe6b05f67b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:28 +0000
Subject: [PATCH 32/70] fix: EMTF XML channels missing from the field notes
 keep their component

---
 mt_metadata/transfer_functions/io/emtfxml/emtfxml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py b/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py
index 17c20da..ae4ba90 100644
--- a/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py
+++ b/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py
@@ -1114,7 +1114,7 @@ class EMTFXML:
                         c = Electric()
                     elif ch.name.lower() in ["hx", "hy", "hz"]:  # magnetic channels
                         c = Magnetic()
-                    c.from_dict(ch.to_dict(single=True))
+                    c.component = ch.name.lower()
                     r.add_channel(c)
 
                 if c.component in ["hx", "hy", "hz"]:
-- 
2.43.0


From ee3c3abc37abcb3021ea91846b5a998e5488be24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:05 +0000
Subject: [PATCH 33/70] fix: a list of decimation levels is kept once

---
 mt_metadata/processing/aurora/processing.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/mt_metadata/processing/aurora/processing.py b/mt_metadata/processing/aurora/processing.py
index 87466f9..979736a 100644
--- a/mt_metadata/processing/aurora/processing.py
+++ b/mt_metadata/processing/aurora/processing.py
@@ -122,9 +122,6 @@ class Processing(MetadataBase):
                     decimation_levels.append(obj)
 
         elif isinstance(value, list):
-            for obj in value:
-                if isinstance(obj, DecimationLevel):
-                    decimation_levels.append(obj)
             for obj in value:
                 if isinstance(obj, DecimationLevel):
                     decimation_levels.append(obj)
-- 
2.43.0


From 9c9d4d2fcf26ad37b11c4ac4a4cec836c913e595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:05 +0000
Subject: [PATCH 34/70] fix: the taper of a window follows its settings

---
 mt_metadata/processing/window.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/mt_metadata/processing/window.py b/mt_metadata/processing/window.py
index 234e1ae..429e513 100644
--- a/mt_metadata/processing/window.py
+++ b/mt_metadata/processing/window.py
@@ -48,6 +48,7 @@ class ClockZeroTypeEnum(StrEnumerationBase):
 
 class Window(MetadataBase):
     _taper: np.ndarray | None = PrivateAttr(None)
+    _taper_settings: tuple | None = PrivateAttr(None)
     num_samples: Annotated[
         int,
         Field(
@@ -177,7 +178,14 @@ class Window(MetadataBase):
         -------
 
         """
-        if self._taper is None:
+        settings = (
+            self.type,
+            self.num_samples,
+            self.normalized,
+            dict(self.additional_args),
+        )
+        # the cached taper is only valid for the settings it was made from
+        if self._taper is None or self._taper_settings != settings:
             # Repackaging the args so that scipy.signal.get_window() accepts all cases
             window_args = [v for k, v in self.additional_args.items()]
             window_args.insert(0, self.type)
@@ -189,6 +197,7 @@ class Window(MetadataBase):
                 taper /= np.sum(taper)
 
             self._taper = taper
+            self._taper_settings = settings
 
         return self._taper
 
-- 
2.43.0


From 373cb44a47604d4b109a32df246a834d63072e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:16 +0000
Subject: [PATCH 35/70] fix: compare a decimation level with a single stored
 harmonic index

---
 mt_metadata/processing/aurora/decimation_level.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/mt_metadata/processing/aurora/decimation_level.py b/mt_metadata/processing/aurora/decimation_level.py
index 6cca508..eac3ea5 100644
--- a/mt_metadata/processing/aurora/decimation_level.py
+++ b/mt_metadata/processing/aurora/decimation_level.py
@@ -519,17 +519,20 @@ class DecimationLevel(MetadataBase):
             logger.info(msg)
             return False
 
-        if fc_decimation.stft.harmonic_indices is None:
+        fc_harmonic_indices = fc_decimation.stft.harmonic_indices
+        if isinstance(fc_harmonic_indices, int):
+            fc_harmonic_indices = [fc_harmonic_indices]
+        if fc_harmonic_indices is None:
             # harmonic_indices not set, skip this check
             pass
-        elif -1 in fc_decimation.stft.harmonic_indices:
+        elif -1 in fc_harmonic_indices:
             # if harmonic_indices is -1, it means the archive kept all so we can skip this check.
             pass
         else:
             msg = "WIP: harmonic indices in AuroraDecimationlevel are derived from processing bands -- Not robustly tested to compare with FCDecimation"
             logger.debug(msg)
             harmonic_indices_requested = self.harmonic_indices
-            fcdec_group_set = set(fc_decimation.stft.harmonic_indices)
+            fcdec_group_set = set(fc_harmonic_indices)
             processing_set = set(harmonic_indices_requested)
             if processing_set.issubset(fcdec_group_set):
                 pass
-- 
2.43.0


From fc47f3c8e7d610cb31cf2f81025f85d96f9f36ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:16 +0000
Subject: [PATCH 36/70] fix: the minimum number of windows is kept in Fourier
 coefficient parameters

---
 mt_metadata/processing/aurora/decimation_level.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mt_metadata/processing/aurora/decimation_level.py b/mt_metadata/processing/aurora/decimation_level.py
index eac3ea5..ee10602 100644
--- a/mt_metadata/processing/aurora/decimation_level.py
+++ b/mt_metadata/processing/aurora/decimation_level.py
@@ -594,6 +594,7 @@ class DecimationLevel(MetadataBase):
             # Now that harmonic_indices is list[int], this should work
             fc_dec_obj.stft.harmonic_indices = self.harmonic_indices
         fc_dec_obj.id = f"{self.decimation.level}"
+        fc_dec_obj.stft.min_num_stft_windows = self.stft.min_num_stft_windows
         fc_dec_obj.stft.method = self.stft.method
         fc_dec_obj.stft.pre_fft_detrend_type = self.stft.pre_fft_detrend_type
         fc_dec_obj.stft.prewhitening_type = self.stft.prewhitening_type
-- 
2.43.0


From 5f3a73582dc5420c1f25ddf523596e28147bf8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:26 +0000
Subject: [PATCH 37/70] fix: numpy arrays holding a zero are written to
 dictionaries

---
 mt_metadata/base/metadata.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/mt_metadata/base/metadata.py b/mt_metadata/base/metadata.py
index 1c88e17..415cff5 100644
--- a/mt_metadata/base/metadata.py
+++ b/mt_metadata/base/metadata.py
@@ -1122,10 +1122,7 @@ class MetadataBase(DotNotationBaseModel):
                 value = None
             if required:
                 if isinstance(value, (np.ndarray)):
-                    if name == "zeros" or name == "poles":
-                        meta_dict[name] = value
-                    elif value.all() != 0:
-                        meta_dict[name] = value
+                    meta_dict[name] = value
                 elif hasattr(value, "size"):
                     if value.size > 0:
                         meta_dict[name] = value
-- 
2.43.0


From 4b65a1aeb0818b5cc0b6c41c697efbe19945dfb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:31 +0000
Subject: [PATCH 38/70] fix: metadata compares with its dictionary, JSON,
 series and XML forms

---
 mt_metadata/base/metadata.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mt_metadata/base/metadata.py b/mt_metadata/base/metadata.py
index 415cff5..3bad347 100644
--- a/mt_metadata/base/metadata.py
+++ b/mt_metadata/base/metadata.py
@@ -405,14 +405,15 @@ class MetadataBase(DotNotationBaseModel):
         else:
             return NotImplemented  # delegate to the other item in the comparison
         """
-        if other in [None]:
+        if other is None:
             return False
 
         elif isinstance(other, (dict, str, pd.Series, et.Element)):
             try:
                 # Attempt to load the other object into a new instance of MetadataBase
                 # This will ensure that the other object has the same attributes as self
-                other_obj = __class__().load(other)
+                other_obj = type(self)()
+                other_obj.load(other)
             except Exception as e:
                 logger.error(
                     f"Failed to load other object of type {type(other)}: {other}. Error is: {e} "
-- 
2.43.0


From 74a08b4d5282eca76f6033e451f13d3bee041539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:31 +0000
Subject: [PATCH 39/70] fix: writing a dictionary does not replace objects
 inside dictionary-valued attributes

---
 mt_metadata/base/metadata.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mt_metadata/base/metadata.py b/mt_metadata/base/metadata.py
index 3bad347..b6fc728 100644
--- a/mt_metadata/base/metadata.py
+++ b/mt_metadata/base/metadata.py
@@ -1095,13 +1095,15 @@ class MetadataBase(DotNotationBaseModel):
                 elif hasattr(value, "to_dict"):
                     value = value.to_dict(nested=nested, required=required)
                 elif isinstance(value, dict):
+                    v_dict = {}
                     for key, obj in value.items():
                         if hasattr(obj, "to_dict"):
-                            value[key] = obj.to_dict(nested=nested, required=required)
+                            v_dict[key] = obj.to_dict(nested=nested, required=required)
                         elif isinstance(obj, Enum):
-                            value[key] = obj.value
+                            v_dict[key] = obj.value
                         else:
-                            value[key] = obj
+                            v_dict[key] = obj
+                    value = v_dict
                 elif isinstance(value, list):
                     v_list = []
                     for obj in value:
-- 
2.43.0


From eeb460933836f1423c6726a16952cb1aa0f43a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:31 +0000
Subject: [PATCH 40/70] fix: from_json reads a file given by a path string

---
 mt_metadata/base/metadata.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/mt_metadata/base/metadata.py b/mt_metadata/base/metadata.py
index b6fc728..4ec34f6 100644
--- a/mt_metadata/base/metadata.py
+++ b/mt_metadata/base/metadata.py
@@ -1256,14 +1256,17 @@ class MetadataBase(DotNotationBaseModel):
 
         """
         if isinstance(json_str, str):
+            is_file = False
             try:
                 json_path = Path(json_str)
-                if json_path.exists():
-                    with open(json_path, "r") as fid:
-                        json_dict = json.load(fid)
-            except OSError:
+                is_file = json_path.is_file()
+            except (OSError, ValueError):
                 pass
-            json_dict = json.loads(json_str)
+            if is_file:
+                with open(json_path, "r") as fid:
+                    json_dict = json.load(fid)
+            else:
+                json_dict = json.loads(json_str)
         elif isinstance(json_str, Path):
             if json_str.exists():
                 with open(json_str, "r") as fid:
-- 
2.43.0


From 785b11d8a6816422304fbd0af2e17ed38f8552d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:50 +0000
Subject: [PATCH 41/70] fix: comparing a comment with None gives a truth value

---
 mt_metadata/common/comment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mt_metadata/common/comment.py b/mt_metadata/common/comment.py
index 4be889a..b0fdb1e 100644
--- a/mt_metadata/common/comment.py
+++ b/mt_metadata/common/comment.py
@@ -125,7 +125,7 @@ class Comment(MetadataBase):
             True if the objects are equal, False otherwise.
         """
         if other is None:
-            return Comment(value=None)  # type: ignore
+            other = Comment(value=None)  # type: ignore
         if isinstance(other, str):
             other = Comment(value=other)  # type: ignore
         elif isinstance(other, dict):
-- 
2.43.0


From 30150290e92088a91ebadb28e9b154921386cb51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:50 +0000
Subject: [PATCH 42/70] fix: writing the XML of a comment leaves it unchanged

---
 mt_metadata/common/comment.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/mt_metadata/common/comment.py b/mt_metadata/common/comment.py
index b0fdb1e..b8d14bf 100644
--- a/mt_metadata/common/comment.py
+++ b/mt_metadata/common/comment.py
@@ -240,12 +240,9 @@ class Comment(MetadataBase):
         :rtype: str | et.Element
         """
 
-        if self.author is None:
-            self.author = ""
-        root = et.Element(self.__class__.__name__ + "s", {"author": self.author})
-        if self.value is None:
-            self.value = ""
-        root.text = self.value
+        author = "" if self.author is None else self.author
+        root = et.Element(self.__class__.__name__ + "s", {"author": author})
+        root.text = "" if self.value is None else self.value
 
         if string:
             return element_to_string(root)
-- 
2.43.0


From c32f50e5730c9d47f611bf3e79d593772b4ed027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:31 +0000
Subject: [PATCH 43/70] fix: XML of filters with arrays or complex values can
 be written

---
 mt_metadata/base/helpers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mt_metadata/base/helpers.py b/mt_metadata/base/helpers.py
index e74a7cf..474fd4c 100644
--- a/mt_metadata/base/helpers.py
+++ b/mt_metadata/base/helpers.py
@@ -761,8 +761,8 @@ def recursive_split_xml(element, item, base, name, attr_dict=None):
 
             sub_element = et.SubElement(element, key)
             recursive_split_xml(sub_element, value, attr_name, key, attr_dict)
-    elif isinstance(item, (tuple, list)):
-        for ii in item:
+    elif isinstance(item, (tuple, list, np.ndarray)):
+        for ii in item.tolist() if isinstance(item, np.ndarray) else item:
             sub_element = et.SubElement(element, "item")
             recursive_split_xml(sub_element, ii, base, name, attr_dict)
     elif isinstance(item, str):
@@ -770,7 +770,7 @@ def recursive_split_xml(element, item, base, name, attr_dict=None):
     elif item is None:
         # Leave element.text as None so XML has empty element (no text)
         pass
-    elif isinstance(item, (float, int)):
+    elif isinstance(item, (float, int, complex)):
         element.text = str(item)
     else:
         # if the value is an hdf5 reference make it a string
-- 
2.43.0


From b5ea91345405af42100eb1d54c280ee311c4f617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:31 +0000
Subject: [PATCH 44/70] fix: complex arrays written to JSON are read back

---
 mt_metadata/base/helpers.py          | 13 +++++++++++++
 mt_metadata/base/metadata.py         |  8 +++++---
 mt_metadata/timeseries/experiment.py | 23 ++++++++++++++---------
 3 files changed, 32 insertions(+), 12 deletions(-)

diff --git a/mt_metadata/base/helpers.py b/mt_metadata/base/helpers.py
index 474fd4c..a069452 100644
--- a/mt_metadata/base/helpers.py
+++ b/mt_metadata/base/helpers.py
@@ -933,6 +933,19 @@ class NumpyEncoder(json.JSONEncoder):
         return json.JSONEncoder.default(self, obj)
 
 
+def decode_complex(obj: dict):
+    """
+    Object hook to read back complex arrays as written by `NumpyEncoder`
+
+    :param obj: decoded JSON object
+    :type obj: dict
+    :return: list of complex numbers if the object is a complex array
+    """
+    if set(obj) == {"real", "imag"}:
+        return (np.array(obj["real"]) + 1j * np.array(obj["imag"])).tolist()
+    return obj
+
+
 def validate_name(name, pattern=None):
     """
     Validate name
diff --git a/mt_metadata/base/metadata.py b/mt_metadata/base/metadata.py
index 4ec34f6..9d283eb 100644
--- a/mt_metadata/base/metadata.py
+++ b/mt_metadata/base/metadata.py
@@ -1264,13 +1264,15 @@ class MetadataBase(DotNotationBaseModel):
                 pass
             if is_file:
                 with open(json_path, "r") as fid:
-                    json_dict = json.load(fid)
+                    json_dict = json.load(fid, object_hook=helpers.decode_complex)
             else:
-                json_dict = json.loads(json_str)
+                json_dict = json.loads(
+                    json_str, object_hook=helpers.decode_complex
+                )
         elif isinstance(json_str, Path):
             if json_str.exists():
                 with open(json_str, "r") as fid:
-                    json_dict = json.load(fid)
+                    json_dict = json.load(fid, object_hook=helpers.decode_complex)
         elif not isinstance(json_str, (str, Path)):
             msg = f"Input must be valid JSON string not {type(json_str)}"
             logger.error(msg)
diff --git a/mt_metadata/timeseries/experiment.py b/mt_metadata/timeseries/experiment.py
index 976ec0a..de20396 100644
--- a/mt_metadata/timeseries/experiment.py
+++ b/mt_metadata/timeseries/experiment.py
@@ -349,22 +349,27 @@ class Experiment(MetadataBase):
 
         """
         if isinstance(json_str, str):
+            is_file = False
             try:
                 json_path = Path(json_str)
-                if json_path.exists():
-                    with open(json_path, "r") as fid:
-                        json_dict = json.load(fid)
-            except OSError:
+                is_file = json_path.is_file()
+            except (OSError, ValueError):
                 pass
-            json_dict = json.loads(json_str)
+            if is_file:
+                with open(json_path, "r") as fid:
+                    json_dict = json.load(fid, object_hook=helpers.decode_complex)
+            else:
+                json_dict = json.loads(
+                    json_str, object_hook=helpers.decode_complex
+                )
         elif isinstance(json_str, Path):
             if json_str.exists():
                 with open(json_str, "r") as fid:
-                    json_dict = json.load(fid)
+                    json_dict = json.load(fid, object_hook=helpers.decode_complex)
         elif not isinstance(json_str, (str, Path)):
-            msg = "Input must be valid JSON string not %"
-            logger.error(msg, type(json_str))
-            raise TypeError(msg % type(json_str))
+            msg = f"Input must be valid JSON string not {type(json_str)}"
+            logger.error(msg)
+            raise TypeError(msg)
         self.from_dict(json_dict, skip_none=skip_none)
 
     def to_xml(
-- 
2.43.0


From 4e8ac32b21a68b5c867815ae15eea97110041026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:31 +0000
Subject: [PATCH 45/70] fix: complex numbers written as text are read

---
 mt_metadata/base/helpers.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/mt_metadata/base/helpers.py b/mt_metadata/base/helpers.py
index a069452..8696b39 100644
--- a/mt_metadata/base/helpers.py
+++ b/mt_metadata/base/helpers.py
@@ -1154,6 +1154,14 @@ def object_to_array(value, dtype=float):
         if value in ["", "none", "None"]:
             return np.empty(0)
 
+        if dtype is complex and "j" in value:
+            # complex numbers as text, for example "(-1+2j)" or "[1+2j, 1-2j]"
+            try:
+                parts = value.strip().strip("[]").replace(",", " ").split()
+                return np.array([complex(part) for part in parts], dtype=dtype)
+            except ValueError:
+                pass
+
         if not has_numbers(value) and not is_numeric_string(value):
             msg = f"String input must be a single number or a list of numbers, not '{value}'"
             raise TypeError(msg)
-- 
2.43.0


From 4e9c6236b622b0b5296255faabbc7c5dd72fb644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:31 +0000
Subject: [PATCH 46/70] fix: the channel filters of XML with a single filter
 are read

---
 mt_metadata/timeseries/channel.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/mt_metadata/timeseries/channel.py b/mt_metadata/timeseries/channel.py
index c72d19b..4b39cac 100644
--- a/mt_metadata/timeseries/channel.py
+++ b/mt_metadata/timeseries/channel.py
@@ -776,6 +776,15 @@ class ChannelBase(MetadataBase):
                     f"The '{filter_format}' attribute is deprecated and will be ignored. Use 'filters' as a list of AppliedFilter objects instead."
                 )
 
+        # a single filter read from XML is a dictionary instead of a list
+        single_filter = {
+            key[len("filters.") :]: meta_dict.pop(key)
+            for key in list(meta_dict.keys())
+            if key.startswith("filters.applied_filter.")
+        }
+        if single_filter:
+            meta_dict["filters"] = [helpers.structure_dict(single_filter)]
+
         # Handle new format filters separately to combine with old format
         new_format_filters = meta_dict.pop("filters", None)
 
-- 
2.43.0


From 034eb23d5f331f8f8155b8ff02891e67ff63d912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:31 +0000
Subject: [PATCH 47/70] fix: an experiment XML without filters, stations or
 runs is read and keeps its channels in their runs

---
 mt_metadata/timeseries/experiment.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mt_metadata/timeseries/experiment.py b/mt_metadata/timeseries/experiment.py
index de20396..90e507c 100644
--- a/mt_metadata/timeseries/experiment.py
+++ b/mt_metadata/timeseries/experiment.py
@@ -465,16 +465,15 @@ class Experiment(MetadataBase):
         for survey_element in list(experiment_element):
             survey_dict = helpers.element_to_dict(survey_element)
             stations = self._pop_dictionary(survey_dict["survey"], "station")
+            fd = survey_dict["survey"].pop("filters", None)
             survey_obj = Survey()
             survey_obj.from_dict(survey_dict, skip_none=skip_none)
-            fd = survey_dict["survey"].pop("filters")
             filter_dict = self._read_filter_dict(fd)
             survey_obj.filters.update(filter_dict)
 
             for station_dict in stations:
                 station_obj = Station()
                 runs = self._pop_dictionary(station_dict, "run")
-                station_obj.from_dict(station_dict, skip_none=skip_none)
                 for run_dict in runs:
                     run_obj = Run()
 
@@ -493,6 +492,7 @@ class Experiment(MetadataBase):
                             logger.debug(f"Could not find channel {ch}")
                     run_obj.from_dict(run_dict, skip_none=skip_none)
                     station_obj.add_run(run_obj)
+                station_obj.from_dict(station_dict, skip_none=skip_none)
                 survey_obj.add_station(station_obj)
             self.add_survey(survey_obj)
 
@@ -512,7 +512,7 @@ class Experiment(MetadataBase):
 
         """
 
-        elements = in_dict.pop(element)
+        elements = in_dict.pop(element, [])
         if not isinstance(elements, list):
             elements = [elements]
 
-- 
2.43.0


From 01399d410b6efc0a284f3e3a18138fd0338171a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:31 +0000
Subject: [PATCH 48/70] fix: experiment XML with a single filter of a type is
 read

---
 mt_metadata/timeseries/experiment.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/mt_metadata/timeseries/experiment.py b/mt_metadata/timeseries/experiment.py
index 90e507c..d8b963e 100644
--- a/mt_metadata/timeseries/experiment.py
+++ b/mt_metadata/timeseries/experiment.py
@@ -571,7 +571,7 @@ class Experiment(MetadataBase):
                         mt_filter = PoleZeroFilter(**v)
                         return_dict[mt_filter.name.lower()] = mt_filter
                 else:
-                    mt_filter = PoleZeroFilter(value)
+                    mt_filter = PoleZeroFilter(**value)
                     return_dict[mt_filter.name.lower()] = mt_filter
 
             elif key in ["coefficient_filter"]:
@@ -580,7 +580,7 @@ class Experiment(MetadataBase):
                         mt_filter = CoefficientFilter(**v)
                         return_dict[mt_filter.name.lower()] = mt_filter
                 else:
-                    mt_filter = CoefficientFilter(value)
+                    mt_filter = CoefficientFilter(**value)
                     return_dict[mt_filter.name.lower()] = mt_filter
 
             elif key in ["time_delay_filter"]:
@@ -589,7 +589,7 @@ class Experiment(MetadataBase):
                         mt_filter = TimeDelayFilter(**v)
                         return_dict[mt_filter.name.lower()] = mt_filter
                 else:
-                    mt_filter = TimeDelayFilter(value)
+                    mt_filter = TimeDelayFilter(**value)
                     return_dict[mt_filter.name.lower()] = mt_filter
 
             elif key in ["frequency_response_table_filter"]:
@@ -598,16 +598,16 @@ class Experiment(MetadataBase):
                         mt_filter = FrequencyResponseTableFilter(**v)
                         return_dict[mt_filter.name.lower()] = mt_filter
                 else:
-                    mt_filter = FrequencyResponseTableFilter(value)
+                    mt_filter = FrequencyResponseTableFilter(**value)
                     return_dict[mt_filter.name.lower()] = mt_filter
 
-            elif key in ["fir_filter"]:
+            elif key in ["fir_filter", "f_i_r_filter"]:
                 if isinstance(value, list):
                     for v in value:
                         mt_filter = FIRFilter(**v)
                         return_dict[mt_filter.name.lower()] = mt_filter
                 else:
-                    mt_filter = FIRFilter(value)
+                    mt_filter = FIRFilter(**value)
                     return_dict[mt_filter.name.lower()] = mt_filter
 
         return return_dict
-- 
2.43.0


From 05670156ad6a878ceeca86f0a5a9bb0ffd2a28a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:31 +0000
Subject: [PATCH 49/70] fix: FIR coefficients given as text or number are read

---
 mt_metadata/timeseries/filters/fir_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mt_metadata/timeseries/filters/fir_filter.py b/mt_metadata/timeseries/filters/fir_filter.py
index 1684167..21378f0 100644
--- a/mt_metadata/timeseries/filters/fir_filter.py
+++ b/mt_metadata/timeseries/filters/fir_filter.py
@@ -112,7 +112,7 @@ class FIRFilter(FilterBase):
         ),
     ]
 
-    @field_validator("coefficients")
+    @field_validator("coefficients", mode="before")
     @classmethod
     def validate_coefficients(
         cls, value: list[float], info: ValidationInfo
-- 
2.43.0


From c5d4ba8b98b1089b8ef8ee73a2a75940951fb9d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:31 +0000
Subject: [PATCH 50/70] fix: survey filters of type fap are read

---
 mt_metadata/timeseries/survey.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mt_metadata/timeseries/survey.py b/mt_metadata/timeseries/survey.py
index 2c4c381..764deab 100644
--- a/mt_metadata/timeseries/survey.py
+++ b/mt_metadata/timeseries/survey.py
@@ -459,7 +459,7 @@ class Survey(MetadataBase):
                             f = TimeDelayFilter()
                         elif f_type.lower() in ["fir"]:
                             f = FIRFilter()
-                        elif f_type.lower() in ["frequency response table"]:
+                        elif f_type.lower() in ["fap", "frequency response table"]:
                             f = FrequencyResponseTableFilter()
                         else:
                             msg = f"filter type {f_type} not supported."
-- 
2.43.0


From 1f5cf341f47c6c75d01bd348b70614bb12d3358d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:35 +0000
Subject: [PATCH 51/70] fix: extra spaces in a unit are not separators

---
 mt_metadata/common/units.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mt_metadata/common/units.py b/mt_metadata/common/units.py
index fd43835..434cbcd 100644
--- a/mt_metadata/common/units.py
+++ b/mt_metadata/common/units.py
@@ -309,6 +309,9 @@ def parse_unit_string(unit_string: str) -> list[dict] | None:
     if not isinstance(unit_string, str):
         raise TypeError("The unit_string must be a string.")
     unit_string = unit_string.replace("[", "").replace("]", "")
+    # extra spaces, as around a "/", are not separators
+    unit_string = " ".join(unit_string.replace("/", " / ").split())
+    unit_string = unit_string.replace(" / ", "/")
     result = []
     separator = ""
     while separator != None:
-- 
2.43.0


From 734406d3bc8e8b60e7bccc330ad32bd7d7f579c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:36 +0000
Subject: [PATCH 52/70] fix: digital counts within a composite unit is one unit

---
 mt_metadata/common/units.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mt_metadata/common/units.py b/mt_metadata/common/units.py
index 434cbcd..8cdf297 100644
--- a/mt_metadata/common/units.py
+++ b/mt_metadata/common/units.py
@@ -9,6 +9,7 @@ case strings.
 
 """
 
+import re
 from collections import OrderedDict
 from typing import Annotated
 
@@ -379,6 +380,8 @@ def get_unit_object(unit: str, allow_none=True) -> Unit:
             plot_label="Unknown",
         )
 
+    # the name of digital counts has a space which is not a separator
+    unit = re.sub("digital counts?", "counts", unit, flags=re.IGNORECASE)
     units_parts = parse_unit_string(unit)
     if len(units_parts) == 1:
         return get_unit_from_df(units_parts[0]["name"], allow_none=allow_none)
-- 
2.43.0


From 8184d305d96358f354c59750fff33899b8a8a8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:36 +0000
Subject: [PATCH 53/70] fix: add_filter compares the stored name and keeps the
 filters sorted by stage

---
 mt_metadata/timeseries/channel.py | 37 ++++++++++++-------------------
 1 file changed, 14 insertions(+), 23 deletions(-)

diff --git a/mt_metadata/timeseries/channel.py b/mt_metadata/timeseries/channel.py
index 4b39cac..93f3569 100644
--- a/mt_metadata/timeseries/channel.py
+++ b/mt_metadata/timeseries/channel.py
@@ -437,41 +437,32 @@ class ChannelBase(MetadataBase):
         if applied_filter is not None:
             if not isinstance(applied_filter, AppliedFilter):
                 raise TypeError("applied_filter must be an instance of AppliedFilter")
-
-            # Check if filter with this name already exists
-            if any(f.name == applied_filter.name for f in self.filters):
-                logger.debug(
-                    f"Filter '{applied_filter.name}' already exists, skipping duplicate"
-                )
-                return
-
-            if applied_filter.stage is None:
-                applied_filter.stage = len(self.filters) + 1
-            self.filters.append(applied_filter)
         else:
             if name is None:
                 raise ValueError("name must be provided if applied_filter is None")
             if not isinstance(name, str):
                 raise TypeError("name must be a string")
 
-            # Check if filter with this name already exists
-            if any(f.name == name for f in self.filters):
-                logger.debug(f"Filter '{name}' already exists, skipping duplicate")
-                return
-
-            if stage is None:
-                stage = len(self.filters) + 1
-
             # Build kwargs for AppliedFilter, excluding None comments to use default
             filter_kwargs = {"name": name, "applied": applied, "stage": stage}
             if comments is not None:
                 filter_kwargs["comments"] = comments
 
-            self.filters.append(AppliedFilter(**filter_kwargs))
+            applied_filter = AppliedFilter(**filter_kwargs)
+
+        # Check if filter with this name, as it is stored, already exists
+        if any(f.name == applied_filter.name for f in self.filters):
+            logger.debug(
+                f"Filter '{applied_filter.name}' already exists, skipping duplicate"
+            )
+            return
+
+        if applied_filter.stage is None:
+            applied_filter.stage = len(self.filters) + 1
+        self.filters.append(applied_filter)
 
-            # Sort filters and validate for duplicates
-            self._sort_filters()
-            # Note: Skipping duplicate validation since we already check above
+        # Sort filters by stage
+        self._sort_filters()
 
     @computed_field
     @property
-- 
2.43.0


From 62ea7e1a1ad879a6de0df630f7d47fb5ee5e9505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:36 +0000
Subject: [PATCH 54/70] fix: older filter metadata with a single applied flag
 is read

---
 mt_metadata/timeseries/channel.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mt_metadata/timeseries/channel.py b/mt_metadata/timeseries/channel.py
index 93f3569..7498382 100644
--- a/mt_metadata/timeseries/channel.py
+++ b/mt_metadata/timeseries/channel.py
@@ -592,6 +592,10 @@ class ChannelBase(MetadataBase):
         if isinstance(applied, list) and len(applied) == 0:
             return []
 
+        # Handle single values
+        if isinstance(applied, (bool, int)) and applied in applied_values:
+            return [applied_values[applied]]
+
         # Handle string case
         if isinstance(applied, str):
             # Handle simple strings
-- 
2.43.0


From 7755816825fc3c59f9402e27e9421c7e986749f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:36 +0000
Subject: [PATCH 55/70] fix: an empty older filter name means no filters

---
 mt_metadata/timeseries/channel.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mt_metadata/timeseries/channel.py b/mt_metadata/timeseries/channel.py
index 7498382..089ff26 100644
--- a/mt_metadata/timeseries/channel.py
+++ b/mt_metadata/timeseries/channel.py
@@ -627,6 +627,8 @@ class ChannelBase(MetadataBase):
             return []
 
         if isinstance(names, str):
+            if not names.strip():
+                return []
             return [ss.strip().lower() for ss in names.split(",")]
         elif isinstance(names, list):
             return [ss.strip().lower() for ss in names]
-- 
2.43.0


From 5d60c625a25fb22ba8df273489828b3cd60d6d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:36 +0000
Subject: [PATCH 56/70] fix: J files, latitude lines are searched in the
 station information only

---
 mt_metadata/transfer_functions/io/jfiles/jfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mt_metadata/transfer_functions/io/jfiles/jfile.py b/mt_metadata/transfer_functions/io/jfiles/jfile.py
index c049d0d..89b192f 100644
--- a/mt_metadata/transfer_functions/io/jfiles/jfile.py
+++ b/mt_metadata/transfer_functions/io/jfiles/jfile.py
@@ -142,7 +142,7 @@ class JFile:
 
         for variable in ["lat", "lon", "elev"]:
             for ii, line in enumerate(j_lines):
-                if variable in line.lower():
+                if line.startswith(">") and variable in line.lower():
                     name = line.split("=")[0]
                     try:
                         value = float(line.split("=")[1].strip())
-- 
2.43.0


From 55dd31923214a786b758b59dc05f247f1e4705a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:36 +0000
Subject: [PATCH 57/70] fix: J files, latitude, longitude, elevation and
 azimuth are read

---
 mt_metadata/transfer_functions/io/jfiles/metadata/header.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mt_metadata/transfer_functions/io/jfiles/metadata/header.py b/mt_metadata/transfer_functions/io/jfiles/metadata/header.py
index 9265a49..eab6421 100644
--- a/mt_metadata/transfer_functions/io/jfiles/metadata/header.py
+++ b/mt_metadata/transfer_functions/io/jfiles/metadata/header.py
@@ -223,7 +223,7 @@ class Header(BasicLocation):
             m_list = m_line.strip().split("=")
             m_key = m_list[0][1:].strip().lower()
             try:
-                m_value = float(m_list[0].strip())
-            except ValueError:
+                m_value = float(m_list[1].strip())
+            except (IndexError, ValueError):
                 m_value = 0.0
             self.update_attribute(m_key, m_value)
-- 
2.43.0


From 8beb23a08c45284ae644dbe7e295e6fd6e6dc8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:36 +0000
Subject: [PATCH 58/70] fix: Zonge AVG, the tipper error is that of the file

---
 mt_metadata/transfer_functions/io/zonge/zonge.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mt_metadata/transfer_functions/io/zonge/zonge.py b/mt_metadata/transfer_functions/io/zonge/zonge.py
index 02ee8fb..2530d3b 100644
--- a/mt_metadata/transfer_functions/io/zonge/zonge.py
+++ b/mt_metadata/transfer_functions/io/zonge/zonge.py
@@ -321,7 +321,7 @@ class ZongeMTAvg:
                 ),
                 row.z_phase_err,
             )
-            t_err[f_index, ii, jj] = np.sqrt(t_real**2 + t_imag**2)
+            t_err[f_index, ii, jj] = np.sqrt(t_real_error**2 + t_imag_error**2)
 
         return t, t_err
 
-- 
2.43.0


From 0198fa3665e7da35252e363244d72107d89294da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:36 +0000
Subject: [PATCH 59/70] fix: Zonge AVG, station metadata can be set

---
 mt_metadata/transfer_functions/io/zonge/zonge.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mt_metadata/transfer_functions/io/zonge/zonge.py b/mt_metadata/transfer_functions/io/zonge/zonge.py
index 2530d3b..8b6685e 100644
--- a/mt_metadata/transfer_functions/io/zonge/zonge.py
+++ b/mt_metadata/transfer_functions/io/zonge/zonge.py
@@ -502,11 +502,11 @@ class ZongeMTAvg:
     @station_metadata.setter
     def station_metadata(self, sm):
         self.header.station = sm.id
-        self.header.latitdude = sm.location.latitude
+        self.header.latitude = sm.location.latitude
         self.header.longitude = sm.location.longitude
 
-        if hasattr(sm.run[0].ex):
-            self.header.rx.length = sm.run[0].ex.dipole_length
+        if sm.runs and sm.runs[0].has_channel("ex"):
+            self.header.rx.length = sm.runs[0].get_channel("ex").dipole_length
 
     @property
     def survey_metadata(self) -> Survey:
-- 
2.43.0


From d7ca2de4cacd9c88757ad295d927113872f522d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:40 +0000
Subject: [PATCH 60/70] fix: Zonge AVG, a header without phase slope smoothing
 is read back

---
 mt_metadata/transfer_functions/io/zonge/metadata/header.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mt_metadata/transfer_functions/io/zonge/metadata/header.py b/mt_metadata/transfer_functions/io/zonge/metadata/header.py
index a2ab933..7d8d12b 100644
--- a/mt_metadata/transfer_functions/io/zonge/metadata/header.py
+++ b/mt_metadata/transfer_functions/io/zonge/metadata/header.py
@@ -265,6 +265,9 @@ class Header(MetadataBase):
                     or key.endswith(".datum")
                 ):
                     value = value.lower()
+                # the name of no smoothing is the one that is not lower case
+                if key.endswith(".smooth") and value == "none":
+                    value = "None"
 
                 # Only split on commas for specific fields that should be lists (h_p_r)
                 # Most coordinate and position fields (xyz1, utm1, center) should remain as strings
-- 
2.43.0


From 51df6efd177622f653f986bee5f20b2b8f571499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:40 +0000
Subject: [PATCH 61/70] fix: Zonge AVG, headers with empty values are written

---
 mt_metadata/transfer_functions/io/zonge/metadata/header.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mt_metadata/transfer_functions/io/zonge/metadata/header.py b/mt_metadata/transfer_functions/io/zonge/metadata/header.py
index 7d8d12b..aaacfeb 100644
--- a/mt_metadata/transfer_functions/io/zonge/metadata/header.py
+++ b/mt_metadata/transfer_functions/io/zonge/metadata/header.py
@@ -529,6 +529,9 @@ class Header(MetadataBase):
             # Map g_p_s to gps for attribute access
             actual_key = key.replace("g_p_s", "gps")
             value = self.get_attr_from_name(actual_key)
+            # nothing to write
+            if value is None or value == []:
+                continue
             if isinstance(value, list):
                 value = ",".join([f"{v:.1f}" for v in value])
             elif isinstance(value, (float)):
-- 
2.43.0


From 9832841830cd160eee5fc3839c5e8bfbaa3f0a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:40 +0000
Subject: [PATCH 62/70] fix: Zonge AVG, the sign of the tipper is kept in
 writing with z positive up

---
 mt_metadata/transfer_functions/io/zonge/zonge.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mt_metadata/transfer_functions/io/zonge/zonge.py b/mt_metadata/transfer_functions/io/zonge/zonge.py
index 8b6685e..c92c9c2 100644
--- a/mt_metadata/transfer_functions/io/zonge/zonge.py
+++ b/mt_metadata/transfer_functions/io/zonge/zonge.py
@@ -564,6 +564,8 @@ class ZongeMTAvg:
 
                 elif comp.startswith("t") and self.t is not None:
                     t_val = self.t[f_idx, 0, j]  # Tipper is 1x2
+                    if self.z_positive == "up":  # as in _fill_t
+                        t_val = -1 * t_val
                     t_err_val = (
                         self.t_err[f_idx, 0, j] if self.t_err is not None else 0.0
                     )
-- 
2.43.0


From 5551d6ec58f01cf9f03103d95dcaabbafa48183b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:12 +0000
Subject: [PATCH 63/70] fix: Zonge AVG, _has_channel answers for the component
 it is asked about

---
 mt_metadata/transfer_functions/io/zonge/metadata/header.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mt_metadata/transfer_functions/io/zonge/metadata/header.py b/mt_metadata/transfer_functions/io/zonge/metadata/header.py
index aaacfeb..e239fce 100644
--- a/mt_metadata/transfer_functions/io/zonge/metadata/header.py
+++ b/mt_metadata/transfer_functions/io/zonge/metadata/header.py
@@ -301,7 +301,7 @@ class Header(MetadataBase):
 
     def _has_channel(self, component):
         try:
-            if self._comp_dict["zxx"]["ch"].cmp is None:
+            if self._comp_dict[component]["ch"].cmp is None:
                 return False
         except KeyError:
             return False
-- 
2.43.0


From abbb29218dc0b38bbcf570af27167d2b870c2588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:12 +0000
Subject: [PATCH 64/70] fix: Zonge AVG, channel metadata without receiver
 angles in the header

---
 .../transfer_functions/io/zonge/zonge.py      | 26 ++++++++++++-------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/mt_metadata/transfer_functions/io/zonge/zonge.py b/mt_metadata/transfer_functions/io/zonge/zonge.py
index c92c9c2..589cdcf 100644
--- a/mt_metadata/transfer_functions/io/zonge/zonge.py
+++ b/mt_metadata/transfer_functions/io/zonge/zonge.py
@@ -347,6 +347,12 @@ class ZongeMTAvg:
 
         return rm
 
+    def _rx_angle(self, index: int) -> float:
+        """angle of the receiver, 0 if the header does not give its angles"""
+        if not self.header.rx.h_p_r:
+            return 0.0
+        return self.header.rx.h_p_r[index]
+
     @property
     def ex_metadata(self) -> Electric:
         ch = Electric(component="ex")
@@ -361,8 +367,8 @@ class ZongeMTAvg:
 
         else:
             ch.dipole_length = self.header.rx.length
-            ch.measurement_azimuth = self.header.rx.h_p_r[0]
-            ch.translated_azimuth = self.header.rx.h_p_r[0]
+            ch.measurement_azimuth = self._rx_angle(0)
+            ch.translated_azimuth = self._rx_angle(0)
             ch.channel_id = 4
 
         return ch
@@ -381,8 +387,8 @@ class ZongeMTAvg:
 
         else:
             ch.dipole_length = self.header.rx.length
-            ch.measurement_azimuth = self.header.rx.h_p_r[0] + 90
-            ch.translated_azimuth = self.header.rx.h_p_r[0] + 90
+            ch.measurement_azimuth = self._rx_angle(0) + 90
+            ch.translated_azimuth = self._rx_angle(0) + 90
             ch.channel_id = 5
 
         return ch
@@ -400,8 +406,8 @@ class ZongeMTAvg:
             ch.time_period.start = self.header.start_time
 
         else:
-            ch.measurement_azimuth = self.header.rx.h_p_r[0]
-            ch.translated_azimuth = self.header.rx.h_p_r[0]
+            ch.measurement_azimuth = self._rx_angle(0)
+            ch.translated_azimuth = self._rx_angle(0)
             ch.channel_id = 1
 
         return ch
@@ -419,8 +425,8 @@ class ZongeMTAvg:
             ch.time_period.start = self.header.start_time
 
         else:
-            ch.measurement_azimuth = self.header.rx.h_p_r[0] + 90
-            ch.translated_azimuth = self.header.rx.h_p_r[0] + 90
+            ch.measurement_azimuth = self._rx_angle(0) + 90
+            ch.translated_azimuth = self._rx_angle(0) + 90
             ch.channel_id = 2
 
         return ch
@@ -462,8 +468,8 @@ class ZongeMTAvg:
                 ch.time_period.start = self.header.start_time
 
         else:
-            ch.measurement_azimuth = self.header.rx.h_p_r[-1]
-            ch.translated_azimuth = self.header.rx.h_p_r[-1]
+            ch.measurement_azimuth = self._rx_angle(-1)
+            ch.translated_azimuth = self._rx_angle(-1)
             ch.channel_id = "3"
 
         return ch
-- 
2.43.0


From 37c73f75cc126a766b9ea7ba6cab6c9b8e0cc535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:12 +0000
Subject: [PATCH 65/70] fix: Zonge AVG, station metadata without an MTEdit
 version in the header

---
 mt_metadata/transfer_functions/io/zonge/zonge.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mt_metadata/transfer_functions/io/zonge/zonge.py b/mt_metadata/transfer_functions/io/zonge/zonge.py
index 589cdcf..2330b33 100644
--- a/mt_metadata/transfer_functions/io/zonge/zonge.py
+++ b/mt_metadata/transfer_functions/io/zonge/zonge.py
@@ -487,10 +487,10 @@ class ZongeMTAvg:
         sm.transfer_function.id = self.header.station
         sm.transfer_function.software.author = "Zonge International"
         sm.transfer_function.software.name = "MTEdit"
-        sm.transfer_function.software.version = self.header.m_t_edit.version.split()[0]
-        sm.transfer_function.software.last_updated = (
-            self.header.m_t_edit.version.split()[-1]
-        )
+        version = self.header.m_t_edit.version.split()
+        if version:
+            sm.transfer_function.software.version = version[0]
+            sm.transfer_function.software.last_updated = version[-1]
 
         for key, value in self.header.m_t_edit.to_dict(single=True).items():
             if "version" in key:
-- 
2.43.0


From f1acf2d19992b4bb15a024cab1d29c2718046652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:51 +0000
Subject: [PATCH 66/70] fix: Zonge AVG, the instrument is unknown when the
 header does not name its box

---
 mt_metadata/transfer_functions/io/zonge/metadata/header.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mt_metadata/transfer_functions/io/zonge/metadata/header.py b/mt_metadata/transfer_functions/io/zonge/metadata/header.py
index e239fce..86eea1e 100644
--- a/mt_metadata/transfer_functions/io/zonge/metadata/header.py
+++ b/mt_metadata/transfer_functions/io/zonge/metadata/header.py
@@ -410,7 +410,7 @@ class Header(MetadataBase):
         if self._has_channel("zxx"):
             try:
                 return self._comp_dict["zxx"]["ch"].gdp_box[0]
-            except (KeyError, IndexError, AttributeError):
+            except (KeyError, IndexError, AttributeError, TypeError):
                 return None
         return None
 
-- 
2.43.0


From e5d267f01638e80bc3a000d83f392681bd6befe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:56 +0000
Subject: [PATCH 67/70] fix: processing Station.to_dataset_dataframe, times
 with and without fractional seconds

---
 mt_metadata/processing/aurora/station.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mt_metadata/processing/aurora/station.py b/mt_metadata/processing/aurora/station.py
index beed9bd..4bfd77e 100644
--- a/mt_metadata/processing/aurora/station.py
+++ b/mt_metadata/processing/aurora/station.py
@@ -181,8 +181,8 @@ class Station(MetadataBase):
 
         df = pd.DataFrame(data_list)
         if len(df) > 0:
-            df["start"] = pd.to_datetime(df["start"])
-            df["end"] = pd.to_datetime(df["end"])
+            df["start"] = pd.to_datetime(df["start"], format="ISO8601")
+            df["end"] = pd.to_datetime(df["end"], format="ISO8601")
 
         return df
 
-- 
2.43.0


From e7de5b42be21d35caf2304b4fb741ce21e1067d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:56 +0000
Subject: [PATCH 68/70] fix: Stations.from_dataset_dataframe, replace the
 remotes of an earlier table

---
 mt_metadata/processing/aurora/stations.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mt_metadata/processing/aurora/stations.py b/mt_metadata/processing/aurora/stations.py
index 5600ecd..34acfd0 100644
--- a/mt_metadata/processing/aurora/stations.py
+++ b/mt_metadata/processing/aurora/stations.py
@@ -161,6 +161,7 @@ class Stations(MetadataBase):
 
         self.local.from_dataset_dataframe(df[df.station == station])
 
+        self.remote = []
         for rr_station in rr_stations:
             rr = Station()  # type: ignore
             rr.from_dataset_dataframe(df[df.station == rr_station])
-- 
2.43.0


From 79c7afba077363a60d3ef81c9deb1049b01f6356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:56 +0000
Subject: [PATCH 69/70] fix: time period of a decimation level and of Fourier
 coefficients, test the end for the end

---
 mt_metadata/processing/fourier_coefficients/decimation.py | 2 +-
 mt_metadata/processing/fourier_coefficients/fc.py         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mt_metadata/processing/fourier_coefficients/decimation.py b/mt_metadata/processing/fourier_coefficients/decimation.py
index 829c6ab..ffd1636 100644
--- a/mt_metadata/processing/fourier_coefficients/decimation.py
+++ b/mt_metadata/processing/fourier_coefficients/decimation.py
@@ -378,7 +378,7 @@ class Decimation(MetadataBase):
         for ch in self.channels:
             if ch.time_period.start != "1980-01-01T00:00:00+00:00":
                 start.append(ch.time_period.start)
-            if ch.time_period.start != "1980-01-01T00:00:00+00:00":
+            if ch.time_period.end != "1980-01-01T00:00:00+00:00":
                 end.append(ch.time_period.end)
         if start:
             if self.time_period.start == "1980-01-01T00:00:00+00:00":
diff --git a/mt_metadata/processing/fourier_coefficients/fc.py b/mt_metadata/processing/fourier_coefficients/fc.py
index 5122c95..902ca2c 100644
--- a/mt_metadata/processing/fourier_coefficients/fc.py
+++ b/mt_metadata/processing/fourier_coefficients/fc.py
@@ -311,7 +311,7 @@ class FC(MetadataBase):
         for dl in self.levels:
             if dl.time_period.start != "1980-01-01T00:00:00+00:00":
                 start.append(dl.time_period.start)
-            if dl.time_period.start != "1980-01-01T00:00:00+00:00":
+            if dl.time_period.end != "1980-01-01T00:00:00+00:00":
                 end.append(dl.time_period.end)
         if start:
             if self.time_period.start == "1980-01-01T00:00:00+00:00":
-- 
2.43.0


From 18ed1957b0e83950f1fa013e02648ff012292e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:56 +0000
Subject: [PATCH 70/70] fix: fc_decimations_creator, levels do not share one
 time period

---
 mt_metadata/processing/fourier_coefficients/decimation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mt_metadata/processing/fourier_coefficients/decimation.py b/mt_metadata/processing/fourier_coefficients/decimation.py
index ffd1636..e4572c9 100644
--- a/mt_metadata/processing/fourier_coefficients/decimation.py
+++ b/mt_metadata/processing/fourier_coefficients/decimation.py
@@ -479,7 +479,7 @@ def fc_decimations_creator(
 
         if time_period:
             if isinstance(time_period, TimePeriod):
-                fc_dec.time_period = time_period
+                fc_dec.time_period = time_period.copy()
             else:
                 msg = (
                     f"Not sure how to assign time_period with type {type(time_period)}"
-- 
2.43.0

