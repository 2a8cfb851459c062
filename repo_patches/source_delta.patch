From 8e848059b3ed121b70af3c54666c4800dba00d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:43 +0000
Subject: [PATCH 01/96] fix: interpolation of small grids divided by a zero
 progress step

---
 src/pyg2p/util/generics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyg2p/util/generics.py b/src/pyg2p/util/generics.py
index ef0046a..cedc2ef 100644
--- a/src/pyg2p/util/generics.py
+++ b/src/pyg2p/util/generics.py
@@ -20,7 +20,7 @@ def is_callable(v):
 
 
 def progress_step_and_backchar(num_cells):
-    progress_step = int(num_cells / 250)
+    progress_step = max(int(num_cells / 250), 1)  # callers use it as a divisor
     back_char = '\r'
     if not stdout.isatty():
         # out is being redirected
-- 
2.43.0


From 922effc1bbee1937345e46269d96465da3d5bc65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:43 +0000
Subject: [PATCH 02/96] fix: closing a netCDF writer that wrote nothing raised
 and hid the exit status

---
 src/pyg2p/main/writers/netcdf.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pyg2p/main/writers/netcdf.py b/src/pyg2p/main/writers/netcdf.py
index 1702511..45f6c7c 100644
--- a/src/pyg2p/main/writers/netcdf.py
+++ b/src/pyg2p/main/writers/netcdf.py
@@ -183,5 +183,8 @@ class NetCDFWriter(Writer):
         return masked
 
     def close(self):
+        if self.nf is None:
+            # nothing was written (execution stopped before)
+            return
         self.nf.close()
         self._log(f'{self.filepath} written!', 'INFO')
-- 
2.43.0


From 4ce4b35fbf2b09b216efd34ae6c4812684c96c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:02 +0000
Subject: [PATCH 03/96] fix: netCDF output failed when the clone map has no
 missing cells

---
 src/pyg2p/main/writers/netcdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyg2p/main/writers/netcdf.py b/src/pyg2p/main/writers/netcdf.py
index 45f6c7c..b35391f 100644
--- a/src/pyg2p/main/writers/netcdf.py
+++ b/src/pyg2p/main/writers/netcdf.py
@@ -32,7 +32,7 @@ class NetCDFWriter(Writer):
         
         # add mask from clone map
         self.area = ma.masked_values(self.area, area.mv)
-        self._mask = ma.getmask(self.area)
+        self._mask = ma.getmaskarray(self.area)
         
         if lats_map.endswith('.nc'):
             if (lats_map!=lons_map):
-- 
2.43.0


From 8fbbeda87c8a38a6d5d2975c40633c7d4dd30231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:13 +0000
Subject: [PATCH 04/96] fix: scipy interpolation turned missing source values
 into data

---
 src/pyg2p/main/interpolation/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pyg2p/main/interpolation/__init__.py b/src/pyg2p/main/interpolation/__init__.py
index 4e7b2f0..3e39a53 100644
--- a/src/pyg2p/main/interpolation/__init__.py
+++ b/src/pyg2p/main/interpolation/__init__.py
@@ -144,8 +144,9 @@ class Interpolator(Loggable):
         # It gives (last_index + 1) from original values when value can't be computed.
         # These "last_index + 1" indexes are stored in intertable so we artificially add a missing value
         # v[last_index + 1] = mv
-        v = np.append(v, self.mv_output)
-        orig_mask = False if not isinstance(v, ma.core.MaskedArray) else v.mask
+        # np.append drops the mask: keep it apart (with an entry for the appended value)
+        orig_mask = np.append(ma.getmaskarray(v), False) if ma.is_masked(v) else False
+        v = np.append(ma.getdata(v), self.mv_output)
         if nnear == 1:
             if isinstance(orig_mask, np.ndarray):
                 result = ma.masked_where(orig_mask[indexes], v[indexes], copy=False)
-- 
2.43.0


From 4c522d74a587c2d04a0c77a10db4d1d9a01bbc0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:13 +0000
Subject: [PATCH 05/96] fix: netCDF output lost the mask of missing values

---
 src/pyg2p/main/writers/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pyg2p/main/writers/__init__.py b/src/pyg2p/main/writers/__init__.py
index 41c20f3..3a0975b 100644
--- a/src/pyg2p/main/writers/__init__.py
+++ b/src/pyg2p/main/writers/__init__.py
@@ -3,6 +3,7 @@ import abc
 import collections
 
 import numpy as np
+import numpy.ma as ma
 
 from pyg2p import Loggable
 from pyg2p.main.interpolation import Interpolator
@@ -65,6 +66,7 @@ class OutputWriter(Loggable):
             if self.ctx.must_do_correction:
                 corrector = Corrector.get_instance(self.ctx, grid_id)
                 out_v = corrector.correct(out_v)
+            out_v = ma.filled(out_v, self.interpolator.mv_output)
             out_v[out_v == self.interpolator.mv_output] = np.nan
             out_values.append(out_v)
             time_values.append(timestep.end_step)
-- 
2.43.0


From 794a107ebb0d91a9af79ebcd55b9bce583220a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:13 +0000
Subject: [PATCH 06/96] fix: cutting off negative values turned missing values
 into data

---
 src/pyg2p/main/manipulation/conversion.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/pyg2p/main/manipulation/conversion.py b/src/pyg2p/main/manipulation/conversion.py
index 2a3cdd6..a709d13 100644
--- a/src/pyg2p/main/manipulation/conversion.py
+++ b/src/pyg2p/main/manipulation/conversion.py
@@ -45,12 +45,19 @@ class Converter(Loggable):
         self._log('Cutting off negative values...')
         if isinstance(xs, dict):
             for timestep, values in xs.items():
-                xs[timestep] = ne.evaluate('where(values<0, 0, values)')
+                xs[timestep] = self._cut_off(values)
         else:
-            values = xs
-            xs = ne.evaluate('where(values<0, 0, values)')
+            xs = self._cut_off(xs)
         return xs
 
+    @staticmethod
+    def _cut_off(values):
+        res = ne.evaluate('where(values<0, 0, values)')
+        # preserve masks as numexpr just ignores them
+        if isinstance(values, ma.core.MaskedArray):
+            res = ma.masked_where(values.mask, res, copy=False)
+        return res
+
     def __str__(self):
         log_mess = "\nConverting values from units {}. " \
                    "\nFunction: {}" \
-- 
2.43.0


From 10fcc49b6df9533ee00758bd8712213653be4cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:13 +0000
Subject: [PATCH 07/96] fix: accumulation lost missing values of the step at
 the end of the period

---
 src/pyg2p/main/manipulation/aggregator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyg2p/main/manipulation/aggregator.py b/src/pyg2p/main/manipulation/aggregator.py
index 640bed6..01b21f5 100644
--- a/src/pyg2p/main/manipulation/aggregator.py
+++ b/src/pyg2p/main/manipulation/aggregator.py
@@ -145,7 +145,8 @@ class Aggregator(Loggable):
             _aggr_step = self._aggregation_step
             key = Step(iter_ - self._aggregation_step, iter_, resolution, self._aggregation_step, level)
             out_value = ne.evaluate('(v_iter_ma-v_iter_1_ma)*_unit_time/_aggr_step')
-            out_values[key] = ma.masked_where(numeric.get_masks(v_iter_ma, v_iter_1_ma), out_value, copy=False)
+            # v_iter_ma has no mask: get it from the original values
+            out_values[key] = ma.masked_where(numeric.get_masks(v_ord[iter_], v_iter_1_ma), out_value, copy=False)
 
             if self._logger.isEnabledFor(logging.DEBUG):
                 self._log(f'out[{key}] = (grib[{iter_}] - grib[{(iter_ - self._aggregation_step)}])  * ({self._unit_time}/{self._aggregation_step}))')
-- 
2.43.0


From 31ae3beb287bed66c2e18ea1e056bb3a6489c19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:13 +0000
Subject: [PATCH 08/96] fix: average turned missing values into data

---
 src/pyg2p/main/manipulation/aggregator.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pyg2p/main/manipulation/aggregator.py b/src/pyg2p/main/manipulation/aggregator.py
index 01b21f5..4fcba45 100644
--- a/src/pyg2p/main/manipulation/aggregator.py
+++ b/src/pyg2p/main/manipulation/aggregator.py
@@ -181,6 +181,7 @@ class Aggregator(Loggable):
                     iter_from = iter_ + 1
                     iter_to = iter_ + self._aggregation_step + 1
                 temp_sum = np.zeros(shape_iter)
+                used_values = []
                 sum_counter = 0.0
                 v_ord_keys = list(v_ord.keys())
 
@@ -205,6 +206,7 @@ class Aggregator(Loggable):
                                     v_ma = v_ord[iterator_avg]*dt1
                                     print("Iterator: {} weight: {}".format(iterator_avg,dt1))
                                     sum_counter += dt1
+                                used_values.append(v_ma)
                                 ne.evaluate('temp_sum + v_ma', out=temp_sum)
                 else:
                     for iterator_avg in range(iter_from, iter_to, 1):
@@ -222,6 +224,7 @@ class Aggregator(Loggable):
                             v_ma = v_ord[next_]
                             sum_counter += 1
                             print("Iterator: {} weight: 1".format(next_))
+                        used_values.append(v_ma)
                         ne.evaluate('temp_sum + v_ma', out=temp_sum)
 
                 # mask result with all maskes from GRIB original values used in average (if existing any)
@@ -230,7 +233,7 @@ class Aggregator(Loggable):
                 print("dividing sum by {}".format(sum_counter))
                 res = ne.evaluate('temp_sum/sum_counter')
                 # mask result with all maskes from GRIB original values used in average (if existing any)
-                out_values[key] = ma.masked_where(numeric.get_masks(v_ord.values()), res, copy=False)
+                out_values[key] = ma.masked_where(numeric.get_masks(*used_values), res, copy=False)
                 if self._logger.isEnabledFor(logging.DEBUG):
                     self._log(f'out[{key}] = temp_sum/{sum_counter}')
 
-- 
2.43.0


From 402757274b7a36c4c497aeaaa81db66ea85ced42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:13 +0000
Subject: [PATCH 09/96] fix: instantaneous aggregation turned missing values
 into data

---
 src/pyg2p/main/manipulation/aggregator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyg2p/main/manipulation/aggregator.py b/src/pyg2p/main/manipulation/aggregator.py
index 4fcba45..f7f27bb 100644
--- a/src/pyg2p/main/manipulation/aggregator.py
+++ b/src/pyg2p/main/manipulation/aggregator.py
@@ -265,7 +265,7 @@ class Aggregator(Loggable):
                 if iter_ in v_ord_keys:
                     if self._logger.isEnabledFor(logging.DEBUG):
                         self._log(f'out[{key}] = grib[{iter_}]')
-                    res_inst += v_ord[iter_]
+                    res_inst = res_inst + v_ord[iter_]
                 else:
                     if iter_ == 0:
                         # left out as zero arrays if 0 step is not in the grib
@@ -277,7 +277,7 @@ class Aggregator(Loggable):
                         next_ = list(v_ord_keys)[ind_next_]
                         if self._logger.isEnabledFor(logging.DEBUG):
                             self._log(f'out[{key}] = grib[{next_}]')
-                        res_inst += v_ord[next_]
+                        res_inst = res_inst + v_ord[next_]
                 out_values[key] = res_inst
 
             return out_values
-- 
2.43.0


From f354067a8d3f2fa6d3889e102ca99b44db5ece09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:46 +0000
Subject: [PATCH 10/96] fix: accumulation of messages coarser than the
 aggregation step used wrong or no intermediate values

---
 src/pyg2p/main/manipulation/aggregator.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pyg2p/main/manipulation/aggregator.py b/src/pyg2p/main/manipulation/aggregator.py
index f7f27bb..bdb2976 100644
--- a/src/pyg2p/main/manipulation/aggregator.py
+++ b/src/pyg2p/main/manipulation/aggregator.py
@@ -85,7 +85,7 @@ class Aggregator(Loggable):
 
         created_zero_array = False
         for iter_ in range(self._start, self._end + 1, self._aggregation_step):
-            v_ord_keys = list(v_ord.keys())
+            v_ord_keys = sorted(v_ord.keys())  # created messages are appended to v_ord
             if iter_ not in v_ord_keys:
 
                 ind_next_ts = bisect.bisect_left(v_ord_keys, iter_)
@@ -125,8 +125,9 @@ class Aggregator(Loggable):
 
                     if self._logger.isEnabledFor(logging.DEBUG):
                         self._log(f'Creating message grib[{iter_ - self._aggregation_step}]=grib[{originalts}]+(grib[{next_ts}]-grib[{originalts}])*(({iter_}-{originalts})/({next_ts}-{originalts}))')
-                    v_out = ne.evaluate('v_ots_ma + (v_nts_ma-v_ots_ma)*((iter_ - originalts)/(next_ts-originalts))')
-                    v_ord[iter_ - self._aggregation_step] = ma.masked_where(numeric.get_masks(v_ots_ma, v_nts_ma), v_out, copy=False)
+                    prev_ = iter_ - self._aggregation_step
+                    v_out = ne.evaluate('v_ots_ma + (v_nts_ma-v_ots_ma)*((prev_ - originalts)/(next_ts-originalts))')
+                    v_ord[prev_] = ma.masked_where(numeric.get_masks(v_ots_ma, v_nts_ma), v_out, copy=False)
 
             if iter_ - self._aggregation_step == 0 and self._force_zero:
                 # forced ZERO array...instead of taking the grib
-- 
2.43.0


From 06124f5c35f964285633c6f1f5882f5d45015577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:46 +0000
Subject: [PATCH 11/96] fix: accumulation before the first message was
 extrapolated from the last one

---
 src/pyg2p/main/manipulation/aggregator.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pyg2p/main/manipulation/aggregator.py b/src/pyg2p/main/manipulation/aggregator.py
index bdb2976..3846972 100644
--- a/src/pyg2p/main/manipulation/aggregator.py
+++ b/src/pyg2p/main/manipulation/aggregator.py
@@ -83,6 +83,10 @@ class Aggregator(Loggable):
             self._log('start 0: change to the first timestep {}'.format(self._aggregation_step))
             self._start = self._aggregation_step
 
+        if 0 not in v_ord and min(v_ord) > max(self._start - self._aggregation_step, 0):
+            # nothing to interpolate from before the first message: accumulations start from zero
+            v_ord[0] = np.zeros(shape_iter)
+
         created_zero_array = False
         for iter_ in range(self._start, self._end + 1, self._aggregation_step):
             v_ord_keys = sorted(v_ord.keys())  # created messages are appended to v_ord
-- 
2.43.0


From ccb6890ca9195b30fb91fb65f30449eed6a4b3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:46 +0000
Subject: [PATCH 12/96] fix: average from step 0 looked for a window ending
 after the last step

---
 src/pyg2p/main/manipulation/aggregator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyg2p/main/manipulation/aggregator.py b/src/pyg2p/main/manipulation/aggregator.py
index 3846972..5aa65a9 100644
--- a/src/pyg2p/main/manipulation/aggregator.py
+++ b/src/pyg2p/main/manipulation/aggregator.py
@@ -173,7 +173,7 @@ class Aggregator(Loggable):
             v_ord = collections.OrderedDict(sorted(dict((k.end_step, v_) for (k, v_) in values.items()).items(), key=lambda k: k))
             if self._start == 0 or self._second_t_res:
                 iter_start = self._start
-                iter_end = self._end - self._aggregation_step + 2       # CR: TODO: check if +2 instead of +1 is actually needed
+                iter_end = self._end - self._aggregation_step + 1
             else:
                 iter_start = self._start - self._aggregation_step
                 iter_end = self._end - self._aggregation_step + 1
-- 
2.43.0


From a9093d9491a7bace2760eccbdfa3e19770c3d0ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:46 +0000
Subject: [PATCH 13/96] fix: wrong reference time or crash for data times
 before 10:00

---
 src/pyg2p/main/readers/grib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyg2p/main/readers/grib.py b/src/pyg2p/main/readers/grib.py
index a4abd63..f94dc73 100644
--- a/src/pyg2p/main/readers/grib.py
+++ b/src/pyg2p/main/readers/grib.py
@@ -208,7 +208,7 @@ class GRIBReader(Loggable):
             if grid2:
                 key_2nd_spatial_res = min(all_values_second_res.keys())
                 grid.set_2nd_resolution(grid2, key_2nd_spatial_res)
-            return Messages(all_values, missing_value, unit, type_of_level, type_of_step, step_units, grid, all_values_second_res, data_date=data_date, data_time=str(data_time)[:2])
+            return Messages(all_values, missing_value, unit, type_of_level, type_of_step, step_units, grid, all_values_second_res, data_date=data_date, data_time=f'{data_time:04d}'[:2])
         # no messages found
         else:
             raise ApplicationException.get_exc(NO_MESSAGES, details=f'using {kwargs}')
-- 
2.43.0


From b81d34d7b784a9cb625224bb417202d14e1b4bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:46 +0000
Subject: [PATCH 14/96] fix: step and period were taken from messages of other
 levels, dates and times

---
 src/pyg2p/main/context.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pyg2p/main/context.py b/src/pyg2p/main/context.py
index 92be2fc..0154165 100644
--- a/src/pyg2p/main/context.py
+++ b/src/pyg2p/main/context.py
@@ -170,6 +170,12 @@ class Context:
     def create_select_cmd_for_aggregation_attrs(self):
 
         reader_arguments = {'shortName': str(self._vars['parameter.shortName'])}
+        if self._vars['parameter.level'] is not None:
+            reader_arguments['level'] = self._vars['parameter.level']
+        if self._vars['parameter.dataTime'] is not None:
+            reader_arguments['dataTime'] = self._vars['parameter.dataTime']
+        if self._vars['parameter.dataDate'] is not None:
+            reader_arguments['dataDate'] = self._vars['parameter.dataDate']
         if self.has_perturbation_number:
             reader_arguments['perturbationNumber'] = self._vars['parameter.perturbationNumber']
         return reader_arguments
-- 
2.43.0


From 847c533ebef5951352b24fa0139880416b8dc513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:51 +0000
Subject: [PATCH 15/96] fix: numeric level in the execution file raised or was
 ignored

---
 src/pyg2p/main/context.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/pyg2p/main/context.py b/src/pyg2p/main/context.py
index 0154165..24a0637 100644
--- a/src/pyg2p/main/context.py
+++ b/src/pyg2p/main/context.py
@@ -118,9 +118,14 @@ class Context:
 
             # check all numbers
 
-            if self._vars['parameter.level'] and not self._vars['parameter.level'].isdigit():
+            # level can be a number or a string and 0 is a valid level
+            level = self._vars.get('parameter.level')
+            if level in (None, ''):
+                self._vars['parameter.level'] = None
+            elif not str(level).isdigit():
                 raise ApplicationException.get_exc(NOT_A_NUMBER, 'Parameter level')
-            self._vars['parameter.level'] = int(self._vars['parameter.level']) if self._vars.get('parameter.level') else None
+            else:
+                self._vars['parameter.level'] = int(level)
 
             self._vars['outMaps.unitTime'] = int(self._vars['outMaps.unitTime']) if self._vars['outMaps.unitTime'] is not None else self.default_values['outMaps.unitTime']
 
-- 
2.43.0


From 0365162577f191f8ba6b293229253ca7a56f4cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:51 +0000
Subject: [PATCH 16/96] fix: perturbationNumber of the execution file was
 ignored

---
 src/pyg2p/main/context.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pyg2p/main/context.py b/src/pyg2p/main/context.py
index 24a0637..721fe5f 100644
--- a/src/pyg2p/main/context.py
+++ b/src/pyg2p/main/context.py
@@ -423,6 +423,9 @@ class ExecutionContext(Context):
         if self._vars['parameter.dataDate'] is None and exec_conf['Parameter'].get('@dataDate'):
             self._vars['parameter.dataDate'] = int(exec_conf['Parameter']['@dataDate'])  # date
 
+        if self._vars['parameter.perturbationNumber'] is None and exec_conf['Parameter'].get('@perturbationNumber') not in (None, ''):
+            self._vars['parameter.perturbationNumber'] = int(exec_conf['Parameter']['@perturbationNumber'])  # eps member
+
         self._vars['parameter.level'] = exec_conf['Parameter'].get('@level')  # number
 
         if exec_conf.get('Aggregation'):
-- 
2.43.0


From 6da7d23032b31852afce29b3089a42424d75168c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:51 +0000
Subject: [PATCH 17/96] fix: numeric dataTime 0 in the configuration was
 ignored

---
 src/pyg2p/main/api.py     | 2 +-
 src/pyg2p/main/context.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyg2p/main/api.py b/src/pyg2p/main/api.py
index aaf78de..b7b09a4 100644
--- a/src/pyg2p/main/api.py
+++ b/src/pyg2p/main/api.py
@@ -207,7 +207,7 @@ class ApiContext(Context):
             self._vars['parameter.tstart'] = int(self.api_conf['Parameter']['tstart'])
         if self._vars['parameter.tend'] is None and self.api_conf['Parameter'].get('tend'):
             self._vars['parameter.tend'] = int(self.api_conf['Parameter']['tend'])
-        if self._vars['parameter.dataTime'] is None and self.api_conf['Parameter'].get('dataTime'):
+        if self._vars['parameter.dataTime'] is None and self.api_conf['Parameter'].get('dataTime') not in (None, ''):
             self._vars['parameter.dataTime'] = int(self.api_conf['Parameter']['dataTime'])  # number
         if self._vars['parameter.dataDate'] is None and self.api_conf['Parameter'].get('dataDate'):
             self._vars['parameter.dataDate'] = int(self.api_conf['Parameter']['dataDate'])  # date
diff --git a/src/pyg2p/main/context.py b/src/pyg2p/main/context.py
index 721fe5f..21be19a 100644
--- a/src/pyg2p/main/context.py
+++ b/src/pyg2p/main/context.py
@@ -418,7 +418,7 @@ class ExecutionContext(Context):
             self._vars['parameter.tstart'] = int(exec_conf['Parameter']['@tstart'])
         if self._vars['parameter.tend'] is None and exec_conf['Parameter'].get('@tend'):
             self._vars['parameter.tend'] = int(exec_conf['Parameter']['@tend'])
-        if self._vars['parameter.dataTime'] is None and exec_conf['Parameter'].get('@dataTime'):
+        if self._vars['parameter.dataTime'] is None and exec_conf['Parameter'].get('@dataTime') not in (None, ''):
             self._vars['parameter.dataTime'] = int(exec_conf['Parameter']['@dataTime'])  # number
         if self._vars['parameter.dataDate'] is None and exec_conf['Parameter'].get('@dataDate'):
             self._vars['parameter.dataDate'] = int(exec_conf['Parameter']['@dataDate'])  # date
-- 
2.43.0


From 0ca6f3049594b449cad66b0a31c7ad5a5d951aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:20 +0000
Subject: [PATCH 18/96] fix: conversion formulas with an equality test on x
 were truncated

---
 src/pyg2p/main/manipulation/conversion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyg2p/main/manipulation/conversion.py b/src/pyg2p/main/manipulation/conversion.py
index a709d13..76b7cf3 100644
--- a/src/pyg2p/main/manipulation/conversion.py
+++ b/src/pyg2p/main/manipulation/conversion.py
@@ -18,7 +18,7 @@ class Converter(Loggable):
             if self._function_str == 'x=x':
                 self._identity = True
             else:
-                self._numexpr_eval = 'where(x!=mv, {}, mv)'.format(self._function_str.replace('x=', ''))
+                self._numexpr_eval = 'where(x!=mv, {}, mv)'.format(self._function_str.replace('x=', '', 1))
 
     def set_unit_to_convert(self, unit):
         self._initial_unit = unit
-- 
2.43.0


From 5b1a24687ee87fcd4b783f78d3124677dd520c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:30 +0000
Subject: [PATCH 19/96] fix: inverse distance (GRIB) on a grid point depended
 on the first grid point being present

---
 src/pyg2p/main/interpolation/grib_interpolation_lib.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pyg2p/main/interpolation/grib_interpolation_lib.py b/src/pyg2p/main/interpolation/grib_interpolation_lib.py
index 6f4febb..7324468 100644
--- a/src/pyg2p/main/interpolation/grib_interpolation_lib.py
+++ b/src/pyg2p/main/interpolation/grib_interpolation_lib.py
@@ -134,9 +134,9 @@ def _compute_coeffs_and_idxs(n_nearest):
     inv3 = (1 / n_nearest[2]['distance']) if not exact_position else 0
     inv4 = (1 / n_nearest[3]['distance']) if not exact_position else 0
     idx1 = n_nearest[0]['index'] if not exact_position else n_nearest[exact_position_idx]['index']
-    idx2 = n_nearest[1]['index'] if not exact_position else 0
-    idx3 = n_nearest[2]['index'] if not exact_position else 0
-    idx4 = n_nearest[3]['index'] if not exact_position else 0
+    idx2 = n_nearest[1]['index'] if not exact_position else idx1
+    idx3 = n_nearest[2]['index'] if not exact_position else idx1
+    idx4 = n_nearest[3]['index'] if not exact_position else idx1
     return inv1, inv2, inv3, inv4, idx1, idx2, idx3, idx4
 
 
-- 
2.43.0


From 3ca6ba6ccd68b01ca90735cbed95cb6f3dab0c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:35 +0000
Subject: [PATCH 20/96] fix: triangulation placed target cells at wrong
 latitudes

Only the first latitude of each target row was scaled, and the factor was wrong for grids in the southern hemisphere
---
 .../interpolation/scipy_interpolation_lib.py    | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
index 7760424..b700680 100644
--- a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
+++ b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
@@ -1392,21 +1392,24 @@ class ScipyInterpolation(object):
             for i in range(gribpoints_scaled.shape[0]):
                 gribpoints_scaled[i,0], error = quad(integrand, 0, np.radians(gribpoints_scaled[i,0]))
 
-            gribpoints_scaled[:,0] = gribpoints_scaled[:,0]*90*10/max(gribpoints_scaled[:,0])
+            # same factor for source and target; absolute value for grids in the southern hemisphere
+            lat_scale = 90*10/max(abs(gribpoints_scaled[:,0]))
+            gribpoints_scaled[:,0] = gribpoints_scaled[:,0]*lat_scale
 
         tri = Delaunay(gribpoints_scaled)        
         #tri = Delaunay(gribpoints)
         p = np.stack((self.target_latsOR[:,:].ravel(),self.target_lonsOR[:,:].ravel()),axis=-1)
-        target_latsORscaled = self.target_latsOR[:,0].copy()
+        # every target latitude is scaled: cells of a row do not need to be on the same parallel
+        target_latsORscaled = np.array(self.target_latsOR, dtype=float)
         # In case of non rotated grib files, the grid has variable number of points according to the latitude, 
         # so adjust the grid spaces for an effective triangulation
         # In case of rotated grid, instead, use the original grid points, that is fine for the spece even if it is rotaded
         if self.source_grid_is_rotated == False:
-            for i in range(target_latsORscaled[:].shape[0]):
-                target_latsORscaled[i], error = quad(integrand, 0, np.radians(target_latsORscaled[i]))
-            target_latsORscaled[:] = target_latsORscaled[:]*90*10/max(quad(integrand, 0, np.radians(max(gribpoints[:,0]))))
-        
-        target_latsORscaled = np.ones((1, self.target_latsOR.shape[1])) * target_latsORscaled.reshape(-1,1)
+            unique_lats, inverse = np.unique(target_latsORscaled, return_inverse=True)
+            for i in range(unique_lats.shape[0]):
+                unique_lats[i], error = quad(integrand, 0, np.radians(unique_lats[i]))
+            target_latsORscaled = unique_lats[inverse.reshape(target_latsORscaled.shape)]*lat_scale
+
         p_scaled = np.stack((target_latsORscaled.ravel(),self.target_lonsOR[:,:].ravel()),axis=-1)
 
         result = mask_it(np.empty((p.shape[0],) +
-- 
2.43.0


From ed276a5b44ee6539af8099d616f83aca20eca19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:35 +0000
Subject: [PATCH 21/96] fix: bilinear_delaunay failed when the last triangles
 have no neighbour in use

---
 src/pyg2p/main/interpolation/scipy_interpolation_lib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
index b700680..f5a6dcb 100644
--- a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
+++ b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
@@ -1440,7 +1440,7 @@ class ScipyInterpolation(object):
             # add the fourth point to each idxs[nn] from the near triangle on the longest side
             idxs = np.column_stack((idxs,empty(idxs.shape[0],-1,dtype=idxs.dtype)))
             idxs_tri_neighbors = tri.neighbors[idxs_tri]
-            idxs_tri_neighbors_to_use = empty(idxs_tri_neighbors.max()+1,-1,dtype=idxs_tri.dtype)
+            idxs_tri_neighbors_to_use = empty(len(tri.simplices),-1,dtype=idxs_tri.dtype)
 
         for nn in range(len(idxs_tri)):
             if nn % progress_step == 0:
-- 
2.43.0


From ad3630fa7bc9ddb41ceae8df92a1b8a874a284c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:35 +0000
Subject: [PATCH 22/96] fix: triangulation on global grids took the first
 repeated point for a missing one

---
 src/pyg2p/main/interpolation/scipy_interpolation_lib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
index f5a6dcb..2a429ed 100644
--- a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
+++ b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
@@ -1513,7 +1513,7 @@ class ScipyInterpolation(object):
                         weights[nn] = np.append(np.append(np.transpose(b),1 - b.sum(axis=0)),np.zeros(nnear-3))
                         result[nn] = weights[nn,0]*z[idxs[nn,0]] + weights[nn,1]*z[idxs[nn,1]] + weights[nn,2]*z[idxs[nn,2]]
         if (is_global_map==True):
-            idxs[idxs>len(self.latgrib)]=original_indexes[idxs[idxs>len(self.latgrib)]-len(self.latgrib)]
+            idxs[idxs>=len(self.latgrib)]=original_indexes[idxs[idxs>=len(self.latgrib)]-len(self.latgrib)]
         stdout.write('{}{:>100}'.format(back_char, ' '))
         stdout.write('{}Building coeffs: {}/{} [outs: {}] (100%)\n'.format(back_char, num_cells, num_cells, outs))
         if use_bilinear:
-- 
2.43.0


From c6ba55896aaf492ec133259daee1809b8dda7608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:29 +0000
Subject: [PATCH 23/96] fix: triangulation missed cells on grids across the
 date line and target longitudes above 180

---
 .../interpolation/scipy_interpolation_lib.py  | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
index 2a429ed..d898658 100644
--- a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
+++ b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
@@ -1354,13 +1354,26 @@ class ScipyInterpolation(object):
         normalized_latgrib=self.latgrib.copy()
         normalized_longrib=self.longrib.copy()
         normalized_longrib[normalized_longrib>180]-=360
+        # target cells in the same longitude convention
+        normalized_target_lons=np.array(self.target_lonsOR, dtype=float)
+        normalized_target_lons[normalized_target_lons>180]-=360
         z=self.z.copy()
 
         longrib_max = normalized_longrib.max()
         longrib_min = normalized_longrib.min()
         # evaluate an approx_grib_resolution by using 10 times the first longitude values 
         # to check if the whole globe is covered
-        approx_grib_resolution = abs(normalized_longrib[0]-normalized_longrib[1])*1.5
+        approx_grib_resolution = abs((normalized_longrib[0]-normalized_longrib[1]+180)%360-180)*1.5
+        unique_lons = np.unique(normalized_longrib)
+        widest_gap = np.argmax(np.diff(unique_lons))
+        gap_size = unique_lons[widest_gap+1]-unique_lons[widest_gap]
+        if gap_size > max(approx_grib_resolution, 360-(longrib_max-longrib_min)):
+            # non-global map across the date line: move the western part to the east of it
+            cut = unique_lons[widest_gap]+gap_size/2
+            normalized_longrib[normalized_longrib<cut]+=360
+            normalized_target_lons[normalized_target_lons<cut]+=360
+            longrib_max = normalized_longrib.max()
+            longrib_min = normalized_longrib.min()
         is_global_map = (360-(longrib_max-longrib_min))<approx_grib_resolution
         if is_global_map:
             #additional points map
@@ -1398,7 +1411,7 @@ class ScipyInterpolation(object):
 
         tri = Delaunay(gribpoints_scaled)        
         #tri = Delaunay(gribpoints)
-        p = np.stack((self.target_latsOR[:,:].ravel(),self.target_lonsOR[:,:].ravel()),axis=-1)
+        p = np.stack((self.target_latsOR[:,:].ravel(),normalized_target_lons.ravel()),axis=-1)
         # every target latitude is scaled: cells of a row do not need to be on the same parallel
         target_latsORscaled = np.array(self.target_latsOR, dtype=float)
         # In case of non rotated grib files, the grid has variable number of points according to the latitude, 
@@ -1410,7 +1423,7 @@ class ScipyInterpolation(object):
                 unique_lats[i], error = quad(integrand, 0, np.radians(unique_lats[i]))
             target_latsORscaled = unique_lats[inverse.reshape(target_latsORscaled.shape)]*lat_scale
 
-        p_scaled = np.stack((target_latsORscaled.ravel(),self.target_lonsOR[:,:].ravel()),axis=-1)
+        p_scaled = np.stack((target_latsORscaled.ravel(),normalized_target_lons.ravel()),axis=-1)
 
         result = mask_it(np.empty((p.shape[0],) +
                          np.shape(z[0])), self._mv_target, 1)
-- 
2.43.0


From 5d24d367de2e36add566ac488e834fb05f5c46c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:33 +0000
Subject: [PATCH 24/96] fix: bilinear gave up looking for the enclosing points
 on targets with few rows

---
 src/pyg2p/main/interpolation/scipy_interpolation_lib.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
index d898658..5bce0e3 100644
--- a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
+++ b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
@@ -1079,7 +1079,7 @@ class ScipyInterpolation(object):
     def replaceIndex(self, indexes_to_replace, indexes, nn, additional_points):
         additional_points += len(indexes_to_replace)
         # replace the unwanted index with next one:
-        _, replacement_indexes = self.tree.query(self.target_location, k=self.nnear+additional_points, workers=self.njobs) 
+        _, replacement_indexes = self.tree.query(self.target_location, k=min(self.nnear+additional_points, self.tree.n), workers=self.njobs) 
         # print("replacement_indexes: {}".format(replacement_indexes))
 
         # delete all the current indexes from the replaceent_indexes 
@@ -1148,7 +1148,8 @@ class ScipyInterpolation(object):
         not_in_quad = 0     # number of points falling outside quadrilaterals after max_retries
 
         # max number of retry equals to a full lenght of lon coordinates
-        max_retries = self.target_lonsOR.shape[0]        
+        # (or 1000 for targets with few rows), up to the number of grid points
+        max_retries = min(max(self.target_lonsOR.shape[0], 1000), self.tree.n)
         max_used_additional_points = 0
         nn_max_used_additional_points = -1
 
-- 
2.43.0


From 3d7e05bdbcad29775f14778dec4aeb5a36a3589a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:33 +0000
Subject: [PATCH 25/96] fix: bilinear never ended or used the points of another
 cell when no enclosing points are found

---
 src/pyg2p/main/interpolation/scipy_interpolation_lib.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
index 5bce0e3..98823bd 100644
--- a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
+++ b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
@@ -1201,7 +1201,10 @@ class ScipyInterpolation(object):
                 else:
                     additional_checks_completed = True
                     max_retries = 20
-                while quadrilateral_is_ok == False and additional_points<max_retries:  
+                attempts = 0
+                while quadrilateral_is_ok == False and additional_points<max_retries and attempts<10*max_retries:
+                    # not every replacement uses additional points
+                    attempts += 1
                     # find the 4 corners
                     i1, i2, i3, i4 = indexes[nn, 0:4]
                     idxs[nn, :] = indexes[nn, 0:4]
@@ -1220,6 +1223,8 @@ class ScipyInterpolation(object):
                         [lats[1], lons[1], self.z[i2], i2],
                         [lats[2], lons[2], self.z[i3], i3],
                         [lats[3], lons[3], self.z[i4], i4]])
+                    # p1,p2,p3,p4 in clockwise order
+                    self.p1, self.p2, self.p3, self.p4 = get_clockwise_points(corners_points)
 
                     # in non-global maps, skip all points falling outside the grib min and max values
                     if is_global_map==False and \
@@ -1267,8 +1272,6 @@ class ScipyInterpolation(object):
                                 else:
                                     additional_checks_completed = True
                     if additional_checks_completed == True and skip_current_point == False:
-                        #get p1,p2,p3,p4 in clockwise order
-                        self.p1, self.p2, self.p3, self.p4 = get_clockwise_points(corners_points)
                         # check for convexity
                         is_convex = isConvexQuadrilateral(self.p1[0:2], self.p2[0:2], self.p3[0:2], self.p4[0:2])
                         if self.source_grid_is_rotated:
-- 
2.43.0


From cbc5deaf00b89ceb41216c291c427e01a632794b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:33 +0000
Subject: [PATCH 26/96] fix: bilinear missed cells of grids across the date
 line and target longitudes above 180

---
 .../interpolation/scipy_interpolation_lib.py  | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
index 98823bd..309d694 100644
--- a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
+++ b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
@@ -1155,11 +1155,15 @@ class ScipyInterpolation(object):
 
         latgrib_max = self.latgrib.max()
         latgrib_min = self.latgrib.min()
-        longrib_max = self.longrib.max()
-        longrib_min = self.longrib.min()
-        # evaluate an approx_grib_resolution by using 10 times the first longidure values 
-        # to check if the whole globe is covered
-        approx_grib_resolution = abs(self.longrib[0]-self.longrib[1])*1.5
+        # longitudes counted eastwards from the middle of the widest gap between the meridians of the grid,
+        # so that grids across the date line or the Greenwich meridian are not split
+        approx_grib_resolution = abs((self.longrib[0]-self.longrib[1]+180)%360-180)*1.5
+        unique_lons = np.unique(self.longrib%360)
+        gaps = np.diff(np.append(unique_lons, unique_lons[0]+360))
+        first_lon = unique_lons[np.argmax(gaps)] + gaps.max()/2
+        longrib_max = ((self.longrib-first_lon)%360).max()
+        longrib_min = ((self.longrib-first_lon)%360).min()
+        # check if the whole globe is covered
         is_global_map = (360-(longrib_max-longrib_min))<approx_grib_resolution
         # for nn in range(25898400,len(indexes)):
         for nn in range(len(indexes)):
@@ -1172,6 +1176,9 @@ class ScipyInterpolation(object):
             ix = indexes[nn]
             self.lat_in = self.lat_inALL[nn]
             self.lon_in = self.lon_inALL[nn]
+            # same longitude convention as get_correct_lats_lons
+            if self.lon_in > 180:
+                self.lon_in = self.lon_in-360
 
             # if DEBUG_BILINEAR_INTERPOLATION:
             #     # # if nn==14753:
@@ -1228,7 +1235,7 @@ class ScipyInterpolation(object):
 
                     # in non-global maps, skip all points falling outside the grib min and max values
                     if is_global_map==False and \
-                        (self.lat_in>latgrib_max or self.lat_in<latgrib_min or self.lon_in>longrib_max or self.lon_in<longrib_min):
+                        (self.lat_in>latgrib_max or self.lat_in<latgrib_min or (self.lon_in-first_lon)%360>longrib_max or (self.lon_in-first_lon)%360<longrib_min):
                             quadrilateral_is_ok = True
                             outs += 1
                             weights[nn] = np.array([np.nan, 0., 0., 0.])
-- 
2.43.0


From f77e9de0f3f002864e98c571f3fe043b9e3905b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:51 +0000
Subject: [PATCH 27/96] fix: cells without coordinates received values and
 entered the ADW reference radius

---
 src/pyg2p/main/interpolation/__init__.py                | 3 +++
 src/pyg2p/main/interpolation/scipy_interpolation_lib.py | 8 +++++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/pyg2p/main/interpolation/__init__.py b/src/pyg2p/main/interpolation/__init__.py
index 3e39a53..2b5a3fd 100644
--- a/src/pyg2p/main/interpolation/__init__.py
+++ b/src/pyg2p/main/interpolation/__init__.py
@@ -262,6 +262,9 @@ class Interpolator(Loggable):
 
         # reshape to target (e.g. efas, glofas...)
         grid_data = result.reshape(lonefas.shape)
+        # cells without coordinates have no values
+        no_coords = (latefas == self._target_coords.mv) | (lonefas == self._target_coords.mv)
+        grid_data[no_coords] = self.mv_output
         return grid_data
 
     # #### GRIB API INTERPOLATION ####################
diff --git a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
index 309d694..f0a48fb 100644
--- a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
+++ b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
@@ -581,7 +581,7 @@ class ScipyInterpolation(object):
                 if efas_locations.dtype==np.dtype('float32'):
                     distances=np.float32(distances)
 
-                ref_radius=np.mean(distances[:, 6])
+                ref_radius=np.mean(distances[self._has_coords(lonefas, latefas), 6])
                 checktime = time.time()
                 stdout.write('KDtree find radius time (sec): {}\n'.format(checktime - start))
 
@@ -612,6 +612,10 @@ class ScipyInterpolation(object):
         return result, weights, indexes
 
 
+    def _has_coords(self, target_lons, target_lats):
+        # target cells with coordinates: the others are not part of the target grid
+        return ((target_lons != self._mv_target) & (target_lats != self._mv_target)).ravel()
+
     def interpolate_split(self, target_lons, target_lats, ref_radius=None):        
         # Target coordinates  HAVE to be rotated coords in case GRIB grid is rotated
         # Example of target rotated coords are COSMO lat/lon/dem PCRASTER maps
@@ -827,6 +831,8 @@ class ScipyInterpolation(object):
                     weight_directional = np.zeros_like(distances)
                 start = time.time()
                 s = np.zeros_like(distances)
+                if ref_radius is None:
+                    ref_radius = np.mean(distances[self._has_coords(self.target_lonsOR, self.target_latsOR), 6])
                 w, s = adw_compute_weights_from_cutoff_distances(distances, s, ref_radius)
                 checktime = time.time()
                 stdout.write('adw_compute_weights_from_cutoff_distances time (sec): {}\n'.format(checktime - start))
-- 
2.43.0


From 6ead5dd2bf13f69b6c0ec4de18b2abdbaf839c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:15 +0000
Subject: [PATCH 28/96] fix: angular weights depended on the longitude
 convention of the target map

---
 src/pyg2p/main/interpolation/scipy_interpolation_lib.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
index f0a48fb..3463605 100644
--- a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
+++ b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
@@ -484,7 +484,8 @@ def adw_and_cdd_compute_weights_directional_in_broadcasting(
     yi = longrib.ravel()[indexes.ravel()]
     # Compute xi_diff and yi_diff for all elements
     xi_diff = lat_inALL.reshape(-1,1) - xi.reshape(-1,k)
-    yi_diff = lon_inALL.reshape(-1,1) - yi.reshape(-1,k)
+    # shortest way around the globe: source and target may count the longitudes differently
+    yi_diff = (lon_inALL.reshape(-1,1) - yi.reshape(-1,k) + 180) % 360 - 180
     # Compute Di for all elements
     Di = np.sqrt(xi_diff**2 + yi_diff**2)
     # Compute cos_theta for all elements
@@ -948,7 +949,8 @@ class ScipyInterpolation(object):
                 weight_directional = np.zeros_like(distances)
                 for i in range(nnear):
                     xj_diff = self.lat_inALL[:, np.newaxis] - self.latgrib[indexes]
-                    yj_diff = self.lon_inALL[:, np.newaxis] - self.longrib[indexes]
+                    # shortest way around the globe: source and target may count the longitudes differently
+                    yj_diff = (self.lon_inALL[:, np.newaxis] - self.longrib[indexes] + 180) % 360 - 180
                     
                     Dj = np.sqrt(xj_diff**2 + yj_diff**2)
                     # we could use "distances", but we are actually evaluating the cos funcion on lat and lon values, that 
-- 
2.43.0


From 46a923390493d97d280463921dcebb2693ace860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:30 +0000
Subject: [PATCH 29/96] fix: interpolation failed with more splits than rows of
 the target

---
 src/pyg2p/main/interpolation/scipy_interpolation_lib.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
index 3463605..558ef67 100644
--- a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
+++ b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
@@ -587,7 +587,8 @@ class ScipyInterpolation(object):
                 stdout.write('KDtree find radius time (sec): {}\n'.format(checktime - start))
 
             # Define the size of the subsets, only in lonm
-            subset_size = lonefas.shape[0]//self.num_of_splits
+            # (at least one row each)
+            subset_size = max(1, lonefas.shape[0]//self.num_of_splits)
 
             # Initialize empty arrays to store the results
             weights = np.empty((lonefas.shape[0]*lonefas.shape[1],self.nnear),dtype=lonefas.dtype)
-- 
2.43.0


From d5e2e9b786bc0d04870b091b27299c8327a048ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:30 +0000
Subject: [PATCH 30/96] fix: cdd interpolation in splits used the CDD values of
 the first rows everywhere

---
 src/pyg2p/main/interpolation/scipy_interpolation_lib.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
index 558ef67..ff45668 100644
--- a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
+++ b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
@@ -540,6 +540,7 @@ class ScipyInterpolation(object):
         self.cdd_options = cdd_options
         self.use_broadcasting = use_broadcasting
         self.num_of_splits = num_of_splits
+        self.subset_rows = slice(None)  # rows of the target being interpolated
         
         if DEBUG_ADW_INTERPOLATION:
             self.use_broadcasting = True
@@ -597,6 +598,7 @@ class ScipyInterpolation(object):
 
             # Iterate over the subsets of the arrays
             for i in range(0, lonefas.shape[0], subset_size):
+                self.subset_rows = slice(i, i+subset_size)
                 subset_lonefas = lonefas[i:i+subset_size, :]
                 subset_latefas = latefas[i:i+subset_size, :]
 
@@ -875,7 +877,7 @@ class ScipyInterpolation(object):
                 weights_mode = 'All'
                 #weights_mode = 'OnlyTOP10'
                 if (CDDmode == 'Hofstra'):
-                    CDD_map = CDD_map.ravel()
+                    CDD_map = CDD_map[self.subset_rows, :].ravel()
                     try:
                         assert(len(CDD_map)==len(self.lat_inALL)) 
                     except AssertionError as e:
@@ -886,7 +888,7 @@ class ScipyInterpolation(object):
                     s = np.zeros_like(distances)       
                     s = cdd_hofstra_compute_weights_from_cutoff_distances(distances, CDD_map, s)
                 elif CDDmode == 'MixHofstraShepard':
-                    CDD_map = CDD_map.ravel()
+                    CDD_map = CDD_map[self.subset_rows, :].ravel()
                     try:
                         assert(len(CDD_map)==len(self.lat_inALL)) 
                     except AssertionError as e:
-- 
2.43.0


From 88459df4ee664a3475fc93583a99203e14035cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:56 +0000
Subject: [PATCH 31/96] fix: cdd options were taken by position

---
 src/pyg2p/main/interpolation/scipy_interpolation_lib.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
index ff45668..6242b97 100644
--- a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
+++ b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
@@ -906,7 +906,9 @@ class ScipyInterpolation(object):
                         weights_mode = "All"
                     else:
                         # Custom values
-                        m_const, min_num_of_station, radius_ratio, weights_mode = cdd_options.values()
+                        # (whatever their order in the configuration)
+                        m_const, min_num_of_station, radius_ratio, weights_mode = [
+                            cdd_options[k] for k in ('m_const', 'min_num_of_station', 'radius_ratio', 'weights_mode')]
                     cdd_hofstra_shepard_compute_weights_from_cutoff_distances(distances, CDD_map, nnear, s, m_const, min_num_of_station, radius_ratio)
                 elif CDDmode == 'NewEtAl':
                     s = np.zeros_like(distances)  
-- 
2.43.0


From 41143249fe519fe1d0cbff45d5b9ad6e0d347b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:56 +0000
Subject: [PATCH 32/96] fix: cdd mode NewEtAl could not be compiled

---
 src/pyg2p/main/interpolation/scipy_interpolation_lib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
index 6242b97..58f7007 100644
--- a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
+++ b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
@@ -451,7 +451,7 @@ def cdd_hofstra_shepard_compute_weights_from_cutoff_distances(distances, CDD_map
     return s
 
 
-@njit(parallel=True, fastmath=False, cache=True)
+# not compiled: numba does not index with two arrays
 def cdd_newetal_compute_weights_from_cutoff_distances(distances, CDD_map, indexes, longrib, latgrib, TargetLonRes, TargetLatRes, LonOrigin, LatOrigin, s):
     # New et al. 2000 
     # no search radius applied
-- 
2.43.0


From bfed704c62e98955d070012282170e677735bfda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:57 +0000
Subject: [PATCH 33/96] fix: cdd mode NewEtAl took the CDD of the points from
 other cells in splits and with other longitude conventions

---
 .../main/interpolation/scipy_interpolation_lib.py    | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
index 58f7007..9107b37 100644
--- a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
+++ b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
@@ -465,7 +465,7 @@ def cdd_newetal_compute_weights_from_cutoff_distances(distances, CDD_map, indexe
     #   [e^(−x/CDD)]^m       when 0  < d <= CDD
 
     CDD_values = CDD_map[np.clip(((LatOrigin-latgrib[indexes])/TargetLatRes).astype(int),0,CDD_map.shape[0]-1), \
-                                        np.clip(((LonOrigin-longrib[indexes])/TargetLonRes).astype(int),0,CDD_map.shape[1]-1)]
+                                        np.clip((((LonOrigin-longrib[indexes]+180)%360-180)/TargetLonRes).astype(int),0,CDD_map.shape[1]-1)]
     dist_leq_CDD = distances <= CDD_values
     s.ravel()[dist_leq_CDD.ravel()] = np.exp(-distances*m_const/CDD_values).ravel()[dist_leq_CDD.ravel()]
         
@@ -572,6 +572,7 @@ class ScipyInterpolation(object):
             self.min_upper_bound = np.max(distances) + np.max(distances) * 4 / self.geodetic_info.get('Nj')
 
     def interpolate(self, lonefas, latefas):        
+        self.target_lonsALL, self.target_latsALL = lonefas, latefas
         if (self.num_of_splits is not None):
             ref_radius = None
             if self.mode == 'adw' and self.nnear == 11:
@@ -912,10 +913,11 @@ class ScipyInterpolation(object):
                     cdd_hofstra_shepard_compute_weights_from_cutoff_distances(distances, CDD_map, nnear, s, m_const, min_num_of_station, radius_ratio)
                 elif CDDmode == 'NewEtAl':
                     s = np.zeros_like(distances)  
-                    TargetLonRes=self.target_lonsOR[0,0]-self.target_lonsOR[0,1]
-                    TargetLatRes=self.target_latsOR[0,0]-self.target_latsOR[1,0]
-                    LonOrigin=self.target_lonsOR[0,0]
-                    LatOrigin=self.target_latsOR[0,0]
+                    # origin and resolution of the whole target (and CDD map), also when it is split
+                    TargetLonRes=self.target_lonsALL[0,0]-self.target_lonsALL[0,1]
+                    TargetLatRes=self.target_latsALL[0,0]-self.target_latsALL[1,0]
+                    LonOrigin=self.target_lonsALL[0,0]
+                    LatOrigin=self.target_latsALL[0,0]
                     s = cdd_newetal_compute_weights_from_cutoff_distances(distances, CDD_map, indexes, self.longrib, self.latgrib, 
                                                                         TargetLonRes, TargetLatRes, LonOrigin, LatOrigin, s)
                 else:
-- 
2.43.0


From a37d79bd633efb6778e30e284ba2008e16f7162a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:57 +0000
Subject: [PATCH 34/96] fix: invalid input of the interpolation was noticed and
 not reported

---
 src/pyg2p/main/interpolation/scipy_interpolation_lib.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
index 9107b37..6210e64 100644
--- a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
+++ b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
@@ -555,7 +555,7 @@ class ScipyInterpolation(object):
         try:
             assert len(source_locations) == len(source_values), "len(coordinates) {} != len(values) {}".format(len(source_locations), len(source_values))
         except AssertionError as e:
-            ApplicationException.get_exc(WEIRD_STUFF, details=str(e))
+            raise ApplicationException.get_exc(WEIRD_STUFF, details=str(e))
 
         stdout.write('Building KDTree...\n')
         self.tree = KDTree(source_locations, leafsize=30)  # build the tree
@@ -882,7 +882,7 @@ class ScipyInterpolation(object):
                     try:
                         assert(len(CDD_map)==len(self.lat_inALL)) 
                     except AssertionError as e:
-                        ApplicationException.get_exc(WEIRD_STUFF, details=str(e) + "\nCDD map should have the same resolution of target map. CDD map len={}, target map len={}".format(len(CDD_map), len(self.lat_inALL)))
+                        raise ApplicationException.get_exc(WEIRD_STUFF, details=str(e) + "\nCDD map should have the same resolution of target map. CDD map len={}, target map len={}".format(len(CDD_map), len(self.lat_inALL)))
 
                     stdout.write('\nEvaluating cutoffs...')
                     
@@ -893,7 +893,7 @@ class ScipyInterpolation(object):
                     try:
                         assert(len(CDD_map)==len(self.lat_inALL)) 
                     except AssertionError as e:
-                        ApplicationException.get_exc(WEIRD_STUFF, details=str(e) + "\nCDD map should have the same resolution of target map. CDD map len={}, target map len={}".format(len(CDD_map), len(self.lat_inALL)))
+                        raise ApplicationException.get_exc(WEIRD_STUFF, details=str(e) + "\nCDD map should have the same resolution of target map. CDD map len={}, target map len={}".format(len(CDD_map), len(self.lat_inALL)))
 
                     if DEBUG_ADW_INTERPOLATION:
                         stdout.write('\nEvaluating cutoffs...')
@@ -921,7 +921,7 @@ class ScipyInterpolation(object):
                     s = cdd_newetal_compute_weights_from_cutoff_distances(distances, CDD_map, indexes, self.longrib, self.latgrib, 
                                                                         TargetLonRes, TargetLatRes, LonOrigin, LatOrigin, s)
                 else:
-                    ApplicationException.get_exc(WEIRD_STUFF, "\nCDD mode unknown={}".format(CDDmode))
+                    raise ApplicationException.get_exc(WEIRD_STUFF, "\nCDD mode unknown={}".format(CDDmode))
 
                 # consider only TOP 10 weights instead of all:
                 if weights_mode == "OnlyTOP10":
-- 
2.43.0


From dfcfd9d45ce9485d76ff9975320a5d9b3eb3888c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:21 +0000
Subject: [PATCH 35/96] fix: OnlyTOP10 dropped any of the ten lower weights
 instead of the lowest

---
 src/pyg2p/main/interpolation/scipy_interpolation_lib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
index 6210e64..a8fe669 100644
--- a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
+++ b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
@@ -930,7 +930,7 @@ class ScipyInterpolation(object):
                     #   rows = np.arange(s.shape[0])[:, None]
                     #   s[rows, idx[:, :-10]] = 0
                     # all in one row:
-                    s[np.arange(s.shape[0])[:, None], np.argpartition(s, 10, axis=1)[:, :-10]] = 0
+                    s[np.arange(s.shape[0])[:, None], np.argpartition(s, s.shape[1]-10, axis=1)[:, :-10]] = 0
 
 
                 
-- 
2.43.0


From 4469ff303fabb244d0a73090334bd503c2c2cdab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:55 +0000
Subject: [PATCH 36/96] fix: a new interpolation table could take the file name
 of a table of another grid

---
 src/pyg2p/main/interpolation/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pyg2p/main/interpolation/__init__.py b/src/pyg2p/main/interpolation/__init__.py
index 2b5a3fd..aff3d5d 100644
--- a/src/pyg2p/main/interpolation/__init__.py
+++ b/src/pyg2p/main/interpolation/__init__.py
@@ -74,8 +74,10 @@ class Interpolator(Loggable):
             self.intertables_config.check_write()
             filename = self.format_intertablename(prognum='')
             tbl_fullpath = os.path.normpath(os.path.join(self._intertable_dirs['user'], filename))
+            # tables of other grids keep their names, even if their files are missing or in another folder
+            used = [t['filename'] for t in self.intertables_config.vars.values() if isinstance(t, dict)]
             i = 1
-            while pyg2p.util.files.exists(tbl_fullpath):
+            while pyg2p.util.files.exists(tbl_fullpath) or filename in used:
                 filename = self.format_intertablename(prognum='_{}'.format(i))
                 tbl_fullpath = os.path.normpath(os.path.join(self._intertable_dirs['user'], filename))
                 i += 1
-- 
2.43.0


From 825f3cae00b616516768a1bd495519ec98b79499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:55 +0000
Subject: [PATCH 37/96] fix: an interrupted run left a truncated interpolation
 table

---
 src/pyg2p/main/interpolation/__init__.py | 38 +++++++++++++-----------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/src/pyg2p/main/interpolation/__init__.py b/src/pyg2p/main/interpolation/__init__.py
index aff3d5d..15451f9 100644
--- a/src/pyg2p/main/interpolation/__init__.py
+++ b/src/pyg2p/main/interpolation/__init__.py
@@ -252,12 +252,7 @@ class Interpolator(Loggable):
 
             # saving interpolation lookup table
             intertable = np.rec.fromarrays((indexes, weights), names=('indexes', 'coeffs'))
-            if intertable_name.endswith('.gz'):
-                f = gzip.GzipFile(intertable_name, 'w')
-                np.save(f, intertable)
-                f.close()
-            else:
-                np.save(intertable_name, intertable)
+            intertable_name = self._write_intertable(intertable, intertable_id, intertable_name)
             self.update_intertable_conf(intertable, intertable_id, intertable_name, v.shape)
         else:
             raise ApplicationException.get_exc(NO_INTERTABLE_CREATED, details=intertable_name)
@@ -300,12 +295,7 @@ class Interpolator(Loggable):
             self._log('\nInterpolating table not found\n Id: {}\nWill create file: {}'.format(intertable_id, intertable_name), 'WARN')
             xs, ys, idxs = getattr(grib_interpolation_lib, 'grib_nearest{}'.format('' if not self.parallel else '_parallel'))(gid, self._target_coords.lats, self._target_coords.lons, self._target_coords.mv)
             intertable = np.asarray([xs, ys, idxs])
-            if intertable_name.endswith('.gz'):
-                f = gzip.GzipFile(intertable_name, 'w')
-                np.save(f, intertable)
-                f.close()
-            else:
-                np.save(intertable_name, intertable)
+            intertable_name = self._write_intertable(intertable, intertable_id, intertable_name)
             self.update_intertable_conf(intertable, intertable_id, intertable_name, v.shape)
         else:
             if intertable_id not in self.intertables_config.vars:
@@ -355,12 +345,7 @@ class Interpolator(Loggable):
             coeffs = np.asarray([coeffs1, coeffs2, coeffs3, coeffs4, np.zeros(coeffs1.shape), np.zeros(coeffs1.shape)])
             intertable = np.rec.fromarrays((indexes, coeffs), names=('indexes', 'coeffs'))
             # saving interpolation lookup table
-            if intertable_name.endswith('.gz'):
-                f = gzip.GzipFile(intertable_name, 'w')
-                np.save(f, intertable)
-                f.close()
-            else:
-                np.save(intertable_name, intertable)
+            intertable_name = self._write_intertable(intertable, intertable_id, intertable_name)
             self.update_intertable_conf(intertable, intertable_id, intertable_name, v.shape)
 
         else:
@@ -376,6 +361,23 @@ class Interpolator(Loggable):
         result[xs, ys] = pyg2p.util.numeric.result_masked(res, self.mv_output)
         return result
 
+    def _write_intertable(self, intertable, intertable_id, intertable_name):
+        # written aside and moved to its name when complete, so that an interruption leaves no truncated table
+        folder = os.path.dirname(intertable_name)
+        tmp = os.path.join(folder, f'.{os.getpid()}_{pyg2p.util.files.filename(intertable_name)}')
+        try:
+            with open(tmp, 'wb') as raw:
+                if intertable_name.endswith('.gz'):
+                    with gzip.GzipFile(filename='', fileobj=raw, mode='w') as f:
+                        np.save(f, intertable)
+                else:
+                    np.save(raw, intertable)
+            os.replace(tmp, intertable_name)
+        except BaseException:
+            pyg2p.util.files.delete_file(tmp)
+            raise
+        return intertable_name
+
     def update_intertable_conf(self, intertable, intertable_id, intertable_name, source_shape):
         self._LOADED_INTERTABLES[intertable_name] = intertable
         new_intertable_conf_item = {'filename': pyg2p.util.files.filename(intertable_name),
-- 
2.43.0


From 2d5aeeca8e1c844360e24c74f5dd38064eb0a30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:55 +0000
Subject: [PATCH 38/96] fix: an interrupted run left a truncated user
 configuration

---
 src/pyg2p/main/config.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/pyg2p/main/config.py b/src/pyg2p/main/config.py
index f7d4f81..4bd3dfe 100644
--- a/src/pyg2p/main/config.py
+++ b/src/pyg2p/main/config.py
@@ -140,9 +140,15 @@ class BaseConfiguration(pyg2p.Loggable):
             f.close()
 
     def dump(self):
-        with open(self.config_file, 'w') as f:
-            user_vars = self.user_vars or '{}'
-            f.write(json.dumps(user_vars, sort_keys=True, indent=4))
+        # written aside and moved to its name when complete, so that an interruption does not lose the configuration
+        tmp = f'{self.config_file}.{os.getpid()}'
+        try:
+            with open(tmp, 'w') as f:
+                f.write(json.dumps(self.user_vars or {}, sort_keys=True, indent=4))
+            os.replace(tmp, self.config_file)
+        except BaseException:
+            file_util.delete_file(tmp)
+            raise
 
     def check_write(self):
         if not self.data_path:
-- 
2.43.0


From 97df98e2b0367160f61e6218d2af4fd1b8df5f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:13 +0000
Subject: [PATCH 39/96] fix: -N and intertableDir were not accepted without the
 INTERTABLES variable and their folder was not checked

---
 src/pyg2p/main/config.py                 | 14 ++++++++------
 src/pyg2p/main/interpolation/__init__.py |  8 ++++----
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/pyg2p/main/config.py b/src/pyg2p/main/config.py
index 4bd3dfe..e3f2602 100644
--- a/src/pyg2p/main/config.py
+++ b/src/pyg2p/main/config.py
@@ -150,14 +150,16 @@ class BaseConfiguration(pyg2p.Loggable):
             file_util.delete_file(tmp)
             raise
 
-    def check_write(self):
-        if not self.data_path:
+    def check_write(self, path=None):
+        # path: folder passed for this execution, instead of the one defined by the user
+        path = path or self.data_path
+        if not path:
             # user hasn't defined his own data folder for geopotentials.
             raise ApplicationException.get_exc(NO_VAR_DEFINED, self.data_path_var)
-        if not file_util.exists(self.data_path, is_folder=True):
-            raise ApplicationException.get_exc(NOT_EXISTING_PATH, self.data_path)
-        if not file_util.can_write(self.data_path):
-            raise ApplicationException.get_exc(NO_WRITE_PERMISSIONS, self.data_path)
+        if not file_util.exists(path, is_folder=True):
+            raise ApplicationException.get_exc(NOT_EXISTING_PATH, path)
+        if not file_util.can_write(path):
+            raise ApplicationException.get_exc(NO_WRITE_PERMISSIONS, path)
 
 
 class GlobalConf(BaseConfiguration):
diff --git a/src/pyg2p/main/interpolation/__init__.py b/src/pyg2p/main/interpolation/__init__.py
index 15451f9..07e1a98 100644
--- a/src/pyg2p/main/interpolation/__init__.py
+++ b/src/pyg2p/main/interpolation/__init__.py
@@ -71,7 +71,7 @@ class Interpolator(Loggable):
             # return a new intertable filename to create
             if not self.create_if_missing:
                 raise ApplicationException.get_exc(NO_INTERTABLE_CREATED, details=f'Using {intertable_id}')
-            self.intertables_config.check_write()
+            self.intertables_config.check_write(self._intertable_dirs['user'])
             filename = self.format_intertablename(prognum='')
             tbl_fullpath = os.path.normpath(os.path.join(self._intertable_dirs['user'], filename))
             # tables of other grids keep their names, even if their files are missing or in another folder
@@ -96,7 +96,7 @@ class Interpolator(Loggable):
                 # as an existing configuration was already found but file is missing for some reasons
                 if not self.create_if_missing:
                     raise ApplicationException.get_exc(NO_INTERTABLE_CREATED, details=f'Tried to create {tbl_fullpath}')
-                self.intertables_config.check_write()
+                self.intertables_config.check_write(self._intertable_dirs['user'])
                 tbl_fullpath = os.path.normpath(os.path.join(self._intertable_dirs['user'], filename))
                 tbl_fullpath = tbl_fullpath if tbl_fullpath.endswith('.gz') else tbl_fullpath + '.gz'
                 self._logger.warning(f'An entry in configuration was found for {filename} but intertable does not exist.')
@@ -227,7 +227,7 @@ class Interpolator(Loggable):
                 result = self._interpolate_scipy_append_mv(v, weights, indexes, nnear)
 
         elif self.create_if_missing:
-            self.intertables_config.check_write()
+            self.intertables_config.check_write(self._intertable_dirs['user'])
             if latgrib is None:
                 self._log('Trying to interpolate without grib lat/lons. Probably a malformed grib!', 'ERROR')
                 raise ApplicationException.get_exc(5000)
@@ -291,7 +291,7 @@ class Interpolator(Loggable):
         elif self.create_if_missing:
             if gid == -1:
                 raise ApplicationException.get_exc(6000, details='GRIB message reference was not found.')
-            self.intertables_config.check_write()
+            self.intertables_config.check_write(self._intertable_dirs['user'])
             self._log('\nInterpolating table not found\n Id: {}\nWill create file: {}'.format(intertable_id, intertable_name), 'WARN')
             xs, ys, idxs = getattr(grib_interpolation_lib, 'grib_nearest{}'.format('' if not self.parallel else '_parallel'))(gid, self._target_coords.lats, self._target_coords.lons, self._target_coords.mv)
             intertable = np.asarray([xs, ys, idxs])
-- 
2.43.0


From 0e0068079675eac9d2b5a421d2384ed85d1cc2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:13 +0000
Subject: [PATCH 40/96] fix: grib modes did not use compressed tables
 configured without their .gz extension

---
 src/pyg2p/main/interpolation/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pyg2p/main/interpolation/__init__.py b/src/pyg2p/main/interpolation/__init__.py
index 07e1a98..9b99ec8 100644
--- a/src/pyg2p/main/interpolation/__init__.py
+++ b/src/pyg2p/main/interpolation/__init__.py
@@ -76,6 +76,7 @@ class Interpolator(Loggable):
             tbl_fullpath = os.path.normpath(os.path.join(self._intertable_dirs['user'], filename))
             # tables of other grids keep their names, even if their files are missing or in another folder
             used = [t['filename'] for t in self.intertables_config.vars.values() if isinstance(t, dict)]
+            used += [f + '.gz' for f in used]
             i = 1
             while pyg2p.util.files.exists(tbl_fullpath) or filename in used:
                 filename = self.format_intertablename(prognum='_{}'.format(i))
@@ -100,6 +101,9 @@ class Interpolator(Loggable):
                 tbl_fullpath = os.path.normpath(os.path.join(self._intertable_dirs['user'], filename))
                 tbl_fullpath = tbl_fullpath if tbl_fullpath.endswith('.gz') else tbl_fullpath + '.gz'
                 self._logger.warning(f'An entry in configuration was found for {filename} but intertable does not exist.')
+        if not pyg2p.util.files.exists(tbl_fullpath) and pyg2p.util.files.exists(tbl_fullpath + '.gz'):
+            # configured before tables were compressed
+            tbl_fullpath += '.gz'
         return intertable_id, tbl_fullpath
 
     def _read_intertable(self, tbl_fullpath):
-- 
2.43.0


From de0f2977a5e08f8db7be424a233c5cfb336c973d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:30 +0000
Subject: [PATCH 41/96] fix: concurrent runs lost table entries and took the
 same table file name

---
 src/pyg2p/main/config.py                 | 49 +++++++++++++++++-------
 src/pyg2p/main/interpolation/__init__.py | 46 ++++++++++++++--------
 2 files changed, 67 insertions(+), 28 deletions(-)

diff --git a/src/pyg2p/main/config.py b/src/pyg2p/main/config.py
index e3f2602..0b869f0 100644
--- a/src/pyg2p/main/config.py
+++ b/src/pyg2p/main/config.py
@@ -1,11 +1,17 @@
 import json
 import os
 import re
+from contextlib import contextmanager
 from copy import deepcopy
 from ftplib import FTP
 import itertools
 from pkg_resources import resource_stream
 
+try:
+    import fcntl
+except ImportError:  # not a POSIX system
+    fcntl = None
+
 import pyg2p
 from ..main.readers import GRIBReader
 from ..exceptions import (
@@ -120,14 +126,30 @@ class BaseConfiguration(pyg2p.Loggable):
     def merge_with_user_conf(self):
         # it overwrites global config. If not config file for user is found, it creates an empty one.
         if not file_util.exists(self.config_file):
-            self.user_vars = {'description': self.description}
-            if self.init_dict:
-                self.user_vars.update(self.init_dict)
-            self.dump()
-        else:
-            self.user_vars = self._load()
+            with self._locked():
+                if not file_util.exists(self.config_file):
+                    self.user_vars = {'description': self.description}
+                    if self.init_dict:
+                        self.user_vars.update(self.init_dict)
+                    self.dump()
+        self.user_vars = self._load()
         self.vars.update(self.user_vars)
 
+    @contextmanager
+    def _locked(self):
+        # only one run at a time writes the configuration of the user
+        with open(f'{self.config_file}.lock', 'w') as f:
+            if fcntl:
+                fcntl.flock(f, fcntl.LOCK_EX)
+            yield
+
+    def set_user_var(self, key, value):
+        with self._locked():
+            # other runs may have added their own entries in the meantime
+            self.user_vars = self._load()
+            self.user_vars[key] = value
+            self.dump()
+
     def _load(self, config_file=None):
         f = open(self.config_file) if not config_file else config_file
         try:
@@ -248,15 +270,16 @@ class GeopotentialsConfiguration(BaseConfiguration):
         self.check_write()
 
         file_util.copy(filepath, self.data_path)
-        self.user_vars[id_] = name
-        self.dump()
+        self.set_user_var(id_, name)
 
     def remove(self, filename):
-        for g in self.user_vars.keys():
-            if self.user_vars[g] == filename:
-                del self.user_vars[g]
-                self.dump()
-                break
+        with self._locked():
+            self.user_vars = self._load()
+            for g in self.user_vars.keys():
+                if self.user_vars[g] == filename:
+                    del self.user_vars[g]
+                    self.dump()
+                    break
 
     def get_filepath(self, grid_id, additional=None):
         filename = self.vars.get(grid_id)
diff --git a/src/pyg2p/main/interpolation/__init__.py b/src/pyg2p/main/interpolation/__init__.py
index 9b99ec8..a4a8ad5 100644
--- a/src/pyg2p/main/interpolation/__init__.py
+++ b/src/pyg2p/main/interpolation/__init__.py
@@ -72,17 +72,7 @@ class Interpolator(Loggable):
             if not self.create_if_missing:
                 raise ApplicationException.get_exc(NO_INTERTABLE_CREATED, details=f'Using {intertable_id}')
             self.intertables_config.check_write(self._intertable_dirs['user'])
-            filename = self.format_intertablename(prognum='')
-            tbl_fullpath = os.path.normpath(os.path.join(self._intertable_dirs['user'], filename))
-            # tables of other grids keep their names, even if their files are missing or in another folder
-            used = [t['filename'] for t in self.intertables_config.vars.values() if isinstance(t, dict)]
-            used += [f + '.gz' for f in used]
-            i = 1
-            while pyg2p.util.files.exists(tbl_fullpath) or filename in used:
-                filename = self.format_intertablename(prognum='_{}'.format(i))
-                tbl_fullpath = os.path.normpath(os.path.join(self._intertable_dirs['user'], filename))
-                i += 1
-            return intertable_id, tbl_fullpath
+            return intertable_id, self._free_filename()
 
         filename = self.intertables_config.vars[intertable_id]['filename']
 
@@ -106,6 +96,19 @@ class Interpolator(Loggable):
             tbl_fullpath += '.gz'
         return intertable_id, tbl_fullpath
 
+    def _free_filename(self):
+        filename = self.format_intertablename(prognum='')
+        tbl_fullpath = os.path.normpath(os.path.join(self._intertable_dirs['user'], filename))
+        # tables of other grids keep their names, even if their files are missing or in another folder
+        used = [t['filename'] for t in self.intertables_config.vars.values() if isinstance(t, dict)]
+        used += [f + '.gz' for f in used]
+        i = 1
+        while pyg2p.util.files.exists(tbl_fullpath) or filename in used:
+            filename = self.format_intertablename(prognum='_{}'.format(i))
+            tbl_fullpath = os.path.normpath(os.path.join(self._intertable_dirs['user'], filename))
+            i += 1
+        return tbl_fullpath
+
     def _read_intertable(self, tbl_fullpath):
 
         if tbl_fullpath not in self._LOADED_INTERTABLES:
@@ -376,12 +379,26 @@ class Interpolator(Loggable):
                         np.save(f, intertable)
                 else:
                     np.save(raw, intertable)
+            if intertable_id not in self.intertables_config.vars:
+                intertable_name = self._take_filename(tmp, intertable_name)
             os.replace(tmp, intertable_name)
-        except BaseException:
+        finally:
             pyg2p.util.files.delete_file(tmp)
-            raise
         return intertable_name
 
+    def _take_filename(self, tmp, intertable_name):
+        # another run may have used the name for its table in the meantime
+        while True:
+            try:
+                os.link(tmp, intertable_name)
+            except FileExistsError:
+                intertable_name = self._free_filename()
+            except OSError:
+                # no hard links in this file system
+                return intertable_name
+            else:
+                return intertable_name
+
     def update_intertable_conf(self, intertable, intertable_id, intertable_name, source_shape):
         self._LOADED_INTERTABLES[intertable_name] = intertable
         new_intertable_conf_item = {'filename': pyg2p.util.files.filename(intertable_name),
@@ -392,8 +409,7 @@ class Interpolator(Loggable):
         self.intertables_config.vars[intertable_id] = new_intertable_conf_item
 
         # Dumps only user configuration to ~/.pyg2p/intertables.json
-        self.intertables_config.user_vars[intertable_id] = new_intertable_conf_item
-        self.intertables_config.dump()
+        self.intertables_config.set_user_var(intertable_id, new_intertable_conf_item)
 
     # set aux gids for grib interlookup creation
     def aux_for_intertable_generation(self, aux_g, aux_v, aux_g2, aux_v2):
-- 
2.43.0


From 79c7fea66213dacb9cbf4b5f5dfdf32ec68419f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:23 +0000
Subject: [PATCH 42/96] fix: missing values of packed netCDF maps were stored
 as data

---
 src/pyg2p/main/writers/netcdf.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/pyg2p/main/writers/netcdf.py b/src/pyg2p/main/writers/netcdf.py
index b35391f..eb949bb 100644
--- a/src/pyg2p/main/writers/netcdf.py
+++ b/src/pyg2p/main/writers/netcdf.py
@@ -145,10 +145,8 @@ class NetCDFWriter(Writer):
             values_nc.valid_max = (np.float64(varargs.get('valid_max', None)) - np.float64(varargs.get('offset', '0.0'))) / np.float64(varargs.get('scale_factor', '1.0'))
         values_nc.set_auto_maskandscale(True)         
         
-        # adjust missing values when scale_factor and offset are not 1.0 - 0.0 
-        mv_scaled = np.float64(missing_value_to_use) * np.float64(varargs.get('scale_factor', '1.0')) + np.float64(varargs.get('offset', '0.0'))
-        values = self._mask_values(values, mv_scaled)
-        values[np.isnan(values)] = mv_scaled
+        # missing values are masked: they get the fill value after packing, which could not hold it otherwise
+        values = ma.masked_invalid(self._mask_values(values, np.nan))
 
         for t in range(len(time_values)):
             if DEBUG_BILINEAR_INTERPOLATION:
-- 
2.43.0


From 9cee5a92d4dce6b0b208422ad00cfc11e86173a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:23 +0000
Subject: [PATCH 43/96] fix: values out of validMin and validMax were not set
 to nodata

---
 src/pyg2p/main/writers/netcdf.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pyg2p/main/writers/netcdf.py b/src/pyg2p/main/writers/netcdf.py
index eb949bb..adf3818 100644
--- a/src/pyg2p/main/writers/netcdf.py
+++ b/src/pyg2p/main/writers/netcdf.py
@@ -147,6 +147,11 @@ class NetCDFWriter(Writer):
         
         # missing values are masked: they get the fill value after packing, which could not hold it otherwise
         values = ma.masked_invalid(self._mask_values(values, np.nan))
+        # values out of the valid range are nodata
+        if varargs.get('valid_min', None) is not None:
+            values = ma.masked_less(values, np.float64(varargs['valid_min']))
+        if varargs.get('valid_max', None) is not None:
+            values = ma.masked_greater(values, np.float64(varargs['valid_max']))
 
         for t in range(len(time_values)):
             if DEBUG_BILINEAR_INTERPOLATION:
-- 
2.43.0


From b58b001e533f85357874b726d8fccd849598836f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:23 +0000
Subject: [PATCH 44/96] fix: minutes of the data time were lost in the time
 axis of netCDF maps

---
 src/pyg2p/__init__.py          | 4 ++--
 src/pyg2p/main/readers/grib.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pyg2p/__init__.py b/src/pyg2p/__init__.py
index 463f295..aa9de94 100644
--- a/src/pyg2p/__init__.py
+++ b/src/pyg2p/__init__.py
@@ -145,7 +145,7 @@ class GribGridDetails(Loggable):
 
 class Messages(Loggable):
 
-    def __init__(self, values, mv, unit, type_of_level, type_of_step, step_units, grid_details, val_2nd=None, data_date=None, data_time='0'):
+    def __init__(self, values, mv, unit, type_of_level, type_of_step, step_units, grid_details, val_2nd=None, data_date=None, data_time='0000'):
         super().__init__()
         self.values_first_or_single_res = values
         self.values_second_res = val_2nd or {}
@@ -154,7 +154,7 @@ class Messages(Loggable):
         self.type_of_level = type_of_level
         self.unit = unit
         self.missing_value = mv
-        self.data_date = datetime.strptime(f'{data_date}{data_time}', '%Y%m%d%H')
+        self.data_date = datetime.strptime(f'{data_date}{data_time}', '%Y%m%d%H%M')
 
         self.grid_details = grid_details
         # order key list to get first step
diff --git a/src/pyg2p/main/readers/grib.py b/src/pyg2p/main/readers/grib.py
index f94dc73..2cdda3d 100644
--- a/src/pyg2p/main/readers/grib.py
+++ b/src/pyg2p/main/readers/grib.py
@@ -208,7 +208,7 @@ class GRIBReader(Loggable):
             if grid2:
                 key_2nd_spatial_res = min(all_values_second_res.keys())
                 grid.set_2nd_resolution(grid2, key_2nd_spatial_res)
-            return Messages(all_values, missing_value, unit, type_of_level, type_of_step, step_units, grid, all_values_second_res, data_date=data_date, data_time=f'{data_time:04d}'[:2])
+            return Messages(all_values, missing_value, unit, type_of_level, type_of_step, step_units, grid, all_values_second_res, data_date=data_date, data_time=f'{data_time:04d}')
         # no messages found
         else:
             raise ApplicationException.get_exc(NO_MESSAGES, details=f'using {kwargs}')
-- 
2.43.0


From c8d25b6521b3fa79212de5f35aca93c0f0cffdf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:24 +0000
Subject: [PATCH 45/96] fix: netCDF maps could not be written as i8, u1, u2, u4
 and u8

---
 src/pyg2p/main/writers/__init__.py | 2 +-
 src/pyg2p/main/writers/netcdf.py   | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/pyg2p/main/writers/__init__.py b/src/pyg2p/main/writers/__init__.py
index 3a0975b..3f85b1c 100644
--- a/src/pyg2p/main/writers/__init__.py
+++ b/src/pyg2p/main/writers/__init__.py
@@ -85,7 +85,7 @@ class OutputWriter(Loggable):
                         value_format=self.ctx.get('outMaps.valueFormat'),
                         offset=self.ctx.get('outMaps.offset'),
                         scale_factor=self.ctx.get('outMaps.scaleFactor'))
-        self.writer.init_dataset(out_filename)
+        self.writer.init_dataset(out_filename, var_args['value_format'])
 
         self.writer.write(out_values, time_values, **var_args)
 
diff --git a/src/pyg2p/main/writers/netcdf.py b/src/pyg2p/main/writers/netcdf.py
index adf3818..41fa969 100644
--- a/src/pyg2p/main/writers/netcdf.py
+++ b/src/pyg2p/main/writers/netcdf.py
@@ -49,8 +49,10 @@ class NetCDFWriter(Writer):
             self.lats[self.lats == coordinates_mv] = np.nan
             self.lons[self.lons == coordinates_mv] = np.nan
 
-    def init_dataset(self, out_filename):
-        self.nf = Dataset(out_filename, 'w', format='NETCDF4_CLASSIC')
+    def init_dataset(self, out_filename, value_format=None):
+        # the classic model has no unsigned or 64 bits integers
+        classic = value_format in (None, 'i1', 'i2', 'i4', 'f4', 'f8')
+        self.nf = Dataset(out_filename, 'w', format='NETCDF4_CLASSIC' if classic else 'NETCDF4')
         self.filepath = out_filename
         time_created = time.ctime(time.time())
         self.nf.history = f'Created {time_created}'
-- 
2.43.0


From a893527a0431f3eac33546fa42db09a39302afb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:16 +0000
Subject: [PATCH 46/96] fix: missing values of i8 and u8 netCDF maps were not
 written

---
 src/pyg2p/main/writers/netcdf.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pyg2p/main/writers/netcdf.py b/src/pyg2p/main/writers/netcdf.py
index 41fa969..86bac39 100644
--- a/src/pyg2p/main/writers/netcdf.py
+++ b/src/pyg2p/main/writers/netcdf.py
@@ -154,6 +154,11 @@ class NetCDFWriter(Writer):
             values = ma.masked_less(values, np.float64(varargs['valid_min']))
         if varargs.get('valid_max', None) is not None:
             values = ma.masked_greater(values, np.float64(varargs['valid_max']))
+        if value_format in ('i8', 'u8'):
+            # packed here because a float cannot hold the fill value of these formats
+            values_nc.set_auto_maskandscale(False)
+            packed = ma.around((values - values_nc.add_offset) / values_nc.scale_factor).filled(0)
+            values = np.where(ma.getmaskarray(values), np.array(missing_value_to_use, value_format), packed.astype(value_format))
 
         for t in range(len(time_values)):
             if DEBUG_BILINEAR_INTERPOLATION:
-- 
2.43.0


From 8e67398c517153015b769c6e7bce145bc969ad8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:46 +0000
Subject: [PATCH 47/96] fix: NaN cells of netCDF clone maps were not missing in
 netCDF output

---
 src/pyg2p/main/writers/netcdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyg2p/main/writers/netcdf.py b/src/pyg2p/main/writers/netcdf.py
index 86bac39..27a879d 100644
--- a/src/pyg2p/main/writers/netcdf.py
+++ b/src/pyg2p/main/writers/netcdf.py
@@ -31,7 +31,7 @@ class NetCDFWriter(Writer):
             self.area = area.values
         
         # add mask from clone map
-        self.area = ma.masked_values(self.area, area.mv)
+        self.area = ma.masked_invalid(self.area) if np.isnan(area.mv) else ma.masked_values(self.area, area.mv)
         self._mask = ma.getmaskarray(self.area)
         
         if lats_map.endswith('.nc'):
-- 
2.43.0


From c12e103fe6a1045e7d221fedb7b1d6d92d3db728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:04 +0000
Subject: [PATCH 48/96] fix: PCRaster maps with a long prefix overwrote each
 other

---
 src/pyg2p/main/writers/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pyg2p/main/writers/__init__.py b/src/pyg2p/main/writers/__init__.py
index 3f85b1c..fa92385 100644
--- a/src/pyg2p/main/writers/__init__.py
+++ b/src/pyg2p/main/writers/__init__.py
@@ -124,9 +124,10 @@ class OutputWriter(Loggable):
     def _name_pcr_map(self, i_map):
         # Used for pcraster output maps
         # return a full path for output map, of the type 8.3  {prefix}[000000].0[0]{seq}
-        filename = self.ctx.get('outMaps.namePrefix')
         map_number = self.ctx.get('outMaps.fmap') + (i_map - 1) * self.ctx.get('outMaps.ext')
-        zeroes = 11 - len(self.ctx.get('outMaps.namePrefix')) - len(str(map_number))
+        # a long prefix leaves room for the number, otherwise maps would overwrite each other
+        filename = self.ctx.get('outMaps.namePrefix')[:11 - len(str(map_number))]
+        zeroes = 11 - len(filename) - len(str(map_number))
         for g in range(zeroes):
             filename += '0'
         filename += str(map_number)
-- 
2.43.0


From 0c220acf804c8d7789e3494a80c84243991ef27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:08 +0000
Subject: [PATCH 49/96] fix: configuration commands -g, -W and -K were not
 executed

---
 src/pyg2p/main/__init__.py | 4 ++--
 src/pyg2p/main/context.py  | 5 +++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/pyg2p/main/__init__.py b/src/pyg2p/main/__init__.py
index 7febe4f..02e6325 100644
--- a/src/pyg2p/main/__init__.py
+++ b/src/pyg2p/main/__init__.py
@@ -61,7 +61,7 @@ def config_command(exc_ctx):
     if exc_ctx.to_download_conf:  # -W
         # download configuration
         dataset = exc_ctx.get('download_configuration')
-        conf.download_data(dataset, logger)
+        conf.download_data(dataset)
         logger.info('Configuration downloaded.')
 
     elif exc_ctx.to_add_geopotential:  # -g
@@ -72,4 +72,4 @@ def config_command(exc_ctx):
 
     elif exc_ctx.to_check_conf:  # -K
         # check unused intertables (intertables that are not in configuration and can be deleted
-        conf.to_check_conf()
+        conf.check_conf()
diff --git a/src/pyg2p/main/context.py b/src/pyg2p/main/context.py
index 21be19a..4de63c3 100644
--- a/src/pyg2p/main/context.py
+++ b/src/pyg2p/main/context.py
@@ -26,6 +26,7 @@ class Context:
         self.configuration = Configuration()
         # init vars
         self.to_add_geopotential = False
+        self.is_config_command = False
         self.input_file_with_geopotential = None
         self._vars = {}
 
@@ -86,7 +87,7 @@ class Context:
             if not files.exists(self._vars['geopotential']):
                 raise ApplicationException.get_exc(7001, self._vars['geopotential'])
 
-        else:
+        elif not self.is_config_command:
 
             if not self._vars.get('input.file'):
                 raise ApplicationException.get_exc(MISSING_INPUT_GRIB)
@@ -251,7 +252,7 @@ class ExecutionContext(Context):
         self._vars['input.file2'] = parsed_args['inputFile2']
         self._vars['input.two_resolution'] = bool(self._vars['input.file2'])
         self._vars['geopotential'] = parsed_args['addGeopotential']
-        self._to_add_geopotential = bool(self._vars['geopotential'])
+        self.to_add_geopotential = bool(self._vars['geopotential'])
         self._vars['download_configuration'] = parsed_args['downloadConf']
         self._vars['under_api'] = parsed_args['underApi']
         self._vars['check_conf'] = parsed_args['checkConf']
-- 
2.43.0


From 0408694e179a64a4b157d2ed2edd9ee0120cb4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:47 +0000
Subject: [PATCH 50/96] fix: -K stopped on the description of the configuration
 and on folders that are not defined

---
 src/pyg2p/main/config.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/pyg2p/main/config.py b/src/pyg2p/main/config.py
index 0b869f0..8256a7e 100644
--- a/src/pyg2p/main/config.py
+++ b/src/pyg2p/main/config.py
@@ -365,13 +365,17 @@ class Configuration(pyg2p.Loggable):
     def check_conf(self):
         # it logs all files in intertables and geopotentials paths that are not used in configuration
 
-        used_intertables = [i['filename'] for i in self.intertables.vars.values()]
+        used_intertables = [i['filename'] for i in self.intertables.vars.values() if isinstance(i, dict)]
         used_geopotentials = self.geopotentials.vars.values()
 
-        intertables_folder_content = file_util.ls(self.intertables.data_path, 'npy')
-        intertables_global_folder_content = file_util.ls(self.intertables.global_data_path, 'npy')
-        geopotentials_folder_content = file_util.ls(self.geopotentials.data_path, 'npy')
-        geopotentials_global_folder_content = file_util.ls(self.geopotentials.global_data_path, 'npy')
+        def content(folder):
+            # folders could be not defined or not existing
+            return file_util.ls(folder, 'npy') if folder and file_util.exists(folder, is_folder=True) else []
+
+        intertables_folder_content = content(self.intertables.data_path)
+        intertables_global_folder_content = content(self.intertables.global_data_path)
+        geopotentials_folder_content = content(self.geopotentials.data_path)
+        geopotentials_global_folder_content = content(self.geopotentials.global_data_path)
         for f in itertools.chain(intertables_folder_content, intertables_global_folder_content):
             if file_util.filename(f) not in used_intertables:
                 self._log(f'Intertable file is not in configuration: {f} - You could delete it')
@@ -382,6 +386,11 @@ class Configuration(pyg2p.Loggable):
 
         user_intertables = deepcopy(self.intertables.user_vars)
         for k, i in user_intertables.items():
+            if not isinstance(i, dict):
+                # description
+                continue
+            if not self.intertables.data_path:
+                continue
             fullpath = os.path.join(self.intertables.data_path, i['filename'])
             if not file_util.exists(fullpath):
                 self._log(f'{fullpath} - Non existing. Removing item from intertables.json')
-- 
2.43.0


From 29de4b10e0dc816b8233937298faf51a95256bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:00 +0000
Subject: [PATCH 51/96] fix: runs in the same process used formulas and
 geopotential of a previous correction

---
 src/pyg2p/main/manipulation/correction.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/pyg2p/main/manipulation/correction.py b/src/pyg2p/main/manipulation/correction.py
index 2d17d40..3a84db2 100644
--- a/src/pyg2p/main/manipulation/correction.py
+++ b/src/pyg2p/main/manipulation/correction.py
@@ -1,4 +1,5 @@
 import logging
+from weakref import WeakKeyDictionary
 
 import numexpr as ne
 import numpy as np
@@ -18,22 +19,18 @@ from ..interpolation.scipy_interpolation_lib import DEBUG_BILINEAR_INTERPOLATION
 
 class Corrector(Loggable):
 
-    instances = {}
+    # correctors of each execution: the next one may have other formulas, maps or geopotential
+    instances = WeakKeyDictionary()
 
     def __repr__(self):
         return f'Corrector<{self.grid_id} {self.geo_file}>'
 
     @classmethod
     def get_instance(cls, ctx, grid_id):
-        geo_file_ = ctx.geo_file(grid_id)
-        dem_map = ctx.get('correction.demMap')
-        key = f'{grid_id}{dem_map}'
-        if key in cls.instances:
-            return cls.instances[key]
-        else:
-            instance = Corrector(ctx, grid_id, geo_file_)
-            cls.instances[key] = instance
-            return instance
+        correctors = cls.instances.setdefault(ctx, {})
+        if grid_id not in correctors:
+            correctors[grid_id] = Corrector(ctx, grid_id, ctx.geo_file(grid_id))
+        return correctors[grid_id]
 
     def __init__(self, ctx, grid_id, geo_file):
         super().__init__()
-- 
2.43.0


From ef4c2b16a7363b83ef00c8e7eb8881ff422936d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:19 +0000
Subject: [PATCH 52/96] fix: corrected maps had values where altitude,
 geopotential or parameter are missing

---
 src/pyg2p/main/interpolation/latlong.py   |  3 +++
 src/pyg2p/main/manipulation/correction.py | 31 ++++++++++++-----------
 2 files changed, 19 insertions(+), 15 deletions(-)

diff --git a/src/pyg2p/main/interpolation/latlong.py b/src/pyg2p/main/interpolation/latlong.py
index dc91d16..0f547cb 100644
--- a/src/pyg2p/main/interpolation/latlong.py
+++ b/src/pyg2p/main/interpolation/latlong.py
@@ -1,5 +1,7 @@
 import logging
 
+import numpy as np
+
 from pyg2p import Loggable
 from pyg2p.exceptions import ApplicationException, INVALID_INTERPOL_METHOD
 from pyg2p.main.readers.pcr import PCRasterReader
@@ -55,3 +57,4 @@ class Dem(Loggable):
             reader = PCRasterReader(self._dem_map)
         self.mv = reader.mv
         self.values = reader.values
+        self.missing = (self.values == self.mv) | np.isnan(self.values)
diff --git a/src/pyg2p/main/manipulation/correction.py b/src/pyg2p/main/manipulation/correction.py
index 3a84db2..5b252fb 100644
--- a/src/pyg2p/main/manipulation/correction.py
+++ b/src/pyg2p/main/manipulation/correction.py
@@ -11,7 +11,6 @@ from pyg2p.main.interpolation.latlong import Dem
 from pyg2p.main.readers.grib import GRIBReader
 
 from pyg2p.main.config import GeopotentialsConfiguration
-import pyg2p.util.numeric
 from netCDF4 import default_fillvals
 
 from ..interpolation.scipy_interpolation_lib import DEBUG_BILINEAR_INTERPOLATION, \
@@ -37,11 +36,10 @@ class Corrector(Loggable):
         self.geo_file = geo_file
         self.grid_id = grid_id
         dem_map = ctx.get('correction.demMap')
-        self._dem_missing_value, self._dem_values = self._read_dem(dem_map)
+        self._dem_missing, self._dem_values = self._read_dem(dem_map)
         self._formula = ctx.get('correction.formula')
         self._gem_formula = ctx.get('correction.gemFormula')
-        self._numexpr_eval = f'where((dem!=dem_mv) & (p!=mv) & (gem!=gem_mv), {self._formula}, mv)'
-        self._numexpr_eval_gem = f'where(z != mv, {self._gem_formula}, mv)'
+        self._numexpr_eval = f'where(missing, mv, {self._formula})'
 
         log_message = f"""
         Correction
@@ -51,7 +49,7 @@ class Corrector(Loggable):
         """
         self._log(log_message, 'INFO')
 
-        self._gem_missing_value, self._gem_values = self._read_geo(geo_file, ctx)
+        self._mv_out, self._gem_values = self._read_geo(geo_file, ctx)
 
     def correct(self, values):
         with np.errstate(over='ignore'):
@@ -68,14 +66,16 @@ class Corrector(Loggable):
                     assert(False)
             else:
                 dem = self._dem_values
-            p = values
-            gem = self._gem_values
-            dem_mv = self._dem_missing_value
-            gem_mv = self._gem_missing_value
+            p = ma.getdata(values)
+            gem = ma.getdata(self._gem_values)
+            # no value without parameter, geopotential or altitude
+            missing = ma.getmaskarray(values) | (p == self._mv_out) | np.isnan(p)
+            missing |= ma.getmaskarray(self._gem_values) | (gem == self._mv_out)
+            missing |= self._dem_missing
             mv = default_fillvals[values.dtype.str[1:]] # take missing values from the default netCDF fillvals values
             values = ne.evaluate(self._numexpr_eval)
             # mask out values (here is already output values with destination shape)
-            values = ma.masked_where(pyg2p.util.numeric.get_masks(p), values)
+            values = ma.masked_where(missing, values)
         return values
 
     def _read_geo(self, grib_file, ctx):
@@ -91,9 +91,10 @@ class Corrector(Loggable):
 
         # get temp from geopotential. will be gem in the formula
         # variables below are used by numexpr evaluation namespace: DO NOT DELETE!
-        mv = missing
-        z = values
-        ne.evaluate(self._numexpr_eval_gem, out=values)
+        z = ma.getdata(values)
+        gem = np.empty(z.shape)
+        ne.evaluate(self._gem_formula, out=gem)
+        values = ma.masked_where(ma.getmaskarray(values), gem) if ma.is_masked(values) else gem
 
         if is_grib_interpolation:
             values_resampled = interpolator.interpolate_grib(values, -1, self.grid_id)
@@ -102,9 +103,9 @@ class Corrector(Loggable):
             lats, lons = geopotential_gribs.latlons
             values_resampled = interpolator.interpolate_scipy(lats, lons, values, self.grid_id, geopotential_gribs.grid_details)
         reader.close()
-        return missing, values_resampled
+        return interpolator.mv_output, values_resampled
 
     @staticmethod
     def _read_dem(dem_map):
         dem = Dem(dem_map)
-        return dem.mv, dem.values
+        return dem.missing, dem.values
-- 
2.43.0


From e26125af202c2be9451a230704907ec8096f4d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:22 +0000
Subject: [PATCH 53/96] fix: -f 1 and -x 1 did not overwrite fmap and ext of
 the execution file

---
 src/pyg2p/main/context.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/pyg2p/main/context.py b/src/pyg2p/main/context.py
index 4de63c3..87deef4 100644
--- a/src/pyg2p/main/context.py
+++ b/src/pyg2p/main/context.py
@@ -285,12 +285,12 @@ class ExecutionContext(Context):
                             type=int, metavar='data_date')
 
         # output file naming (first extension number, extension number step, prefix
-        parser.add_argument('-f', '--fmap', help='First map number', type=int, default=1, metavar='fmap')
+        parser.add_argument('-f', '--fmap', help='First map number. Default 1', type=int, metavar='fmap')
         # output file format
         parser.add_argument('-F', '--format', metavar='format',
                             default='notset', choices=['netcdf', 'pcraster', 'notset'],
                             help='Output format. Available options: netcdf,  pcraster. Default pcraster')
-        parser.add_argument('-x', '--ext', help='Extension number step', type=int, default=1, metavar='extension_step')
+        parser.add_argument('-x', '--ext', help='Extension number step. Default 1', type=int, metavar='extension_step')
         parser.add_argument('-n', '--namePrefix', help='Prefix name for maps', metavar='outfiles_prefix')
         parser.add_argument('-O', '--offset', help='Map offset', metavar='offset')
         parser.add_argument('-S', '--scaleFactor', help='Map scale factor', metavar='scale_factor')
@@ -405,10 +405,10 @@ class ExecutionContext(Context):
             self._vars['outMaps.valueFormat'] = exec_conf['OutMaps'].get('@valueFormat')
         if self._vars['outMaps.outputStepUnits'] is None:
             self._vars['outMaps.outputStepUnits'] = exec_conf['OutMaps'].get('@outputStepUnits')
-        if self._vars['outMaps.fmap'] == 1:
-            self._vars['outMaps.fmap'] = exec_conf['OutMaps'].get('@fmap') or 1
-        if self._vars['outMaps.ext'] == 1:
-            self._vars['outMaps.ext'] = exec_conf['OutMaps'].get('@ext') or 1
+        if self._vars['outMaps.fmap'] is None:
+            self._vars['outMaps.fmap'] = int(exec_conf['OutMaps'].get('@fmap') or 1)
+        if self._vars['outMaps.ext'] is None:
+            self._vars['outMaps.ext'] = int(exec_conf['OutMaps'].get('@ext') or 1)
         if self._vars['outMaps.format'] == 'notset':
             # default out format to pcraster if not set from commandline nor in execution command json
             self._vars['outMaps.format'] = exec_conf['OutMaps'].get('@format') or 'pcraster'
-- 
2.43.0


From d77d09dde80da8ba05e0fe40dc33fd6249f95b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:22 +0000
Subject: [PATCH 54/96] fix: an end step of 0 was taken as not set

---
 src/pyg2p/main/context.py    | 7 ++++---
 src/pyg2p/main/controller.py | 4 +++-
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/pyg2p/main/context.py b/src/pyg2p/main/context.py
index 87deef4..438399a 100644
--- a/src/pyg2p/main/context.py
+++ b/src/pyg2p/main/context.py
@@ -131,7 +131,8 @@ class Context:
             self._vars['outMaps.unitTime'] = int(self._vars['outMaps.unitTime']) if self._vars['outMaps.unitTime'] is not None else self.default_values['outMaps.unitTime']
 
             # check tstart<=tend
-            if self._vars['parameter.tstart'] and self._vars['parameter.tend'] and not self._vars['parameter.tstart'] <= self._vars['parameter.tend']:
+            if self._vars['parameter.tstart'] is not None and self._vars['parameter.tend'] is not None \
+                    and not self._vars['parameter.tstart'] <= self._vars['parameter.tend']:
                 raise ApplicationException.get_exc(1500)
 
             # check both correction params are present
@@ -415,9 +416,9 @@ class ExecutionContext(Context):
 
         # if start, end and dataTime are defined via command line input args, these are ignored.
         # if missing, GribReader will read all timesteps for the parameter
-        if self._vars['parameter.tstart'] is None and exec_conf['Parameter'].get('@tstart'):
+        if self._vars['parameter.tstart'] is None and exec_conf['Parameter'].get('@tstart') not in (None, ''):
             self._vars['parameter.tstart'] = int(exec_conf['Parameter']['@tstart'])
-        if self._vars['parameter.tend'] is None and exec_conf['Parameter'].get('@tend'):
+        if self._vars['parameter.tend'] is None and exec_conf['Parameter'].get('@tend') not in (None, ''):
             self._vars['parameter.tend'] = int(exec_conf['Parameter']['@tend'])
         if self._vars['parameter.dataTime'] is None and exec_conf['Parameter'].get('@dataTime') not in (None, ''):
             self._vars['parameter.dataTime'] = int(exec_conf['Parameter']['@dataTime'])  # number
diff --git a/src/pyg2p/main/controller.py b/src/pyg2p/main/controller.py
index c1325c4..2cc62ae 100644
--- a/src/pyg2p/main/controller.py
+++ b/src/pyg2p/main/controller.py
@@ -37,7 +37,9 @@ class Controller(Loggable):
 
         # read grib messages
         start_step = self.ctx.get('parameter.tstart') or 0
-        end_step = self.ctx.get('parameter.tend') or grib_info.end
+        end_step = self.ctx.get('parameter.tend')
+        if end_step is None:
+            end_step = grib_info.end
 
         if self.ctx.must_do_correction and self.grib_reader.has_geopotential():
             self.ctx.set_input_file_with_geopotential()
-- 
2.43.0


From 78bfbf54045792102a4444cb581b79fc34d8e445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:22 +0000
Subject: [PATCH 55/96] fix: execution failed when forceZeroArray is a boolean

---
 src/pyg2p/main/api.py     | 2 +-
 src/pyg2p/main/context.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyg2p/main/api.py b/src/pyg2p/main/api.py
index b7b09a4..9c03169 100644
--- a/src/pyg2p/main/api.py
+++ b/src/pyg2p/main/api.py
@@ -219,7 +219,7 @@ class ApiContext(Context):
             self._vars['aggregation.type'] = self.api_conf['Aggregation'].get('type')
 
             self._vars['execution.doAggregation'] = bool(self._vars.get('aggregation.step')) and bool(self._vars.get('aggregation.type'))
-            self._vars['aggregation.forceZeroArray'] = self._vars.get('aggregation.type') == ACCUMULATION and self.api_conf['Aggregation'].get('forceZeroArray', 'False').lower() not in strings.FALSE_STRINGS
+            self._vars['aggregation.forceZeroArray'] = self._vars.get('aggregation.type') == ACCUMULATION and str(self.api_conf['Aggregation'].get('forceZeroArray', 'False')).lower() not in strings.FALSE_STRINGS
 
         # string interpolation for custom user configurations (i.e. dataset folders)
         self.configuration.user.interpolate_strings(self)
diff --git a/src/pyg2p/main/context.py b/src/pyg2p/main/context.py
index 438399a..09e08ca 100644
--- a/src/pyg2p/main/context.py
+++ b/src/pyg2p/main/context.py
@@ -438,7 +438,7 @@ class ExecutionContext(Context):
             self._vars['execution.doAggregation'] = bool(self._vars.get('aggregation.step')) \
                 and bool(self._vars.get('aggregation.type'))
             self._vars['aggregation.forceZeroArray'] = self._vars.get('aggregation.type') == ACCUMULATION \
-                and exec_conf['Aggregation'].get('@forceZeroArray', 'False').lower() not in strings.FALSE_STRINGS
+                and str(exec_conf['Aggregation'].get('@forceZeroArray', 'False')).lower() not in strings.FALSE_STRINGS
 
         # string interpolation for custom user configurations (i.e. dataset folders)
         self.configuration.user.interpolate_strings(self)
-- 
2.43.0


From 2c703bb5694ff1687332d1813ae553b92d620831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:22 +0000
Subject: [PATCH 56/96] fix: variables with digits, paths with braces and
 values with = were not supported in user configuration

---
 src/pyg2p/main/config.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/pyg2p/main/config.py b/src/pyg2p/main/config.py
index 8256a7e..7e251bb 100644
--- a/src/pyg2p/main/config.py
+++ b/src/pyg2p/main/config.py
@@ -36,7 +36,7 @@ class UserConfiguration(pyg2p.Loggable):
     sep = '='
     comment_char = '#'
     conf_to_interpolate = ('correction.demMap', 'outMaps.clone', 'interpolation.latMap', 'interpolation.lonMap')
-    re_var = re.compile(r'{(?P<var>[a-zA-Z_]+)}')
+    re_var = re.compile(r'{(?P<var>[a-zA-Z_][a-zA-Z0-9_]*)}')
     geopotentials_path_var = 'GEOPOTENTIALS'
     intertables_path_var = 'INTERTABLES'
 
@@ -64,8 +64,10 @@ class UserConfiguration(pyg2p.Loggable):
             for line in f:
                 line = line.strip()
                 if line and not line.startswith(self.comment_char):
-                    key_value = line.split(self.sep)
-                    props[key_value[0].strip()] = key_value[1].strip('" \t')
+                    # only the first separator: values could have others
+                    key, sep, value = line.partition(self.sep)
+                    if sep:
+                        props[key.strip()] = value.strip('" \t')
         return props
 
     def interpolate_strings(self, ctx):
@@ -80,7 +82,8 @@ class UserConfiguration(pyg2p.Loggable):
         vars_with_variables = [var for var in self.conf_to_interpolate if self.re_var.search(ctx.get(var, ''))]
         for var in vars_with_variables:
             # we can have multiple variables {CONF_DIR}/{MAPS_DIR}lat.map
-            ctx[var] = ctx[var].format(**self.vars)
+            # variables not defined are left as they are
+            ctx[var] = self.re_var.sub(lambda m: self.vars.get(m.group('var'), m.group(0)), ctx[var])
             if self.re_var.search(ctx[var]):
                 # some variables where not string-interpolated so they are missing in user configuration
                 vars_not_defined = self.re_var.findall(ctx[var])
-- 
2.43.0


From 9a48405fdc7c6031284721a9778a0d899723223a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:42 +0000
Subject: [PATCH 57/96] fix: intertableDir and geopotentialDir under Execution
 were ignored, and variables in them and in cdd_map

---
 src/pyg2p/main/config.py  | 22 +++++++++++++---------
 src/pyg2p/main/context.py | 12 ++++++------
 2 files changed, 19 insertions(+), 15 deletions(-)

diff --git a/src/pyg2p/main/config.py b/src/pyg2p/main/config.py
index 7e251bb..307847b 100644
--- a/src/pyg2p/main/config.py
+++ b/src/pyg2p/main/config.py
@@ -35,7 +35,8 @@ class UserConfiguration(pyg2p.Loggable):
     config_dir = f'{os.path.expanduser("~")}/.pyg2p/'
     sep = '='
     comment_char = '#'
-    conf_to_interpolate = ('correction.demMap', 'outMaps.clone', 'interpolation.latMap', 'interpolation.lonMap')
+    conf_to_interpolate = ('correction.demMap', 'outMaps.clone', 'interpolation.latMap', 'interpolation.lonMap',
+                           'interpolation.cdd_map')
     re_var = re.compile(r'{(?P<var>[a-zA-Z_][a-zA-Z0-9_]*)}')
     geopotentials_path_var = 'GEOPOTENTIALS'
     intertables_path_var = 'INTERTABLES'
@@ -78,16 +79,19 @@ class UserConfiguration(pyg2p.Loggable):
 
         :param ctx instance of Context
         """
-        ctx.get(self.conf_to_interpolate[0], '')
         vars_with_variables = [var for var in self.conf_to_interpolate if self.re_var.search(ctx.get(var, ''))]
         for var in vars_with_variables:
-            # we can have multiple variables {CONF_DIR}/{MAPS_DIR}lat.map
-            # variables not defined are left as they are
-            ctx[var] = self.re_var.sub(lambda m: self.vars.get(m.group('var'), m.group(0)), ctx[var])
-            if self.re_var.search(ctx[var]):
-                # some variables where not string-interpolated so they are missing in user configuration
-                vars_not_defined = self.re_var.findall(ctx[var])
-                raise ApplicationException.get_exc(NO_VAR_DEFINED, str(vars_not_defined))
+            ctx[var] = self.interpolate(ctx[var])
+
+    def interpolate(self, path):
+        # we can have multiple variables {CONF_DIR}/{MAPS_DIR}lat.map
+        # variables not defined are left as they are
+        path = self.re_var.sub(lambda m: self.vars.get(m.group('var'), m.group(0)), path)
+        if self.re_var.search(path):
+            # some variables where not string-interpolated so they are missing in user configuration
+            vars_not_defined = self.re_var.findall(path)
+            raise ApplicationException.get_exc(NO_VAR_DEFINED, str(vars_not_defined))
+        return path
 
 
 class BaseConfiguration(pyg2p.Loggable):
diff --git a/src/pyg2p/main/context.py b/src/pyg2p/main/context.py
index 09e08ca..acbb162 100644
--- a/src/pyg2p/main/context.py
+++ b/src/pyg2p/main/context.py
@@ -379,12 +379,12 @@ class ExecutionContext(Context):
         self._vars['interpolation.use_broadcasting'] = interpolation_conf.get('@use_broadcasting', False)
         self._vars['interpolation.num_of_splits'] = interpolation_conf.get('@num_of_splits', None)
         self._vars['interpolation.rotated_target'] = interpolation_conf.get('@rotated_target', False)
-        if not self._vars['interpolation.dir'] and interpolation_conf.get('@intertableDir'):
-            # get from JSON
-            self._vars['interpolation.dirs']['user'] = interpolation_conf['@intertableDir']
-        if not self._vars['geopotential.dir'] and interpolation_conf.get('@geopotentialDir'):
-            # get from JSON
-            self._vars['geopotential.dirs']['user'] = interpolation_conf['@geopotentialDir']
+        for dir_, attr in (('interpolation.dir', '@intertableDir'), ('geopotential.dir', '@geopotentialDir')):
+            if not self._vars[dir_]:
+                # get from JSON
+                path = interpolation_conf.get(attr) or exec_conf.get(attr)
+                if path:
+                    self._vars[f'{dir_}s']['user'] = self.configuration.user.interpolate(path)
         self._vars['interpolation.latMap'] = interpolation_conf['@latMap']
         self._vars['interpolation.lonMap'] = interpolation_conf['@lonMap']
 
-- 
2.43.0


From 1d85021e9968848865ddf85072f1b4b005daec8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:19 +0000
Subject: [PATCH 58/96] fix: -g replaced the geopotential of another grid with
 the same file name

---
 src/pyg2p/main/config.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pyg2p/main/config.py b/src/pyg2p/main/config.py
index 307847b..9c25593 100644
--- a/src/pyg2p/main/config.py
+++ b/src/pyg2p/main/config.py
@@ -274,6 +274,11 @@ class GeopotentialsConfiguration(BaseConfiguration):
                                                        f'File was not added: {filepath}')
 
         name = file_util.filename(filepath)
+        if name in self.vars.values():
+            # copying it would replace the geopotential of another grid
+            raise ApplicationException.get_exc(EXISTING_GEOPOTENTIAL,
+                                               details=f'{name} is the file of another grid. '
+                                                       f'File was not added: {filepath}')
         self.check_write()
 
         file_util.copy(filepath, self.data_path)
-- 
2.43.0


From 6f105c44ccbf869864ba9a4402f192e190a17430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:19 +0000
Subject: [PATCH 59/96] fix: -g failed on files that are already in the folder
 of geopotentials

---
 src/pyg2p/main/config.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyg2p/main/config.py b/src/pyg2p/main/config.py
index 9c25593..93ce8f2 100644
--- a/src/pyg2p/main/config.py
+++ b/src/pyg2p/main/config.py
@@ -281,7 +281,8 @@ class GeopotentialsConfiguration(BaseConfiguration):
                                                        f'File was not added: {filepath}')
         self.check_write()
 
-        file_util.copy(filepath, self.data_path)
+        if os.path.realpath(filepath) != os.path.realpath(os.path.join(self.data_path, name)):
+            file_util.copy(filepath, self.data_path)
         self.set_user_var(id_, name)
 
     def remove(self, filename):
-- 
2.43.0


From 08a802eb81bb596f672ae04f2618d1b53003fe7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:19 +0000
Subject: [PATCH 60/96] fix: geopotentials added through the same configuration
 object did not know each other

---
 src/pyg2p/main/config.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pyg2p/main/config.py b/src/pyg2p/main/config.py
index 93ce8f2..04b1852 100644
--- a/src/pyg2p/main/config.py
+++ b/src/pyg2p/main/config.py
@@ -284,6 +284,7 @@ class GeopotentialsConfiguration(BaseConfiguration):
         if os.path.realpath(filepath) != os.path.realpath(os.path.join(self.data_path, name)):
             file_util.copy(filepath, self.data_path)
         self.set_user_var(id_, name)
+        self.vars[id_] = name
 
     def remove(self, filename):
         with self._locked():
-- 
2.43.0


From 5f9fe808a22dfdaaeee1839592545de2e0449afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:19 +0000
Subject: [PATCH 61/96] fix: interrupted downloads left partial files that were
 never downloaded again

---
 src/pyg2p/main/config.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/pyg2p/main/config.py b/src/pyg2p/main/config.py
index 04b1852..d128b52 100644
--- a/src/pyg2p/main/config.py
+++ b/src/pyg2p/main/config.py
@@ -371,8 +371,15 @@ class Configuration(pyg2p.Loggable):
                 self._log(f'[{i}/{numfiles}] Skipping existing file {f}', level='INFO')
                 continue
             self._log(f'[{i}/{numfiles}] Downloading {f}')
-            with open(local_filename, 'wb') as local_file:
-                client.retrbinary(f'RETR {f}', local_file.write)
+            # moved to its name when complete: existing files are not downloaded again
+            tmp = f'{local_filename}.{os.getpid()}'
+            try:
+                with open(tmp, 'wb') as local_file:
+                    client.retrbinary(f'RETR {f}', local_file.write)
+                os.replace(tmp, local_filename)
+            except BaseException:
+                file_util.delete_file(tmp)
+                raise
         self._log(f'=== Download finished: {remote_path}')
         client.quit()  # close FTP connection
 
-- 
2.43.0


From e7de28a4758687441850b701425412972e5e46b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:55 +0000
Subject: [PATCH 62/96] fix: values were not corrected when one of the
 attributes of correction is missing, instead of an error

---
 src/pyg2p/main/api.py     | 9 +++++----
 src/pyg2p/main/context.py | 9 +++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/pyg2p/main/api.py b/src/pyg2p/main/api.py
index 9c03169..2aeeda9 100644
--- a/src/pyg2p/main/api.py
+++ b/src/pyg2p/main/api.py
@@ -157,11 +157,12 @@ class ApiContext(Context):
             self._vars['parameter.conversionFunction'] = conversion['@function']
             self._vars['parameter.cutoffnegative'] = strings.to_boolean(conversion.get('@cutOffNegative'))
 
-        if self.api_conf['Parameter'].get('correctionFormula') and self.api_conf['Parameter'].get('gem') and self.api_conf['Parameter'].get('demMap'):
+        if self.api_conf['Parameter'].get('correctionFormula') or self.api_conf['Parameter'].get('gem') or self.api_conf['Parameter'].get('demMap'):
+            # all of them are mandatory (see _check_exec_params)
             self._vars['execution.doCorrection'] = True
-            self._vars['correction.formula'] = self.api_conf['Parameter']['correctionFormula']
-            self._vars['correction.gemFormula'] = self.api_conf['Parameter']['gem']
-            self._vars['correction.demMap'] = self.api_conf['Parameter']['demMap']
+            self._vars['correction.formula'] = self.api_conf['Parameter'].get('correctionFormula', '')
+            self._vars['correction.gemFormula'] = self.api_conf['Parameter'].get('gem', '')
+            self._vars['correction.demMap'] = self.api_conf['Parameter'].get('demMap', '')
             if not self._vars['geopotential.dir'] and self.api_conf.get('geopotentialDir'):
                 self._vars['geopotential.dirs']['user'] = self.api_conf['geopotentialDir']
 
diff --git a/src/pyg2p/main/context.py b/src/pyg2p/main/context.py
index acbb162..f9702d7 100644
--- a/src/pyg2p/main/context.py
+++ b/src/pyg2p/main/context.py
@@ -363,12 +363,13 @@ class ExecutionContext(Context):
             self._vars['parameter.conversionFunction'] = conversion['@function']
             self._vars['parameter.cutoffnegative'] = strings.to_boolean(conversion.get('@cutOffNegative'))
 
-        if exec_conf['Parameter'].get('@correctionFormula') and exec_conf['Parameter'].get('@gem') and exec_conf[
+        if exec_conf['Parameter'].get('@correctionFormula') or exec_conf['Parameter'].get('@gem') or exec_conf[
             'Parameter'].get('@demMap'):
+            # all of them are mandatory (see _check_exec_params)
             self._vars['execution.doCorrection'] = True
-            self._vars['correction.formula'] = exec_conf['Parameter']['@correctionFormula']
-            self._vars['correction.gemFormula'] = exec_conf['Parameter']['@gem']
-            self._vars['correction.demMap'] = exec_conf['Parameter']['@demMap']
+            self._vars['correction.formula'] = exec_conf['Parameter'].get('@correctionFormula', '')
+            self._vars['correction.gemFormula'] = exec_conf['Parameter'].get('@gem', '')
+            self._vars['correction.demMap'] = exec_conf['Parameter'].get('@demMap', '')
 
         self._vars['outMaps.clone'] = exec_conf['OutMaps']['@cloneMap']
         interpolation_conf = exec_conf['OutMaps']['Interpolation']
-- 
2.43.0


From 7ea993872149582655a8cd9ef2d1586e5edba096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:55 +0000
Subject: [PATCH 63/96] fix: exit code was 0 when PCRaster maps could not be
 written

---
 src/pyg2p/main/writers/pcr.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pyg2p/main/writers/pcr.py b/src/pyg2p/main/writers/pcr.py
index ea55173..6813a7b 100644
--- a/src/pyg2p/main/writers/pcr.py
+++ b/src/pyg2p/main/writers/pcr.py
@@ -36,10 +36,14 @@ class PCRasterWriter(Writer):
         n = ma.count_masked(masked_values)
         self._mem_ds.GetRasterBand(1).SetNoDataValue(self.mv)
         self._mem_ds.GetRasterBand(1).WriteArray(masked_values)
+        gdal.ErrorReset()
         out_ds = drv.CreateCopy(output_map_name.encode('utf-8'), self._mem_ds)
-        self._log(f'{output_map_name} written!', 'INFO')
+        written = out_ds is not None
         out_ds = None
         del out_ds
+        if not written or gdal.GetLastErrorType() >= gdal.CE_Failure:
+            raise IOError(f'{output_map_name} not written: {gdal.GetLastErrorMsg()}')
+        self._log(f'{output_map_name} written!', 'INFO')
 
     def _mask_values(self, values):
         if isinstance(values, ma.core.MaskedArray):
-- 
2.43.0


From 02b1b3b2bdb449e132e57f564b12742b1b0c499e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:58 +0000
Subject: [PATCH 64/96] fix: PCRaster maps were filled with values of the clone
 when it is larger than the target maps

---
 src/pyg2p/main/writers/pcr.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pyg2p/main/writers/pcr.py b/src/pyg2p/main/writers/pcr.py
index 6813a7b..9a30584 100644
--- a/src/pyg2p/main/writers/pcr.py
+++ b/src/pyg2p/main/writers/pcr.py
@@ -30,6 +30,9 @@ class PCRasterWriter(Writer):
         self._mask = ma.getmask(rs)
 
     def write(self, output_map_name, values):
+        clone_shape = (self._src_ds.RasterYSize, self._src_ds.RasterXSize)
+        if values.shape != clone_shape:
+            raise ValueError(f'Clone map has a different size ({clone_shape}) from the target maps ({values.shape}).')
         values[np.isnan(values)]=self.mv
         drv = gdal.GetDriverByName(self.FORMAT)
         masked_values = self._mask_values(values)
-- 
2.43.0


From d9138bd2f3686bc8cb7e8e6a764bb0b63b28d014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:47 +0000
Subject: [PATCH 65/96] fix: grib_nearest and grib_invdist paired wrong
 coordinates when latitude and longitude maps have different sizes

---
 src/pyg2p/main/interpolation/latlong.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pyg2p/main/interpolation/latlong.py b/src/pyg2p/main/interpolation/latlong.py
index 0f547cb..71e62d0 100644
--- a/src/pyg2p/main/interpolation/latlong.py
+++ b/src/pyg2p/main/interpolation/latlong.py
@@ -39,6 +39,8 @@ class LatLong(Loggable):
             self._id = f'{reader.identifier()}_{reader2.identifier()}'
             reader.close()
             reader2.close()
+            if self.lats.shape != self.lons.shape:
+                raise ValueError(f'Latitude and longitude maps have different sizes: {self.lats.shape} - {self.lons.shape}')
 
     @property
     def identifier(self):
-- 
2.43.0


From 54e6242f148f2367a086dce6bb8448bd19a5b090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:12 +0000
Subject: [PATCH 66/96] fix: accumulations of the first resolution were lost
 with accumulated parameters

---
 src/pyg2p/main/controller.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyg2p/main/controller.py b/src/pyg2p/main/controller.py
index 2cc62ae..f58bc1f 100644
--- a/src/pyg2p/main/controller.py
+++ b/src/pyg2p/main/controller.py
@@ -117,7 +117,8 @@ class Controller(Loggable):
             if messages.have_resolution_change():
                 change_res_step = messages.change_resolution_step()
                 # First resolution manipulation by setting end step as start step of the first message at 2nd resolution
-                aggregator.change_end_step(int(change_res_step.start_step))
+                # (end step if it is accumulated from the start of the forecast)
+                aggregator.change_end_step(int(change_res_step.start_step or change_res_step.end_step))
             values = aggregator.do_manipulation(values)
 
         change_res_step = None
-- 
2.43.0


From 79422bb2fc55a798372c2405bc4b96dea280d874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:12 +0000
Subject: [PATCH 67/96] fix: the only time step of the second resolution was
 lost

---
 src/pyg2p/main/controller.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyg2p/main/controller.py b/src/pyg2p/main/controller.py
index f58bc1f..f30c0ee 100644
--- a/src/pyg2p/main/controller.py
+++ b/src/pyg2p/main/controller.py
@@ -126,7 +126,7 @@ class Controller(Loggable):
             change_res_step = messages.change_resolution_step()
             start_step2 = int(change_res_step.end_step) + int(self.ctx.get('aggregation.step'))
             # we need GRIB lats and lons only for scipy interpolation
-            if self.ctx.must_do_aggregation and end_step > start_step2:
+            if self.ctx.must_do_aggregation and end_step >= start_step2:
                 # second resolution manipulation
                 change_res_step, values = self.second_res_manipulation(start_step2, end_step, input_step, messages, mv_grib, values)
 
-- 
2.43.0


From 67e1fb5a4d848b7486280409c2a51a04bff3ff9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:12 +0000
Subject: [PATCH 68/96] fix: without end step the second input file was not
 used

---
 src/pyg2p/main/controller.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pyg2p/main/controller.py b/src/pyg2p/main/controller.py
index f30c0ee..11c6553 100644
--- a/src/pyg2p/main/controller.py
+++ b/src/pyg2p/main/controller.py
@@ -40,6 +40,12 @@ class Controller(Loggable):
         end_step = self.ctx.get('parameter.tend')
         if end_step is None:
             end_step = grib_info.end
+            if self.ctx.is_2_input_files:
+                reader2 = GRIBReader(self.ctx.get('input.file2'), w_perturb=self.ctx.has_perturbation_number)
+                try:
+                    end_step = max(end_step, reader2.get_grib_info(self.ctx.create_select_cmd_for_aggregation_attrs()).end)
+                finally:
+                    reader2.close()
 
         if self.ctx.must_do_correction and self.grib_reader.has_geopotential():
             self.ctx.set_input_file_with_geopotential()
-- 
2.43.0


From af16fcf99cb16eb03c3149af92c6f26a1d3d5146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:12 +0000
Subject: [PATCH 69/96] fix: messages of the first resolution stored after one
 of the second resolution were lost

---
 src/pyg2p/main/readers/grib.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pyg2p/main/readers/grib.py b/src/pyg2p/main/readers/grib.py
index 2cdda3d..f57f42d 100644
--- a/src/pyg2p/main/readers/grib.py
+++ b/src/pyg2p/main/readers/grib.py
@@ -200,10 +200,10 @@ class GRIBReader(Loggable):
                     bitmap = codes_get_array(g, 'bitmap', int)
                     values = ma.masked_where(bitmap == 0, values, copy=False)
 
-                if not grid2:
-                    all_values[step_key] = values
-                elif points_meridian != grid.num_points_along_meridian:
+                if points_meridian != grid.num_points_along_meridian:
                     all_values_second_res[step_key] = values
+                else:
+                    all_values[step_key] = values
 
             if grid2:
                 key_2nd_spatial_res = min(all_values_second_res.keys())
-- 
2.43.0


From da8768faec1afbe8b9277366da120e7d2e11d5c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:37 +0000
Subject: [PATCH 70/96] fix: change of resolution depended on the order of
 messages with accumulated parameters

---
 src/pyg2p/main/readers/grib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyg2p/main/readers/grib.py b/src/pyg2p/main/readers/grib.py
index f57f42d..8707f2c 100644
--- a/src/pyg2p/main/readers/grib.py
+++ b/src/pyg2p/main/readers/grib.py
@@ -206,7 +206,7 @@ class GRIBReader(Loggable):
                     all_values[step_key] = values
 
             if grid2:
-                key_2nd_spatial_res = min(all_values_second_res.keys())
+                key_2nd_spatial_res = min(all_values_second_res.keys(), key=lambda k: int(k.end_step))
                 grid.set_2nd_resolution(grid2, key_2nd_spatial_res)
             return Messages(all_values, missing_value, unit, type_of_level, type_of_step, step_units, grid, all_values_second_res, data_date=data_date, data_time=f'{data_time:04d}')
         # no messages found
-- 
2.43.0


From 4d9b84cd6563635d87b390726abcb7707f634167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:37 +0000
Subject: [PATCH 71/96] fix: instantaneous maps of the step where resolution
 changes were written twice

---
 src/pyg2p/main/controller.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pyg2p/main/controller.py b/src/pyg2p/main/controller.py
index 11c6553..11e13e1 100644
--- a/src/pyg2p/main/controller.py
+++ b/src/pyg2p/main/controller.py
@@ -76,6 +76,9 @@ class Controller(Loggable):
                         end_step=end_step, unit_time=self.ctx.get('outMaps.unitTime'), mv_grib=mv_grib,
                         force_zero_array=self.ctx.get('aggregation.forceZeroArray'))
         values2 = m2.do_manipulation(messages.second_resolution_values())
+        # the overlapping step is extracted from the first resolution
+        end_steps = {int(k.end_step) for k in values}
+        values2 = {k: v for k, v in values2.items() if int(k.end_step) not in end_steps}
         values.update(values2)
         # overwrite change_step resolution because of manipulation
         change_step = sorted(values2.keys(), key=lambda k: int(k.end_step))[0]
-- 
2.43.0


From f06b1a4fa1be85f5c3dc0c17b4692a4d903b3ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:31 +0000
Subject: [PATCH 72/96] fix: with a start step, the first resolution could be
 taken from messages of the second one

---
 src/pyg2p/main/readers/grib.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pyg2p/main/readers/grib.py b/src/pyg2p/main/readers/grib.py
index 8707f2c..aac99df 100644
--- a/src/pyg2p/main/readers/grib.py
+++ b/src/pyg2p/main/readers/grib.py
@@ -151,6 +151,8 @@ class GRIBReader(Loggable):
         self._log(f'Selected {len(self._selected_grbs)} grib messages')
 
         if len(self._selected_grbs) > 0:
+            # the first resolution is the one of the first time step
+            self._selected_grbs.sort(key=lambda g: codes_get(g, 'endStep'))
             self._gid_main_res = self._selected_grbs[0]
             grid = GribGridDetails(self._selected_grbs[0])
             # some cumulated messages come with the message at step=0 as instant, to permit aggregation
-- 
2.43.0


From b377addad917f11c91133a0b4d952b8ebff591b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:57 +0000
Subject: [PATCH 73/96] fix: a netCDF clone map could not be used through the
 API

---
 src/pyg2p/main/api.py              | 8 +++++---
 src/pyg2p/main/readers/__init__.py | 1 +
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/pyg2p/main/api.py b/src/pyg2p/main/api.py
index 2aeeda9..1010f78 100644
--- a/src/pyg2p/main/api.py
+++ b/src/pyg2p/main/api.py
@@ -3,6 +3,7 @@ from functools import partial
 from pathlib import Path
 from types import MethodType
 
+import numpy as np
 import numpy.ma as ma
 
 from . import Controller, Configuration
@@ -10,7 +11,7 @@ from .context import Context
 from .interpolation import Interpolator
 from .manipulation.aggregator import ACCUMULATION
 from .manipulation.correction import Corrector
-from .readers import GRIBReader, PCRasterReader
+from .readers import GRIBReader, NetCDFReader, PCRasterReader
 from ..main import pyg2p_exe
 from ..util import strings
 from ..util.strings import to_argv, to_argdict
@@ -266,9 +267,10 @@ class Pyg2pApi:
         self.messages = None
         self.values = None
         self.change_res_step = None
-        clone = PCRasterReader(self.context.get('outMaps.clone'))
+        clone_map = self.context.get('outMaps.clone')
+        clone = NetCDFReader(clone_map) if str(clone_map).endswith('.nc') else PCRasterReader(clone_map)
         self.mv = clone.mv
-        rs = ma.masked_values(clone.values, self.mv)
+        rs = ma.masked_invalid(clone.values) if np.isnan(self.mv) else ma.masked_values(clone.values, self.mv)
         self._mask = ma.getmask(rs)
 
     def _mask_values(self, values):
diff --git a/src/pyg2p/main/readers/__init__.py b/src/pyg2p/main/readers/__init__.py
index 3e60a0f..ae3c526 100644
--- a/src/pyg2p/main/readers/__init__.py
+++ b/src/pyg2p/main/readers/__init__.py
@@ -1,2 +1,3 @@
 from .grib import GRIBReader
+from .netcdf import NetCDFReader
 from .pcr import PCRasterReader
-- 
2.43.0


From 33d6ccd1b759897d98e267f75fde0037124b6bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:57 +0000
Subject: [PATCH 74/96] fix: missing values of maps of the API were not the one
 of the clone map with netCDF target maps

---
 src/pyg2p/main/api.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pyg2p/main/api.py b/src/pyg2p/main/api.py
index 1010f78..e294c5c 100644
--- a/src/pyg2p/main/api.py
+++ b/src/pyg2p/main/api.py
@@ -310,6 +310,9 @@ class Pyg2pApi:
             if self.context.must_do_correction:
                 corrector = Corrector.get_instance(self.context, grid_id)
                 out_v = corrector.correct(out_v)
+            out_v = ma.filled(out_v, self.interpolator.mv_output)
+            # target maps may have another missing value than the clone
+            out_v[(out_v == self.interpolator.mv_output) | np.isnan(out_v)] = self.mv
             out_v = self._mask_values(out_v)
             out[timestep] = out_v
         out = collections.OrderedDict(sorted(out.items(), key=lambda item: int(item[0].end_step)))
-- 
2.43.0


From 7c7d0aa91c3161dd3dff72854f591e65906a2775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:57 +0000
Subject: [PATCH 75/96] fix: selectors under Parameter were ignored or refused
 by the API

---
 src/pyg2p/main/api.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/pyg2p/main/api.py b/src/pyg2p/main/api.py
index e294c5c..e4f6885 100644
--- a/src/pyg2p/main/api.py
+++ b/src/pyg2p/main/api.py
@@ -100,8 +100,8 @@ class ApiContext(Context):
         self._vars['logger.level'] = self.api_conf.get('loggerLevel', 'INFO')
 
         self._vars['input.file'] = self.api_conf['inputFile']
-        self._vars['parameter.tstart'] = self.api_conf['start']
-        self._vars['parameter.tend'] = self.api_conf['end']
+        self._vars['parameter.tstart'] = self.api_conf.get('start')
+        self._vars['parameter.tend'] = self.api_conf.get('end')
         self._vars['parameter.dataTime'] = self.api_conf.get('dataTime')
         self._vars['parameter.dataDate'] = self.api_conf.get('dataDate')
         self._vars['interpolation.dir'] = self.api_conf.get('intertableDir')
@@ -205,15 +205,18 @@ class ApiContext(Context):
 
         # if start, end and dataTime are defined via command line input args, these are ignored.
         # if missing, GribReader will read all timesteps for the parameter
-        if self._vars['parameter.tstart'] is None and self.api_conf['Parameter'].get('tstart'):
+        if self._vars['parameter.tstart'] is None and self.api_conf['Parameter'].get('tstart') not in (None, ''):
             self._vars['parameter.tstart'] = int(self.api_conf['Parameter']['tstart'])
-        if self._vars['parameter.tend'] is None and self.api_conf['Parameter'].get('tend'):
+        if self._vars['parameter.tend'] is None and self.api_conf['Parameter'].get('tend') not in (None, ''):
             self._vars['parameter.tend'] = int(self.api_conf['Parameter']['tend'])
         if self._vars['parameter.dataTime'] is None and self.api_conf['Parameter'].get('dataTime') not in (None, ''):
             self._vars['parameter.dataTime'] = int(self.api_conf['Parameter']['dataTime'])  # number
         if self._vars['parameter.dataDate'] is None and self.api_conf['Parameter'].get('dataDate'):
             self._vars['parameter.dataDate'] = int(self.api_conf['Parameter']['dataDate'])  # date
 
+        if self._vars['parameter.perturbationNumber'] is None and self.api_conf['Parameter'].get('perturbationNumber') not in (None, ''):
+            self._vars['parameter.perturbationNumber'] = int(self.api_conf['Parameter']['perturbationNumber'])  # eps member
+
         self._vars['parameter.level'] = self.api_conf['Parameter'].get('level')  # number
 
         if self.api_conf.get('Aggregation'):
-- 
2.43.0


From dbd0c688c50c123206a8d4812bb17cff7266fc15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:57 +0000
Subject: [PATCH 76/96] fix: halfweights was ignored by the API

---
 src/pyg2p/main/api.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pyg2p/main/api.py b/src/pyg2p/main/api.py
index e4f6885..200cfbe 100644
--- a/src/pyg2p/main/api.py
+++ b/src/pyg2p/main/api.py
@@ -222,6 +222,7 @@ class ApiContext(Context):
         if self.api_conf.get('Aggregation'):
             self._vars['aggregation.step'] = self.api_conf['Aggregation'].get('step')
             self._vars['aggregation.type'] = self.api_conf['Aggregation'].get('type')
+            self._vars['aggregation.halfweights'] = bool(self.api_conf['Aggregation'].get('halfweights'))
 
             self._vars['execution.doAggregation'] = bool(self._vars.get('aggregation.step')) and bool(self._vars.get('aggregation.type'))
             self._vars['aggregation.forceZeroArray'] = self._vars.get('aggregation.type') == ACCUMULATION and str(self.api_conf['Aggregation'].get('forceZeroArray', 'False')).lower() not in strings.FALSE_STRINGS
-- 
2.43.0


From ad4d52e4842f49aa31e9cef8bf117da4fe85395f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:57 +0000
Subject: [PATCH 77/96] fix: tables of grib_nearest and grib_invdist could not
 be created through the API

---
 src/pyg2p/main/api.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pyg2p/main/api.py b/src/pyg2p/main/api.py
index 200cfbe..a28e29d 100644
--- a/src/pyg2p/main/api.py
+++ b/src/pyg2p/main/api.py
@@ -297,6 +297,8 @@ class Pyg2pApi:
         values, self.messages, self.change_res_step = ctrl.execute(write_results=False)
         # need interpolation and correction
         self.interpolator = Interpolator(self.context, grib_info.mv)
+        if self.context.is_with_grib_interpolation:
+            self.interpolator.aux_for_intertable_generation(*ctrl.grib_reader.get_gids_for_grib_intertable())
         is_second_res = False
         lats, longs = self.messages.latlons
         geodetic_info = self.messages.grid_details
-- 
2.43.0


From 526d2eb581c6304730a0265c6737f09bc09c8b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:02 +0000
Subject: [PATCH 78/96] fix: GRIB messages and files were never released by the
 API

---
 src/pyg2p/main/api.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/pyg2p/main/api.py b/src/pyg2p/main/api.py
index a28e29d..67462f5 100644
--- a/src/pyg2p/main/api.py
+++ b/src/pyg2p/main/api.py
@@ -291,9 +291,21 @@ class Pyg2pApi:
         :return: dict of numpy values, keys are instances of  pyg2p.Step
         """
         grib_reader = GRIBReader(self.context.get('input.file'), w_perturb=self.context.has_perturbation_number)
-        grib_info = grib_reader.get_grib_info(self.context.create_select_cmd_for_aggregation_attrs())
+        try:
+            grib_info = grib_reader.get_grib_info(self.context.create_select_cmd_for_aggregation_attrs())
+        finally:
+            grib_reader.close()
         ctrl = Controller(self.context)
         ctrl.log_execution_context()
+        try:
+            out = self._execute(ctrl, grib_info)
+        finally:
+            ctrl.close()
+        out = collections.OrderedDict(sorted(out.items(), key=lambda item: int(item[0].end_step)))
+        self.values = out
+        return out
+
+    def _execute(self, ctrl, grib_info):
         values, self.messages, self.change_res_step = ctrl.execute(write_results=False)
         # need interpolation and correction
         self.interpolator = Interpolator(self.context, grib_info.mv)
@@ -321,6 +333,4 @@ class Pyg2pApi:
             out_v[(out_v == self.interpolator.mv_output) | np.isnan(out_v)] = self.mv
             out_v = self._mask_values(out_v)
             out[timestep] = out_v
-        out = collections.OrderedDict(sorted(out.items(), key=lambda item: int(item[0].end_step)))
-        self.values = out
         return out
-- 
2.43.0


From 63778dbaea2b93de82eac5be995e2522edd914dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:43 +0000
Subject: [PATCH 79/96] fix: missing values were written as data in PCRaster
 maps with netCDF target maps

---
 src/pyg2p/main/writers/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pyg2p/main/writers/__init__.py b/src/pyg2p/main/writers/__init__.py
index fa92385..51e3ffe 100644
--- a/src/pyg2p/main/writers/__init__.py
+++ b/src/pyg2p/main/writers/__init__.py
@@ -108,6 +108,9 @@ class OutputWriter(Loggable):
             if self.ctx.must_do_correction:
                 corrector = Corrector.get_instance(self.ctx, grid_id)
                 out_v = corrector.correct(out_v)
+            # target maps may have another missing value than the clone
+            out_v = ma.filled(out_v, self.interpolator.mv_output)
+            out_v[out_v == self.interpolator.mv_output] = np.nan
             self.writer.write(self._name_pcr_map(i), out_v)
 
     def write_maps(self, values, messages, change_res_step=None):
-- 
2.43.0


From 616548a45abf5d3b802d613ae10cd1fcece558cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:31 +0000
Subject: [PATCH 80/96] fix: flags, negative values and '=' of command strings
 were mixed up by the API

---
 src/pyg2p/main/api.py     |  2 +-
 src/pyg2p/util/strings.py | 20 ++++++++++++++++++--
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/pyg2p/main/api.py b/src/pyg2p/main/api.py
index 67462f5..2fccaf8 100644
--- a/src/pyg2p/main/api.py
+++ b/src/pyg2p/main/api.py
@@ -61,7 +61,7 @@ class Command:
                 opts[var] = opts[var].as_posix() if isinstance(opts[var], Path) else str(opts[var])  # as string
                 cmd_string = cmd_string.replace('{%s}' % var, opts[var])
         # adding flag underApi
-        self._d = {} if not cmd_string else to_argdict(f'{cmd_string} -A')
+        self._d = to_argdict(f'{cmd_string} -A')
         # adding log level
         if '-l' not in self._d.keys():
             self._a('-l', 'ERROR')
diff --git a/src/pyg2p/util/strings.py b/src/pyg2p/util/strings.py
index 0c2231e..fba726e 100644
--- a/src/pyg2p/util/strings.py
+++ b/src/pyg2p/util/strings.py
@@ -28,9 +28,25 @@ def to_argv(string_):
     return list(filter(_is_empty_string, list(c)[0]))
 
 
+def _is_option(token):
+    # negative numbers are values, as for argparse
+    return token.startswith('-') and not re.match(r'^-\d+$|^-\d*\.\d+$', token)
+
+
 def to_argdict(string_):
-    c = re.split(' |=', string_.strip(), maxsplit=0)
-    return dict(zip(c[0::2], c[1::2]))
+    tokens = to_argv(string_) if string_.strip() else []
+    res = {}
+    while tokens:
+        key = tokens.pop(0)
+        if _is_option(key) and '=' in key:
+            key, res_value = key.split('=', 1)
+            res[key] = res_value
+        elif tokens and not _is_option(tokens[0]):
+            res[key] = tokens.pop(0)
+        elif _is_option(key):
+            # flag
+            res[key] = ''
+    return res
 
 
 FALSE_STRINGS = ['FALSE', 'F', 'f', 'False', 'false', 'NO', 'no', 'No', '0', 'off', 'OFF', 'Off', 'nO']
-- 
2.43.0


From 5a38a1f9ced7939e1ddd5570ce1f4ffdb642551a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:31 +0000
Subject: [PATCH 81/96] fix: API commands could not be created without
 arguments or starting with pyg2p.py

---
 src/pyg2p/main/api.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pyg2p/main/api.py b/src/pyg2p/main/api.py
index 2fccaf8..c564937 100644
--- a/src/pyg2p/main/api.py
+++ b/src/pyg2p/main/api.py
@@ -1,4 +1,5 @@
 import collections
+import re
 from functools import partial
 from pathlib import Path
 from types import MethodType
@@ -53,7 +54,8 @@ class Command:
         return self
 
     def __init__(self, cmd_string=None, **params):
-        cmd_string = cmd_string.lstrip('pyg2p').strip()
+        # the name of the program is optional
+        cmd_string = re.sub(r'^pyg2p(\.py)?(\s+|$)', '', (cmd_string or '').strip())
         if params:
             opts = params.copy()
             # string interpolation
-- 
2.43.0


From 232f97ca52c20db8f47cebb8e596662ff5ded10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:31 +0000
Subject: [PATCH 82/96] fix: API commands were split at spaces of their
 arguments

---
 src/pyg2p/main/api.py     | 4 ++--
 src/pyg2p/util/strings.py | 6 ++++++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/pyg2p/main/api.py b/src/pyg2p/main/api.py
index c564937..b3c58eb 100644
--- a/src/pyg2p/main/api.py
+++ b/src/pyg2p/main/api.py
@@ -15,7 +15,7 @@ from .manipulation.correction import Corrector
 from .readers import GRIBReader, NetCDFReader, PCRasterReader
 from ..main import pyg2p_exe
 from ..util import strings
-from ..util.strings import to_argv, to_argdict
+from ..util.strings import quote, to_argv, to_argdict
 
 
 def command(*args, **kwargs):
@@ -74,7 +74,7 @@ class Command:
     def __str__(self):
         cmd = 'pyg2p '
         self._d = collections.OrderedDict(sorted(self._d.items(), key=lambda k: k[0]))
-        args = ''.join(['%s %s ' % (key, value) for (key, value) in self._d.items()]).strip()
+        args = ''.join(['%s %s ' % (key, quote(value)) for (key, value) in self._d.items()]).strip()
         return cmd + args
 
     def run(self):
diff --git a/src/pyg2p/util/strings.py b/src/pyg2p/util/strings.py
index fba726e..5f6e3f6 100644
--- a/src/pyg2p/util/strings.py
+++ b/src/pyg2p/util/strings.py
@@ -28,6 +28,12 @@ def to_argv(string_):
     return list(filter(_is_empty_string, list(c)[0]))
 
 
+def quote(value):
+    """A single argument for to_argv, even if there are spaces in it"""
+    value = str(value)
+    return '"{}"'.format(value.replace('"', '""')) if ' ' in value or value.startswith('"') else value
+
+
 def _is_option(token):
     # negative numbers are values, as for argparse
     return token.startswith('-') and not re.match(r'^-\d+$|^-\d*\.\d+$', token)
-- 
2.43.0


From a18920473047238a5f5dc285573f3f2da79c4ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:06 +0000
Subject: [PATCH 83/96] fix: geopotentials added at the same time under one
 file name replaced each other

---
 src/pyg2p/main/config.py | 35 ++++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/src/pyg2p/main/config.py b/src/pyg2p/main/config.py
index d128b52..9b9ca22 100644
--- a/src/pyg2p/main/config.py
+++ b/src/pyg2p/main/config.py
@@ -268,22 +268,27 @@ class GeopotentialsConfiguration(BaseConfiguration):
     def add(self, filepath):
         args = {'shortName': self.short_names}
         id_ = GRIBReader.get_id(filepath, reader_args=args)
-        if id_ in self.vars:
-            raise ApplicationException.get_exc(EXISTING_GEOPOTENTIAL,
-                                               details=f'{id_} for file {self.vars[id_]}. '
-                                                       f'File was not added: {filepath}')
-
         name = file_util.filename(filepath)
-        if name in self.vars.values():
-            # copying it would replace the geopotential of another grid
-            raise ApplicationException.get_exc(EXISTING_GEOPOTENTIAL,
-                                               details=f'{name} is the file of another grid. '
-                                                       f'File was not added: {filepath}')
-        self.check_write()
-
-        if os.path.realpath(filepath) != os.path.realpath(os.path.join(self.data_path, name)):
-            file_util.copy(filepath, self.data_path)
-        self.set_user_var(id_, name)
+        with self._locked():
+            # other runs may have added their own geopotentials in the meantime
+            self.user_vars = self._load()
+            self.vars.update(self.user_vars)
+            if id_ in self.vars:
+                raise ApplicationException.get_exc(EXISTING_GEOPOTENTIAL,
+                                                   details=f'{id_} for file {self.vars[id_]}. '
+                                                           f'File was not added: {filepath}')
+
+            if name in self.vars.values():
+                # copying it would replace the geopotential of another grid
+                raise ApplicationException.get_exc(EXISTING_GEOPOTENTIAL,
+                                                   details=f'{name} is the file of another grid. '
+                                                           f'File was not added: {filepath}')
+            self.check_write()
+
+            if os.path.realpath(filepath) != os.path.realpath(os.path.join(self.data_path, name)):
+                file_util.copy(filepath, self.data_path)
+            self.user_vars[id_] = name
+            self.dump()
         self.vars[id_] = name
 
     def remove(self, filename):
-- 
2.43.0


From ff31f74371584ac2001c19c2c8f567e725d89d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:06 +0000
Subject: [PATCH 84/96] fix: checking the configuration removed tables that
 other runs added at the same time

---
 src/pyg2p/main/config.py | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/pyg2p/main/config.py b/src/pyg2p/main/config.py
index 9b9ca22..ba1757f 100644
--- a/src/pyg2p/main/config.py
+++ b/src/pyg2p/main/config.py
@@ -410,15 +410,18 @@ class Configuration(pyg2p.Loggable):
             if file_util.filename(f) not in used_geopotentials:
                 self._log(f'Geopotential file is not in configuration: {f} - You could delete it')
 
-        user_intertables = deepcopy(self.intertables.user_vars)
-        for k, i in user_intertables.items():
-            if not isinstance(i, dict):
-                # description
-                continue
-            if not self.intertables.data_path:
-                continue
-            fullpath = os.path.join(self.intertables.data_path, i['filename'])
-            if not file_util.exists(fullpath):
-                self._log(f'{fullpath} - Non existing. Removing item from intertables.json')
-                del self.intertables.user_vars[k]
-        self.intertables.dump()
+        with self.intertables._locked():
+            # runs may have added their own tables in the meantime
+            self.intertables.user_vars = self.intertables._load()
+            user_intertables = deepcopy(self.intertables.user_vars)
+            for k, i in user_intertables.items():
+                if not isinstance(i, dict):
+                    # description
+                    continue
+                if not self.intertables.data_path:
+                    continue
+                fullpath = os.path.join(self.intertables.data_path, i['filename'])
+                if not file_util.exists(fullpath):
+                    self._log(f'{fullpath} - Non existing. Removing item from intertables.json')
+                    del self.intertables.user_vars[k]
+            self.intertables.dump()
-- 
2.43.0


From 578d471919eae370fb10d73c6424c804f6292735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:32 +0000
Subject: [PATCH 85/96] fix: grib modes used the table of another run that took
 its file name at the same time

---
 src/pyg2p/main/interpolation/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pyg2p/main/interpolation/__init__.py b/src/pyg2p/main/interpolation/__init__.py
index a4a8ad5..4c95c6d 100644
--- a/src/pyg2p/main/interpolation/__init__.py
+++ b/src/pyg2p/main/interpolation/__init__.py
@@ -290,6 +290,8 @@ class Interpolator(Loggable):
             else:
                 self.grib_nearest(self._aux_val, self._aux_gid, grid_id,
                                   intertable_name=intertable_name, intertable_id=intertable_id)
+            # another run may have taken the name for its table
+            intertable_id, intertable_name = self._intertable_filename(grid_id)
 
         if pyg2p.util.files.exists(intertable_name):
             # interpolation using intertables
@@ -333,6 +335,8 @@ class Interpolator(Loggable):
                 aux_val = self._aux_2nd_res_val
             self.grib_inverse_distance(aux_val, aux_gid, grid_id, intertable_name=intertable_name,
                                        intertable_id=intertable_id, is_second_res=is_second_res)
+            # another run may have taken the name for its table
+            intertable_id, intertable_name = self._intertable_filename(grid_id)
 
         if pyg2p.util.files.exists(intertable_name):
             # interpolation using intertables
-- 
2.43.0


From 7c03ad28c2bfd44e3e5ab7e1aa06ae020e46b5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:14 +0000
Subject: [PATCH 86/96] fix: runs failed when another one created the same
 folder at the same time

---
 src/pyg2p/util/files.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyg2p/util/files.py b/src/pyg2p/util/files.py
index 492f73a..c4ae454 100644
--- a/src/pyg2p/util/files.py
+++ b/src/pyg2p/util/files.py
@@ -59,7 +59,8 @@ def can_read(pathnames):
 
 def create_dir(pathname, recreate=False):
     if not os.path.exists(pathname):
-        os.makedirs(pathname)
+        # another run may create it at the same time
+        os.makedirs(pathname, exist_ok=True)
     elif recreate:
         delete_files_from_dir(pathname)
         os.rmdir(pathname)
-- 
2.43.0


From 2388488090ebf0f65100c8bf61b78ec6610475ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:24 +0000
Subject: [PATCH 87/96] fix: -X and the API could not make tables of grib
 modes: processes of the pool did not have the GRIB message

---
 .../interpolation/grib_interpolation_lib.py     | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/pyg2p/main/interpolation/grib_interpolation_lib.py b/src/pyg2p/main/interpolation/grib_interpolation_lib.py
index 7324468..d80ce88 100644
--- a/src/pyg2p/main/interpolation/grib_interpolation_lib.py
+++ b/src/pyg2p/main/interpolation/grib_interpolation_lib.py
@@ -8,6 +8,7 @@ import warnings
 from functools import partial
 from sys import stdout
 
+import dask
 import eccodes
 import numexpr as ne
 import numpy as np
@@ -167,9 +168,7 @@ def grib_nearest_parallel(gid, target_lats, target_lons, mv):
     nchunks = target_lats.shape[0]
     apply_to_chunk_part = partial(apply_nearest_to_chunk, gid=gid, mv=mv)
     result = init_parallel(apply_to_chunk_part, mv, nchunks, target_lats, target_lons)
-    progress = ProgressBar(dt=10)
-    with progress:
-        result = result.compute()
+    result = compute_parallel(result)
     idxs, xs, ys = concatenate_nearest_result(nchunks, result)
     return xs, ys, idxs
 
@@ -212,10 +211,7 @@ def grib_invdist_parallel(gid, target_lats, target_lons, mv):
     apply_to_chunk_part = partial(apply_invdist_to_chunk, gid=gid, mv=mv)
     nchunks = target_lats.shape[0]
     result = init_parallel(apply_to_chunk_part, mv, nchunks, target_lats, target_lons)
-
-    progress = ProgressBar(dt=10)
-    with progress:
-        result = result.compute()
+    result = compute_parallel(result)
     idxs1, idxs2, idxs3, idxs4, xs, ys, invs1, invs2, invs3, invs4 = concatenate_invdist_result(nchunks, result)
 
     sums = ne.evaluate('invs1 + invs2 + invs3 + invs4')
@@ -268,3 +264,10 @@ def init_parallel(apply_to_chunk_part, mv, nchunks, target_lats, target_lons):
     nearest_bag = bag.from_sequence(chunks, npartitions=npartitions)
     result = nearest_bag.map(apply_to_chunk_part)
     return result
+
+
+def compute_parallel(result):
+    # the GRIB message is in the memory of this process: workers must be forked to see it
+    progress = ProgressBar(dt=10)
+    with dask.config.set({'multiprocessing.context': 'fork'}), progress:
+        return result.compute(scheduler='processes')
-- 
2.43.0


From 3d55ba78356fdde3e82272b39eef70ef49daee5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:08 +0000
Subject: [PATCH 88/96] fix: adding geopotentials did not release their GRIB
 messages

---
 src/pyg2p/main/readers/grib.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/pyg2p/main/readers/grib.py b/src/pyg2p/main/readers/grib.py
index aac99df..d775fe2 100644
--- a/src/pyg2p/main/readers/grib.py
+++ b/src/pyg2p/main/readers/grib.py
@@ -49,10 +49,13 @@ class GRIBReader(Loggable):
     @classmethod
     def get_id(cls, grib_file, reader_args):
         reader = GRIBReader(grib_file)
-        gribs_for_id = reader._get_gids(**reader_args)
-        grid = GribGridDetails(gribs_for_id[0])
-        reader.close()
-        return grid.grid_id
+        try:
+            # messages are released when reader is closed
+            reader._selected_grbs = reader._get_gids(**reader_args)
+            grid = GribGridDetails(reader._selected_grbs[0])
+            return grid.grid_id
+        finally:
+            reader.close()
 
     @staticmethod
     def _find(gid, **kwargs):
-- 
2.43.0


From 3cf60bc083cc5d1fcae721bef056acd0d0146f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:59 +0000
Subject: [PATCH 89/96] fix: messages read before an error were never released

---
 src/pyg2p/main/readers/grib.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/pyg2p/main/readers/grib.py b/src/pyg2p/main/readers/grib.py
index d775fe2..8009371 100644
--- a/src/pyg2p/main/readers/grib.py
+++ b/src/pyg2p/main/readers/grib.py
@@ -109,6 +109,16 @@ class GRIBReader(Loggable):
 
     def scan_grib(self, **kwargs):
         gribs = []
+        try:
+            self._scan_grib(gribs, **kwargs)
+        except Exception:
+            # messages read so far are not returned
+            for g in gribs:
+                codes_release(g)
+            raise
+        return gribs
+
+    def _scan_grib(self, gribs, **kwargs):
         v_selected = kwargs['shortName']
         v_pert = kwargs.get('perturbationNumber', -1)
         if not utils.is_container(v_selected):
@@ -137,7 +147,6 @@ class GRIBReader(Loggable):
                 else:
                     # release unused grib
                     codes_release(gid)
-        return gribs
 
     def _get_gids(self, **kwargs):
         try:
@@ -249,13 +258,15 @@ class GRIBReader(Loggable):
         _gribs_for_utils = self._get_gids(**select_args)
         if len(_gribs_for_utils) > 0:
             # instant, avg, cumul. get last stepType available because first one is sometimes misleading
-            type_of_step = codes_get(_gribs_for_utils[-1], 'stepType')
-            self._mv = codes_get_double(_gribs_for_utils[0], 'missingValue')
-            start_grib, end_grib, self._step_grib, self._step_grib2, self._change_step_at = self._find_start_end_steps(_gribs_for_utils)
+            try:
+                type_of_step = codes_get(_gribs_for_utils[-1], 'stepType')
+                self._mv = codes_get_double(_gribs_for_utils[0], 'missingValue')
+                start_grib, end_grib, self._step_grib, self._step_grib2, self._change_step_at = self._find_start_end_steps(_gribs_for_utils)
+            finally:
+                for g in _gribs_for_utils:
+                    codes_release(g)
             self._log("Grib input step %d [type of step: %s]" % (self._step_grib, type_of_step))
             self._log('Gribs from %d to %d' % (start_grib, end_grib))
-            for g in _gribs_for_utils:
-                codes_release(g)
             _gribs_for_utils = None
             del _gribs_for_utils
             info = GRIBInfo(input_step=self._step_grib, input_step2=self._step_grib2,
-- 
2.43.0


From 884d0aa39bba055e0e21e4d70c15942a88545aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:07 +0000
Subject: [PATCH 90/96] fix: interpolation tables were used for other targets
 with the same bounds and for other cdd maps and options

---
 src/pyg2p/main/interpolation/__init__.py | 28 +++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/src/pyg2p/main/interpolation/__init__.py b/src/pyg2p/main/interpolation/__init__.py
index 4c95c6d..f3e9dd2 100644
--- a/src/pyg2p/main/interpolation/__init__.py
+++ b/src/pyg2p/main/interpolation/__init__.py
@@ -1,4 +1,5 @@
 import gzip
+import hashlib
 import os
 import logging
 from functools import partial
@@ -53,6 +54,7 @@ class Interpolator(Loggable):
         self._aux_2nd_res_gid = None
         self._aux_2nd_res_val = None
 
+        self._digest = None
         self.create_if_missing = exec_ctx.get('interpolation.create')
         self.grib_methods = {'grib_nearest': self.grib_nearest, 'grib_invdist': self.grib_inverse_distance}
         self.intertables_config = exec_ctx.configuration.intertables  # IntertablesConfiguration object
@@ -66,7 +68,7 @@ class Interpolator(Loggable):
         return out_v
 
     def _intertable_filename(self, grid_id):
-        intertable_id = '{}{}_{}{}'.format(self._prefix, grid_id.replace('$', '_'), self._target_coords.identifier, self._suffix)
+        intertable_id = self._intertable_id(grid_id)
         if intertable_id not in self.intertables_config.vars:
             # return a new intertable filename to create
             if not self.create_if_missing:
@@ -96,6 +98,30 @@ class Interpolator(Loggable):
             tbl_fullpath += '.gz'
         return intertable_id, tbl_fullpath
 
+    def _intertable_id(self, grid_id):
+        old_id = '{}{}_{}{}'.format(self._prefix, grid_id.replace('$', '_'), self._target_coords.identifier, self._suffix)
+        intertable_id = f'{old_id}_{self._target_digest()}'
+        if intertable_id not in self.intertables_config.vars and old_id in self.intertables_config.vars and self._mode != 'cdd':
+            # table of a previous version
+            target_shape = self.intertables_config.vars[old_id].get('target_shape')
+            if not target_shape or tuple(target_shape) == self._target_coords.lons.shape:
+                return old_id
+        return intertable_id
+
+    def _target_digest(self):
+        # different targets can have the same bounds, and cdd tables depend on map and options
+        if self._digest:
+            return self._digest
+        digest = hashlib.md5(f'{self._target_coords.lons.shape}{self._rotated_target_grid}'.encode())
+        for coords in (self._target_coords.lats, self._target_coords.lons):
+            digest.update(np.ascontiguousarray(coords).tobytes())
+        if self._mode == 'cdd':
+            digest.update(f'{self._cdd_mode}{sorted((self._cdd_options or {}).items())}'.encode())
+            with open(self._cdd_map, 'rb') as f:
+                digest.update(f.read())
+        self._digest = digest.hexdigest()
+        return self._digest
+
     def _free_filename(self):
         filename = self.format_intertablename(prognum='')
         tbl_fullpath = os.path.normpath(os.path.join(self._intertable_dirs['user'], filename))
-- 
2.43.0


From 076f5cf7f8d60b4349359579c9cf69d946fba8f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:12 +0000
Subject: [PATCH 91/96] fix: cells of rotated targets were put on a sphere of
 one metre and mirrored

---
 src/pyg2p/main/interpolation/scipy_interpolation_lib.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
index a8fe669..7f38138 100644
--- a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
+++ b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
@@ -679,12 +679,13 @@ class ScipyInterpolation(object):
         y_formula = 'sin(lons) * cos(lats)'
         z_formula = 'sin(lats)'
 
+        r = self.geodetic_info.get('radius')
         if to_regular:
             teta = - radians((90 + self.geodetic_info.get('latitudeOfSouthernPoleInDegrees')))
             fi = - radians(self.geodetic_info.get('longitudeOfSouthernPoleInDegrees'))
-            x = ne.evaluate('(cos(teta) * cos(fi) * ({x})) + (sin(fi)  * ({y})) + (sin(teta) * cos(fi) * ({z}))'.format(x=x_formula, y=y_formula, z=z_formula))
-            y = ne.evaluate('(cos(teta) * sin(fi) * ({x})) + (cos(fi)  * ({y})) - (sin(teta) * sin(fi) * ({z}))'.format(x=x_formula, y=y_formula, z=z_formula))
-            z = ne.evaluate('(-sin(teta) * ({x})) + (cos(teta) * ({z}))'.format(x=x_formula, z=z_formula))
+            x = ne.evaluate('r * ((cos(teta) * cos(fi) * ({x})) + (sin(fi)  * ({y})) + (sin(teta) * cos(fi) * ({z})))'.format(x=x_formula, y=y_formula, z=z_formula))
+            y = ne.evaluate('r * (-(cos(teta) * sin(fi) * ({x})) + (cos(fi)  * ({y})) - (sin(teta) * sin(fi) * ({z})))'.format(x=x_formula, y=y_formula, z=z_formula))
+            z = ne.evaluate('r * ((-sin(teta) * ({x})) + (cos(teta) * ({z})))'.format(x=x_formula, z=z_formula))
         elif rotate:
             teta = radians((90 + self.geodetic_info.get('latitudeOfSouthernPoleInDegrees')))
             fi = radians(self.geodetic_info.get('longitudeOfSouthernPoleInDegrees'))
@@ -692,7 +693,6 @@ class ScipyInterpolation(object):
             y = ne.evaluate('(-sin(fi) * ({x})) + (cos(fi) * ({y}))'.format(x=x_formula, y=y_formula))
             z = ne.evaluate('(-sin(teta) * cos(fi) * ({x})) - (sin(teta) * sin(fi) * ({y})) + (cos(teta) * ({z}))'.format(x=x_formula, y=y_formula, z=z_formula))
         else:
-            r = self.geodetic_info.get('radius')
             x = ne.evaluate('r * {x}'.format(x=x_formula))
             y = ne.evaluate('r * {y}'.format(y=y_formula))
             z = ne.evaluate('r * {z}'.format(z=z_formula))
-- 
2.43.0


From 3c5d06fce0ea4e241bcd996717f6875a14a6be2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:36 +0000
Subject: [PATCH 92/96] fix: maps of the second grid were corrected with the
 geopotential of the first one, if it was in the input

---
 src/pyg2p/main/context.py                 | 11 +++++----
 src/pyg2p/main/controller.py              |  6 +++--
 src/pyg2p/main/manipulation/correction.py | 11 +++++++--
 src/pyg2p/main/readers/grib.py            | 29 +++++++----------------
 4 files changed, 28 insertions(+), 29 deletions(-)

diff --git a/src/pyg2p/main/context.py b/src/pyg2p/main/context.py
index f9702d7..0f107c0 100644
--- a/src/pyg2p/main/context.py
+++ b/src/pyg2p/main/context.py
@@ -27,7 +27,7 @@ class Context:
         # init vars
         self.to_add_geopotential = False
         self.is_config_command = False
-        self.input_file_with_geopotential = None
+        self.input_files_with_geopotential = {}
         self._vars = {}
 
     def _define_exec_params(self):
@@ -40,8 +40,10 @@ class Context:
     def get(self, param, default=None):
         return self._vars.get(param, default)
 
-    def set_input_file_with_geopotential(self):
-        self.input_file_with_geopotential = self.get('input.file')
+    def set_input_file_with_geopotential(self, input_file, resolutions):
+        # each grid is corrected with its own geopotential
+        for points_meridian in resolutions:
+            self.input_files_with_geopotential.setdefault(str(points_meridian), self.get(input_file))
 
     @property
     def is_with_grib_interpolation(self):
@@ -144,7 +146,8 @@ class Context:
                 raise ApplicationException.get_exc(4200, self._vars['correction.demMap'])
 
     def geo_file(self, grid_id):
-        path = self.input_file_with_geopotential
+        points_meridian = grid_id.split('$')[3]
+        path = self.input_files_with_geopotential.get(points_meridian)
         if not path:
             path = self.configuration.geopotentials.get_filepath(grid_id, additional=self._vars['geopotential.dirs'].get('user'))
         return path
diff --git a/src/pyg2p/main/controller.py b/src/pyg2p/main/controller.py
index 11e13e1..37af5eb 100644
--- a/src/pyg2p/main/controller.py
+++ b/src/pyg2p/main/controller.py
@@ -47,8 +47,8 @@ class Controller(Loggable):
                 finally:
                     reader2.close()
 
-        if self.ctx.must_do_correction and self.grib_reader.has_geopotential():
-            self.ctx.set_input_file_with_geopotential()
+        if self.ctx.must_do_correction:
+            self.ctx.set_input_file_with_geopotential('input.file', self.grib_reader.geopotential_resolutions())
 
         if self.ctx.must_do_aggregation:
             aggregator = Aggregator(aggr_step=self.ctx.get('aggregation.step'),
@@ -90,6 +90,8 @@ class Controller(Loggable):
         # messages.change_resolution() returns True after Messages.append_2nd_res_messages()
         mess_2nd_res = self.grib_reader2.select_messages(**cmd_args)
         messages.append_2nd_res_messages(mess_2nd_res)
+        if self.ctx.must_do_correction:
+            self.ctx.set_input_file_with_geopotential('input.file2', self.grib_reader2.geopotential_resolutions())
 
     def execute(self, write_results=True):
         converter = None
diff --git a/src/pyg2p/main/manipulation/correction.py b/src/pyg2p/main/manipulation/correction.py
index 5b252fb..012c879 100644
--- a/src/pyg2p/main/manipulation/correction.py
+++ b/src/pyg2p/main/manipulation/correction.py
@@ -85,7 +85,14 @@ class Corrector(Loggable):
         geopotential_gribs = reader.select_messages(**kwargs)
         missing = geopotential_gribs.missing_value
         values = geopotential_gribs.first_resolution_values()[geopotential_gribs.first_step_range]
+        grid_details = geopotential_gribs.grid_details
         aux_g, aux_v, aux_g2, aux_v2 = reader.get_gids_for_grib_intertable()
+        grid2 = grid_details.get_2nd_resolution()
+        if grid2 and str(grid2.num_points_along_meridian) == self.grid_id.split('$')[3]:
+            # the file has geopotentials of two grids: this is the second one
+            values = geopotential_gribs.second_resolution_values()[geopotential_gribs.change_resolution_step()]
+            grid_details = grid2
+            aux_g, aux_v = aux_g2, aux_v2
         interpolator = Interpolator(ctx, missing)
         interpolator.aux_for_intertable_generation(aux_g, aux_v, aux_g2, aux_v2)
 
@@ -100,8 +107,8 @@ class Corrector(Loggable):
             values_resampled = interpolator.interpolate_grib(values, -1, self.grid_id)
         else:
             # FOR GEOPOTENTIALS, SOME GRIBS COME WITHOUT LAT/LON GRIDS!
-            lats, lons = geopotential_gribs.latlons
-            values_resampled = interpolator.interpolate_scipy(lats, lons, values, self.grid_id, geopotential_gribs.grid_details)
+            lats, lons = grid_details.latlons
+            values_resampled = interpolator.interpolate_scipy(lats, lons, values, self.grid_id, grid_details)
         reader.close()
         return interpolator.mv_output, values_resampled
 
diff --git a/src/pyg2p/main/readers/grib.py b/src/pyg2p/main/readers/grib.py
index 8009371..2c9d74b 100644
--- a/src/pyg2p/main/readers/grib.py
+++ b/src/pyg2p/main/readers/grib.py
@@ -84,28 +84,15 @@ class GRIBReader(Loggable):
             self._file_handler.close()
             self._file_handler = None
 
-    def has_geopotential(self):
-        has_geo = False
+    def geopotential_resolutions(self):
+        # points along the meridian of the geopotentials in the file
         from pyg2p.main.config import GeopotentialsConfiguration
-        v_selected = GeopotentialsConfiguration.short_names
-        if self._grbindx:
-            for v in v_selected:
-                codes_index_select(self._grbindx, 'shortName', str(v))
-                while 1:
-                    gid = codes_new_from_index(self._grbindx)
-                    if gid is None:
-                        break
-                    has_geo = True
-                    codes_release(gid)
-
-        elif self._file_handler:
-            while 1:
-                gid = codes_new_from_file(self._file_handler, product_kind=CODES_PRODUCT_GRIB)
-                if gid is None:
-                    break
-                has_geo = True
-                codes_release(gid)
-        return has_geo
+        gribs = self.scan_grib(shortName=GeopotentialsConfiguration.short_names)
+        try:
+            return [codes_get(g, 'Nj') for g in gribs]
+        finally:
+            for g in gribs:
+                codes_release(g)
 
     def scan_grib(self, **kwargs):
         gribs = []
-- 
2.43.0


From 345e8a9a615460fcbb62ff7461fb917975b57bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:36 +0000
Subject: [PATCH 93/96] fix: the type of the steps depended on the order of the
 messages in the file

---
 src/pyg2p/main/readers/grib.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyg2p/main/readers/grib.py b/src/pyg2p/main/readers/grib.py
index 2c9d74b..ac65c21 100644
--- a/src/pyg2p/main/readers/grib.py
+++ b/src/pyg2p/main/readers/grib.py
@@ -246,7 +246,8 @@ class GRIBReader(Loggable):
         if len(_gribs_for_utils) > 0:
             # instant, avg, cumul. get last stepType available because first one is sometimes misleading
             try:
-                type_of_step = codes_get(_gribs_for_utils[-1], 'stepType')
+                last_grib = max(_gribs_for_utils, key=lambda g: codes_get(g, 'endStep'))
+                type_of_step = codes_get(last_grib, 'stepType')
                 self._mv = codes_get_double(_gribs_for_utils[0], 'missingValue')
                 start_grib, end_grib, self._step_grib, self._step_grib2, self._change_step_at = self._find_start_end_steps(_gribs_for_utils)
             finally:
-- 
2.43.0


From bff481c8c4be7baa595d0b4252c1ec1b9a48e672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:38 +0000
Subject: [PATCH 94/96] fix: runs without aggregation failed when the
 resolution changes

---
 src/pyg2p/main/controller.py | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/pyg2p/main/controller.py b/src/pyg2p/main/controller.py
index 37af5eb..052c0d6 100644
--- a/src/pyg2p/main/controller.py
+++ b/src/pyg2p/main/controller.py
@@ -84,6 +84,18 @@ class Controller(Loggable):
         change_step = sorted(values2.keys(), key=lambda k: int(k.end_step))[0]
         return change_step, values
 
+    @staticmethod
+    def join_resolutions(change_step, messages):
+        # without aggregation, messages of the first resolution are used up to the change of resolution (overlapping step)
+        change = int(change_step.end_step)
+        values = {k: v for k, v in messages.first_resolution_values().items() if int(k.end_step) <= change}
+        end_steps = {int(k.end_step) for k in values}
+        values2 = {k: v for k, v in messages.second_resolution_values().items() if int(k.end_step) not in end_steps}
+        values.update(values2)
+        if values2:
+            change_step = min(values2, key=lambda k: int(k.end_step))
+        return change_step, values
+
     def read_2nd_res_messages(self, cmd_args, messages):
         # append messages
         self.grib_reader2 = GRIBReader(self.ctx.get('input.file2'), w_perturb=self.ctx.has_perturbation_number)
@@ -135,11 +147,14 @@ class Controller(Loggable):
         change_res_step = None
         if messages.have_resolution_change():
             change_res_step = messages.change_resolution_step()
-            start_step2 = int(change_res_step.end_step) + int(self.ctx.get('aggregation.step'))
-            # we need GRIB lats and lons only for scipy interpolation
-            if self.ctx.must_do_aggregation and end_step >= start_step2:
-                # second resolution manipulation
-                change_res_step, values = self.second_res_manipulation(start_step2, end_step, input_step, messages, mv_grib, values)
+            if self.ctx.must_do_aggregation:
+                start_step2 = int(change_res_step.end_step) + int(self.ctx.get('aggregation.step'))
+                # we need GRIB lats and lons only for scipy interpolation
+                if end_step >= start_step2:
+                    # second resolution manipulation
+                    change_res_step, values = self.second_res_manipulation(start_step2, end_step, input_step, messages, mv_grib, values)
+            else:
+                change_res_step, values = self.join_resolutions(change_res_step, messages)
 
         # cutoff after interpolation
         if converter and converter.must_cut_off:
-- 
2.43.0


From 7d4107cc6e9d514c7acb9960381c5c7abee62835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:11 +0000
Subject: [PATCH 95/96] fix: netCDF target maps with a single row or column
 could not be used

---
 src/pyg2p/main/readers/netcdf.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/pyg2p/main/readers/netcdf.py b/src/pyg2p/main/readers/netcdf.py
index e27b95c..e01a4f8 100644
--- a/src/pyg2p/main/readers/netcdf.py
+++ b/src/pyg2p/main/readers/netcdf.py
@@ -26,8 +26,8 @@ class NetCDFReader(Loggable):
 
         self._origX = self._dataset.variables[self.label_lon][:].min()
         self._origY = self._dataset.variables[self.label_lat][:].min()
-        self._pxlW = self._dataset.variables[self.label_lon][1]-self._dataset.variables[self.label_lon][0]
-        self._pxlH = self._dataset.variables[self.label_lat][1]-self._dataset.variables[self.label_lat][0]       
+        self._pxlW = self._pixel_size(self.label_lon)
+        self._pxlH = self._pixel_size(self.label_lat)
         self.lat_min = self._dataset.variables[self.label_lat][:].min()
         self.lon_min = self._dataset.variables[self.label_lon][:].min()
         self.lat_max = self._dataset.variables[self.label_lat][:].max()
@@ -41,6 +41,11 @@ class NetCDFReader(Loggable):
                 dtype = self._dataset.variables[self.var_name].dtype
                 self.mv = default_fillvals[dtype.str[1:]] if np.issubdtype(dtype, np.integer) else np.nan
 
+    def _pixel_size(self, label):
+        # not defined with a single row or column
+        coords = self._dataset.variables[label][:]
+        return coords[1] - coords[0] if len(coords) > 1 else 0
+
     def find_main_var(self, path):
         variable_names = [k for k in self._dataset.variables if len(self._dataset.variables[k].dimensions) >= 2]
         if len(variable_names) > 1:
-- 
2.43.0


From 3a3bc39886f32bbc38d57c766992f879eaac503f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:11 +0000
Subject: [PATCH 96/96] fix: tables that another process wrote under the name
 of a loaded one were not read

---
 src/pyg2p/main/interpolation/__init__.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/pyg2p/main/interpolation/__init__.py b/src/pyg2p/main/interpolation/__init__.py
index f3e9dd2..4b49cd9 100644
--- a/src/pyg2p/main/interpolation/__init__.py
+++ b/src/pyg2p/main/interpolation/__init__.py
@@ -135,9 +135,22 @@ class Interpolator(Loggable):
             i += 1
         return tbl_fullpath
 
+    @staticmethod
+    def _table_version(tbl_fullpath):
+        if not pyg2p.util.files.exists(tbl_fullpath):
+            # only the compressed file exists
+            tbl_fullpath += '.gz'
+        if not pyg2p.util.files.exists(tbl_fullpath):
+            return None
+        stat = os.stat(tbl_fullpath)
+        return stat.st_ino, stat.st_size, stat.st_mtime_ns
+
     def _read_intertable(self, tbl_fullpath):
 
-        if tbl_fullpath not in self._LOADED_INTERTABLES:
+        # another process may have written another table with this name
+        version = self._table_version(tbl_fullpath)
+        loaded_version, intertable = self._LOADED_INTERTABLES.get(tbl_fullpath, (None, None))
+        if intertable is None or loaded_version != version:
             f = tbl_fullpath
             if tbl_fullpath.endswith('.gz'):
                 f = gzip.GzipFile(tbl_fullpath, 'r')
@@ -153,10 +166,8 @@ class Interpolator(Loggable):
                     f = gzip.GzipFile(f, 'r')
                     intertable = np.load(f)
                     f.close()
-            self._LOADED_INTERTABLES[tbl_fullpath] = intertable
+            self._LOADED_INTERTABLES[tbl_fullpath] = (version, intertable)
             self._log(f'Using interpolation table: {tbl_fullpath}', 'INFO')
-        else:
-            intertable = self._LOADED_INTERTABLES[tbl_fullpath]
 
         if self._mode == 'grib_nearest':
             # grib nearest neighbour table
@@ -430,7 +441,7 @@ class Interpolator(Loggable):
                 return intertable_name
 
     def update_intertable_conf(self, intertable, intertable_id, intertable_name, source_shape):
-        self._LOADED_INTERTABLES[intertable_name] = intertable
+        self._LOADED_INTERTABLES[intertable_name] = (self._table_version(intertable_name), intertable)
         new_intertable_conf_item = {'filename': pyg2p.util.files.filename(intertable_name),
                                     'method': self._mode,
                                     'source_shape': source_shape,
-- 
2.43.0

