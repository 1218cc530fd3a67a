From 43bb86c10a7ff099e8f866e0732eaea3e6193bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:33 +0000
Subject: [PATCH 01/79] fix: interpolating onto targets with less than 250
 cells divided by zero

---
 src/pyg2p/util/generics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyg2p/util/generics.py b/src/pyg2p/util/generics.py
index ef0046a..d71e079 100644
--- a/src/pyg2p/util/generics.py
+++ b/src/pyg2p/util/generics.py
@@ -20,7 +20,8 @@ def is_callable(v):
 
 
 def progress_step_and_backchar(num_cells):
-    progress_step = int(num_cells / 250)
+    # at least 1, as it is used as divisor: targets can have less than 250 cells
+    progress_step = max(1, int(num_cells / 250))
     back_char = '\r'
     if not stdout.isatty():
         # out is being redirected
-- 
2.43.0


From faae4b60c08eca2aaba3b8ae6842aa3a05e8ea72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:33 +0000
Subject: [PATCH 02/79] fix: netCDF output failed when the clone map has no
 missing cells

---
 src/pyg2p/main/writers/netcdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyg2p/main/writers/netcdf.py b/src/pyg2p/main/writers/netcdf.py
index 1702511..5183b31 100644
--- a/src/pyg2p/main/writers/netcdf.py
+++ b/src/pyg2p/main/writers/netcdf.py
@@ -32,7 +32,7 @@ class NetCDFWriter(Writer):
         
         # add mask from clone map
         self.area = ma.masked_values(self.area, area.mv)
-        self._mask = ma.getmask(self.area)
+        self._mask = ma.getmaskarray(self.area)  # full array also when clone has no missing values
         
         if lats_map.endswith('.nc'):
             if (lats_map!=lons_map):
-- 
2.43.0


From 64c5be3f899f4b773932355c90a4243870a40470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:33 +0000
Subject: [PATCH 03/79] fix: closing a netCDF writer that never wrote masked
 the original error

---
 src/pyg2p/main/__init__.py       | 3 ++-
 src/pyg2p/main/writers/netcdf.py | 3 +++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pyg2p/main/__init__.py b/src/pyg2p/main/__init__.py
index 7febe4f..7069064 100644
--- a/src/pyg2p/main/__init__.py
+++ b/src/pyg2p/main/__init__.py
@@ -51,7 +51,8 @@ def execute(exc_ctx):
         if not err.code == NO_MESSAGES:
             ret_value = 1
     finally:
-        ctrl.close()
+        if ctrl is not None:
+            ctrl.close()
     return ret_value
 
 
diff --git a/src/pyg2p/main/writers/netcdf.py b/src/pyg2p/main/writers/netcdf.py
index 5183b31..dfcf57f 100644
--- a/src/pyg2p/main/writers/netcdf.py
+++ b/src/pyg2p/main/writers/netcdf.py
@@ -183,5 +183,8 @@ class NetCDFWriter(Writer):
         return masked
 
     def close(self):
+        if self.nf is None:
+            # nothing was written (i.e. execution stopped before writing)
+            return
         self.nf.close()
         self._log(f'{self.filepath} written!', 'INFO')
-- 
2.43.0


From 459bac84e0bfba27afd194c008a93dd10cc207c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:07 +0000
Subject: [PATCH 04/79] fix: scipy interpolations used the missing value of
 masked grib points as data

---
 src/pyg2p/main/interpolation/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyg2p/main/interpolation/__init__.py b/src/pyg2p/main/interpolation/__init__.py
index 4e7b2f0..8824edf 100644
--- a/src/pyg2p/main/interpolation/__init__.py
+++ b/src/pyg2p/main/interpolation/__init__.py
@@ -144,7 +144,8 @@ class Interpolator(Loggable):
         # It gives (last_index + 1) from original values when value can't be computed.
         # These "last_index + 1" indexes are stored in intertable so we artificially add a missing value
         # v[last_index + 1] = mv
-        v = np.append(v, self.mv_output)
+        # (np.append drops the mask of masked arrays)
+        v = ma.append(v, self.mv_output) if isinstance(v, ma.core.MaskedArray) else np.append(v, self.mv_output)
         orig_mask = False if not isinstance(v, ma.core.MaskedArray) else v.mask
         if nnear == 1:
             if isinstance(orig_mask, np.ndarray):
-- 
2.43.0


From 754efe6bec7fe46d32d6738f12c37cf3a1924113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:07 +0000
Subject: [PATCH 05/79] fix: missing values of masked maps were written as data
 in netCDF

---
 src/pyg2p/main/writers/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyg2p/main/writers/__init__.py b/src/pyg2p/main/writers/__init__.py
index 41c20f3..d7f633a 100644
--- a/src/pyg2p/main/writers/__init__.py
+++ b/src/pyg2p/main/writers/__init__.py
@@ -66,7 +66,8 @@ class OutputWriter(Loggable):
                 corrector = Corrector.get_instance(self.ctx, grid_id)
                 out_v = corrector.correct(out_v)
             out_v[out_v == self.interpolator.mv_output] = np.nan
-            out_values.append(out_v)
+            # np.array() on a list of masked arrays drops the masks
+            out_values.append(np.ma.filled(out_v, np.nan))
             time_values.append(timestep.end_step)
         # prepare values for netcdf writing
         time_values = np.array(time_values, dtype=np.int32)
-- 
2.43.0


From 398c3567a4392ac80f25b9ceb9c4144906170ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:05 +0000
Subject: [PATCH 06/79] fix: accumulation used missing values of the last
 message of the window as data

---
 src/pyg2p/main/manipulation/aggregator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyg2p/main/manipulation/aggregator.py b/src/pyg2p/main/manipulation/aggregator.py
index 640bed6..fa3a7b2 100644
--- a/src/pyg2p/main/manipulation/aggregator.py
+++ b/src/pyg2p/main/manipulation/aggregator.py
@@ -145,7 +145,8 @@ class Aggregator(Loggable):
             _aggr_step = self._aggregation_step
             key = Step(iter_ - self._aggregation_step, iter_, resolution, self._aggregation_step, level)
             out_value = ne.evaluate('(v_iter_ma-v_iter_1_ma)*_unit_time/_aggr_step')
-            out_values[key] = ma.masked_where(numeric.get_masks(v_iter_ma, v_iter_1_ma), out_value, copy=False)
+            # v_iter_ma is a plain array: the mask is the one of the original message
+            out_values[key] = ma.masked_where(numeric.get_masks(v_ord[iter_], v_iter_1_ma), out_value, copy=False)
 
             if self._logger.isEnabledFor(logging.DEBUG):
                 self._log(f'out[{key}] = (grib[{iter_}] - grib[{(iter_ - self._aggregation_step)}])  * ({self._unit_time}/{self._aggregation_step}))')
-- 
2.43.0


From 6440e9daeae9bd9528400f5dc24a65f851f35985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:32 +0000
Subject: [PATCH 07/79] fix: averages used missing values as data

---
 src/pyg2p/main/manipulation/aggregator.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pyg2p/main/manipulation/aggregator.py b/src/pyg2p/main/manipulation/aggregator.py
index fa3a7b2..4d6d90a 100644
--- a/src/pyg2p/main/manipulation/aggregator.py
+++ b/src/pyg2p/main/manipulation/aggregator.py
@@ -181,6 +181,7 @@ class Aggregator(Loggable):
                     iter_from = iter_ + 1
                     iter_to = iter_ + self._aggregation_step + 1
                 temp_sum = np.zeros(shape_iter)
+                used_values = []
                 sum_counter = 0.0
                 v_ord_keys = list(v_ord.keys())
 
@@ -205,6 +206,7 @@ class Aggregator(Loggable):
                                     v_ma = v_ord[iterator_avg]*dt1
                                     print("Iterator: {} weight: {}".format(iterator_avg,dt1))
                                     sum_counter += dt1
+                                used_values.append(v_ord[iterator_avg])
                                 ne.evaluate('temp_sum + v_ma', out=temp_sum)
                 else:
                     for iterator_avg in range(iter_from, iter_to, 1):
@@ -222,15 +224,16 @@ class Aggregator(Loggable):
                             v_ma = v_ord[next_]
                             sum_counter += 1
                             print("Iterator: {} weight: 1".format(next_))
+                        used_values.append(v_ma)
                         ne.evaluate('temp_sum + v_ma', out=temp_sum)
 
                 # mask result with all maskes from GRIB original values used in average (if existing any)
-                # temp_sum = ma.masked_where(pyg2p.util.numeric.get_masks(v_ord.values()), temp_sum, copy=False)
+                # temp_sum = ma.masked_where(pyg2p.util.numeric.get_masks(*used_values), temp_sum, copy=False)
                 key = Step(iter_, iter_ + self._aggregation_step, resolution_1, self._aggregation_step, level)
                 print("dividing sum by {}".format(sum_counter))
                 res = ne.evaluate('temp_sum/sum_counter')
                 # mask result with all maskes from GRIB original values used in average (if existing any)
-                out_values[key] = ma.masked_where(numeric.get_masks(v_ord.values()), res, copy=False)
+                out_values[key] = ma.masked_where(numeric.get_masks(*used_values), res, copy=False)
                 if self._logger.isEnabledFor(logging.DEBUG):
                     self._log(f'out[{key}] = temp_sum/{sum_counter}')
 
-- 
2.43.0


From 3760bea946e83c13cb906379407bae0e7deb232a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:32 +0000
Subject: [PATCH 08/79] fix: instantaneous aggregation used missing values as
 data

---
 src/pyg2p/main/manipulation/aggregator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pyg2p/main/manipulation/aggregator.py b/src/pyg2p/main/manipulation/aggregator.py
index 4d6d90a..62a57ec 100644
--- a/src/pyg2p/main/manipulation/aggregator.py
+++ b/src/pyg2p/main/manipulation/aggregator.py
@@ -265,7 +265,8 @@ class Aggregator(Loggable):
                 if iter_ in v_ord_keys:
                     if self._logger.isEnabledFor(logging.DEBUG):
                         self._log(f'out[{key}] = grib[{iter_}]')
-                    res_inst += v_ord[iter_]
+                    # masked + masked: an in place sum would drop the mask
+                    res_inst = res_inst + v_ord[iter_]
                 else:
                     if iter_ == 0:
                         # left out as zero arrays if 0 step is not in the grib
@@ -277,7 +278,7 @@ class Aggregator(Loggable):
                         next_ = list(v_ord_keys)[ind_next_]
                         if self._logger.isEnabledFor(logging.DEBUG):
                             self._log(f'out[{key}] = grib[{next_}]')
-                        res_inst += v_ord[next_]
+                        res_inst = res_inst + v_ord[next_]
                 out_values[key] = res_inst
 
             return out_values
-- 
2.43.0


From 9008cf7f986dedc83abecc456c45b37881d748bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:32 +0000
Subject: [PATCH 09/79] fix: cutting off negative values used missing values as
 data

---
 src/pyg2p/main/manipulation/conversion.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/pyg2p/main/manipulation/conversion.py b/src/pyg2p/main/manipulation/conversion.py
index 2a3cdd6..8e24f6a 100644
--- a/src/pyg2p/main/manipulation/conversion.py
+++ b/src/pyg2p/main/manipulation/conversion.py
@@ -41,14 +41,21 @@ class Converter(Loggable):
         else:
             return x
 
+    @staticmethod
+    def _cut(values):
+        res = ne.evaluate('where(values<0, 0, values)')
+        # preserve masks as numexpr just ignores them
+        if isinstance(values, ma.core.MaskedArray):
+            res = ma.masked_where(values.mask, res, copy=False)
+        return res
+
     def cut_off_negative(self, xs):
         self._log('Cutting off negative values...')
         if isinstance(xs, dict):
             for timestep, values in xs.items():
-                xs[timestep] = ne.evaluate('where(values<0, 0, values)')
+                xs[timestep] = self._cut(values)
         else:
-            values = xs
-            xs = ne.evaluate('where(values<0, 0, values)')
+            xs = self._cut(xs)
         return xs
 
     def __str__(self):
-- 
2.43.0


From 44f4b6c397ce871090b458f963170b8d20737dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:46 +0000
Subject: [PATCH 10/79] fix: accumulation interpolated missing steps from the
 wrong messages

---
 src/pyg2p/main/manipulation/aggregator.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/pyg2p/main/manipulation/aggregator.py b/src/pyg2p/main/manipulation/aggregator.py
index 62a57ec..57475db 100644
--- a/src/pyg2p/main/manipulation/aggregator.py
+++ b/src/pyg2p/main/manipulation/aggregator.py
@@ -84,8 +84,13 @@ class Aggregator(Loggable):
             self._start = self._aggregation_step
 
         created_zero_array = False
+        if min(v_ord.keys()) > max(self._start - self._aggregation_step, 0):
+            # the first window starts before the first message
+            self._log('Message 0 not in dataset. Creating it as zero values array')
+            v_ord[0] = np.zeros(shape_iter)
         for iter_ in range(self._start, self._end + 1, self._aggregation_step):
-            v_ord_keys = list(v_ord.keys())
+            # interpolated steps are added while looping and bisect needs sorted keys
+            v_ord_keys = sorted(v_ord.keys())
             if iter_ not in v_ord_keys:
 
                 ind_next_ts = bisect.bisect_left(v_ord_keys, iter_)
@@ -122,10 +127,11 @@ class Aggregator(Loggable):
                     originalts = v_ord_keys[ind_originalts]
                     # variables needed for numexpr evaluator namespace
                     v_ots_ma = v_ord[originalts]
+                    prev_ = iter_ - self._aggregation_step
 
                     if self._logger.isEnabledFor(logging.DEBUG):
-                        self._log(f'Creating message grib[{iter_ - self._aggregation_step}]=grib[{originalts}]+(grib[{next_ts}]-grib[{originalts}])*(({iter_}-{originalts})/({next_ts}-{originalts}))')
-                    v_out = ne.evaluate('v_ots_ma + (v_nts_ma-v_ots_ma)*((iter_ - originalts)/(next_ts-originalts))')
+                        self._log(f'Creating message grib[{prev_}]=grib[{originalts}]+(grib[{next_ts}]-grib[{originalts}])*(({prev_}-{originalts})/({next_ts}-{originalts}))')
+                    v_out = ne.evaluate('v_ots_ma + (v_nts_ma-v_ots_ma)*((prev_ - originalts)/(next_ts-originalts))')
                     v_ord[iter_ - self._aggregation_step] = ma.masked_where(numeric.get_masks(v_ots_ma, v_nts_ma), v_out, copy=False)
 
             if iter_ - self._aggregation_step == 0 and self._force_zero:
-- 
2.43.0


From 518875b2825b03f392f37382d8c91d76c4f74ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:46 +0000
Subject: [PATCH 11/79] fix: average from step 0 looked for messages after the
 last one

---
 src/pyg2p/main/manipulation/aggregator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyg2p/main/manipulation/aggregator.py b/src/pyg2p/main/manipulation/aggregator.py
index 57475db..0e45a1a 100644
--- a/src/pyg2p/main/manipulation/aggregator.py
+++ b/src/pyg2p/main/manipulation/aggregator.py
@@ -174,7 +174,8 @@ class Aggregator(Loggable):
             v_ord = collections.OrderedDict(sorted(dict((k.end_step, v_) for (k, v_) in values.items()).items(), key=lambda k: k))
             if self._start == 0 or self._second_t_res:
                 iter_start = self._start
-                iter_end = self._end - self._aggregation_step + 2       # CR: TODO: check if +2 instead of +1 is actually needed
+                # +2 lets half weights averages use a last window having all steps but the last one
+                iter_end = self._end - self._aggregation_step + (2 if self._aggregation_halfweights else 1)
             else:
                 iter_start = self._start - self._aggregation_step
                 iter_end = self._end - self._aggregation_step + 1
-- 
2.43.0


From 8279a8598e628de725ffb5efd88470cf7922443e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:41 +0000
Subject: [PATCH 12/79] fix: configuration commands -g, -W and -K were never
 executed

---
 src/pyg2p/main/__init__.py | 4 ++--
 src/pyg2p/main/context.py  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pyg2p/main/__init__.py b/src/pyg2p/main/__init__.py
index 7069064..73fe1d9 100644
--- a/src/pyg2p/main/__init__.py
+++ b/src/pyg2p/main/__init__.py
@@ -62,7 +62,7 @@ def config_command(exc_ctx):
     if exc_ctx.to_download_conf:  # -W
         # download configuration
         dataset = exc_ctx.get('download_configuration')
-        conf.download_data(dataset, logger)
+        conf.download_data(dataset)
         logger.info('Configuration downloaded.')
 
     elif exc_ctx.to_add_geopotential:  # -g
@@ -73,4 +73,4 @@ def config_command(exc_ctx):
 
     elif exc_ctx.to_check_conf:  # -K
         # check unused intertables (intertables that are not in configuration and can be deleted
-        conf.to_check_conf()
+        conf.check_conf()
diff --git a/src/pyg2p/main/context.py b/src/pyg2p/main/context.py
index 92be2fc..052b67c 100644
--- a/src/pyg2p/main/context.py
+++ b/src/pyg2p/main/context.py
@@ -86,7 +86,7 @@ class Context:
             if not files.exists(self._vars['geopotential']):
                 raise ApplicationException.get_exc(7001, self._vars['geopotential'])
 
-        else:
+        elif not (self.to_download_conf or self.to_check_conf):
 
             if not self._vars.get('input.file'):
                 raise ApplicationException.get_exc(MISSING_INPUT_GRIB)
@@ -240,7 +240,7 @@ class ExecutionContext(Context):
         self._vars['input.file2'] = parsed_args['inputFile2']
         self._vars['input.two_resolution'] = bool(self._vars['input.file2'])
         self._vars['geopotential'] = parsed_args['addGeopotential']
-        self._to_add_geopotential = bool(self._vars['geopotential'])
+        self.to_add_geopotential = bool(self._vars['geopotential'])
         self._vars['download_configuration'] = parsed_args['downloadConf']
         self._vars['under_api'] = parsed_args['underApi']
         self._vars['check_conf'] = parsed_args['checkConf']
-- 
2.43.0


From eda1128c2779c9a41e7dbb1a8c3d7dd4b0b8234b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:15 +0000
Subject: [PATCH 13/79] fix: data time of messages was wrong for times before
 10:00

---
 src/pyg2p/main/readers/grib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyg2p/main/readers/grib.py b/src/pyg2p/main/readers/grib.py
index a4abd63..f94dc73 100644
--- a/src/pyg2p/main/readers/grib.py
+++ b/src/pyg2p/main/readers/grib.py
@@ -208,7 +208,7 @@ class GRIBReader(Loggable):
             if grid2:
                 key_2nd_spatial_res = min(all_values_second_res.keys())
                 grid.set_2nd_resolution(grid2, key_2nd_spatial_res)
-            return Messages(all_values, missing_value, unit, type_of_level, type_of_step, step_units, grid, all_values_second_res, data_date=data_date, data_time=str(data_time)[:2])
+            return Messages(all_values, missing_value, unit, type_of_level, type_of_step, step_units, grid, all_values_second_res, data_date=data_date, data_time=f'{data_time:04d}'[:2])
         # no messages found
         else:
             raise ApplicationException.get_exc(NO_MESSAGES, details=f'using {kwargs}')
-- 
2.43.0


From c23ce9f9a724f718aba6550657edf20f32f22294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:15 +0000
Subject: [PATCH 14/79] fix: correction of a previous execution was reused for
 a different correction or target

---
 src/pyg2p/main/manipulation/correction.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pyg2p/main/manipulation/correction.py b/src/pyg2p/main/manipulation/correction.py
index 2d17d40..f379719 100644
--- a/src/pyg2p/main/manipulation/correction.py
+++ b/src/pyg2p/main/manipulation/correction.py
@@ -27,7 +27,9 @@ class Corrector(Loggable):
     def get_instance(cls, ctx, grid_id):
         geo_file_ = ctx.geo_file(grid_id)
         dem_map = ctx.get('correction.demMap')
-        key = f'{grid_id}{dem_map}'
+        # all the parameters that the instance depends on
+        key = (grid_id, dem_map, geo_file_, ctx.get('correction.formula'), ctx.get('correction.gemFormula'),
+               ctx.get('interpolation.mode'), ctx.get('interpolation.latMap'), ctx.get('interpolation.lonMap'))
         if key in cls.instances:
             return cls.instances[key]
         else:
-- 
2.43.0


From 65f4228c59462fe88c51c8f99a7990ebe5ce9f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:15 +0000
Subject: [PATCH 15/79] fix: values of user variables were truncated at the
 second equal sign

---
 src/pyg2p/main/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyg2p/main/config.py b/src/pyg2p/main/config.py
index f7d4f81..deab2f2 100644
--- a/src/pyg2p/main/config.py
+++ b/src/pyg2p/main/config.py
@@ -58,7 +58,7 @@ class UserConfiguration(pyg2p.Loggable):
             for line in f:
                 line = line.strip()
                 if line and not line.startswith(self.comment_char):
-                    key_value = line.split(self.sep)
+                    key_value = line.split(self.sep, 1)
                     props[key_value[0].strip()] = key_value[1].strip('" \t')
         return props
 
-- 
2.43.0


From 64fe2f6cda155fa6d7d936f2a082ad9f9455b88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:15 +0000
Subject: [PATCH 16/79] fix: files that cannot be indexed were read only once
 and always taken as having geopotential

---
 src/pyg2p/main/readers/grib.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pyg2p/main/readers/grib.py b/src/pyg2p/main/readers/grib.py
index f94dc73..50bb10c 100644
--- a/src/pyg2p/main/readers/grib.py
+++ b/src/pyg2p/main/readers/grib.py
@@ -96,11 +96,13 @@ class GRIBReader(Loggable):
                     codes_release(gid)
 
         elif self._file_handler:
+            self._file_handler.seek(0)
             while 1:
                 gid = codes_new_from_file(self._file_handler, product_kind=CODES_PRODUCT_GRIB)
                 if gid is None:
                     break
-                has_geo = True
+                if codes_get(gid, 'shortName') in v_selected:
+                    has_geo = True
                 codes_release(gid)
         return has_geo
 
@@ -125,6 +127,8 @@ class GRIBReader(Loggable):
                         # release unused grib
                         codes_release(gid)
         elif self._file_handler:
+            # the file could have been already scanned
+            self._file_handler.seek(0)
             while 1:
                 gid = codes_new_from_file(self._file_handler, product_kind=CODES_PRODUCT_GRIB)
                 if gid is None:
-- 
2.43.0


From d316656723f21d0b061b4d8253a522c765b9801f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:15 +0000
Subject: [PATCH 17/79] fix: half weights averages were ignored by the API

---
 src/pyg2p/main/api.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pyg2p/main/api.py b/src/pyg2p/main/api.py
index aaf78de..47454a0 100644
--- a/src/pyg2p/main/api.py
+++ b/src/pyg2p/main/api.py
@@ -217,6 +217,7 @@ class ApiContext(Context):
         if self.api_conf.get('Aggregation'):
             self._vars['aggregation.step'] = self.api_conf['Aggregation'].get('step')
             self._vars['aggregation.type'] = self.api_conf['Aggregation'].get('type')
+            self._vars['aggregation.halfweights'] = bool(self.api_conf['Aggregation'].get('halfweights'))
 
             self._vars['execution.doAggregation'] = bool(self._vars.get('aggregation.step')) and bool(self._vars.get('aggregation.type'))
             self._vars['aggregation.forceZeroArray'] = self._vars.get('aggregation.type') == ACCUMULATION and self.api_conf['Aggregation'].get('forceZeroArray', 'False').lower() not in strings.FALSE_STRINGS
-- 
2.43.0


From 2621b456200ac7e586df7c7591744bc69047d495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:15 +0000
Subject: [PATCH 18/79] fix: maps with a long name prefix overwrote each other

---
 src/pyg2p/main/writers/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pyg2p/main/writers/__init__.py b/src/pyg2p/main/writers/__init__.py
index d7f633a..950f771 100644
--- a/src/pyg2p/main/writers/__init__.py
+++ b/src/pyg2p/main/writers/__init__.py
@@ -123,9 +123,10 @@ class OutputWriter(Loggable):
     def _name_pcr_map(self, i_map):
         # Used for pcraster output maps
         # return a full path for output map, of the type 8.3  {prefix}[000000].0[0]{seq}
-        filename = self.ctx.get('outMaps.namePrefix')
         map_number = self.ctx.get('outMaps.fmap') + (i_map - 1) * self.ctx.get('outMaps.ext')
-        zeroes = 11 - len(self.ctx.get('outMaps.namePrefix')) - len(str(map_number))
+        # long prefixes are truncated, as map number must be always complete
+        filename = self.ctx.get('outMaps.namePrefix')[:11 - len(str(map_number))]
+        zeroes = 11 - len(filename) - len(str(map_number))
         for g in range(zeroes):
             filename += '0'
         filename += str(map_number)
-- 
2.43.0


From 34f45277da84cae76eaf6829a1b6695164957f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:37 +0000
Subject: [PATCH 19/79] fix: adding a geopotential could overwrite the file of
 another one

---
 src/pyg2p/main/config.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/pyg2p/main/config.py b/src/pyg2p/main/config.py
index deab2f2..e2bc890 100644
--- a/src/pyg2p/main/config.py
+++ b/src/pyg2p/main/config.py
@@ -236,10 +236,16 @@ class GeopotentialsConfiguration(BaseConfiguration):
                                                details=f'{id_} for file {self.vars[id_]}. '
                                                        f'File was not added: {filepath}')
 
-        name = file_util.filename(filepath)
         self.check_write()
-
-        file_util.copy(filepath, self.data_path)
+        name = file_util.filename(filepath)
+        if os.path.realpath(filepath) != os.path.realpath(os.path.join(self.data_path, name)):
+            # never overwrite (or hide) the file of another geopotential having the same name
+            i = 1
+            while name in self.vars.values() or os.path.exists(os.path.join(self.data_path, name)):
+                name = f'{file_util.without_ext(file_util.filename(filepath))}_{i}{file_util.ext(filepath)}'
+                i += 1
+            file_util.copy(filepath, os.path.join(self.data_path, name))
+        self.vars[id_] = name
         self.user_vars[id_] = name
         self.dump()
 
-- 
2.43.0


From 1ea01368aa009f4ed54b42f0dca46dad1bdc0189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:37 +0000
Subject: [PATCH 20/79] fix: removed geopotential was still in the loaded
 configuration

---
 src/pyg2p/main/config.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pyg2p/main/config.py b/src/pyg2p/main/config.py
index e2bc890..02b98ff 100644
--- a/src/pyg2p/main/config.py
+++ b/src/pyg2p/main/config.py
@@ -253,6 +253,7 @@ class GeopotentialsConfiguration(BaseConfiguration):
         for g in self.user_vars.keys():
             if self.user_vars[g] == filename:
                 del self.user_vars[g]
+                self.vars.pop(g, None)
                 self.dump()
                 break
 
-- 
2.43.0


From 528ade7b8f5cfdcb7096401129fb875fa375ae9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:37 +0000
Subject: [PATCH 21/79] fix: -K failed on the configuration files created by
 pyg2p

---
 src/pyg2p/main/config.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/pyg2p/main/config.py b/src/pyg2p/main/config.py
index 02b98ff..ab377ef 100644
--- a/src/pyg2p/main/config.py
+++ b/src/pyg2p/main/config.py
@@ -338,16 +338,22 @@ class Configuration(pyg2p.Loggable):
         self._log(f'=== Download finished: {remote_path}')
         client.quit()  # close FTP connection
 
+    @staticmethod
+    def _ls(folder):
+        # folders are not always defined or existing
+        return file_util.ls(folder, 'npy') if folder and file_util.exists(folder, is_folder=True) else []
+
     def check_conf(self):
         # it logs all files in intertables and geopotentials paths that are not used in configuration
 
-        used_intertables = [i['filename'] for i in self.intertables.vars.values()]
+        # configuration files have also a description
+        used_intertables = [i['filename'] for i in self.intertables.vars.values() if isinstance(i, dict)]
         used_geopotentials = self.geopotentials.vars.values()
 
-        intertables_folder_content = file_util.ls(self.intertables.data_path, 'npy')
-        intertables_global_folder_content = file_util.ls(self.intertables.global_data_path, 'npy')
-        geopotentials_folder_content = file_util.ls(self.geopotentials.data_path, 'npy')
-        geopotentials_global_folder_content = file_util.ls(self.geopotentials.global_data_path, 'npy')
+        intertables_folder_content = self._ls(self.intertables.data_path)
+        intertables_global_folder_content = self._ls(self.intertables.global_data_path)
+        geopotentials_folder_content = self._ls(self.geopotentials.data_path)
+        geopotentials_global_folder_content = self._ls(self.geopotentials.global_data_path)
         for f in itertools.chain(intertables_folder_content, intertables_global_folder_content):
             if file_util.filename(f) not in used_intertables:
                 self._log(f'Intertable file is not in configuration: {f} - You could delete it')
@@ -358,8 +364,10 @@ class Configuration(pyg2p.Loggable):
 
         user_intertables = deepcopy(self.intertables.user_vars)
         for k, i in user_intertables.items():
+            if not isinstance(i, dict) or not self.intertables.data_path:
+                continue
             fullpath = os.path.join(self.intertables.data_path, i['filename'])
-            if not file_util.exists(fullpath):
+            if not (file_util.exists(fullpath) or file_util.exists(fullpath + '.gz')):
                 self._log(f'{fullpath} - Non existing. Removing item from intertables.json')
                 del self.intertables.user_vars[k]
         self.intertables.dump()
-- 
2.43.0


From 38a1fa8bf95ba9cf47d897873e89689293dbfed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:31 +0000
Subject: [PATCH 22/79] fix: cells without value were written as data or
 corrected

---
 src/pyg2p/main/api.py                     |  8 +++++-
 src/pyg2p/main/manipulation/correction.py |  2 +-
 src/pyg2p/main/writers/__init__.py        | 30 ++++++++++++++---------
 3 files changed, 27 insertions(+), 13 deletions(-)

diff --git a/src/pyg2p/main/api.py b/src/pyg2p/main/api.py
index 47454a0..7daa4ec 100644
--- a/src/pyg2p/main/api.py
+++ b/src/pyg2p/main/api.py
@@ -3,7 +3,9 @@ from functools import partial
 from pathlib import Path
 from types import MethodType
 
+import numpy as np
 import numpy.ma as ma
+from netCDF4 import default_fillvals
 
 from . import Controller, Configuration
 from .context import Context
@@ -305,10 +307,14 @@ class Pyg2pApi:
                 grid_id = self.messages.grid2_id
                 is_second_res = True
             out_v = self.interpolator.interpolate(lats, longs, v, grid_id, geodetic_info, is_second_res=is_second_res)
+            # missing value of interpolation must not be used as data
+            out_v[out_v == self.interpolator.mv_output] = np.nan
             if self.context.must_do_correction:
                 corrector = Corrector.get_instance(self.context, grid_id)
                 out_v = corrector.correct(out_v)
-            out_v = self._mask_values(out_v)
+                # cells that can't be corrected (i.e. missing in dem)
+                out_v[out_v == default_fillvals[out_v.dtype.str[1:]]] = np.nan
+            out_v = self._mask_values(ma.masked_where(np.isnan(out_v), out_v))
             out[timestep] = out_v
         out = collections.OrderedDict(sorted(out.items(), key=lambda item: int(item[0].end_step)))
         self.values = out
diff --git a/src/pyg2p/main/manipulation/correction.py b/src/pyg2p/main/manipulation/correction.py
index f379719..88b6b04 100644
--- a/src/pyg2p/main/manipulation/correction.py
+++ b/src/pyg2p/main/manipulation/correction.py
@@ -80,7 +80,7 @@ class Corrector(Loggable):
             mv = default_fillvals[values.dtype.str[1:]] # take missing values from the default netCDF fillvals values
             values = ne.evaluate(self._numexpr_eval)
             # mask out values (here is already output values with destination shape)
-            values = ma.masked_where(pyg2p.util.numeric.get_masks(p), values)
+            values = ma.masked_where(pyg2p.util.numeric.get_masks(p, gem), values)
         return values
 
     def _read_geo(self, grib_file, ctx):
diff --git a/src/pyg2p/main/writers/__init__.py b/src/pyg2p/main/writers/__init__.py
index 950f771..e42b7c3 100644
--- a/src/pyg2p/main/writers/__init__.py
+++ b/src/pyg2p/main/writers/__init__.py
@@ -3,6 +3,7 @@ import abc
 import collections
 
 import numpy as np
+from netCDF4 import default_fillvals
 
 from pyg2p import Loggable
 from pyg2p.main.interpolation import Interpolator
@@ -40,6 +41,21 @@ class OutputWriter(Loggable):
     def aux_for_intertable_generation(self, aux_g, aux_v, aux_g2, aux_v2):
         self.interpolator.aux_for_intertable_generation(aux_g, aux_v, aux_g2, aux_v2)
 
+    def _output_values(self, lats, longs, v, grid_id, geodetic_info, is_second_res):
+        """
+        Interpolate and correct values. Cells without a value are set to NaN.
+        """
+        out_v = self.interpolator.interpolate(lats, longs, v, grid_id, geodetic_info, is_second_res=is_second_res)
+        # missing value of interpolation must not be used as data (correction) and it's not the one of the clone map
+        out_v[out_v == self.interpolator.mv_output] = np.nan
+        if self.ctx.must_do_correction:
+            corrector = Corrector.get_instance(self.ctx, grid_id)
+            out_v = corrector.correct(out_v)
+            # cells that can't be corrected (i.e. missing in dem)
+            out_v[out_v == default_fillvals[out_v.dtype.str[1:]]] = np.nan
+        # fill masks, as np.array() on a list of masked arrays drops them
+        return np.ma.filled(out_v, np.nan)
+
     def _write_maps_netcdf(self, values, messages, change_res_step):
         """
         Prepare values for netCDF file writing (time and values)
@@ -61,13 +77,8 @@ class OutputWriter(Loggable):
                 geodetic_info = messages.grid_details.get_2nd_resolution()
                 grid_id = messages.grid2_id
                 is_second_res = True
-            out_v = self.interpolator.interpolate(lats, longs, v, grid_id, geodetic_info, is_second_res=is_second_res)
-            if self.ctx.must_do_correction:
-                corrector = Corrector.get_instance(self.ctx, grid_id)
-                out_v = corrector.correct(out_v)
-            out_v[out_v == self.interpolator.mv_output] = np.nan
-            # np.array() on a list of masked arrays drops the masks
-            out_values.append(np.ma.filled(out_v, np.nan))
+            out_v = self._output_values(lats, longs, v, grid_id, geodetic_info, is_second_res)
+            out_values.append(out_v)
             time_values.append(timestep.end_step)
         # prepare values for netcdf writing
         time_values = np.array(time_values, dtype=np.int32)
@@ -103,10 +114,7 @@ class OutputWriter(Loggable):
                 geodetic_info = messages.grid_details.get_2nd_resolution()
                 grid_id = messages.grid2_id
                 is_second_res = True
-            out_v = self.interpolator.interpolate(lats, longs, v, grid_id, geodetic_info, is_second_res=is_second_res)
-            if self.ctx.must_do_correction:
-                corrector = Corrector.get_instance(self.ctx, grid_id)
-                out_v = corrector.correct(out_v)
+            out_v = self._output_values(lats, longs, v, grid_id, geodetic_info, is_second_res)
             self.writer.write(self._name_pcr_map(i), out_v)
 
     def write_maps(self, values, messages, change_res_step=None):
-- 
2.43.0


From 963ef351186dec5a9b17afcfa5bc15aae67c3226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:13 +0000
Subject: [PATCH 23/79] fix: splitting interpolation in more parts than target
 rows failed

---
 src/pyg2p/main/interpolation/scipy_interpolation_lib.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
index 7760424..ecf53e0 100644
--- a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
+++ b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
@@ -586,7 +586,8 @@ class ScipyInterpolation(object):
                 stdout.write('KDtree find radius time (sec): {}\n'.format(checktime - start))
 
             # Define the size of the subsets, only in lonm
-            subset_size = lonefas.shape[0]//self.num_of_splits
+            # at least one row, as there can be more splits than rows
+            subset_size = max(1, lonefas.shape[0]//self.num_of_splits)
 
             # Initialize empty arrays to store the results
             weights = np.empty((lonefas.shape[0]*lonefas.shape[1],self.nnear),dtype=lonefas.dtype)
-- 
2.43.0


From 11b3c9ad7434aa0c5d48fd015f1c9b600ef7dc63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:13 +0000
Subject: [PATCH 24/79] fix: cdd interpolation with splits used the CDD values
 of other rows

---
 .../interpolation/scipy_interpolation_lib.py   | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
index ecf53e0..709fd9b 100644
--- a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
+++ b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
@@ -570,6 +570,10 @@ class ScipyInterpolation(object):
             self.min_upper_bound = np.max(distances) + np.max(distances) * 4 / self.geodetic_info.get('Nj')
 
     def interpolate(self, lonefas, latefas):        
+        # whole target coordinates and rows of the target being interpolated
+        self.target_lons_all = lonefas
+        self.target_lats_all = latefas
+        self.target_rows = slice(None)
         if (self.num_of_splits is not None):
             ref_radius = None
             if self.mode == 'adw' and self.nnear == 11:
@@ -600,6 +604,7 @@ class ScipyInterpolation(object):
                 subset_latefas = latefas[i:i+subset_size, :]
 
                 # Call the interpolate function for the subset
+                self.target_rows = slice(i, i+subset_size)
                 subset_result, subset_weights, subset_indexes = self.interpolate_split(subset_lonefas, subset_latefas, ref_radius)
 
                 # Collect the results back into the weights and indexes arrays
@@ -868,7 +873,7 @@ class ScipyInterpolation(object):
                 weights_mode = 'All'
                 #weights_mode = 'OnlyTOP10'
                 if (CDDmode == 'Hofstra'):
-                    CDD_map = CDD_map.ravel()
+                    CDD_map = CDD_map[self.target_rows].ravel()
                     try:
                         assert(len(CDD_map)==len(self.lat_inALL)) 
                     except AssertionError as e:
@@ -879,7 +884,7 @@ class ScipyInterpolation(object):
                     s = np.zeros_like(distances)       
                     s = cdd_hofstra_compute_weights_from_cutoff_distances(distances, CDD_map, s)
                 elif CDDmode == 'MixHofstraShepard':
-                    CDD_map = CDD_map.ravel()
+                    CDD_map = CDD_map[self.target_rows].ravel()
                     try:
                         assert(len(CDD_map)==len(self.lat_inALL)) 
                     except AssertionError as e:
@@ -901,10 +906,11 @@ class ScipyInterpolation(object):
                     cdd_hofstra_shepard_compute_weights_from_cutoff_distances(distances, CDD_map, nnear, s, m_const, min_num_of_station, radius_ratio)
                 elif CDDmode == 'NewEtAl':
                     s = np.zeros_like(distances)  
-                    TargetLonRes=self.target_lonsOR[0,0]-self.target_lonsOR[0,1]
-                    TargetLatRes=self.target_latsOR[0,0]-self.target_latsOR[1,0]
-                    LonOrigin=self.target_lonsOR[0,0]
-                    LatOrigin=self.target_latsOR[0,0]
+                    # CDD map is always the one of the whole target
+                    TargetLonRes=self.target_lons_all[0,0]-self.target_lons_all[0,1]
+                    TargetLatRes=self.target_lats_all[0,0]-self.target_lats_all[1,0]
+                    LonOrigin=self.target_lons_all[0,0]
+                    LatOrigin=self.target_lats_all[0,0]
                     s = cdd_newetal_compute_weights_from_cutoff_distances(distances, CDD_map, indexes, self.longrib, self.latgrib, 
                                                                         TargetLonRes, TargetLatRes, LonOrigin, LatOrigin, s)
                 else:
-- 
2.43.0


From 44fa4a1fa24aed2796a01d603bde119e5e637b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:13 +0000
Subject: [PATCH 25/79] fix: triangulation on global grids did not map the
 first of the points added at borders

---
 src/pyg2p/main/interpolation/scipy_interpolation_lib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
index 709fd9b..583e275 100644
--- a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
+++ b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
@@ -1517,7 +1517,7 @@ class ScipyInterpolation(object):
                         weights[nn] = np.append(np.append(np.transpose(b),1 - b.sum(axis=0)),np.zeros(nnear-3))
                         result[nn] = weights[nn,0]*z[idxs[nn,0]] + weights[nn,1]*z[idxs[nn,1]] + weights[nn,2]*z[idxs[nn,2]]
         if (is_global_map==True):
-            idxs[idxs>len(self.latgrib)]=original_indexes[idxs[idxs>len(self.latgrib)]-len(self.latgrib)]
+            idxs[idxs>=len(self.latgrib)]=original_indexes[idxs[idxs>=len(self.latgrib)]-len(self.latgrib)]
         stdout.write('{}{:>100}'.format(back_char, ' '))
         stdout.write('{}Building coeffs: {}/{} [outs: {}] (100%)\n'.format(back_char, num_cells, num_cells, outs))
         if use_bilinear:
-- 
2.43.0


From 1fa347652ef85d584e11ec921184a3110f6fcaf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:13 +0000
Subject: [PATCH 26/79] fix: a new intertable could get the file name of
 another configured one

---
 src/pyg2p/main/interpolation/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pyg2p/main/interpolation/__init__.py b/src/pyg2p/main/interpolation/__init__.py
index 8824edf..a1bd08a 100644
--- a/src/pyg2p/main/interpolation/__init__.py
+++ b/src/pyg2p/main/interpolation/__init__.py
@@ -75,7 +75,9 @@ class Interpolator(Loggable):
             filename = self.format_intertablename(prognum='')
             tbl_fullpath = os.path.normpath(os.path.join(self._intertable_dirs['user'], filename))
             i = 1
-            while pyg2p.util.files.exists(tbl_fullpath):
+            # names of other configured tables are not available, even if their file is not in this folder
+            used = [t.get('filename') for t in self.intertables_config.vars.values() if isinstance(t, dict)]
+            while filename in used or pyg2p.util.files.exists(tbl_fullpath):
                 filename = self.format_intertablename(prognum='_{}'.format(i))
                 tbl_fullpath = os.path.normpath(os.path.join(self._intertable_dirs['user'], filename))
                 i += 1
-- 
2.43.0


From bcf6c09cbc392072a3609c242a88b83120da5648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:13 +0000
Subject: [PATCH 27/79] fix: intertable of a target with different size was
 used

---
 src/pyg2p/main/interpolation/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pyg2p/main/interpolation/__init__.py b/src/pyg2p/main/interpolation/__init__.py
index a1bd08a..c41edd6 100644
--- a/src/pyg2p/main/interpolation/__init__.py
+++ b/src/pyg2p/main/interpolation/__init__.py
@@ -67,6 +67,10 @@ class Interpolator(Loggable):
 
     def _intertable_filename(self, grid_id):
         intertable_id = '{}{}_{}{}'.format(self._prefix, grid_id.replace('$', '_'), self._target_coords.identifier, self._suffix)
+        target_shape = (self.intertables_config.vars.get(intertable_id) or {}).get('target_shape')
+        if target_shape and tuple(target_shape) != self._target_coords.lons.shape:
+            # it's the table of another target having same extent but a different number of cells
+            intertable_id += '_{}_{}'.format(*self._target_coords.lons.shape)
         if intertable_id not in self.intertables_config.vars:
             # return a new intertable filename to create
             if not self.create_if_missing:
-- 
2.43.0


From f3b24bab4b7a7b7540bf37f7feee9e1033812aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:13 +0000
Subject: [PATCH 28/79] fix: values at second resolution were lost without
 aggregation or having a single aggregation window

---
 src/pyg2p/main/controller.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/pyg2p/main/controller.py b/src/pyg2p/main/controller.py
index c1325c4..45086ac 100644
--- a/src/pyg2p/main/controller.py
+++ b/src/pyg2p/main/controller.py
@@ -121,11 +121,16 @@ class Controller(Loggable):
         change_res_step = None
         if messages.have_resolution_change():
             change_res_step = messages.change_resolution_step()
-            start_step2 = int(change_res_step.end_step) + int(self.ctx.get('aggregation.step'))
             # we need GRIB lats and lons only for scipy interpolation
-            if self.ctx.must_do_aggregation and end_step > start_step2:
-                # second resolution manipulation
-                change_res_step, values = self.second_res_manipulation(start_step2, end_step, input_step, messages, mv_grib, values)
+            if self.ctx.must_do_aggregation:
+                start_step2 = int(change_res_step.end_step) + int(self.ctx.get('aggregation.step'))
+                if end_step >= start_step2:
+                    # second resolution manipulation
+                    change_res_step, values = self.second_res_manipulation(start_step2, end_step, input_step, messages, mv_grib, values)
+            else:
+                # first resolution until the change
+                values = {k: v for k, v in values.items() if int(k.end_step) <= int(change_res_step.end_step)}
+                values.update(messages.second_resolution_values())
 
         # cutoff after interpolation
         if converter and converter.must_cut_off:
-- 
2.43.0


From ed6506efbebcb84dd9f10a0b4929adb8a0334aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:27 +0000
Subject: [PATCH 29/79] fix: interrupted writes of a configuration file left it
 corrupted

---
 src/pyg2p/main/config.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pyg2p/main/config.py b/src/pyg2p/main/config.py
index ab377ef..d17afb7 100644
--- a/src/pyg2p/main/config.py
+++ b/src/pyg2p/main/config.py
@@ -140,9 +140,12 @@ class BaseConfiguration(pyg2p.Loggable):
             f.close()
 
     def dump(self):
-        with open(self.config_file, 'w') as f:
+        # written to a temporary file first: an interrupted write must not corrupt the configuration
+        tmp_file = f'{self.config_file}.{os.getpid()}.tmp'
+        with open(tmp_file, 'w') as f:
             user_vars = self.user_vars or '{}'
             f.write(json.dumps(user_vars, sort_keys=True, indent=4))
+        os.replace(tmp_file, self.config_file)
 
     def check_write(self):
         if not self.data_path:
-- 
2.43.0


From 31bda300a5872e9fc4576ef8336394e946cdc368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:27 +0000
Subject: [PATCH 30/79] fix: interrupted writes of an intertable left a
 corrupted table

---
 src/pyg2p/main/interpolation/__init__.py | 29 +++++++++---------------
 1 file changed, 11 insertions(+), 18 deletions(-)

diff --git a/src/pyg2p/main/interpolation/__init__.py b/src/pyg2p/main/interpolation/__init__.py
index c41edd6..91fd53b 100644
--- a/src/pyg2p/main/interpolation/__init__.py
+++ b/src/pyg2p/main/interpolation/__init__.py
@@ -256,12 +256,7 @@ class Interpolator(Loggable):
 
             # saving interpolation lookup table
             intertable = np.rec.fromarrays((indexes, weights), names=('indexes', 'coeffs'))
-            if intertable_name.endswith('.gz'):
-                f = gzip.GzipFile(intertable_name, 'w')
-                np.save(f, intertable)
-                f.close()
-            else:
-                np.save(intertable_name, intertable)
+            self._save_intertable(intertable_name, intertable)
             self.update_intertable_conf(intertable, intertable_id, intertable_name, v.shape)
         else:
             raise ApplicationException.get_exc(NO_INTERTABLE_CREATED, details=intertable_name)
@@ -301,12 +296,7 @@ class Interpolator(Loggable):
             self._log('\nInterpolating table not found\n Id: {}\nWill create file: {}'.format(intertable_id, intertable_name), 'WARN')
             xs, ys, idxs = getattr(grib_interpolation_lib, 'grib_nearest{}'.format('' if not self.parallel else '_parallel'))(gid, self._target_coords.lats, self._target_coords.lons, self._target_coords.mv)
             intertable = np.asarray([xs, ys, idxs])
-            if intertable_name.endswith('.gz'):
-                f = gzip.GzipFile(intertable_name, 'w')
-                np.save(f, intertable)
-                f.close()
-            else:
-                np.save(intertable_name, intertable)
+            self._save_intertable(intertable_name, intertable)
             self.update_intertable_conf(intertable, intertable_id, intertable_name, v.shape)
         else:
             if intertable_id not in self.intertables_config.vars:
@@ -356,12 +346,7 @@ class Interpolator(Loggable):
             coeffs = np.asarray([coeffs1, coeffs2, coeffs3, coeffs4, np.zeros(coeffs1.shape), np.zeros(coeffs1.shape)])
             intertable = np.rec.fromarrays((indexes, coeffs), names=('indexes', 'coeffs'))
             # saving interpolation lookup table
-            if intertable_name.endswith('.gz'):
-                f = gzip.GzipFile(intertable_name, 'w')
-                np.save(f, intertable)
-                f.close()
-            else:
-                np.save(intertable_name, intertable)
+            self._save_intertable(intertable_name, intertable)
             self.update_intertable_conf(intertable, intertable_id, intertable_name, v.shape)
 
         else:
@@ -377,6 +362,14 @@ class Interpolator(Loggable):
         result[xs, ys] = pyg2p.util.numeric.result_masked(res, self.mv_output)
         return result
 
+    @staticmethod
+    def _save_intertable(intertable_name, intertable):
+        # written to a temporary file first: a partially written table must never be found by next executions
+        tmp_name = f'{intertable_name}.{os.getpid()}.tmp'
+        with gzip.GzipFile(tmp_name, 'w') if intertable_name.endswith('.gz') else open(tmp_name, 'wb') as f:
+            np.save(f, intertable)
+        os.replace(tmp_name, intertable_name)
+
     def update_intertable_conf(self, intertable, intertable_id, intertable_name, source_shape):
         self._LOADED_INTERTABLES[intertable_name] = intertable
         new_intertable_conf_item = {'filename': pyg2p.util.files.filename(intertable_name),
-- 
2.43.0


From 099824a2230aad3e756fafecdfffc30c940313dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:19 +0000
Subject: [PATCH 31/79] fix: concurrent executions could write their
 intertables on the same file

---
 src/pyg2p/main/interpolation/__init__.py | 56 +++++++++++++++---------
 1 file changed, 36 insertions(+), 20 deletions(-)

diff --git a/src/pyg2p/main/interpolation/__init__.py b/src/pyg2p/main/interpolation/__init__.py
index 91fd53b..217c612 100644
--- a/src/pyg2p/main/interpolation/__init__.py
+++ b/src/pyg2p/main/interpolation/__init__.py
@@ -65,6 +65,18 @@ class Interpolator(Loggable):
             out_v = self.interpolate_scipy(lats, longs, v, grid_id, geodetic_info)
         return out_v
 
+    def _new_intertable_filename(self):
+        filename = self.format_intertablename(prognum='')
+        tbl_fullpath = os.path.normpath(os.path.join(self._intertable_dirs['user'], filename))
+        i = 1
+        # names of other configured tables are not available, even if their file is not in this folder
+        used = [t.get('filename') for t in self.intertables_config.vars.values() if isinstance(t, dict)]
+        while filename in used or pyg2p.util.files.exists(tbl_fullpath):
+            filename = self.format_intertablename(prognum='_{}'.format(i))
+            tbl_fullpath = os.path.normpath(os.path.join(self._intertable_dirs['user'], filename))
+            i += 1
+        return tbl_fullpath
+
     def _intertable_filename(self, grid_id):
         intertable_id = '{}{}_{}{}'.format(self._prefix, grid_id.replace('$', '_'), self._target_coords.identifier, self._suffix)
         target_shape = (self.intertables_config.vars.get(intertable_id) or {}).get('target_shape')
@@ -76,16 +88,7 @@ class Interpolator(Loggable):
             if not self.create_if_missing:
                 raise ApplicationException.get_exc(NO_INTERTABLE_CREATED, details=f'Using {intertable_id}')
             self.intertables_config.check_write()
-            filename = self.format_intertablename(prognum='')
-            tbl_fullpath = os.path.normpath(os.path.join(self._intertable_dirs['user'], filename))
-            i = 1
-            # names of other configured tables are not available, even if their file is not in this folder
-            used = [t.get('filename') for t in self.intertables_config.vars.values() if isinstance(t, dict)]
-            while filename in used or pyg2p.util.files.exists(tbl_fullpath):
-                filename = self.format_intertablename(prognum='_{}'.format(i))
-                tbl_fullpath = os.path.normpath(os.path.join(self._intertable_dirs['user'], filename))
-                i += 1
-            return intertable_id, tbl_fullpath
+            return intertable_id, self._new_intertable_filename()
 
         filename = self.intertables_config.vars[intertable_id]['filename']
 
@@ -226,7 +229,7 @@ class Interpolator(Loggable):
         nnear = self.scipy_modes_nnear[self._mode]
 
         if (not DEBUG_ADW_INTERPOLATION) and \
-            (pyg2p.util.files.exists(intertable_name) or pyg2p.util.files.exists(intertable_name + '.gz')):
+            (self._exists_intertable(intertable_id, intertable_name) or self._exists_intertable(intertable_id, intertable_name + '.gz')):
                 indexes, weights = self._read_intertable(intertable_name)
                 result = self._interpolate_scipy_append_mv(v, weights, indexes, nnear)
 
@@ -256,7 +259,7 @@ class Interpolator(Loggable):
 
             # saving interpolation lookup table
             intertable = np.rec.fromarrays((indexes, weights), names=('indexes', 'coeffs'))
-            self._save_intertable(intertable_name, intertable)
+            intertable_name = self._save_intertable(intertable_id, intertable_name, intertable)
             self.update_intertable_conf(intertable, intertable_id, intertable_name, v.shape)
         else:
             raise ApplicationException.get_exc(NO_INTERTABLE_CREATED, details=intertable_name)
@@ -274,7 +277,7 @@ class Interpolator(Loggable):
             intertable_id, intertable_name = self._intertable_filename(grid_id)
         result = np.empty(self._target_coords.lons.shape)
         result.fill(self.mv_out)
-        if gid == -1 and not pyg2p.util.files.exists(intertable_name):
+        if gid == -1 and not self._exists_intertable(intertable_id, intertable_name):
             # calling recursive grib_nearest
             # aux_gid and aux_values are only used to create the interlookuptable
             if is_second_res:
@@ -284,8 +287,9 @@ class Interpolator(Loggable):
             else:
                 self.grib_nearest(self._aux_val, self._aux_gid, grid_id,
                                   intertable_name=intertable_name, intertable_id=intertable_id)
+            intertable_id, intertable_name = self._intertable_filename(grid_id)
 
-        if pyg2p.util.files.exists(intertable_name):
+        if self._exists_intertable(intertable_id, intertable_name):
             # interpolation using intertables
             xs, ys, idxs = self._read_intertable(intertable_name)
 
@@ -296,7 +300,7 @@ class Interpolator(Loggable):
             self._log('\nInterpolating table not found\n Id: {}\nWill create file: {}'.format(intertable_id, intertable_name), 'WARN')
             xs, ys, idxs = getattr(grib_interpolation_lib, 'grib_nearest{}'.format('' if not self.parallel else '_parallel'))(gid, self._target_coords.lats, self._target_coords.lons, self._target_coords.mv)
             intertable = np.asarray([xs, ys, idxs])
-            self._save_intertable(intertable_name, intertable)
+            intertable_name = self._save_intertable(intertable_id, intertable_name, intertable)
             self.update_intertable_conf(intertable, intertable_id, intertable_name, v.shape)
         else:
             if intertable_id not in self.intertables_config.vars:
@@ -317,7 +321,7 @@ class Interpolator(Loggable):
         result.fill(self.mv_out)
 
         # check if gid is due to the recursive call
-        if gid == -1 and not pyg2p.util.files.exists(intertable_name):
+        if gid == -1 and not self._exists_intertable(intertable_id, intertable_name):
             # aux_gid and aux_values are only used to create the interlookuptable
             # since manipulated values messages don't have gid reference to grib file any longer
             aux_gid = self._aux_gid
@@ -327,8 +331,9 @@ class Interpolator(Loggable):
                 aux_val = self._aux_2nd_res_val
             self.grib_inverse_distance(aux_val, aux_gid, grid_id, intertable_name=intertable_name,
                                        intertable_id=intertable_id, is_second_res=is_second_res)
+            intertable_id, intertable_name = self._intertable_filename(grid_id)
 
-        if pyg2p.util.files.exists(intertable_name):
+        if self._exists_intertable(intertable_id, intertable_name):
             # interpolation using intertables
             xs, ys, idxs1, idxs2, idxs3, idxs4, coeffs1, coeffs2, coeffs3, coeffs4 = self._read_intertable(intertable_name)
         elif self.create_if_missing:
@@ -346,7 +351,7 @@ class Interpolator(Loggable):
             coeffs = np.asarray([coeffs1, coeffs2, coeffs3, coeffs4, np.zeros(coeffs1.shape), np.zeros(coeffs1.shape)])
             intertable = np.rec.fromarrays((indexes, coeffs), names=('indexes', 'coeffs'))
             # saving interpolation lookup table
-            self._save_intertable(intertable_name, intertable)
+            intertable_name = self._save_intertable(intertable_id, intertable_name, intertable)
             self.update_intertable_conf(intertable, intertable_id, intertable_name, v.shape)
 
         else:
@@ -362,13 +367,24 @@ class Interpolator(Loggable):
         result[xs, ys] = pyg2p.util.numeric.result_masked(res, self.mv_output)
         return result
 
-    @staticmethod
-    def _save_intertable(intertable_name, intertable):
+    def _exists_intertable(self, intertable_id, intertable_name):
+        # a file found with the name of a not configured table is being written by another execution
+        return intertable_id in self.intertables_config.vars and pyg2p.util.files.exists(intertable_name)
+
+    def _save_intertable(self, intertable_id, intertable_name, intertable):
+        while intertable_id not in self.intertables_config.vars:
+            # reserve the name, as another execution could have taken it in the meantime
+            try:
+                os.close(os.open(intertable_name, os.O_CREAT | os.O_EXCL | os.O_WRONLY, 0o666))
+                break
+            except FileExistsError:
+                intertable_name = self._new_intertable_filename()
         # written to a temporary file first: a partially written table must never be found by next executions
         tmp_name = f'{intertable_name}.{os.getpid()}.tmp'
         with gzip.GzipFile(tmp_name, 'w') if intertable_name.endswith('.gz') else open(tmp_name, 'wb') as f:
             np.save(f, intertable)
         os.replace(tmp_name, intertable_name)
+        return intertable_name
 
     def update_intertable_conf(self, intertable, intertable_id, intertable_name, source_shape):
         self._LOADED_INTERTABLES[intertable_name] = intertable
-- 
2.43.0


From 5a6bf938d54c63ad17d8bf693bb4b76f2376b773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:03 +0000
Subject: [PATCH 32/79] fix: time resolution was evaluated also from messages
 of other levels, dates and times

---
 src/pyg2p/main/context.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pyg2p/main/context.py b/src/pyg2p/main/context.py
index 052b67c..3950b4e 100644
--- a/src/pyg2p/main/context.py
+++ b/src/pyg2p/main/context.py
@@ -172,6 +172,10 @@ class Context:
         reader_arguments = {'shortName': str(self._vars['parameter.shortName'])}
         if self.has_perturbation_number:
             reader_arguments['perturbationNumber'] = self._vars['parameter.perturbationNumber']
+        # steps must be the ones of the messages to read
+        for selector in ('level', 'dataTime', 'dataDate'):
+            if self._vars[f'parameter.{selector}'] is not None:
+                reader_arguments[selector] = self._vars[f'parameter.{selector}']
         return reader_arguments
 
 
-- 
2.43.0


From cc7ca183e5a007a7e7a1977037d62a6c16684c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:03 +0000
Subject: [PATCH 33/79] fix: perturbationNumber of the json commands file was
 ignored

---
 src/pyg2p/main/context.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pyg2p/main/context.py b/src/pyg2p/main/context.py
index 3950b4e..b61f18a 100644
--- a/src/pyg2p/main/context.py
+++ b/src/pyg2p/main/context.py
@@ -411,6 +411,8 @@ class ExecutionContext(Context):
             self._vars['parameter.tstart'] = int(exec_conf['Parameter']['@tstart'])
         if self._vars['parameter.tend'] is None and exec_conf['Parameter'].get('@tend'):
             self._vars['parameter.tend'] = int(exec_conf['Parameter']['@tend'])
+        if self._vars['parameter.perturbationNumber'] is None and exec_conf['Parameter'].get('@perturbationNumber') is not None:
+            self._vars['parameter.perturbationNumber'] = int(exec_conf['Parameter']['@perturbationNumber'])
         if self._vars['parameter.dataTime'] is None and exec_conf['Parameter'].get('@dataTime'):
             self._vars['parameter.dataTime'] = int(exec_conf['Parameter']['@dataTime'])  # number
         if self._vars['parameter.dataDate'] is None and exec_conf['Parameter'].get('@dataDate'):
-- 
2.43.0


From 40579c64b57a0d3a7c2df35f20504a71163317aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:04 +0000
Subject: [PATCH 34/79] fix: level defined as a number in json commands file
 was not accepted

---
 src/pyg2p/main/context.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pyg2p/main/context.py b/src/pyg2p/main/context.py
index b61f18a..e674172 100644
--- a/src/pyg2p/main/context.py
+++ b/src/pyg2p/main/context.py
@@ -118,9 +118,13 @@ class Context:
 
             # check all numbers
 
-            if self._vars['parameter.level'] and not self._vars['parameter.level'].isdigit():
+            level = self._vars.get('parameter.level')
+            if level in (None, ''):
+                self._vars['parameter.level'] = None
+            elif not str(level).isdigit():
                 raise ApplicationException.get_exc(NOT_A_NUMBER, 'Parameter level')
-            self._vars['parameter.level'] = int(self._vars['parameter.level']) if self._vars.get('parameter.level') else None
+            else:
+                self._vars['parameter.level'] = int(level)
 
             self._vars['outMaps.unitTime'] = int(self._vars['outMaps.unitTime']) if self._vars['outMaps.unitTime'] is not None else self.default_values['outMaps.unitTime']
 
-- 
2.43.0


From c0f8ddb98c8768bcbcbccefb264cc4441bf716c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:04 +0000
Subject: [PATCH 35/79] fix: end step and data time 0 were ignored

---
 src/pyg2p/main/api.py        | 4 ++--
 src/pyg2p/main/context.py    | 6 +++---
 src/pyg2p/main/controller.py | 4 +++-
 3 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/pyg2p/main/api.py b/src/pyg2p/main/api.py
index 7daa4ec..e4fad15 100644
--- a/src/pyg2p/main/api.py
+++ b/src/pyg2p/main/api.py
@@ -207,9 +207,9 @@ class ApiContext(Context):
         # if missing, GribReader will read all timesteps for the parameter
         if self._vars['parameter.tstart'] is None and self.api_conf['Parameter'].get('tstart'):
             self._vars['parameter.tstart'] = int(self.api_conf['Parameter']['tstart'])
-        if self._vars['parameter.tend'] is None and self.api_conf['Parameter'].get('tend'):
+        if self._vars['parameter.tend'] is None and self.api_conf['Parameter'].get('tend') not in (None, ''):
             self._vars['parameter.tend'] = int(self.api_conf['Parameter']['tend'])
-        if self._vars['parameter.dataTime'] is None and self.api_conf['Parameter'].get('dataTime'):
+        if self._vars['parameter.dataTime'] is None and self.api_conf['Parameter'].get('dataTime') not in (None, ''):
             self._vars['parameter.dataTime'] = int(self.api_conf['Parameter']['dataTime'])  # number
         if self._vars['parameter.dataDate'] is None and self.api_conf['Parameter'].get('dataDate'):
             self._vars['parameter.dataDate'] = int(self.api_conf['Parameter']['dataDate'])  # date
diff --git a/src/pyg2p/main/context.py b/src/pyg2p/main/context.py
index e674172..ecbe1b8 100644
--- a/src/pyg2p/main/context.py
+++ b/src/pyg2p/main/context.py
@@ -129,7 +129,7 @@ class Context:
             self._vars['outMaps.unitTime'] = int(self._vars['outMaps.unitTime']) if self._vars['outMaps.unitTime'] is not None else self.default_values['outMaps.unitTime']
 
             # check tstart<=tend
-            if self._vars['parameter.tstart'] and self._vars['parameter.tend'] and not self._vars['parameter.tstart'] <= self._vars['parameter.tend']:
+            if self._vars['parameter.tstart'] is not None and self._vars['parameter.tend'] is not None and not self._vars['parameter.tstart'] <= self._vars['parameter.tend']:
                 raise ApplicationException.get_exc(1500)
 
             # check both correction params are present
@@ -413,11 +413,11 @@ class ExecutionContext(Context):
         # if missing, GribReader will read all timesteps for the parameter
         if self._vars['parameter.tstart'] is None and exec_conf['Parameter'].get('@tstart'):
             self._vars['parameter.tstart'] = int(exec_conf['Parameter']['@tstart'])
-        if self._vars['parameter.tend'] is None and exec_conf['Parameter'].get('@tend'):
+        if self._vars['parameter.tend'] is None and exec_conf['Parameter'].get('@tend') not in (None, ''):
             self._vars['parameter.tend'] = int(exec_conf['Parameter']['@tend'])
         if self._vars['parameter.perturbationNumber'] is None and exec_conf['Parameter'].get('@perturbationNumber') is not None:
             self._vars['parameter.perturbationNumber'] = int(exec_conf['Parameter']['@perturbationNumber'])
-        if self._vars['parameter.dataTime'] is None and exec_conf['Parameter'].get('@dataTime'):
+        if self._vars['parameter.dataTime'] is None and exec_conf['Parameter'].get('@dataTime') not in (None, ''):
             self._vars['parameter.dataTime'] = int(exec_conf['Parameter']['@dataTime'])  # number
         if self._vars['parameter.dataDate'] is None and exec_conf['Parameter'].get('@dataDate'):
             self._vars['parameter.dataDate'] = int(exec_conf['Parameter']['@dataDate'])  # date
diff --git a/src/pyg2p/main/controller.py b/src/pyg2p/main/controller.py
index 45086ac..e632dd4 100644
--- a/src/pyg2p/main/controller.py
+++ b/src/pyg2p/main/controller.py
@@ -37,7 +37,9 @@ class Controller(Loggable):
 
         # read grib messages
         start_step = self.ctx.get('parameter.tstart') or 0
-        end_step = self.ctx.get('parameter.tend') or grib_info.end
+        end_step = self.ctx.get('parameter.tend')
+        if end_step is None:
+            end_step = grib_info.end
 
         if self.ctx.must_do_correction and self.grib_reader.has_geopotential():
             self.ctx.set_input_file_with_geopotential()
-- 
2.43.0


From e629b775735e6edd95dc2b6bc2b0cb678d4a0c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:04 +0000
Subject: [PATCH 36/79] fix: commands of the API could not be created without a
 string

---
 src/pyg2p/main/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyg2p/main/api.py b/src/pyg2p/main/api.py
index e4fad15..e6b4cd1 100644
--- a/src/pyg2p/main/api.py
+++ b/src/pyg2p/main/api.py
@@ -54,7 +54,7 @@ class Command:
         return self
 
     def __init__(self, cmd_string=None, **params):
-        cmd_string = cmd_string.lstrip('pyg2p').strip()
+        cmd_string = (cmd_string or '').lstrip('pyg2p').strip()
         if params:
             opts = params.copy()
             # string interpolation
-- 
2.43.0


From b0e6b20d5f982f6a4446f221a36fbb5c12568b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:20 +0000
Subject: [PATCH 37/79] fix: flags in commands of the API shifted all other
 arguments

---
 src/pyg2p/util/strings.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/pyg2p/util/strings.py b/src/pyg2p/util/strings.py
index 0c2231e..d9b3790 100644
--- a/src/pyg2p/util/strings.py
+++ b/src/pyg2p/util/strings.py
@@ -29,8 +29,19 @@ def to_argv(string_):
 
 
 def to_argdict(string_):
-    c = re.split(' |=', string_.strip(), maxsplit=0)
-    return dict(zip(c[0::2], c[1::2]))
+    c = [arg for arg in re.split(' |=', string_.strip(), maxsplit=0) if arg]
+    res = {}
+    while c:
+        key = c.pop(0)
+        if _is_option(key) and (not c or _is_option(c[0])):
+            res[key] = ''  # flag: option without a value
+        elif c:
+            res[key] = c.pop(0)
+    return res
+
+
+def _is_option(string_):
+    return re.match(r'--?[a-zA-Z]', string_) is not None
 
 
 FALSE_STRINGS = ['FALSE', 'F', 'f', 'False', 'false', 'NO', 'no', 'No', '0', 'off', 'OFF', 'Off', 'nO']
-- 
2.43.0


From ef0a598d277be3fdf8248c31c1eb49994e590335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:29 +0000
Subject: [PATCH 38/79] fix: netCDF output failed with valueFormat i8, u1, u2,
 u4 and u8

---
 src/pyg2p/main/writers/__init__.py | 2 +-
 src/pyg2p/main/writers/netcdf.py   | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/pyg2p/main/writers/__init__.py b/src/pyg2p/main/writers/__init__.py
index e42b7c3..501c20b 100644
--- a/src/pyg2p/main/writers/__init__.py
+++ b/src/pyg2p/main/writers/__init__.py
@@ -95,7 +95,7 @@ class OutputWriter(Loggable):
                         value_format=self.ctx.get('outMaps.valueFormat'),
                         offset=self.ctx.get('outMaps.offset'),
                         scale_factor=self.ctx.get('outMaps.scaleFactor'))
-        self.writer.init_dataset(out_filename)
+        self.writer.init_dataset(out_filename, self.ctx.get('outMaps.valueFormat'))
 
         self.writer.write(out_values, time_values, **var_args)
 
diff --git a/src/pyg2p/main/writers/netcdf.py b/src/pyg2p/main/writers/netcdf.py
index dfcf57f..2e0dcc6 100644
--- a/src/pyg2p/main/writers/netcdf.py
+++ b/src/pyg2p/main/writers/netcdf.py
@@ -49,8 +49,10 @@ class NetCDFWriter(Writer):
             self.lats[self.lats == coordinates_mv] = np.nan
             self.lons[self.lons == coordinates_mv] = np.nan
 
-    def init_dataset(self, out_filename):
-        self.nf = Dataset(out_filename, 'w', format='NETCDF4_CLASSIC')
+    def init_dataset(self, out_filename, value_format=None):
+        # unsigned and 64 bits integers do not exist in the classic data model
+        data_model = 'NETCDF4' if value_format in ('i8', 'u1', 'u2', 'u4', 'u8') else 'NETCDF4_CLASSIC'
+        self.nf = Dataset(out_filename, 'w', format=data_model)
         self.filepath = out_filename
         time_created = time.ctime(time.time())
         self.nf.history = f'Created {time_created}'
-- 
2.43.0


From 743f4fce528c073ec245f2328b6bdba835ccbfe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:13 +0000
Subject: [PATCH 39/79] fix: first resolution windows of accumulated messages
 were lost with two resolutions

---
 src/pyg2p/main/controller.py   | 6 ++++--
 src/pyg2p/main/readers/grib.py | 2 +-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/pyg2p/main/controller.py b/src/pyg2p/main/controller.py
index e632dd4..e19d022 100644
--- a/src/pyg2p/main/controller.py
+++ b/src/pyg2p/main/controller.py
@@ -1,7 +1,7 @@
 import collections
 
 from .. import Loggable
-from ..main.manipulation.aggregator import Aggregator
+from ..main.manipulation.aggregator import Aggregator, PARAM_CUM
 from ..main.readers.grib import GRIBReader
 from ..main.writers import OutputWriter
 
@@ -117,7 +117,9 @@ class Controller(Loggable):
             if messages.have_resolution_change():
                 change_res_step = messages.change_resolution_step()
                 # First resolution manipulation by setting end step as start step of the first message at 2nd resolution
-                aggregator.change_end_step(int(change_res_step.start_step))
+                # (accumulated messages start all at the same step: end step has to be used)
+                end_first_res = change_res_step.end_step if messages.step_type == PARAM_CUM else change_res_step.start_step
+                aggregator.change_end_step(int(end_first_res))
             values = aggregator.do_manipulation(values)
 
         change_res_step = None
diff --git a/src/pyg2p/main/readers/grib.py b/src/pyg2p/main/readers/grib.py
index 50bb10c..700dcd6 100644
--- a/src/pyg2p/main/readers/grib.py
+++ b/src/pyg2p/main/readers/grib.py
@@ -210,7 +210,7 @@ class GRIBReader(Loggable):
                     all_values_second_res[step_key] = values
 
             if grid2:
-                key_2nd_spatial_res = min(all_values_second_res.keys())
+                key_2nd_spatial_res = min(all_values_second_res.keys(), key=lambda k: int(k.end_step))
                 grid.set_2nd_resolution(grid2, key_2nd_spatial_res)
             return Messages(all_values, missing_value, unit, type_of_level, type_of_step, step_units, grid, all_values_second_res, data_date=data_date, data_time=f'{data_time:04d}'[:2])
         # no messages found
-- 
2.43.0


From ad47bc912564f91aa7b60fc506fe311ea2d8fa6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:15 +0000
Subject: [PATCH 40/79] fix: geopotential of the input file was used also for
 the grid of the second resolution

---
 src/pyg2p/main/context.py    | 16 +++++++++++++---
 src/pyg2p/main/controller.py |  4 +++-
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/pyg2p/main/context.py b/src/pyg2p/main/context.py
index ecbe1b8..96dc03a 100644
--- a/src/pyg2p/main/context.py
+++ b/src/pyg2p/main/context.py
@@ -27,6 +27,7 @@ class Context:
         # init vars
         self.to_add_geopotential = False
         self.input_file_with_geopotential = None
+        self.input_geopotential_grid_id = None
         self._vars = {}
 
     def _define_exec_params(self):
@@ -39,8 +40,9 @@ class Context:
     def get(self, param, default=None):
         return self._vars.get(param, default)
 
-    def set_input_file_with_geopotential(self):
+    def set_input_file_with_geopotential(self, grid_id):
         self.input_file_with_geopotential = self.get('input.file')
+        self.input_geopotential_grid_id = grid_id
 
     @property
     def is_with_grib_interpolation(self):
@@ -140,9 +142,17 @@ class Context:
             if self._vars['execution.doCorrection'] and not files.exists(self._vars['correction.demMap']):
                 raise ApplicationException.get_exc(4200, self._vars['correction.demMap'])
 
+    @staticmethod
+    def _is_same_grid(grid_id, other_grid_id):
+        # number of values (fifth field) depends on missing values of the message
+        fields, other_fields = grid_id.split('$'), other_grid_id.split('$')
+        return fields[:4] + fields[5:] == other_fields[:4] + other_fields[5:]
+
     def geo_file(self, grid_id):
-        path = self.input_file_with_geopotential
-        if not path:
+        if self.input_file_with_geopotential and self._is_same_grid(grid_id, self.input_geopotential_grid_id):
+            path = self.input_file_with_geopotential
+        else:
+            # also for the second resolution, when the geopotential in the input file is on the first one
             path = self.configuration.geopotentials.get_filepath(grid_id, additional=self._vars['geopotential.dirs'].get('user'))
         return path
 
diff --git a/src/pyg2p/main/controller.py b/src/pyg2p/main/controller.py
index e19d022..b4062d9 100644
--- a/src/pyg2p/main/controller.py
+++ b/src/pyg2p/main/controller.py
@@ -1,6 +1,7 @@
 import collections
 
 from .. import Loggable
+from ..main.config import GeopotentialsConfiguration
 from ..main.manipulation.aggregator import Aggregator, PARAM_CUM
 from ..main.readers.grib import GRIBReader
 from ..main.writers import OutputWriter
@@ -42,7 +43,8 @@ class Controller(Loggable):
             end_step = grib_info.end
 
         if self.ctx.must_do_correction and self.grib_reader.has_geopotential():
-            self.ctx.set_input_file_with_geopotential()
+            geo_grid_id = GRIBReader.get_id(self.ctx.get('input.file'), {'shortName': GeopotentialsConfiguration.short_names})
+            self.ctx.set_input_file_with_geopotential(geo_grid_id)
 
         if self.ctx.must_do_aggregation:
             aggregator = Aggregator(aggr_step=self.ctx.get('aggregation.step'),
-- 
2.43.0


From b400fda1023b903db36497129fb76f5872c4974b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:17 +0000
Subject: [PATCH 41/79] fix: maps of the first resolution were written by
 executions failing for the second one

---
 src/pyg2p/main/writers/__init__.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/pyg2p/main/writers/__init__.py b/src/pyg2p/main/writers/__init__.py
index 501c20b..71d7968 100644
--- a/src/pyg2p/main/writers/__init__.py
+++ b/src/pyg2p/main/writers/__init__.py
@@ -104,17 +104,18 @@ class OutputWriter(Loggable):
         lats, longs = messages.latlons
         geodetic_info = messages.grid_details
         grid_id = messages.grid_id
-
-        for i, (timestep, v) in enumerate(values.items(), start=1):
+        out_values = []
+        for timestep, v in values.items():
             # note: timestep and change_res_step are instances of pyg2p.Step class
-            # writing map i
             if messages.have_resolution_change() and timestep == change_res_step:
                 # Switching to second resolution
                 lats, longs = messages.latlons_2nd
                 geodetic_info = messages.grid_details.get_2nd_resolution()
                 grid_id = messages.grid2_id
                 is_second_res = True
-            out_v = self._output_values(lats, longs, v, grid_id, geodetic_info, is_second_res)
+            out_values.append(self._output_values(lats, longs, v, grid_id, geodetic_info, is_second_res))
+        # write only when all the maps are available (i.e. table or geopotential of the second resolution could be missing)
+        for i, out_v in enumerate(out_values, start=1):
             self.writer.write(self._name_pcr_map(i), out_v)
 
     def write_maps(self, values, messages, change_res_step=None):
-- 
2.43.0


From b34e3d4091c805407deddbe8631acd78354d6169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:13 +0000
Subject: [PATCH 42/79] fix: geopotential of the input file was not found when
 an ensemble member is requested

---
 src/pyg2p/main/readers/grib.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pyg2p/main/readers/grib.py b/src/pyg2p/main/readers/grib.py
index 700dcd6..37715f4 100644
--- a/src/pyg2p/main/readers/grib.py
+++ b/src/pyg2p/main/readers/grib.py
@@ -86,14 +86,17 @@ class GRIBReader(Loggable):
         from pyg2p.main.config import GeopotentialsConfiguration
         v_selected = GeopotentialsConfiguration.short_names
         if self._grbindx:
+            # geopotential has not to match the ensemble member, which is a key of the index of the reader, too
+            index = codes_index_new_from_file(str(self._grib_file), ['shortName'])
             for v in v_selected:
-                codes_index_select(self._grbindx, 'shortName', str(v))
+                codes_index_select(index, 'shortName', str(v))
                 while 1:
-                    gid = codes_new_from_index(self._grbindx)
+                    gid = codes_new_from_index(index)
                     if gid is None:
                         break
                     has_geo = True
                     codes_release(gid)
+            codes_index_release(index)
 
         elif self._file_handler:
             self._file_handler.seek(0)
-- 
2.43.0


From 191dcadff18ddce348de3355073cce27d761027e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:08 +0000
Subject: [PATCH 43/79] fix: cdd interpolation with NewEtAl mode always failed
 compiling the weights function

---
 src/pyg2p/main/interpolation/scipy_interpolation_lib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
index 583e275..fc891ec 100644
--- a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
+++ b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
@@ -451,7 +451,7 @@ def cdd_hofstra_shepard_compute_weights_from_cutoff_distances(distances, CDD_map
     return s
 
 
-@njit(parallel=True, fastmath=False, cache=True)
+# (not compiled: numba does not support the indexing by couples of arrays)
 def cdd_newetal_compute_weights_from_cutoff_distances(distances, CDD_map, indexes, longrib, latgrib, TargetLonRes, TargetLatRes, LonOrigin, LatOrigin, s):
     # New et al. 2000 
     # no search radius applied
-- 
2.43.0


From 026854671a88722b3cfd85efd2e10d675dee8c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:08 +0000
Subject: [PATCH 44/79] fix: bilinear_delaunay failed when target cells were in
 the last triangles of the grid

---
 src/pyg2p/main/interpolation/scipy_interpolation_lib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
index fc891ec..b45a5e4 100644
--- a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
+++ b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
@@ -1444,7 +1444,7 @@ class ScipyInterpolation(object):
             # add the fourth point to each idxs[nn] from the near triangle on the longest side
             idxs = np.column_stack((idxs,empty(idxs.shape[0],-1,dtype=idxs.dtype)))
             idxs_tri_neighbors = tri.neighbors[idxs_tri]
-            idxs_tri_neighbors_to_use = empty(idxs_tri_neighbors.max()+1,-1,dtype=idxs_tri.dtype)
+            idxs_tri_neighbors_to_use = empty(len(tri.simplices),-1,dtype=idxs_tri.dtype)
 
         for nn in range(len(idxs_tri)):
             if nn % progress_step == 0:
-- 
2.43.0


From 9cfd9ce3628ea45229fba76219b59067ce0e1289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:08 +0000
Subject: [PATCH 45/79] fix: triangulation used the latitude of the first
 column for all the cells of a row

---
 src/pyg2p/main/interpolation/scipy_interpolation_lib.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
index b45a5e4..119dd73 100644
--- a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
+++ b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
@@ -1404,7 +1404,9 @@ class ScipyInterpolation(object):
         tri = Delaunay(gribpoints_scaled)        
         #tri = Delaunay(gribpoints)
         p = np.stack((self.target_latsOR[:,:].ravel(),self.target_lonsOR[:,:].ravel()),axis=-1)
-        target_latsORscaled = self.target_latsOR[:,0].copy()
+        # each latitude is scaled only once, as they are usually repeated along the rows
+        target_lats_unique, target_lats_inverse = np.unique(self.target_latsOR, return_inverse=True)
+        target_latsORscaled = target_lats_unique.copy()
         # In case of non rotated grib files, the grid has variable number of points according to the latitude, 
         # so adjust the grid spaces for an effective triangulation
         # In case of rotated grid, instead, use the original grid points, that is fine for the spece even if it is rotaded
@@ -1413,7 +1415,7 @@ class ScipyInterpolation(object):
                 target_latsORscaled[i], error = quad(integrand, 0, np.radians(target_latsORscaled[i]))
             target_latsORscaled[:] = target_latsORscaled[:]*90*10/max(quad(integrand, 0, np.radians(max(gribpoints[:,0]))))
         
-        target_latsORscaled = np.ones((1, self.target_latsOR.shape[1])) * target_latsORscaled.reshape(-1,1)
+        target_latsORscaled = target_latsORscaled[target_lats_inverse.ravel()]
         p_scaled = np.stack((target_latsORscaled.ravel(),self.target_lonsOR[:,:].ravel()),axis=-1)
 
         result = mask_it(np.empty((p.shape[0],) +
-- 
2.43.0


From 295054cb14050637cce3ac58b30feac61c8dd54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:08 +0000
Subject: [PATCH 46/79] fix: triangulation of grids without positive latitudes
 gave missing values only

---
 src/pyg2p/main/interpolation/scipy_interpolation_lib.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
index 119dd73..69c5fa3 100644
--- a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
+++ b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
@@ -1399,7 +1399,11 @@ class ScipyInterpolation(object):
             for i in range(gribpoints_scaled.shape[0]):
                 gribpoints_scaled[i,0], error = quad(integrand, 0, np.radians(gribpoints_scaled[i,0]))
 
-            gribpoints_scaled[:,0] = gribpoints_scaled[:,0]*90*10/max(gribpoints_scaled[:,0])
+            # grids of the southern emisphere have no positive latitudes
+            max_latgrib_scaled = max(gribpoints_scaled[:,0])
+            if max_latgrib_scaled <= 0:
+                max_latgrib_scaled = max(abs(gribpoints_scaled[:,0]))
+            gribpoints_scaled[:,0] = gribpoints_scaled[:,0]*90*10/max_latgrib_scaled
 
         tri = Delaunay(gribpoints_scaled)        
         #tri = Delaunay(gribpoints)
@@ -1413,7 +1417,7 @@ class ScipyInterpolation(object):
         if self.source_grid_is_rotated == False:
             for i in range(target_latsORscaled[:].shape[0]):
                 target_latsORscaled[i], error = quad(integrand, 0, np.radians(target_latsORscaled[i]))
-            target_latsORscaled[:] = target_latsORscaled[:]*90*10/max(quad(integrand, 0, np.radians(max(gribpoints[:,0]))))
+            target_latsORscaled[:] = target_latsORscaled[:]*90*10/max_latgrib_scaled
         
         target_latsORscaled = target_latsORscaled[target_lats_inverse.ravel()]
         p_scaled = np.stack((target_latsORscaled.ravel(),self.target_lonsOR[:,:].ravel()),axis=-1)
-- 
2.43.0


From 77194a0b9190de5a1c8f21137942e1f3cece0c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:40 +0000
Subject: [PATCH 47/79] fix: interpolation on quadrilaterals and triangles
 mixed up different conventions of longitudes

---
 .../interpolation/scipy_interpolation_lib.py  | 28 ++++++++++++++++---
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
index 69c5fa3..3761c4e 100644
--- a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
+++ b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
@@ -530,7 +530,8 @@ class ScipyInterpolation(object):
         self.target_grid_is_rotated = target_is_rotated
         self.njobs = 1 if not parallel else -1
         
-        self.longrib = longrib
+        self.lon_max = self._get_lon_max(longrib)
+        self.longrib = self._normalize_longitudes(longrib)
         self.latgrib = latgrib
         self.nnear = nnear
         self.mode = mode
@@ -569,7 +570,25 @@ class ScipyInterpolation(object):
             # set max of distances as min upper bound and add an empirical correction value
             self.min_upper_bound = np.max(distances) + np.max(distances) * 4 / self.geodetic_info.get('Nj')
 
+    @staticmethod
+    def _get_lon_max(longrib):
+        # source and target longitudes have to be in the same reference system: [-180, 180], unless the source
+        # is a regional grid crossing the 180th meridian, that must not be cut there
+        lons = np.unique(np.where(longrib > 180, longrib - 360, longrib))
+        gaps = np.diff(lons)
+        if gaps.size == 0 or gaps.max() <= 1.01 * (360 - (lons[-1] - lons[0])):
+            return 180
+        # middle of the part of the globe which is not covered
+        widest = np.argmax(gaps)
+        lon_max = (lons[widest] + lons[widest + 1]) / 2
+        return lon_max if lon_max > 0 else lon_max + 360
+
+    def _normalize_longitudes(self, lons):
+        lons = np.where(lons > self.lon_max, lons - 360, lons)
+        return np.where(lons < self.lon_max - 360, lons + 360, lons)
+
     def interpolate(self, lonefas, latefas):        
+        lonefas = self._normalize_longitudes(lonefas)
         # whole target coordinates and rows of the target being interpolated
         self.target_lons_all = lonefas
         self.target_lats_all = latefas
@@ -1165,7 +1184,8 @@ class ScipyInterpolation(object):
         longrib_min = self.longrib.min()
         # evaluate an approx_grib_resolution by using 10 times the first longidure values 
         # to check if the whole globe is covered
-        approx_grib_resolution = abs(self.longrib[0]-self.longrib[1])*1.5
+        approx_grib_resolution = abs(self.longrib[0]-self.longrib[1])
+        approx_grib_resolution = min(approx_grib_resolution, 360-approx_grib_resolution)*1.5
         is_global_map = (360-(longrib_max-longrib_min))<approx_grib_resolution
         # for nn in range(25898400,len(indexes)):
         for nn in range(len(indexes)):
@@ -1360,14 +1380,14 @@ class ScipyInterpolation(object):
 
         normalized_latgrib=self.latgrib.copy()
         normalized_longrib=self.longrib.copy()
-        normalized_longrib[normalized_longrib>180]-=360
         z=self.z.copy()
 
         longrib_max = normalized_longrib.max()
         longrib_min = normalized_longrib.min()
         # evaluate an approx_grib_resolution by using 10 times the first longitude values 
         # to check if the whole globe is covered
-        approx_grib_resolution = abs(normalized_longrib[0]-normalized_longrib[1])*1.5
+        approx_grib_resolution = abs(normalized_longrib[0]-normalized_longrib[1])
+        approx_grib_resolution = min(approx_grib_resolution, 360-approx_grib_resolution)*1.5
         is_global_map = (360-(longrib_max-longrib_min))<approx_grib_resolution
         if is_global_map:
             #additional points map
-- 
2.43.0


From ea932afedce9f6e674641155931a11edd0f15dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:28 +0000
Subject: [PATCH 48/79] fix: bilinear interpolation used corners of a previous
 cell, or never ended, when no quadrilateral was found in a number of attempts
 depending on target size

---
 .../interpolation/scipy_interpolation_lib.py     | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
index 3761c4e..f4a0ff7 100644
--- a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
+++ b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
@@ -1173,8 +1173,9 @@ class ScipyInterpolation(object):
         outs = 0            # number of points falling outside the min_upper_bound distance
         not_in_quad = 0     # number of points falling outside quadrilaterals after max_retries
 
-        # max number of retry equals to a full lenght of lon coordinates
-        max_retries = self.target_lonsOR.shape[0]        
+        # max number of retry equals to a full lenght of lon coordinates (of source or target, whatever the splits are)
+        longest_parallel = np.unique(self.latgrib, return_counts=True)[1].max()
+        max_retries = min(max(self.target_lons_all.shape[0], 2 * longest_parallel), self.longrib.size - nnear - 4)
         max_used_additional_points = 0
         nn_max_used_additional_points = -1
 
@@ -1220,14 +1221,18 @@ class ScipyInterpolation(object):
             else:
                 self.target_location = efas_locations[nn]
                 additional_points = 0
+                attempts = 0
                 quadrilateral_is_ok = False
+                self.p1 = None
                 # additional checks only if source_grid_is_rotated is False
                 if self.source_grid_is_rotated == False:
                     additional_checks_completed = False
                 else:
                     additional_checks_completed = True
-                    max_retries = 20
-                while quadrilateral_is_ok == False and additional_points<max_retries:  
+                    max_retries = min(max_retries, 20)
+                # (not every attempt adds points)
+                while quadrilateral_is_ok == False and (attempts == 0 or additional_points<max_retries) and attempts<=2*max_retries:
+                    attempts += 1
                     # find the 4 corners
                     i1, i2, i3, i4 = indexes[nn, 0:4]
                     idxs[nn, :] = indexes[nn, 0:4]
@@ -1342,6 +1347,9 @@ class ScipyInterpolation(object):
                     if quadrilateral_is_ok==False:
                         #print("\nError: quadrilateral_is_ok is False, failed to find a correct quadrilateral: nn is {}, lat={} lon={}".format(nn, self.lat_in, self.lon_in))
                         not_in_quad+=1
+                        if self.p1 is None:
+                            # use the current corners, and not the ones of a previous point
+                            self.p1, self.p2, self.p3, self.p4 = get_clockwise_points(corners_points)
 
                     [alpha, beta] = np.clip(opt.fsolve(self._functionAlphaBeta, (0.5, 0.5)), 0, 1)
                     weight1[nn] = (1-alpha)*(1-beta)
-- 
2.43.0


From 5a30365a9cdfeae16ce2cdbb90f05813b41fcb9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:27 +0000
Subject: [PATCH 49/79] fix: angular distance interpolation gave missing values
 where all the nearest points have the same distance (poles of regular grids)

---
 src/pyg2p/main/interpolation/scipy_interpolation_lib.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
index f4a0ff7..55abb70 100644
--- a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
+++ b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
@@ -1046,6 +1046,11 @@ class ScipyInterpolation(object):
         #normalize weights
         if (adw_type=='Shepard') or (adw_type=='CDD'):
             sums = np.sum(w, axis=1, keepdims=True)
+            if (adw_type=='Shepard'):
+                # all the points have the same distance (i.e. points at the pole of a regular grid)
+                same_distance = sums[:, 0] == 0
+                w[same_distance] = 1
+                sums[same_distance] = nnear
             weights = w / sums
         else:
             sums = np.sum(w[dist_leq_min_upper_bound], axis=1, keepdims=True)
-- 
2.43.0


From 88d7d526ee3161124302e7530308a588edf5d995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:39 +0000
Subject: [PATCH 50/79] fix: nearest interpolation with number of splits always
 failed

---
 .../main/interpolation/scipy_interpolation_lib.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
index 55abb70..ad071b8 100644
--- a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
+++ b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
@@ -612,10 +612,7 @@ class ScipyInterpolation(object):
             # at least one row, as there can be more splits than rows
             subset_size = max(1, lonefas.shape[0]//self.num_of_splits)
 
-            # Initialize empty arrays to store the results
-            weights = np.empty((lonefas.shape[0]*lonefas.shape[1],self.nnear),dtype=lonefas.dtype)
-            indexes = np.empty((lonefas.shape[0]*lonefas.shape[1],self.nnear),dtype=int)
-            result = np.empty((lonefas.shape[0]*lonefas.shape[1]),dtype=lonefas.dtype)
+            results = []
 
             # Iterate over the subsets of the arrays
             for i in range(0, lonefas.shape[0], subset_size):
@@ -624,13 +621,11 @@ class ScipyInterpolation(object):
 
                 # Call the interpolate function for the subset
                 self.target_rows = slice(i, i+subset_size)
-                subset_result, subset_weights, subset_indexes = self.interpolate_split(subset_lonefas, subset_latefas, ref_radius)
+                results.append(self.interpolate_split(subset_lonefas, subset_latefas, ref_radius))
+
+            # Collect the results back
+            result, weights, indexes = (np.concatenate(arrays) for arrays in zip(*results))
 
-                # Collect the results back into the weights and indexes arrays
-                weights[i*lonefas.shape[1]:(i+subset_size)*lonefas.shape[1],:] = subset_weights
-                indexes[i*lonefas.shape[1]:(i+subset_size)*lonefas.shape[1],:] = subset_indexes
-                result[i*lonefas.shape[1]:(i+subset_size)*lonefas.shape[1]] = subset_result
-        
         else:
             result, weights, indexes = self.interpolate_split(lonefas, latefas)
 
-- 
2.43.0


From 13886525b7507adda23383890f5798dd3214d9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:51 +0000
Subject: [PATCH 51/79] fix: parallel interpolation with GRIB library always
 failed, as messages are unknown to spawned processes

---
 src/pyg2p/main/interpolation/grib_interpolation_lib.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/pyg2p/main/interpolation/grib_interpolation_lib.py b/src/pyg2p/main/interpolation/grib_interpolation_lib.py
index 6f4febb..d92452a 100644
--- a/src/pyg2p/main/interpolation/grib_interpolation_lib.py
+++ b/src/pyg2p/main/interpolation/grib_interpolation_lib.py
@@ -11,7 +11,7 @@ from sys import stdout
 import eccodes
 import numexpr as ne
 import numpy as np
-from dask import bag
+from dask import bag, config as dask_config
 from dask.diagnostics import ProgressBar
 
 from ...util.generics import progress_step_and_backchar
@@ -168,7 +168,8 @@ def grib_nearest_parallel(gid, target_lats, target_lons, mv):
     apply_to_chunk_part = partial(apply_nearest_to_chunk, gid=gid, mv=mv)
     result = init_parallel(apply_to_chunk_part, mv, nchunks, target_lats, target_lons)
     progress = ProgressBar(dt=10)
-    with progress:
+    # GRIB messages are only known to forked processes
+    with progress, dask_config.set({'multiprocessing.context': 'fork'}):
         result = result.compute()
     idxs, xs, ys = concatenate_nearest_result(nchunks, result)
     return xs, ys, idxs
@@ -214,7 +215,8 @@ def grib_invdist_parallel(gid, target_lats, target_lons, mv):
     result = init_parallel(apply_to_chunk_part, mv, nchunks, target_lats, target_lons)
 
     progress = ProgressBar(dt=10)
-    with progress:
+    # GRIB messages are only known to forked processes
+    with progress, dask_config.set({'multiprocessing.context': 'fork'}):
         result = result.compute()
     idxs1, idxs2, idxs3, idxs4, xs, ys, invs1, invs2, invs3, invs4 = concatenate_invdist_result(nchunks, result)
 
-- 
2.43.0


From b84b07bdf02fdab29f7f13e4627d5f68db3bba21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:23 +0000
Subject: [PATCH 52/79] fix: angles of points across the 180th meridian were
 wrong in angular distance and cdd interpolations

---
 src/pyg2p/main/interpolation/scipy_interpolation_lib.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
index ad071b8..e89d8a5 100644
--- a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
+++ b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
@@ -485,6 +485,8 @@ def adw_and_cdd_compute_weights_directional_in_broadcasting(
     # Compute xi_diff and yi_diff for all elements
     xi_diff = lat_inALL.reshape(-1,1) - xi.reshape(-1,k)
     yi_diff = lon_inALL.reshape(-1,1) - yi.reshape(-1,k)
+    # points can be on the other side of the 180th meridian
+    yi_diff = np.where(yi_diff > 180, yi_diff - 360, np.where(yi_diff <= -180, yi_diff + 360, yi_diff))
     # Compute Di for all elements
     Di = np.sqrt(xi_diff**2 + yi_diff**2)
     # Compute cos_theta for all elements
@@ -964,6 +966,8 @@ class ScipyInterpolation(object):
                 for i in range(nnear):
                     xj_diff = self.lat_inALL[:, np.newaxis] - self.latgrib[indexes]
                     yj_diff = self.lon_inALL[:, np.newaxis] - self.longrib[indexes]
+                    # points can be on the other side of the 180th meridian
+                    yj_diff = np.where(yj_diff > 180, yj_diff - 360, np.where(yj_diff <= -180, yj_diff + 360, yj_diff))
                     
                     Dj = np.sqrt(xj_diff**2 + yj_diff**2)
                     # we could use "distances", but we are actually evaluating the cos funcion on lat and lon values, that 
-- 
2.43.0


From c2f779e11ea9440a5923db9536b733099a48b3aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:26 +0000
Subject: [PATCH 53/79] fix: tables and geopotentials registered by another
 execution at the same time were lost

---
 src/pyg2p/main/config.py                 | 54 +++++++++++++++++++-----
 src/pyg2p/main/interpolation/__init__.py | 11 ++---
 2 files changed, 50 insertions(+), 15 deletions(-)

diff --git a/src/pyg2p/main/config.py b/src/pyg2p/main/config.py
index d17afb7..47673b3 100644
--- a/src/pyg2p/main/config.py
+++ b/src/pyg2p/main/config.py
@@ -1,8 +1,11 @@
+import fcntl
 import json
 import os
 import re
+from contextlib import contextmanager
 from copy import deepcopy
 from ftplib import FTP
+from functools import wraps
 import itertools
 from pkg_resources import resource_stream
 
@@ -81,6 +84,15 @@ class UserConfiguration(pyg2p.Loggable):
                 raise ApplicationException.get_exc(NO_VAR_DEFINED, str(vars_not_defined))
 
 
+def exclusive(method):
+    """Decorator of methods changing the configuration file of the user"""
+    @wraps(method)
+    def wrapper(self, *args):
+        with self.locked():
+            return method(self, *args)
+    return wrapper
+
+
 class BaseConfiguration(pyg2p.Loggable):
     config_file_ = ''
     data_path_var = ''
@@ -123,7 +135,10 @@ class BaseConfiguration(pyg2p.Loggable):
             self.user_vars = {'description': self.description}
             if self.init_dict:
                 self.user_vars.update(self.init_dict)
-            self.dump()
+            with self.locked():
+                # another execution could have created it in the meantime
+                if not file_util.exists(self.config_file):
+                    self.dump()
         else:
             self.user_vars = self._load()
         self.vars.update(self.user_vars)
@@ -147,6 +162,22 @@ class BaseConfiguration(pyg2p.Loggable):
             f.write(json.dumps(user_vars, sort_keys=True, indent=4))
         os.replace(tmp_file, self.config_file)
 
+    @contextmanager
+    def locked(self):
+        """
+        Exclusive access to the configuration files of the user. The current one is read again,
+        as other executions could have changed it in the meantime and their changes must not get lost.
+        """
+        lock = os.open(self.user_configuration.config_dir, os.O_RDONLY)
+        try:
+            fcntl.flock(lock, fcntl.LOCK_EX)
+            if file_util.exists(self.config_file):
+                self.user_vars = self._load()
+                self.vars.update(self.user_vars)
+            yield
+        finally:
+            os.close(lock)
+
     def check_write(self):
         if not self.data_path:
             # user hasn't defined his own data folder for geopotentials.
@@ -231,6 +262,7 @@ class GeopotentialsConfiguration(BaseConfiguration):
     short_names = ['fis', 'z', 'FIS', 'orog']
     description = 'Config file for geopotentials. Do NOT edit this file!'
 
+    @exclusive
     def add(self, filepath):
         args = {'shortName': self.short_names}
         id_ = GRIBReader.get_id(filepath, reader_args=args)
@@ -252,6 +284,7 @@ class GeopotentialsConfiguration(BaseConfiguration):
         self.user_vars[id_] = name
         self.dump()
 
+    @exclusive
     def remove(self, filename):
         for g in self.user_vars.keys():
             if self.user_vars[g] == filename:
@@ -365,12 +398,13 @@ class Configuration(pyg2p.Loggable):
             if file_util.filename(f) not in used_geopotentials:
                 self._log(f'Geopotential file is not in configuration: {f} - You could delete it')
 
-        user_intertables = deepcopy(self.intertables.user_vars)
-        for k, i in user_intertables.items():
-            if not isinstance(i, dict) or not self.intertables.data_path:
-                continue
-            fullpath = os.path.join(self.intertables.data_path, i['filename'])
-            if not (file_util.exists(fullpath) or file_util.exists(fullpath + '.gz')):
-                self._log(f'{fullpath} - Non existing. Removing item from intertables.json')
-                del self.intertables.user_vars[k]
-        self.intertables.dump()
+        with self.intertables.locked():
+            user_intertables = deepcopy(self.intertables.user_vars)
+            for k, i in user_intertables.items():
+                if not isinstance(i, dict) or not self.intertables.data_path:
+                    continue
+                fullpath = os.path.join(self.intertables.data_path, i['filename'])
+                if not (file_util.exists(fullpath) or file_util.exists(fullpath + '.gz')):
+                    self._log(f'{fullpath} - Non existing. Removing item from intertables.json')
+                    del self.intertables.user_vars[k]
+            self.intertables.dump()
diff --git a/src/pyg2p/main/interpolation/__init__.py b/src/pyg2p/main/interpolation/__init__.py
index 217c612..c88cefc 100644
--- a/src/pyg2p/main/interpolation/__init__.py
+++ b/src/pyg2p/main/interpolation/__init__.py
@@ -392,12 +392,13 @@ class Interpolator(Loggable):
                                     'method': self._mode,
                                     'source_shape': source_shape,
                                     'target_shape': self._target_coords.lons.shape}
-        # update global configuration
-        self.intertables_config.vars[intertable_id] = new_intertable_conf_item
+        with self.intertables_config.locked():
+            # update global configuration
+            self.intertables_config.vars[intertable_id] = new_intertable_conf_item
 
-        # Dumps only user configuration to ~/.pyg2p/intertables.json
-        self.intertables_config.user_vars[intertable_id] = new_intertable_conf_item
-        self.intertables_config.dump()
+            # Dumps only user configuration to ~/.pyg2p/intertables.json
+            self.intertables_config.user_vars[intertable_id] = new_intertable_conf_item
+            self.intertables_config.dump()
 
     # set aux gids for grib interlookup creation
     def aux_for_intertable_generation(self, aux_g, aux_v, aux_g2, aux_v2):
-- 
2.43.0


From f7d417a72eb8da0a6dfe320b6a254e19fc429e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:12 +0000
Subject: [PATCH 54/79] fix: interpolation tables of source and target grids
 having same extents and sizes, or of other options, were used for each other

---
 src/pyg2p/main/interpolation/__init__.py  | 37 ++++++++++++++++++++++-
 src/pyg2p/main/manipulation/correction.py |  9 ++----
 2 files changed, 38 insertions(+), 8 deletions(-)

diff --git a/src/pyg2p/main/interpolation/__init__.py b/src/pyg2p/main/interpolation/__init__.py
index c88cefc..d86d042 100644
--- a/src/pyg2p/main/interpolation/__init__.py
+++ b/src/pyg2p/main/interpolation/__init__.py
@@ -47,6 +47,8 @@ class Interpolator(Loggable):
                                              source_file=pyg2p.util.files.normalize_filename(self._source_filename),
                                              target_size=self._target_coords.lats.size,
                                              suffix=self._suffix)
+        # coordinates of source points, when known
+        self._source_coords = None
         # values used for interpolation table computation
         self._aux_val = None
         self._aux_gid = None
@@ -58,6 +60,7 @@ class Interpolator(Loggable):
         self.intertables_config = exec_ctx.configuration.intertables  # IntertablesConfiguration object
 
     def interpolate(self, lats, longs, v, grid_id, geodetic_info, gid=-1, is_second_res=False):
+        self._source_coords = (lats, longs)
         if self.interpolate_with_grib:
             out_v = self.interpolate_grib(v, gid, grid_id, is_second_res=is_second_res)
         else:
@@ -77,12 +80,40 @@ class Interpolator(Loggable):
             i += 1
         return tbl_fullpath
 
+    @staticmethod
+    def _sample_coords(lats, longs):
+        # some of the points, from the first one to the last one
+        idx = np.linspace(0, np.size(lats) - 1, 25).astype(int)
+        return [[round(float(c), 4) for c in np.ravel(coords)[idx]] for coords in (lats, longs)]
+
+    def _intertable_details(self):
+        # what the table depends on and its id doesn't tell
+        details = {'target_coords': self._sample_coords(self._target_coords.lats, self._target_coords.lons),
+                   'options': [o or None for o in (self._rotated_target_grid, self._cdd_map, self._cdd_mode, self._cdd_options)]}
+        if self._source_coords and self._source_coords[0] is not None:
+            details['source_coords'] = self._sample_coords(*self._source_coords)
+        return details
+
+    def _own_intertable_id(self, intertable_id):
+        # a table with the same id could be the one of other source or target points, or options
+        details = self._intertable_details()
+        configured = self.intertables_config.vars
+        intertable_id = intertable_id.split('__')[0]
+        ids = [intertable_id] + [f'{intertable_id}__{i}' for i in range(1, len(configured) + 1)]
+        for own_id in ids:
+            conf = configured.get(own_id)
+            if conf and all(np.allclose(conf[k], d, rtol=0, atol=0.002, equal_nan=True) if k.endswith('_coords') else conf[k] == d
+                            for k, d in details.items() if k in conf):
+                return own_id
+        return next(own_id for own_id in ids if own_id not in configured)
+
     def _intertable_filename(self, grid_id):
         intertable_id = '{}{}_{}{}'.format(self._prefix, grid_id.replace('$', '_'), self._target_coords.identifier, self._suffix)
         target_shape = (self.intertables_config.vars.get(intertable_id) or {}).get('target_shape')
         if target_shape and tuple(target_shape) != self._target_coords.lons.shape:
             # it's the table of another target having same extent but a different number of cells
             intertable_id += '_{}_{}'.format(*self._target_coords.lons.shape)
+        intertable_id = self._own_intertable_id(intertable_id)
         if intertable_id not in self.intertables_config.vars:
             # return a new intertable filename to create
             if not self.create_if_missing:
@@ -172,6 +203,7 @@ class Interpolator(Loggable):
         return result
 
     def interpolate_scipy(self, latgrib, longrib, v, grid_id, grid_details=None):
+        self._source_coords = (latgrib, longrib)
         lonefas = self._target_coords.lons
         latefas = self._target_coords.lats
         if DEBUG_BILINEAR_INTERPOLATION:
@@ -391,8 +423,11 @@ class Interpolator(Loggable):
         new_intertable_conf_item = {'filename': pyg2p.util.files.filename(intertable_name),
                                     'method': self._mode,
                                     'source_shape': source_shape,
-                                    'target_shape': self._target_coords.lons.shape}
+                                    'target_shape': self._target_coords.lons.shape,
+                                    **self._intertable_details()}
         with self.intertables_config.locked():
+            # another table could have been configured with the same id in the meantime
+            intertable_id = self._own_intertable_id(intertable_id)
             # update global configuration
             self.intertables_config.vars[intertable_id] = new_intertable_conf_item
 
diff --git a/src/pyg2p/main/manipulation/correction.py b/src/pyg2p/main/manipulation/correction.py
index 88b6b04..1e0344a 100644
--- a/src/pyg2p/main/manipulation/correction.py
+++ b/src/pyg2p/main/manipulation/correction.py
@@ -84,7 +84,6 @@ class Corrector(Loggable):
         return values
 
     def _read_geo(self, grib_file, ctx):
-        is_grib_interpolation = ctx.is_with_grib_interpolation
         reader = GRIBReader(grib_file)
         kwargs = {'shortName': GeopotentialsConfiguration.short_names}
         geopotential_gribs = reader.select_messages(**kwargs)
@@ -100,12 +99,8 @@ class Corrector(Loggable):
         z = values
         ne.evaluate(self._numexpr_eval_gem, out=values)
 
-        if is_grib_interpolation:
-            values_resampled = interpolator.interpolate_grib(values, -1, self.grid_id)
-        else:
-            # FOR GEOPOTENTIALS, SOME GRIBS COME WITHOUT LAT/LON GRIDS!
-            lats, lons = geopotential_gribs.latlons
-            values_resampled = interpolator.interpolate_scipy(lats, lons, values, self.grid_id, geopotential_gribs.grid_details)
+        lats, lons = geopotential_gribs.latlons
+        values_resampled = interpolator.interpolate(lats, lons, values, self.grid_id, geopotential_gribs.grid_details)
         reader.close()
         return missing, values_resampled
 
-- 
2.43.0


From 02b62ab9aafd5f60cb77bb4986911e4a371ff55a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:34 +0000
Subject: [PATCH 55/79] fix: corrections used the geopotential and elevation
 previously read in the same process from files changed since

---
 src/pyg2p/main/manipulation/correction.py | 6 ++++--
 src/pyg2p/util/files.py                   | 8 ++++++++
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/pyg2p/main/manipulation/correction.py b/src/pyg2p/main/manipulation/correction.py
index 1e0344a..22e2d63 100644
--- a/src/pyg2p/main/manipulation/correction.py
+++ b/src/pyg2p/main/manipulation/correction.py
@@ -10,6 +10,7 @@ from pyg2p.main.interpolation.latlong import Dem
 from pyg2p.main.readers.grib import GRIBReader
 
 from pyg2p.main.config import GeopotentialsConfiguration
+import pyg2p.util.files
 import pyg2p.util.numeric
 from netCDF4 import default_fillvals
 
@@ -28,8 +29,9 @@ class Corrector(Loggable):
         geo_file_ = ctx.geo_file(grid_id)
         dem_map = ctx.get('correction.demMap')
         # all the parameters that the instance depends on
-        key = (grid_id, dem_map, geo_file_, ctx.get('correction.formula'), ctx.get('correction.gemFormula'),
-               ctx.get('interpolation.mode'), ctx.get('interpolation.latMap'), ctx.get('interpolation.lonMap'))
+        files = (dem_map, geo_file_, ctx.get('interpolation.latMap'), ctx.get('interpolation.lonMap'))
+        key = (grid_id, ctx.get('correction.formula'), ctx.get('correction.gemFormula'), ctx.get('interpolation.mode'),
+               *(pyg2p.util.files.version(f) for f in files))
         if key in cls.instances:
             return cls.instances[key]
         else:
diff --git a/src/pyg2p/util/files.py b/src/pyg2p/util/files.py
index 492f73a..cc1adc3 100644
--- a/src/pyg2p/util/files.py
+++ b/src/pyg2p/util/files.py
@@ -28,6 +28,14 @@ def exists(pathname, is_folder=False):
     return os.path.exists(pathname) and (os.path.isdir(pathname) if is_folder else os.path.isfile(pathname))
 
 
+def version(pathname):
+    # it changes when the file is changed or replaced
+    if not pathname or not os.path.exists(pathname):
+        return pathname
+    stat = os.stat(pathname)
+    return pathname, stat.st_ino, stat.st_size, stat.st_mtime_ns
+
+
 def is_xml(pathname):
     return os.path.isfile(pathname) and pathname.endswith('.xml')
 
-- 
2.43.0


From 6d35de4514a529c0498174c9d1e165086deb016a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:34 +0000
Subject: [PATCH 56/79] fix: interpolation tables read before in the same
 process were used even if their files were changed since

---
 src/pyg2p/main/interpolation/__init__.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/pyg2p/main/interpolation/__init__.py b/src/pyg2p/main/interpolation/__init__.py
index d86d042..918a228 100644
--- a/src/pyg2p/main/interpolation/__init__.py
+++ b/src/pyg2p/main/interpolation/__init__.py
@@ -142,7 +142,8 @@ class Interpolator(Loggable):
 
     def _read_intertable(self, tbl_fullpath):
 
-        if tbl_fullpath not in self._LOADED_INTERTABLES:
+        version = pyg2p.util.files.version(tbl_fullpath if pyg2p.util.files.exists(tbl_fullpath) else tbl_fullpath + '.gz')
+        if version not in self._LOADED_INTERTABLES:
             f = tbl_fullpath
             if tbl_fullpath.endswith('.gz'):
                 f = gzip.GzipFile(tbl_fullpath, 'r')
@@ -158,10 +159,10 @@ class Interpolator(Loggable):
                     f = gzip.GzipFile(f, 'r')
                     intertable = np.load(f)
                     f.close()
-            self._LOADED_INTERTABLES[tbl_fullpath] = intertable
+            self._LOADED_INTERTABLES[version] = intertable
             self._log(f'Using interpolation table: {tbl_fullpath}', 'INFO')
         else:
-            intertable = self._LOADED_INTERTABLES[tbl_fullpath]
+            intertable = self._LOADED_INTERTABLES[version]
 
         if self._mode == 'grib_nearest':
             # grib nearest neighbour table
@@ -419,7 +420,7 @@ class Interpolator(Loggable):
         return intertable_name
 
     def update_intertable_conf(self, intertable, intertable_id, intertable_name, source_shape):
-        self._LOADED_INTERTABLES[intertable_name] = intertable
+        self._LOADED_INTERTABLES[pyg2p.util.files.version(intertable_name)] = intertable
         new_intertable_conf_item = {'filename': pyg2p.util.files.filename(intertable_name),
                                     'method': self._mode,
                                     'source_shape': source_shape,
-- 
2.43.0


From 51612308f2d5171b382012ce96a83ad064624e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:52 +0000
Subject: [PATCH 57/79] fix: minutes of data time were lost in time units of
 netCDF files

---
 src/pyg2p/__init__.py          | 4 ++--
 src/pyg2p/main/readers/grib.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pyg2p/__init__.py b/src/pyg2p/__init__.py
index 463f295..aa9de94 100644
--- a/src/pyg2p/__init__.py
+++ b/src/pyg2p/__init__.py
@@ -145,7 +145,7 @@ class GribGridDetails(Loggable):
 
 class Messages(Loggable):
 
-    def __init__(self, values, mv, unit, type_of_level, type_of_step, step_units, grid_details, val_2nd=None, data_date=None, data_time='0'):
+    def __init__(self, values, mv, unit, type_of_level, type_of_step, step_units, grid_details, val_2nd=None, data_date=None, data_time='0000'):
         super().__init__()
         self.values_first_or_single_res = values
         self.values_second_res = val_2nd or {}
@@ -154,7 +154,7 @@ class Messages(Loggable):
         self.type_of_level = type_of_level
         self.unit = unit
         self.missing_value = mv
-        self.data_date = datetime.strptime(f'{data_date}{data_time}', '%Y%m%d%H')
+        self.data_date = datetime.strptime(f'{data_date}{data_time}', '%Y%m%d%H%M')
 
         self.grid_details = grid_details
         # order key list to get first step
diff --git a/src/pyg2p/main/readers/grib.py b/src/pyg2p/main/readers/grib.py
index 37715f4..2cb458f 100644
--- a/src/pyg2p/main/readers/grib.py
+++ b/src/pyg2p/main/readers/grib.py
@@ -215,7 +215,7 @@ class GRIBReader(Loggable):
             if grid2:
                 key_2nd_spatial_res = min(all_values_second_res.keys(), key=lambda k: int(k.end_step))
                 grid.set_2nd_resolution(grid2, key_2nd_spatial_res)
-            return Messages(all_values, missing_value, unit, type_of_level, type_of_step, step_units, grid, all_values_second_res, data_date=data_date, data_time=f'{data_time:04d}'[:2])
+            return Messages(all_values, missing_value, unit, type_of_level, type_of_step, step_units, grid, all_values_second_res, data_date=data_date, data_time=f'{data_time:04d}')
         # no messages found
         else:
             raise ApplicationException.get_exc(NO_MESSAGES, details=f'using {kwargs}')
-- 
2.43.0


From 9e6ecead851823fffea67cfad5b313c664349a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:52 +0000
Subject: [PATCH 58/79] fix: PCRaster maps with a long prefix ending with
 digits could have the same name

---
 src/pyg2p/main/writers/__init__.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/pyg2p/main/writers/__init__.py b/src/pyg2p/main/writers/__init__.py
index 71d7968..4a51699 100644
--- a/src/pyg2p/main/writers/__init__.py
+++ b/src/pyg2p/main/writers/__init__.py
@@ -116,7 +116,7 @@ class OutputWriter(Loggable):
             out_values.append(self._output_values(lats, longs, v, grid_id, geodetic_info, is_second_res))
         # write only when all the maps are available (i.e. table or geopotential of the second resolution could be missing)
         for i, out_v in enumerate(out_values, start=1):
-            self.writer.write(self._name_pcr_map(i), out_v)
+            self.writer.write(self._name_pcr_map(i, len(out_values)), out_v)
 
     def write_maps(self, values, messages, change_res_step=None):
         write_method = getattr(self, f"_write_maps_{self.ctx.get('outMaps.format')}")
@@ -129,12 +129,15 @@ class OutputWriter(Loggable):
         out_filename = os.path.join(self.ctx.get('outMaps.outDir'), filename)
         return out_filename
 
-    def _name_pcr_map(self, i_map):
+    def _name_pcr_map(self, i_map, n_maps):
         # Used for pcraster output maps
         # return a full path for output map, of the type 8.3  {prefix}[000000].0[0]{seq}
-        map_number = self.ctx.get('outMaps.fmap') + (i_map - 1) * self.ctx.get('outMaps.ext')
+        first, step = self.ctx.get('outMaps.fmap'), self.ctx.get('outMaps.ext')
+        map_number = first + (i_map - 1) * step
+        last_number = first + (n_maps - 1) * step
         # long prefixes are truncated, as map number must be always complete
-        filename = self.ctx.get('outMaps.namePrefix')[:11 - len(str(map_number))]
+        # (same for all maps: digits of the prefix would be read as digits of shorter numbers)
+        filename = self.ctx.get('outMaps.namePrefix')[:11 - len(str(last_number))]
         zeroes = 11 - len(filename) - len(str(map_number))
         for g in range(zeroes):
             filename += '0'
-- 
2.43.0


From 4a35eb78d6ac8a697ae96abf226763e9a5b70609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:03 +0000
Subject: [PATCH 59/79] fix: first number and step of PCRaster maps: explicit 1
 from command line did not override the JSON file, 0 and texts were not
 accepted in the JSON file

---
 src/pyg2p/main/api.py     |  8 ++++----
 src/pyg2p/main/context.py | 12 ++++++------
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/pyg2p/main/api.py b/src/pyg2p/main/api.py
index e6b4cd1..9d76147 100644
--- a/src/pyg2p/main/api.py
+++ b/src/pyg2p/main/api.py
@@ -198,10 +198,10 @@ class ApiContext(Context):
             self._vars['outMaps.valueFormat'] = self.api_conf['OutMaps'].get('valueFormat')
         if self._vars['outMaps.outputStepUnits'] is None:
             self._vars['outMaps.outputStepUnits'] = self.api_conf['OutMaps'].get('outputStepUnits')
-        if self._vars['outMaps.fmap'] == 1:
-            self._vars['outMaps.fmap'] = self.api_conf['OutMaps'].get('fmap') or 1
-        if self._vars['outMaps.ext'] == 1:
-            self._vars['outMaps.ext'] = self.api_conf['OutMaps'].get('ext') or 1
+        for name in ('fmap', 'ext'):
+            if self._vars[f'outMaps.{name}'] is None:
+                value = self.api_conf['OutMaps'].get(name)
+                self._vars[f'outMaps.{name}'] = 1 if value in (None, '') else int(value)
 
         # if start, end and dataTime are defined via command line input args, these are ignored.
         # if missing, GribReader will read all timesteps for the parameter
diff --git a/src/pyg2p/main/context.py b/src/pyg2p/main/context.py
index 96dc03a..8fae39a 100644
--- a/src/pyg2p/main/context.py
+++ b/src/pyg2p/main/context.py
@@ -291,12 +291,12 @@ class ExecutionContext(Context):
                             type=int, metavar='data_date')
 
         # output file naming (first extension number, extension number step, prefix
-        parser.add_argument('-f', '--fmap', help='First map number', type=int, default=1, metavar='fmap')
+        parser.add_argument('-f', '--fmap', help='First map number', type=int, metavar='fmap')
         # output file format
         parser.add_argument('-F', '--format', metavar='format',
                             default='notset', choices=['netcdf', 'pcraster', 'notset'],
                             help='Output format. Available options: netcdf,  pcraster. Default pcraster')
-        parser.add_argument('-x', '--ext', help='Extension number step', type=int, default=1, metavar='extension_step')
+        parser.add_argument('-x', '--ext', help='Extension number step', type=int, metavar='extension_step')
         parser.add_argument('-n', '--namePrefix', help='Prefix name for maps', metavar='outfiles_prefix')
         parser.add_argument('-O', '--offset', help='Map offset', metavar='offset')
         parser.add_argument('-S', '--scaleFactor', help='Map scale factor', metavar='scale_factor')
@@ -411,10 +411,10 @@ class ExecutionContext(Context):
             self._vars['outMaps.valueFormat'] = exec_conf['OutMaps'].get('@valueFormat')
         if self._vars['outMaps.outputStepUnits'] is None:
             self._vars['outMaps.outputStepUnits'] = exec_conf['OutMaps'].get('@outputStepUnits')
-        if self._vars['outMaps.fmap'] == 1:
-            self._vars['outMaps.fmap'] = exec_conf['OutMaps'].get('@fmap') or 1
-        if self._vars['outMaps.ext'] == 1:
-            self._vars['outMaps.ext'] = exec_conf['OutMaps'].get('@ext') or 1
+        for name in ('fmap', 'ext'):
+            if self._vars[f'outMaps.{name}'] is None:
+                value = exec_conf['OutMaps'].get(f'@{name}')
+                self._vars[f'outMaps.{name}'] = 1 if value in (None, '') else int(value)
         if self._vars['outMaps.format'] == 'notset':
             # default out format to pcraster if not set from commandline nor in execution command json
             self._vars['outMaps.format'] = exec_conf['OutMaps'].get('@format') or 'pcraster'
-- 
2.43.0


From fa6bbeb47bea4de0a7ac36a7cc58c1d06e9dc4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:46 +0000
Subject: [PATCH 60/79] fix: missing values of netCDF files with 64 bits
 integers or a scale factor were written as other numbers

---
 src/pyg2p/main/writers/netcdf.py | 36 +++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/src/pyg2p/main/writers/netcdf.py b/src/pyg2p/main/writers/netcdf.py
index 2e0dcc6..bba721c 100644
--- a/src/pyg2p/main/writers/netcdf.py
+++ b/src/pyg2p/main/writers/netcdf.py
@@ -139,18 +139,19 @@ class NetCDFWriter(Writer):
         values_nc.standard_name = varargs.get('prefix', '')
         values_nc.long_name = varargs.get('var_long_name', '')
         values_nc.units = varargs.get('unit', '')
-        values_nc.scale_factor = np.float64(varargs.get('scale_factor', '1.0'))
-        values_nc.add_offset = np.float64(varargs.get('offset', '0.0'))
+        scale_factor = np.float64(varargs.get('scale_factor', '1.0'))
+        offset = np.float64(varargs.get('offset', '0.0'))
+        values_nc.scale_factor = scale_factor
+        values_nc.add_offset = offset
         if varargs.get('valid_min', None) is not None:
-            values_nc.valid_min = (np.float64(varargs.get('valid_min', None)) - np.float64(varargs.get('offset', '0.0'))) / np.float64(varargs.get('scale_factor', '1.0'))
-        if varargs.get('valid_max', None) is not None:            
-            values_nc.valid_max = (np.float64(varargs.get('valid_max', None)) - np.float64(varargs.get('offset', '0.0'))) / np.float64(varargs.get('scale_factor', '1.0'))
-        values_nc.set_auto_maskandscale(True)         
-        
-        # adjust missing values when scale_factor and offset are not 1.0 - 0.0 
-        mv_scaled = np.float64(missing_value_to_use) * np.float64(varargs.get('scale_factor', '1.0')) + np.float64(varargs.get('offset', '0.0'))
-        values = self._mask_values(values, mv_scaled)
-        values[np.isnan(values)] = mv_scaled
+            values_nc.valid_min = (np.float64(varargs.get('valid_min', None)) - offset) / scale_factor
+        if varargs.get('valid_max', None) is not None:
+            values_nc.valid_max = (np.float64(varargs.get('valid_max', None)) - offset) / scale_factor
+        # values are packed here: missing values of 64 bits integers would be lost in scaling
+        values_nc.set_auto_maskandscale(False)
+
+        values = self._mask_values(values, np.nan)
+        values = self._pack(values, scale_factor, offset, values_nc.dtype, missing_value_to_use)
 
         for t in range(len(time_values)):
             if DEBUG_BILINEAR_INTERPOLATION:
@@ -161,7 +162,7 @@ class NetCDFWriter(Writer):
                     # European_1arcmin DEBUG
                     selection_lats = np.logical_and(self.lats[:,0]>=DEBUG_MIN_LAT,self.lats[:,0]<=DEBUG_MAX_LAT)
                     selection_lons = np.logical_and(self.lons[0,:]>=DEBUG_MIN_LON,self.lons[0,:]<=DEBUG_MAX_LON)
-                    values_all=values_nc[t,:,:].data
+                    values_all=values_nc[t,:,:]
                     values_all[np.ix_(selection_lats,selection_lons)] = values[t, :, :]
                     values_nc[t,:,:]=values_all[:,:]
             else:
@@ -169,6 +170,17 @@ class NetCDFWriter(Writer):
         longitude[:] = self.lons[0,:]
         latitude[:] = self.lats[:,0]
 
+    @staticmethod
+    def _pack(values, scale_factor, offset, dtype, mv):
+        missing = np.isnan(values)
+        packed = (values - offset) / scale_factor
+        if dtype.kind in 'iu':
+            packed = np.around(packed)
+        packed[missing] = 0
+        packed = packed.astype(dtype)
+        packed[missing] = mv
+        return packed
+
     def _mask_values(self, values, mv):
         # Extend the mask to match the shape of values
         if self._mask.shape != values.shape[1:]:
-- 
2.43.0


From 46b4bcd0416f472488c8388e40ed1fb8a1db785a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:46 +0000
Subject: [PATCH 61/79] fix: values out of the valid range were written in
 netCDF files, and limits could be ignored by readers

---
 src/pyg2p/main/writers/netcdf.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/pyg2p/main/writers/netcdf.py b/src/pyg2p/main/writers/netcdf.py
index bba721c..9febcc0 100644
--- a/src/pyg2p/main/writers/netcdf.py
+++ b/src/pyg2p/main/writers/netcdf.py
@@ -143,14 +143,20 @@ class NetCDFWriter(Writer):
         offset = np.float64(varargs.get('offset', '0.0'))
         values_nc.scale_factor = scale_factor
         values_nc.add_offset = offset
-        if varargs.get('valid_min', None) is not None:
-            values_nc.valid_min = (np.float64(varargs.get('valid_min', None)) - offset) / scale_factor
-        if varargs.get('valid_max', None) is not None:
-            values_nc.valid_max = (np.float64(varargs.get('valid_max', None)) - offset) / scale_factor
         # values are packed here: missing values of 64 bits integers would be lost in scaling
         values_nc.set_auto_maskandscale(False)
 
         values = self._mask_values(values, np.nan)
+        # values out of the valid range are nodata.
+        # Limits have the type of the variable, as they are ignored by readers otherwise
+        if varargs.get('valid_min', None) is not None:
+            valid_min = np.float64(varargs['valid_min'])
+            values[values < valid_min] = np.nan
+            values_nc.valid_min = self._pack_limit(valid_min, scale_factor, offset, values_nc.dtype)
+        if varargs.get('valid_max', None) is not None:
+            valid_max = np.float64(varargs['valid_max'])
+            values[values > valid_max] = np.nan
+            values_nc.valid_max = self._pack_limit(valid_max, scale_factor, offset, values_nc.dtype)
         values = self._pack(values, scale_factor, offset, values_nc.dtype, missing_value_to_use)
 
         for t in range(len(time_values)):
@@ -181,6 +187,14 @@ class NetCDFWriter(Writer):
         packed[missing] = mv
         return packed
 
+    @staticmethod
+    def _pack_limit(limit, scale_factor, offset, dtype):
+        packed = (limit - offset) / scale_factor
+        if dtype.kind in 'iu':
+            info = np.iinfo(dtype)
+            packed = min(max(int(np.around(packed)), int(info.min)), int(info.max))
+        return dtype.type(packed)
+
     def _mask_values(self, values, mv):
         # Extend the mask to match the shape of values
         if self._mask.shape != values.shape[1:]:
-- 
2.43.0


From 52afcfa95b0e1742cd4d762b1b26b831744ff660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:16 +0000
Subject: [PATCH 62/79] fix: user variables with digits in their name were not
 replaced in paths

---
 src/pyg2p/main/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyg2p/main/config.py b/src/pyg2p/main/config.py
index 47673b3..367854a 100644
--- a/src/pyg2p/main/config.py
+++ b/src/pyg2p/main/config.py
@@ -33,7 +33,7 @@ class UserConfiguration(pyg2p.Loggable):
     sep = '='
     comment_char = '#'
     conf_to_interpolate = ('correction.demMap', 'outMaps.clone', 'interpolation.latMap', 'interpolation.lonMap')
-    re_var = re.compile(r'{(?P<var>[a-zA-Z_]+)}')
+    re_var = re.compile(r'{(?P<var>[a-zA-Z_][a-zA-Z0-9_]*)}')
     geopotentials_path_var = 'GEOPOTENTIALS'
     intertables_path_var = 'INTERTABLES'
 
-- 
2.43.0


From df788510871f57297bdd1d9d72e924261557d880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:30 +0000
Subject: [PATCH 63/79] fix: cells of netCDF clone maps having NaN as missing
 value were not masked in netCDF files

---
 src/pyg2p/main/readers/netcdf.py | 10 ++++++++++
 src/pyg2p/main/writers/netcdf.py |  9 ++++-----
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/pyg2p/main/readers/netcdf.py b/src/pyg2p/main/readers/netcdf.py
index e27b95c..570115b 100644
--- a/src/pyg2p/main/readers/netcdf.py
+++ b/src/pyg2p/main/readers/netcdf.py
@@ -1,6 +1,7 @@
 from pathlib import Path
 
 import numpy as np
+import numpy.ma as ma
 
 from pyg2p import Loggable
 import netCDF4 as nc
@@ -56,6 +57,15 @@ class NetCDFReader(Loggable):
         data = self._dataset.variables[self.var_name][:].data
         return data
     
+    @property
+    def mask(self):
+        """
+        True for cells without a value
+        """
+        values = self.values
+        # missing value is often NaN, which is not equal to itself
+        return np.isnan(values) | ma.getmaskarray(ma.masked_values(values, self.mv))
+
     def get_lat_lon_values(self):
         lats = np.reshape(self._dataset.variables[self.label_lat][:],(-1,1))*np.ones(self._dataset.variables[self.var_name].shape)
         lons = self._dataset.variables[self.label_lon][:]*np.ones(self._dataset.variables[self.var_name].shape)
diff --git a/src/pyg2p/main/writers/netcdf.py b/src/pyg2p/main/writers/netcdf.py
index 9febcc0..e9099dd 100644
--- a/src/pyg2p/main/writers/netcdf.py
+++ b/src/pyg2p/main/writers/netcdf.py
@@ -25,13 +25,12 @@ class NetCDFWriter(Writer):
         lats_map, lons_map = args[1], args[2]
         if self._clone_map.endswith('.nc'):
             area = NetCDFReader(self._clone_map)
-            self.area = area.values
+            # add mask from clone map
+            self.area = ma.masked_array(area.values, area.mask)
         else:
             area = PCRasterReader(self._clone_map)
-            self.area = area.values
-        
-        # add mask from clone map
-        self.area = ma.masked_values(self.area, area.mv)
+            # add mask from clone map
+            self.area = ma.masked_values(area.values, area.mv)
         self._mask = ma.getmaskarray(self.area)  # full array also when clone has no missing values
         
         if lats_map.endswith('.nc'):
-- 
2.43.0


From fb7ab76d1450aece2f2a599bfba593da3201c968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:46 +0000
Subject: [PATCH 64/79] fix: values returned by the API were masked with rows
 of netCDF clone maps in another order

---
 src/pyg2p/main/api.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/pyg2p/main/api.py b/src/pyg2p/main/api.py
index 9d76147..8de5335 100644
--- a/src/pyg2p/main/api.py
+++ b/src/pyg2p/main/api.py
@@ -13,6 +13,7 @@ from .interpolation import Interpolator
 from .manipulation.aggregator import ACCUMULATION
 from .manipulation.correction import Corrector
 from .readers import GRIBReader, PCRasterReader
+from .readers.netcdf import NetCDFReader
 from ..main import pyg2p_exe
 from ..util import strings
 from ..util.strings import to_argv, to_argdict
@@ -268,10 +269,17 @@ class Pyg2pApi:
         self.messages = None
         self.values = None
         self.change_res_step = None
-        clone = PCRasterReader(self.context.get('outMaps.clone'))
-        self.mv = clone.mv
-        rs = ma.masked_values(clone.values, self.mv)
-        self._mask = ma.getmask(rs)
+        clone_map = self.context.get('outMaps.clone')
+        if str(clone_map).endswith('.nc'):
+            # (GDAL changes the order of rows)
+            clone = NetCDFReader(clone_map)
+            self.mv = clone.mv
+            self._mask = clone.mask
+        else:
+            clone = PCRasterReader(clone_map)
+            self.mv = clone.mv
+            rs = ma.masked_values(clone.values, self.mv)
+            self._mask = ma.getmask(rs)
 
     def _mask_values(self, values):
         if isinstance(values, ma.core.MaskedArray):
-- 
2.43.0


From 1abc429497d55a56932adaec50a2be29b934aa54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:46 +0000
Subject: [PATCH 65/79] fix: interpolation tables of grib methods could not be
 created using the API

---
 src/pyg2p/main/api.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pyg2p/main/api.py b/src/pyg2p/main/api.py
index 8de5335..34aefac 100644
--- a/src/pyg2p/main/api.py
+++ b/src/pyg2p/main/api.py
@@ -301,6 +301,9 @@ class Pyg2pApi:
         values, self.messages, self.change_res_step = ctrl.execute(write_results=False)
         # need interpolation and correction
         self.interpolator = Interpolator(self.context, grib_info.mv)
+        if self.context.is_with_grib_interpolation:
+            # needed to create tables
+            self.interpolator.aux_for_intertable_generation(*ctrl.grib_reader.get_gids_for_grib_intertable())
         is_second_res = False
         lats, longs = self.messages.latlons
         geodetic_info = self.messages.grid_details
-- 
2.43.0


From 41b8c015dcf6e597c7f7b68387ae51668da49cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:11 +0000
Subject: [PATCH 66/79] fix: rows of PCRaster maps written with a netCDF clone
 map were masked or placed in another order

---
 src/pyg2p/main/writers/pcr.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/pyg2p/main/writers/pcr.py b/src/pyg2p/main/writers/pcr.py
index ea55173..30f0013 100644
--- a/src/pyg2p/main/writers/pcr.py
+++ b/src/pyg2p/main/writers/pcr.py
@@ -2,6 +2,7 @@ from osgeo import gdal
 import numpy.ma as ma
 import numpy as np
 
+from pyg2p.main.readers.netcdf import NetCDFReader
 from pyg2p.main.writers import Writer
 
 
@@ -28,12 +29,21 @@ class PCRasterWriter(Writer):
         self.mv = self._src_band.GetNoDataValue()
         rs = ma.masked_values(rs, self.mv)
         self._mask = ma.getmask(rs)
+        self._upside_down = False
+        if self._clone_map.endswith('.nc'):
+            # GDAL changes the order of rows, that is the one of values. Maps are from north to south
+            clone = NetCDFReader(self._clone_map)
+            lats = clone.get_lat_values()
+            self._mask = clone.mask
+            self._upside_down = lats[0] < lats[-1]
 
     def write(self, output_map_name, values):
         values[np.isnan(values)]=self.mv
         drv = gdal.GetDriverByName(self.FORMAT)
         masked_values = self._mask_values(values)
         n = ma.count_masked(masked_values)
+        if self._upside_down:
+            masked_values = masked_values[::-1]
         self._mem_ds.GetRasterBand(1).SetNoDataValue(self.mv)
         self._mem_ds.GetRasterBand(1).WriteArray(masked_values)
         out_ds = drv.CreateCopy(output_map_name.encode('utf-8'), self._mem_ds)
-- 
2.43.0


From 467ca40f47b758f4232f521d135ee0ab83bd0706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:21 +0000
Subject: [PATCH 67/79] fix: options given twice to API commands, in different
 spellings, did not follow the given order

---
 src/pyg2p/main/api.py     | 6 +++---
 src/pyg2p/util/strings.py | 1 +
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pyg2p/main/api.py b/src/pyg2p/main/api.py
index 34aefac..e193757 100644
--- a/src/pyg2p/main/api.py
+++ b/src/pyg2p/main/api.py
@@ -29,8 +29,7 @@ def run_command(cmd):
 
 
 def _a(opt, self, param=''):
-    self._d[opt] = param
-    return self
+    return self._a(opt, param)
 
 
 class Command:
@@ -51,6 +50,8 @@ class Command:
                 'create_intertable': '-B', 'parallel': '-X', 'intertable_dir': '-N'}
 
     def _a(self, opt, param=''):
+        # the last one is used, also when an option was already given in its other spelling
+        self._d.pop(opt, None)
         self._d[opt] = param
         return self
 
@@ -73,7 +74,6 @@ class Command:
 
     def __str__(self):
         cmd = 'pyg2p '
-        self._d = collections.OrderedDict(sorted(self._d.items(), key=lambda k: k[0]))
         args = ''.join(['%s %s ' % (key, value) for (key, value) in self._d.items()]).strip()
         return cmd + args
 
diff --git a/src/pyg2p/util/strings.py b/src/pyg2p/util/strings.py
index d9b3790..05064ae 100644
--- a/src/pyg2p/util/strings.py
+++ b/src/pyg2p/util/strings.py
@@ -33,6 +33,7 @@ def to_argdict(string_):
     res = {}
     while c:
         key = c.pop(0)
+        res.pop(key, None)  # keep the order in which options are given
         if _is_option(key) and (not c or _is_option(c[0])):
             res[key] = ''  # flag: option without a value
         elif c:
-- 
2.43.0


From bad5b74f84755c6841a10cea6530b2f1e64959f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:22 +0000
Subject: [PATCH 68/79] fix: API commands starting with the name of the script
 were refused

---
 src/pyg2p/main/api.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyg2p/main/api.py b/src/pyg2p/main/api.py
index e193757..763e9de 100644
--- a/src/pyg2p/main/api.py
+++ b/src/pyg2p/main/api.py
@@ -1,4 +1,5 @@
 import collections
+import re
 from functools import partial
 from pathlib import Path
 from types import MethodType
@@ -56,7 +57,7 @@ class Command:
         return self
 
     def __init__(self, cmd_string=None, **params):
-        cmd_string = (cmd_string or '').lstrip('pyg2p').strip()
+        cmd_string = re.sub(r'^\s*pyg2p(\.py)?(\s+|$)', '', cmd_string or '').strip()
         if params:
             opts = params.copy()
             # string interpolation
-- 
2.43.0


From 89560c8a7f1145e85f19b5e6b130a13e854240db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:11 +0000
Subject: [PATCH 69/79] fix: corrections of executions in the same process used
 the elevation and geopotential of other options

---
 src/pyg2p/main/api.py                     |  3 ++-
 src/pyg2p/main/manipulation/correction.py | 21 +++++----------------
 src/pyg2p/main/writers/__init__.py        |  3 ++-
 3 files changed, 9 insertions(+), 18 deletions(-)

diff --git a/src/pyg2p/main/api.py b/src/pyg2p/main/api.py
index 763e9de..fa60f3b 100644
--- a/src/pyg2p/main/api.py
+++ b/src/pyg2p/main/api.py
@@ -306,6 +306,7 @@ class Pyg2pApi:
             # needed to create tables
             self.interpolator.aux_for_intertable_generation(*ctrl.grib_reader.get_gids_for_grib_intertable())
         is_second_res = False
+        correctors = {}  # by id of source grid
         lats, longs = self.messages.latlons
         geodetic_info = self.messages.grid_details
         grid_id = self.messages.grid_id
@@ -322,7 +323,7 @@ class Pyg2pApi:
             # missing value of interpolation must not be used as data
             out_v[out_v == self.interpolator.mv_output] = np.nan
             if self.context.must_do_correction:
-                corrector = Corrector.get_instance(self.context, grid_id)
+                corrector = Corrector.get_instance(self.context, grid_id, correctors)
                 out_v = corrector.correct(out_v)
                 # cells that can't be corrected (i.e. missing in dem)
                 out_v[out_v == default_fillvals[out_v.dtype.str[1:]]] = np.nan
diff --git a/src/pyg2p/main/manipulation/correction.py b/src/pyg2p/main/manipulation/correction.py
index 22e2d63..d2c9553 100644
--- a/src/pyg2p/main/manipulation/correction.py
+++ b/src/pyg2p/main/manipulation/correction.py
@@ -10,7 +10,6 @@ from pyg2p.main.interpolation.latlong import Dem
 from pyg2p.main.readers.grib import GRIBReader
 
 from pyg2p.main.config import GeopotentialsConfiguration
-import pyg2p.util.files
 import pyg2p.util.numeric
 from netCDF4 import default_fillvals
 
@@ -19,25 +18,15 @@ from ..interpolation.scipy_interpolation_lib import DEBUG_BILINEAR_INTERPOLATION
 
 class Corrector(Loggable):
 
-    instances = {}
-
     def __repr__(self):
         return f'Corrector<{self.grid_id} {self.geo_file}>'
 
     @classmethod
-    def get_instance(cls, ctx, grid_id):
-        geo_file_ = ctx.geo_file(grid_id)
-        dem_map = ctx.get('correction.demMap')
-        # all the parameters that the instance depends on
-        files = (dem_map, geo_file_, ctx.get('interpolation.latMap'), ctx.get('interpolation.lonMap'))
-        key = (grid_id, ctx.get('correction.formula'), ctx.get('correction.gemFormula'), ctx.get('interpolation.mode'),
-               *(pyg2p.util.files.version(f) for f in files))
-        if key in cls.instances:
-            return cls.instances[key]
-        else:
-            instance = Corrector(ctx, grid_id, geo_file_)
-            cls.instances[key] = instance
-            return instance
+    def get_instance(cls, ctx, grid_id, instances):
+        # instances: correctors of the same execution. Other executions could have other options or files
+        if grid_id not in instances:
+            instances[grid_id] = Corrector(ctx, grid_id, ctx.geo_file(grid_id))
+        return instances[grid_id]
 
     def __init__(self, ctx, grid_id, geo_file):
         super().__init__()
diff --git a/src/pyg2p/main/writers/__init__.py b/src/pyg2p/main/writers/__init__.py
index 4a51699..5dd2673 100644
--- a/src/pyg2p/main/writers/__init__.py
+++ b/src/pyg2p/main/writers/__init__.py
@@ -35,6 +35,7 @@ class OutputWriter(Loggable):
         super().__init__()
         self.ctx = ctx
         self.interpolator = Interpolator(ctx, mv_input=grib_info.mv)
+        self.correctors = {}  # by id of source grid
         self.writer = self.get_writer()  # instance of PCRasterWriter or NetCDFWriter
         self._logger.setLevel(ctx['logger.level'])
 
@@ -49,7 +50,7 @@ class OutputWriter(Loggable):
         # missing value of interpolation must not be used as data (correction) and it's not the one of the clone map
         out_v[out_v == self.interpolator.mv_output] = np.nan
         if self.ctx.must_do_correction:
-            corrector = Corrector.get_instance(self.ctx, grid_id)
+            corrector = Corrector.get_instance(self.ctx, grid_id, self.correctors)
             out_v = corrector.correct(out_v)
             # cells that can't be corrected (i.e. missing in dem)
             out_v[out_v == default_fillvals[out_v.dtype.str[1:]]] = np.nan
-- 
2.43.0


From 079a4f89eef24576236d57e3735b5ab073ae604f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:11 +0000
Subject: [PATCH 70/79] fix: folders of the global configuration were the ones
 of the first execution of the process

---
 src/pyg2p/main/config.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyg2p/main/config.py b/src/pyg2p/main/config.py
index 367854a..cfc88ed 100644
--- a/src/pyg2p/main/config.py
+++ b/src/pyg2p/main/config.py
@@ -196,7 +196,8 @@ class GlobalConf(BaseConfiguration):
 
     @classmethod
     def get_instance(cls, user_configuration):
-        if cls.instance:
+        # the file could have been changed since the previous execution of the same process
+        if cls.instance and cls.instance.user_configuration is user_configuration:
             return cls.instance
         cls.instance = GlobalConf(user_configuration)
         return cls.instance
-- 
2.43.0


From 21de6572254c2f8a3abd216d5a1816891defabca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:29 +0000
Subject: [PATCH 71/79] fix: executions creating the same output folder at the
 same time failed

---
 src/pyg2p/util/files.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyg2p/util/files.py b/src/pyg2p/util/files.py
index cc1adc3..81d4e98 100644
--- a/src/pyg2p/util/files.py
+++ b/src/pyg2p/util/files.py
@@ -67,7 +67,8 @@ def can_read(pathnames):
 
 def create_dir(pathname, recreate=False):
     if not os.path.exists(pathname):
-        os.makedirs(pathname)
+        # another execution could create it in the meantime
+        os.makedirs(pathname, exist_ok=True)
     elif recreate:
         delete_files_from_dir(pathname)
         os.rmdir(pathname)
-- 
2.43.0


From ee614084a2c8f561f225b5e9f8b8543959339e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:29 +0000
Subject: [PATCH 72/79] fix: correlation decay maps of another size than the
 target were not refused

---
 .../main/interpolation/scipy_interpolation_lib.py  | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
index e89d8a5..57d8604 100644
--- a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
+++ b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
@@ -889,22 +889,18 @@ class ScipyInterpolation(object):
                 weights_mode = 'All'
                 #weights_mode = 'OnlyTOP10'
                 if (CDDmode == 'Hofstra'):
+                    if CDD_map.shape != self.target_lats_all.shape:
+                        raise ApplicationException.get_exc(WEIRD_STUFF, details="\nCDD map should have the same resolution of target map. CDD map shape={}, target map shape={}".format(CDD_map.shape, self.target_lats_all.shape))
                     CDD_map = CDD_map[self.target_rows].ravel()
-                    try:
-                        assert(len(CDD_map)==len(self.lat_inALL)) 
-                    except AssertionError as e:
-                        ApplicationException.get_exc(WEIRD_STUFF, details=str(e) + "\nCDD map should have the same resolution of target map. CDD map len={}, target map len={}".format(len(CDD_map), len(self.lat_inALL)))
 
                     stdout.write('\nEvaluating cutoffs...')
                     
                     s = np.zeros_like(distances)       
                     s = cdd_hofstra_compute_weights_from_cutoff_distances(distances, CDD_map, s)
                 elif CDDmode == 'MixHofstraShepard':
+                    if CDD_map.shape != self.target_lats_all.shape:
+                        raise ApplicationException.get_exc(WEIRD_STUFF, details="\nCDD map should have the same resolution of target map. CDD map shape={}, target map shape={}".format(CDD_map.shape, self.target_lats_all.shape))
                     CDD_map = CDD_map[self.target_rows].ravel()
-                    try:
-                        assert(len(CDD_map)==len(self.lat_inALL)) 
-                    except AssertionError as e:
-                        ApplicationException.get_exc(WEIRD_STUFF, details=str(e) + "\nCDD map should have the same resolution of target map. CDD map len={}, target map len={}".format(len(CDD_map), len(self.lat_inALL)))
 
                     if DEBUG_ADW_INTERPOLATION:
                         stdout.write('\nEvaluating cutoffs...')
@@ -930,7 +926,7 @@ class ScipyInterpolation(object):
                     s = cdd_newetal_compute_weights_from_cutoff_distances(distances, CDD_map, indexes, self.longrib, self.latgrib, 
                                                                         TargetLonRes, TargetLatRes, LonOrigin, LatOrigin, s)
                 else:
-                    ApplicationException.get_exc(WEIRD_STUFF, "\nCDD mode unknown={}".format(CDDmode))
+                    raise ApplicationException.get_exc(WEIRD_STUFF, "\nCDD mode unknown={}".format(CDDmode))
 
                 # consider only TOP 10 weights instead of all:
                 if weights_mode == "OnlyTOP10":
-- 
2.43.0


From 65b6ec6103c7651206a9a095a70505d197267b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:00 +0000
Subject: [PATCH 73/79] fix: grib_invdist lost cells on source points when the
 first value of the field was missing

---
 src/pyg2p/main/interpolation/grib_interpolation_lib.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pyg2p/main/interpolation/grib_interpolation_lib.py b/src/pyg2p/main/interpolation/grib_interpolation_lib.py
index d92452a..f33b9b9 100644
--- a/src/pyg2p/main/interpolation/grib_interpolation_lib.py
+++ b/src/pyg2p/main/interpolation/grib_interpolation_lib.py
@@ -134,9 +134,9 @@ def _compute_coeffs_and_idxs(n_nearest):
     inv3 = (1 / n_nearest[2]['distance']) if not exact_position else 0
     inv4 = (1 / n_nearest[3]['distance']) if not exact_position else 0
     idx1 = n_nearest[0]['index'] if not exact_position else n_nearest[exact_position_idx]['index']
-    idx2 = n_nearest[1]['index'] if not exact_position else 0
-    idx3 = n_nearest[2]['index'] if not exact_position else 0
-    idx4 = n_nearest[3]['index'] if not exact_position else 0
+    idx2 = n_nearest[1]['index'] if not exact_position else idx1
+    idx3 = n_nearest[2]['index'] if not exact_position else idx1
+    idx4 = n_nearest[3]['index'] if not exact_position else idx1
     return inv1, inv2, inv3, inv4, idx1, idx2, idx3, idx4
 
 
-- 
2.43.0


From faebb511e5aedc3c86290abb7291dddc5b3cbca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:52 +0000
Subject: [PATCH 74/79] fix: conversion functions comparing x for equality
 could not be used

---
 src/pyg2p/main/manipulation/conversion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyg2p/main/manipulation/conversion.py b/src/pyg2p/main/manipulation/conversion.py
index 8e24f6a..5a177cf 100644
--- a/src/pyg2p/main/manipulation/conversion.py
+++ b/src/pyg2p/main/manipulation/conversion.py
@@ -18,7 +18,7 @@ class Converter(Loggable):
             if self._function_str == 'x=x':
                 self._identity = True
             else:
-                self._numexpr_eval = 'where(x!=mv, {}, mv)'.format(self._function_str.replace('x=', ''))
+                self._numexpr_eval = 'where(x!=mv, {}, mv)'.format(self._function_str.replace('x=', '', 1))
 
     def set_unit_to_convert(self, unit):
         self._initial_unit = unit
-- 
2.43.0


From 2241952fe62ac3c071d2752a59bfa31fdca23ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:33 +0000
Subject: [PATCH 75/79] fix: interrupted downloads left incomplete files that
 were taken as complete

---
 src/pyg2p/main/config.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/pyg2p/main/config.py b/src/pyg2p/main/config.py
index cfc88ed..470e23a 100644
--- a/src/pyg2p/main/config.py
+++ b/src/pyg2p/main/config.py
@@ -370,8 +370,15 @@ class Configuration(pyg2p.Loggable):
                 self._log(f'[{i}/{numfiles}] Skipping existing file {f}', level='INFO')
                 continue
             self._log(f'[{i}/{numfiles}] Downloading {f}')
-            with open(local_filename, 'wb') as local_file:
-                client.retrbinary(f'RETR {f}', local_file.write)
+            # a file takes its name when it is complete: existing files are not downloaded again
+            tmp_filename = f'{local_filename}.{os.getpid()}.tmp'
+            try:
+                with open(tmp_filename, 'wb') as local_file:
+                    client.retrbinary(f'RETR {f}', local_file.write)
+                os.replace(tmp_filename, local_filename)
+            finally:
+                if file_util.exists(tmp_filename):
+                    os.remove(tmp_filename)
         self._log(f'=== Download finished: {remote_path}')
         client.quit()  # close FTP connection
 
-- 
2.43.0


From 6547a01c57f1cca384d0bf12eff1f6d4ea8b43ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:30 +0000
Subject: [PATCH 76/79] fix: options of cdd were taken by position and not by
 name

---
 .../interpolation/scipy_interpolation_lib.py     | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
index 57d8604..17bede2 100644
--- a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
+++ b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
@@ -906,15 +906,13 @@ class ScipyInterpolation(object):
                         stdout.write('\nEvaluating cutoffs...')
                     
                     s = np.zeros_like(distances)      
-                    if cdd_options is None:
-                        # Hofstra standard values
-                        m_const = 4
-                        min_num_of_station = 4
-                        radius_ratio = 1/3
-                        weights_mode = "All"
-                    else:
-                        # Custom values
-                        m_const, min_num_of_station, radius_ratio, weights_mode = cdd_options.values()
+                    # Hofstra standard values, and custom ones, which can be in any order
+                    options = {'m_const': 4, 'min_num_of_station': 4, 'radius_ratio': 1/3, 'weights_mode': 'All'}
+                    options.update(cdd_options or {})
+                    m_const = options['m_const']
+                    min_num_of_station = options['min_num_of_station']
+                    radius_ratio = options['radius_ratio']
+                    weights_mode = options['weights_mode']
                     cdd_hofstra_shepard_compute_weights_from_cutoff_distances(distances, CDD_map, nnear, s, m_const, min_num_of_station, radius_ratio)
                 elif CDDmode == 'NewEtAl':
                     s = np.zeros_like(distances)  
-- 
2.43.0


From 3d796c0a7a64543217b5a3071ce5878ae1b1ffba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:10 +0000
Subject: [PATCH 77/79] fix: user variables in paths of the cdd map and of the
 folders of the commands file were not replaced

---
 src/pyg2p/main/config.py  | 19 +++++++++++++------
 src/pyg2p/main/context.py |  4 ++--
 2 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/pyg2p/main/config.py b/src/pyg2p/main/config.py
index 470e23a..e3a88a4 100644
--- a/src/pyg2p/main/config.py
+++ b/src/pyg2p/main/config.py
@@ -32,7 +32,8 @@ class UserConfiguration(pyg2p.Loggable):
     config_dir = f'{os.path.expanduser("~")}/.pyg2p/'
     sep = '='
     comment_char = '#'
-    conf_to_interpolate = ('correction.demMap', 'outMaps.clone', 'interpolation.latMap', 'interpolation.lonMap')
+    conf_to_interpolate = ('correction.demMap', 'outMaps.clone', 'interpolation.latMap', 'interpolation.lonMap',
+                           'interpolation.cdd_map')
     re_var = re.compile(r'{(?P<var>[a-zA-Z_][a-zA-Z0-9_]*)}')
     geopotentials_path_var = 'GEOPOTENTIALS'
     intertables_path_var = 'INTERTABLES'
@@ -77,11 +78,17 @@ class UserConfiguration(pyg2p.Loggable):
         vars_with_variables = [var for var in self.conf_to_interpolate if self.re_var.search(ctx.get(var, ''))]
         for var in vars_with_variables:
             # we can have multiple variables {CONF_DIR}/{MAPS_DIR}lat.map
-            ctx[var] = ctx[var].format(**self.vars)
-            if self.re_var.search(ctx[var]):
-                # some variables where not string-interpolated so they are missing in user configuration
-                vars_not_defined = self.re_var.findall(ctx[var])
-                raise ApplicationException.get_exc(NO_VAR_DEFINED, str(vars_not_defined))
+            ctx[var] = self.interpolate_string(ctx[var])
+
+    def interpolate_string(self, value):
+        if not self.re_var.search(value):
+            return value
+        value = value.format(**self.vars)
+        if self.re_var.search(value):
+            # some variables where not string-interpolated so they are missing in user configuration
+            vars_not_defined = self.re_var.findall(value)
+            raise ApplicationException.get_exc(NO_VAR_DEFINED, str(vars_not_defined))
+        return value
 
 
 def exclusive(method):
diff --git a/src/pyg2p/main/context.py b/src/pyg2p/main/context.py
index 8fae39a..9ad39fd 100644
--- a/src/pyg2p/main/context.py
+++ b/src/pyg2p/main/context.py
@@ -386,10 +386,10 @@ class ExecutionContext(Context):
         self._vars['interpolation.rotated_target'] = interpolation_conf.get('@rotated_target', False)
         if not self._vars['interpolation.dir'] and interpolation_conf.get('@intertableDir'):
             # get from JSON
-            self._vars['interpolation.dirs']['user'] = interpolation_conf['@intertableDir']
+            self._vars['interpolation.dirs']['user'] = self.configuration.user.interpolate_string(interpolation_conf['@intertableDir'])
         if not self._vars['geopotential.dir'] and interpolation_conf.get('@geopotentialDir'):
             # get from JSON
-            self._vars['geopotential.dirs']['user'] = interpolation_conf['@geopotentialDir']
+            self._vars['geopotential.dirs']['user'] = self.configuration.user.interpolate_string(interpolation_conf['@geopotentialDir'])
         self._vars['interpolation.latMap'] = interpolation_conf['@latMap']
         self._vars['interpolation.lonMap'] = interpolation_conf['@lonMap']
 
-- 
2.43.0


From e8b4320d68687ef21b8e10f44101a10804149c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:34 +0000
Subject: [PATCH 78/79] fix: NewEtAl took the cdd of wrong columns when the
 target crosses the 180th meridian

---
 src/pyg2p/main/interpolation/scipy_interpolation_lib.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
index 17bede2..eaa10c2 100644
--- a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
+++ b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
@@ -464,8 +464,13 @@ def cdd_newetal_compute_weights_from_cutoff_distances(distances, CDD_map, indexe
         
     #   [e^(−x/CDD)]^m       when 0  < d <= CDD
 
+    # targets and sources can be on both sides of the 180th meridian
+    TargetLonRes = TargetLonRes - 360*np.round(TargetLonRes/360)
+    middle = TargetLonRes*(CDD_map.shape[1]-1)/2
+    lon_offsets = LonOrigin-longrib[indexes]
+    lon_offsets = lon_offsets - 360*np.round((lon_offsets-middle)/360)
     CDD_values = CDD_map[np.clip(((LatOrigin-latgrib[indexes])/TargetLatRes).astype(int),0,CDD_map.shape[0]-1), \
-                                        np.clip(((LonOrigin-longrib[indexes])/TargetLonRes).astype(int),0,CDD_map.shape[1]-1)]
+                                        np.clip((lon_offsets/TargetLonRes).astype(int),0,CDD_map.shape[1]-1)]
     dist_leq_CDD = distances <= CDD_values
     s.ravel()[dist_leq_CDD.ravel()] = np.exp(-distances*m_const/CDD_values).ravel()[dist_leq_CDD.ravel()]
         
-- 
2.43.0


From 4d69fd75f87eb2230daf38545f2093d93879c6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:15 +0000
Subject: [PATCH 79/79] fix: OnlyTOP10 could discard a weight other than the
 smallest

---
 src/pyg2p/main/interpolation/scipy_interpolation_lib.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
index eaa10c2..cda9c50 100644
--- a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
+++ b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
@@ -934,11 +934,11 @@ class ScipyInterpolation(object):
                 # consider only TOP 10 weights instead of all:
                 if weights_mode == "OnlyTOP10":
                     # indices of top 10 values in each row
-                    #   idx = np.argpartition(s, 10, axis=1)  # get indices of top 10 values
+                    #   idx = np.argpartition(s, -10, axis=1)  # get indices of top 10 values
                     #   rows = np.arange(s.shape[0])[:, None]
                     #   s[rows, idx[:, :-10]] = 0
                     # all in one row:
-                    s[np.arange(s.shape[0])[:, None], np.argpartition(s, 10, axis=1)[:, :-10]] = 0
+                    s[np.arange(s.shape[0])[:, None], np.argpartition(s, -10, axis=1)[:, :-10]] = 0
 
 
                 
-- 
2.43.0

