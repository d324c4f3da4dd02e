From d48128fc1541063bc7fdb44c71a7eeb10b8feb76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:05 +0000
Subject: [PATCH 1/4] fix: impulse response heat uptake must not depend on the
 units of the parameters

The heat uptake calculation used the magnitude of the derived climate feedback
(and, with efficacy != 1, of the efficacy term) without first converting it to
the model's units, so the result was wrong (or an AssertionError was raised)
whenever q1, q2, d1 or d2 were not given in the default units.
---
 src/openscm_twolayermodel/impulse_response_model.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/openscm_twolayermodel/impulse_response_model.py b/src/openscm_twolayermodel/impulse_response_model.py
index dc1d3f8..d98d80b 100644
--- a/src/openscm_twolayermodel/impulse_response_model.py
+++ b/src/openscm_twolayermodel/impulse_response_model.py
@@ -215,7 +215,8 @@ class ImpulseResponseModel(
 
     def _calculate_next_rndt(self, t1, t2, erf, efficacy):
         two_layer_paras = self.get_two_layer_parameters()
-        lambda0 = two_layer_paras["lambda0"]
+        # the parameters may be in any units, the calculation below uses magnitudes
+        lambda0 = two_layer_paras["lambda0"].to("W/m^2/delta_degC")
 
         if np.equal(efficacy, 1):
             efficacy_term = 0 * ur(self._erf_unit)
@@ -234,7 +235,7 @@ class ImpulseResponseModel(
                 two_layer_paras["eta"]
                 * (efficacy - 1)
                 * ((1 - gh["phi1"]) * t1_h + (1 - gh["phi2"]) * t2_h)
-            )
+            ).to(self._erf_unit)
 
             if str(efficacy_term.units) != "watt / meter ** 2":
                 raise AssertionError("units should have come out as W/m^2")
-- 
2.43.0


From e1e3202dcf3ce1cd75891bfe6df0dabf23a4197e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:21 +0000
Subject: [PATCH 2/4] fix: refuse driver timeseries with missing values inside
 them

Dropping missing values from the middle of a timeseries silently treated the
gap as a single timestep, although the model's timestep is constant.
---
 src/openscm_twolayermodel/base.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/openscm_twolayermodel/base.py b/src/openscm_twolayermodel/base.py
index ea817ed..5512705 100644
--- a/src/openscm_twolayermodel/base.py
+++ b/src/openscm_twolayermodel/base.py
@@ -237,6 +237,11 @@ class TwoLayerVariant(Model):
         ):
             meta = dict(zip(driver_ts.index.names, label))
             row_no_nan = row.dropna()
+            if (np.diff(np.flatnonzero(row.notnull())) > 1).any():
+                raise NotImplementedError(
+                    "Missing values between the first and last value of the "
+                    "driver timeseries: {}".format(meta)
+                )
 
             self.set_drivers(row_no_nan.values * ur(meta["unit"]))
             self.reset()
-- 
2.43.0


From 4e9dbcbe76614052c914e659e66643b95984004a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:38 +0000
Subject: [PATCH 3/4] fix: monthly series crossing a new year must not get a
 yearly timestep

Two monthly points, December and January, are in consecutive years and were
hence run with a timestep of one year.
---
 src/openscm_twolayermodel/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/openscm_twolayermodel/base.py b/src/openscm_twolayermodel/base.py
index 5512705..b646a7c 100644
--- a/src/openscm_twolayermodel/base.py
+++ b/src/openscm_twolayermodel/base.py
@@ -153,11 +153,11 @@ class TwoLayerVariant(Model):
     @staticmethod
     def _select_timestep(driver):
         year_diff = driver["year"].diff().dropna()
-        if (year_diff == 1).all():
+        time_diff = driver["time"].diff().dropna()
+        if (year_diff == 1).all() and all(time_diff > np.timedelta64(31, "D")):
             # assume yearly timesteps
             return 1 * ur("yr")
 
-        time_diff = driver["time"].diff().dropna()
         if all(
             np.logical_and(
                 time_diff <= np.timedelta64(31, "D"),
-- 
2.43.0


From 3fc4ef80af348ab3eef207b5e68cf2870c5e79fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:56 +0000
Subject: [PATCH 4/4] fix: running scenarios must not modify a data frame it is
 given

---
 src/openscm_twolayermodel/base.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/openscm_twolayermodel/base.py b/src/openscm_twolayermodel/base.py
index b646a7c..c150cd9 100644
--- a/src/openscm_twolayermodel/base.py
+++ b/src/openscm_twolayermodel/base.py
@@ -134,10 +134,15 @@ class TwoLayerVariant(Model):
 
     @staticmethod
     def _ensure_scenarios_are_scmrun(scenarios):
+        if isinstance(scenarios, (ScmRun, pd.DataFrame)):
+            # never work on the caller's object: initialising an ScmRun resets the
+            # index of a data frame in place
+            scenarios = scenarios.copy()
+
         if not isinstance(scenarios, ScmRun):
             driver = ScmRun(scenarios)
         else:
-            driver = scenarios.copy()
+            driver = scenarios
 
         return driver
 
-- 
2.43.0

