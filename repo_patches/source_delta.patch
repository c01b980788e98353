From e078967eaba6dc986f3b6ec0989a21d3a0abbe8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:43 +0000
Subject: [PATCH 01/56] fix: pass altitude and temperature to spa_c by name

get_solarposition(method='nrel_c') passed the temperature in the position of
the altitude and dropped the altitude.
---
 pvlib/solarposition.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pvlib/solarposition.py b/pvlib/solarposition.py
index 4441ed0..6345bbd 100644
--- a/pvlib/solarposition.py
+++ b/pvlib/solarposition.py
@@ -101,8 +101,8 @@ def get_solarposition(time, latitude, longitude,
         time = pd.DatetimeIndex([time, ])
 
     if method == 'nrel_c':
-        ephem_df = spa_c(time, latitude, longitude, pressure, temperature,
-                         **kwargs)
+        ephem_df = spa_c(time, latitude, longitude, pressure=pressure,
+                         altitude=altitude, temperature=temperature, **kwargs)
     elif method == 'nrel_numba':
         ephem_df = spa_python(time, latitude, longitude, altitude,
                               pressure, temperature,
-- 
2.43.0


From 7e0c8f45579452949d91ff5b464868ae53279808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:43 +0000
Subject: [PATCH 02/56] fix: honour atmos_refract=0 in spa_python

---
 pvlib/solarposition.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pvlib/solarposition.py b/pvlib/solarposition.py
index 6345bbd..703429d 100644
--- a/pvlib/solarposition.py
+++ b/pvlib/solarposition.py
@@ -361,7 +361,8 @@ def spa_python(time, latitude, longitude,
     elev = altitude
     pressure = pressure / 100  # pressure must be in millibars for calculation
 
-    atmos_refract = atmos_refract or 0.5667
+    if atmos_refract is None:
+        atmos_refract = 0.5667
 
     if not isinstance(time, pd.DatetimeIndex):
         try:
-- 
2.43.0


From 638280709fa394afe502ebe35ad6153b273c775d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:04 +0000
Subject: [PATCH 03/56] fix: solar_azimuth_analytical at solar noon with the
 sun due north

A zero hour angle always gave an azimuth of 180 degrees, even where the sun
crosses the meridian north of the zenith.
---
 pvlib/solarposition.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pvlib/solarposition.py b/pvlib/solarposition.py
index 703429d..1a62e7c 100644
--- a/pvlib/solarposition.py
+++ b/pvlib/solarposition.py
@@ -1307,7 +1307,9 @@ def solar_azimuth_analytical(latitude, hourangle, declination, zenith):
 
     # when NaN values occur in input, ignore and pass to output
     with np.errstate(invalid='ignore'):
-        sign_ha = np.sign(hourangle)
+        # at solar noon (zero hour angle) use the limit from the afternoon side
+        # so that the sun can be due north as well as due south
+        sign_ha = np.sign(hourangle) + (hourangle == 0)
 
     return sign_ha * np.arccos(cos_azi) + np.pi
 
-- 
2.43.0


From 4f951bfbd51cbd68c97ec30d00ad46f78c26f82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:04 +0000
Subject: [PATCH 04/56] fix: hour angle and geometric sunrise on days when the
 clocks change

The hours since local midnight were combined with the UTC offset in force at
the given times instead of the offset at that midnight, so that the hour angle
and the geometric sunrise, transit and sunset were wrong by the DST shift on
the day of a clock change.
---
 pvlib/solarposition.py | 36 ++++++++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/pvlib/solarposition.py b/pvlib/solarposition.py
index 1a62e7c..12df278 100644
--- a/pvlib/solarposition.py
+++ b/pvlib/solarposition.py
@@ -1412,8 +1412,9 @@ def hour_angle(times, longitude, equation_of_time):
     if not times.tz:
         raise ValueError('times must be localized')
 
-    # hours - timezone = (times - normalized_times) - (naive_times - times)
-    tzs = np.array([ts.utcoffset().total_seconds() for ts in times]) / 3600
+    # hours - timezone: both count from local midnight, so that the result does
+    # not depend on a change of the clocks between midnight and times
+    _, tzs = _local_midnights(times)
 
     hrs_minus_tzs = _times_to_hours_after_local_midnight(times) - tzs
 
@@ -1427,7 +1428,7 @@ def _hour_angle_to_hours(times, hourangle, longitude, equation_of_time):
     if not times.tz:
         raise ValueError('times must be localized')
 
-    tzs = np.array([ts.utcoffset().total_seconds() for ts in times]) / 3600
+    _, tzs = _local_midnights(times)
     hours = (hourangle - longitude - equation_of_time / 4.) / 15. + 12. + tzs
     return np.asarray(hours)
 
@@ -1443,15 +1444,15 @@ def _local_times_from_hours_since_midnight(times, hours):
 
     # normalize local times to previous local midnight and add the hours until
     # sunrise, sunset, and transit
-    return times.normalize() + pd.to_timedelta(hours, unit='h')
+    normalized_times, _ = _local_midnights(times)
+    return normalized_times + pd.to_timedelta(hours, unit='h')
 
 
-def _times_to_hours_after_local_midnight(times):
-    """convert local pandas datetime indices to array of hours as floats"""
-
-    # times must be localized
-    if not times.tz:
-        raise ValueError('times must be localized')
+def _local_midnights(times):
+    """
+    Localized midnights that start the local days of ``times``, and the UTC
+    offsets [h] of these midnights as an array of floats.
+    """
 
     # Some timezones have a DST shift at midnight:
     #   11:59pm -> 1:00am - results in a nonexistent midnight
@@ -1463,6 +1464,21 @@ def _times_to_hours_after_local_midnight(times):
     normalized_times = naive_normalized_times.tz_localize(
         times.tz, nonexistent='shift_forward', ambiguous='raise')
 
+    tzs = (naive_normalized_times
+           - normalized_times.tz_convert('UTC').tz_localize(None)
+           ) / pd.Timedelta('1h')
+
+    return normalized_times, np.array(tzs)
+
+
+def _times_to_hours_after_local_midnight(times):
+    """convert local pandas datetime indices to array of hours as floats"""
+
+    # times must be localized
+    if not times.tz:
+        raise ValueError('times must be localized')
+
+    normalized_times, _ = _local_midnights(times)
     hrs = (times - normalized_times) / pd.Timedelta('1h')
 
     # ensure array return instead of a version-dependent pandas <T>Index
-- 
2.43.0


From 2ce8952f85b4c489088e4183777bbce81afdf39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:20 +0000
Subject: [PATCH 05/56] fix: sun_rise_set_transit_spa returned events of a
 neighboring local day

For sites where solar noon is close to 00:00 UTC (for example Fiji from October
to December, Samoa and the Aleutians) transit, sunrise and sunset belonged to
the day after or before the requested local day.
---
 pvlib/solarposition.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pvlib/solarposition.py b/pvlib/solarposition.py
index 12df278..a565b98 100644
--- a/pvlib/solarposition.py
+++ b/pvlib/solarposition.py
@@ -472,6 +472,17 @@ def sun_rise_set_transit_spa(times, latitude, longitude, how='numpy',
     transit, sunrise, sunset = spa.transit_sunrise_sunset(
         unixtime, lat, lon, delta_t, numthreads)
 
+    # The routine returns the transit within the given UTC day, and sunrise and
+    # sunset around it. Where local solar noon is close to 00:00 UTC (longitudes
+    # near 180 degrees) that transit can belong to the local day before or after
+    # the requested one: use the neighboring UTC day then.
+    transit_day = _datetime_to_unixtime(
+        pd.to_datetime(transit*1e9, unit='ns', utc=True).tz_convert(
+            tzinfo).tz_localize(None).normalize())
+    if np.any(transit_day != unixtime):
+        transit, sunrise, sunset = spa.transit_sunrise_sunset(
+            2 * unixtime - transit_day, lat, lon, delta_t, numthreads)
+
     # arrays are in seconds since epoch format, need to conver to timestamps
     transit = pd.to_datetime(transit*1e9, unit='ns', utc=True).tz_convert(
         tzinfo).tolist()
-- 
2.43.0


From 360c0a43ada218c50e657adf9c93bdafea8a8f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:47 +0000
Subject: [PATCH 06/56] fix: klucher raised ZeroDivisionError for scalar zero
 irradiance

---
 pvlib/irradiance.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pvlib/irradiance.py b/pvlib/irradiance.py
index 677cdba..11b39fe 100644
--- a/pvlib/irradiance.py
+++ b/pvlib/irradiance.py
@@ -798,8 +798,9 @@ def klucher(surface_tilt, surface_azimuth, dhi, ghi, solar_zenith,
     cos_tt = np.maximum(cos_tt, 0)  # GH 526
 
     # silence warning from 0 / 0
-    with np.errstate(invalid='ignore'):
-        F = 1 - ((dhi / ghi) ** 2)
+    with np.errstate(invalid='ignore', divide='ignore'):
+        # np.divide so that Python floats do not raise ZeroDivisionError
+        F = 1 - (np.divide(dhi, ghi) ** 2)
 
     try:
         # fails with single point input
-- 
2.43.0


From 67905cbf20c4392549448aae260b0f393ab7bcd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:00 +0000
Subject: [PATCH 07/56] fix: perez_driesse components did not sum to a clipped
 total

---
 pvlib/irradiance.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pvlib/irradiance.py b/pvlib/irradiance.py
index 11b39fe..9417178 100644
--- a/pvlib/irradiance.py
+++ b/pvlib/irradiance.py
@@ -1566,9 +1566,14 @@ def perez_driesse(surface_tilt, surface_azimuth, dhi, dni, dni_extra,
             'poa_horizon': dhi * term3
         }
 
+        # Set values of components to 0 when poa_sky_diffuse is 0
+        mask = poa_sky_diffuse == 0
         if isinstance(poa_sky_diffuse, pd.Series):
             diffuse_components = pd.DataFrame(diffuse_components)
-
+            diffuse_components.loc[mask] = 0
+        else:
+            diffuse_components = {k: np.where(mask, 0, v) for k, v in
+                                  diffuse_components.items()}
         return diffuse_components
     else:
         return poa_sky_diffuse
-- 
2.43.0


From 53ef2c4f3f28535555b4ecd309995696d73960c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:47 +0000
Subject: [PATCH 08/56] fix: simplified_solis with integer arrays or a
 one-element series

Integer aod700 or precipitable_water arrays truncated the other, scalar
argument; a one-element series raised KeyError.
---
 pvlib/clearsky.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pvlib/clearsky.py b/pvlib/clearsky.py
index da9d197..c56f9f0 100644
--- a/pvlib/clearsky.py
+++ b/pvlib/clearsky.py
@@ -483,9 +483,9 @@ def _calc_taud(w, aod700, p):
         w = np.array([w])
         aod700 = np.array([aod700])
     elif np.isscalar(w):
-        w = np.full_like(aod700, w)
+        w = np.full_like(aod700, w, dtype=float)
     elif np.isscalar(aod700):
-        aod700 = np.full_like(w, aod700)
+        aod700 = np.full_like(w, aod700, dtype=float)
 
     # set up nan-tolerant masks
     aod700_lt_0p05 = np.full_like(aod700, False, dtype='bool')
@@ -509,7 +509,7 @@ def _calc_taud(w, aod700, p):
 
     # be polite about matching the output type to the input type(s)
     if len(taud) == 1:
-        taud = taud[0]
+        taud = np.asarray(taud)[0]
 
     return taud
 
-- 
2.43.0


From cb5a1b6a44f5140275f9dc66a9a019cf30b4ce01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:47 +0000
Subject: [PATCH 09/56] fix: haurwitz truncated to integers for an integer
 zenith series

---
 pvlib/clearsky.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvlib/clearsky.py b/pvlib/clearsky.py
index c56f9f0..6d1a56e 100644
--- a/pvlib/clearsky.py
+++ b/pvlib/clearsky.py
@@ -316,7 +316,7 @@ def haurwitz(apparent_zenith):
     '''
 
     cos_zenith = tools.cosd(apparent_zenith.values)
-    ghi_clear = np.zeros_like(apparent_zenith.values)
+    ghi_clear = np.zeros_like(cos_zenith)
     cos_zen_gte_0 = cos_zenith > 0
     ghi_clear[cos_zen_gte_0] = (1098.0 * cos_zenith[cos_zen_gte_0] *
                                 np.exp(-0.059/cos_zenith[cos_zen_gte_0]))
-- 
2.43.0


From 4be57395a94d058c1f46a7d94b09780377d2a2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:26 +0000
Subject: [PATCH 10/56] fix: detect_clearsky raised ValueError for integer
 irradiance

---
 pvlib/clearsky.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pvlib/clearsky.py b/pvlib/clearsky.py
index 6d1a56e..3f66425 100644
--- a/pvlib/clearsky.py
+++ b/pvlib/clearsky.py
@@ -603,6 +603,7 @@ def _line_length_windowed(data, H, samples_per_window,
 
 
 def _to_centered_series(vals, idx, samples_per_window):
+    vals = np.asarray(vals, dtype=float)
     vals = np.pad(vals, ((0, len(idx) - len(vals)),), mode='constant',
                   constant_values=np.nan)
     shift = samples_per_window // 2  # align = 'center' only
-- 
2.43.0


From 471300661395df62bee4479f9308f08b670002ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:26 +0000
Subject: [PATCH 11/56] fix: sample interval of one day or more, or with
 fractions of a second

---
 pvlib/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvlib/tools.py b/pvlib/tools.py
index 1d9db70..44e0877 100644
--- a/pvlib/tools.py
+++ b/pvlib/tools.py
@@ -433,7 +433,7 @@ def _get_sample_intervals(times, win_length):
     # determine if we can proceed
     if times.inferred_freq and len(np.unique(deltas)) == 1:
         sample_interval = times[1] - times[0]
-        sample_interval = sample_interval.seconds / 60  # in minutes
+        sample_interval = sample_interval.total_seconds() / 60  # in minutes
         samples_per_window = int(win_length / sample_interval)
         return sample_interval, samples_per_window
     else:
-- 
2.43.0


From 04f4d9cc4f14caba48c7d953cfc46ce860b9c124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:56 +0000
Subject: [PATCH 12/56] fix: chandrupatla maximum power point for integer or
 scalar photocurrent

---
 pvlib/singlediode.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pvlib/singlediode.py b/pvlib/singlediode.py
index 974d59d..6cb89de 100644
--- a/pvlib/singlediode.py
+++ b/pvlib/singlediode.py
@@ -690,8 +690,9 @@ def bishop88_mpp(photocurrent, saturation_current, resistance_series,
             )
             raise ImportError(msg) from e
 
-        vlo = np.zeros_like(photocurrent)
-        vhi = np.full_like(photocurrent, voc_est)
+        shape = _shape_of_max_size(xp)
+        vlo = np.zeros(shape)
+        vhi = np.full(shape, voc_est)
         kwargs_trimmed = method_kwargs.copy()
         kwargs_trimmed.pop("full_output", None)  # not valid for find_root
 
-- 
2.43.0


From ff349a004f689de7fbed28fa6268c53df91aeea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:56 +0000
Subject: [PATCH 13/56] fix: chandrupatla bracket crossed the recombination
 asymptote

---
 pvlib/singlediode.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pvlib/singlediode.py b/pvlib/singlediode.py
index 6cb89de..d3dedfe 100644
--- a/pvlib/singlediode.py
+++ b/pvlib/singlediode.py
@@ -352,9 +352,11 @@ def bishop88_i_from_v(voltage, photocurrent, saturation_current,
             raise ImportError(msg) from e
 
         voc_est = estimate_voc(photocurrent, saturation_current, nNsVth)
-        shape = _shape_of_max_size(voltage, voc_est)
+        # stay below the asymptote at NsVbi
+        xp = np.where(voc_est < NsVbi, voc_est, 0.9999*NsVbi)
+        shape = _shape_of_max_size(voltage, xp)
         vlo = np.zeros(shape)
-        vhi = np.full(shape, voc_est)
+        vhi = np.full(shape, xp)
         bounds = (vlo, vhi)
         kwargs_trimmed = method_kwargs.copy()
         kwargs_trimmed.pop("full_output", None)  # not valid for find_root
@@ -523,9 +525,9 @@ def bishop88_v_from_i(current, photocurrent, saturation_current,
             )
             raise ImportError(msg) from e
 
-        shape = _shape_of_max_size(current, voc_est)
+        shape = _shape_of_max_size(current, xp)
         vlo = np.zeros(shape)
-        vhi = np.full(shape, voc_est)
+        vhi = np.full(shape, xp)
         bounds = (vlo, vhi)
         kwargs_trimmed = method_kwargs.copy()
         kwargs_trimmed.pop("full_output", None)  # not valid for find_root
@@ -692,7 +694,7 @@ def bishop88_mpp(photocurrent, saturation_current, resistance_series,
 
         shape = _shape_of_max_size(xp)
         vlo = np.zeros(shape)
-        vhi = np.full(shape, voc_est)
+        vhi = np.full(shape, xp)
         kwargs_trimmed = method_kwargs.copy()
         kwargs_trimmed.pop("full_output", None)  # not valid for find_root
 
-- 
2.43.0


From c94eac124d81f54ce456d05aa13622b79a6598b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:56 +0000
Subject: [PATCH 14/56] fix: bracketing solvers lost the open-circuit root for
 infinite shunt resistance

---
 pvlib/singlediode.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pvlib/singlediode.py b/pvlib/singlediode.py
index d3dedfe..662034d 100644
--- a/pvlib/singlediode.py
+++ b/pvlib/singlediode.py
@@ -315,7 +315,7 @@ def bishop88_i_from_v(voltage, photocurrent, saturation_current,
 
     if method == 'brentq':
         # first bound the search using voc
-        voc_est = estimate_voc(photocurrent, saturation_current, nNsVth)
+        voc_est = _voc_bound(photocurrent, saturation_current, nNsVth)
         # start iteration slightly less than NsVbi when voc_est > NsVbi, to
         # avoid the asymptote at NsVbi
         xp = np.where(voc_est < NsVbi, voc_est, 0.9999*NsVbi)
@@ -351,7 +351,7 @@ def bishop88_i_from_v(voltage, photocurrent, saturation_current,
             )
             raise ImportError(msg) from e
 
-        voc_est = estimate_voc(photocurrent, saturation_current, nNsVth)
+        voc_est = _voc_bound(photocurrent, saturation_current, nNsVth)
         # stay below the asymptote at NsVbi
         xp = np.where(voc_est < NsVbi, voc_est, 0.9999*NsVbi)
         shape = _shape_of_max_size(voltage, xp)
@@ -484,7 +484,7 @@ def bishop88_v_from_i(current, photocurrent, saturation_current,
         method_kwargs = {}
 
     # first bound the search using voc
-    voc_est = estimate_voc(photocurrent, saturation_current, nNsVth)
+    voc_est = _voc_bound(photocurrent, saturation_current, nNsVth)
     # start iteration slightly less than NsVbi when voc_est > NsVbi, to avoid
     # the asymptote at NsVbi
     xp = np.where(voc_est < NsVbi, voc_est, 0.9999*NsVbi)
@@ -719,6 +719,13 @@ def bishop88_mpp(photocurrent, saturation_current, resistance_series,
         return bishop88(vd, *args)
 
 
+def _voc_bound(photocurrent, saturation_current, nNsVth):
+    # With infinite shunt resistance the estimate is the root itself, and
+    # rounding may put the root outside of a bracket that ends there.
+    voc_est = estimate_voc(photocurrent, saturation_current, nNsVth)
+    return voc_est * (1 + 1e-9)
+
+
 def _shape_of_max_size(*args):
     return max(((np.size(a), np.shape(a)) for a in args),
                key=lambda t: t[0])[1]
-- 
2.43.0


From 02c3114d4c886c64db878764c3975719f1c89094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:19 +0000
Subject: [PATCH 15/56] fix: NsVbi capped the solver brackets although
 recombination was off

---
 pvlib/singlediode.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pvlib/singlediode.py b/pvlib/singlediode.py
index 662034d..00d73ea 100644
--- a/pvlib/singlediode.py
+++ b/pvlib/singlediode.py
@@ -318,7 +318,8 @@ def bishop88_i_from_v(voltage, photocurrent, saturation_current,
         voc_est = _voc_bound(photocurrent, saturation_current, nNsVth)
         # start iteration slightly less than NsVbi when voc_est > NsVbi, to
         # avoid the asymptote at NsVbi
-        xp = np.where(voc_est < NsVbi, voc_est, 0.9999*NsVbi)
+        xp = np.where((voc_est < NsVbi) | np.equal(d2mutau, 0),
+                      voc_est, 0.9999*NsVbi)
 
         # brentq only works with scalar inputs, so we need a set up function
         # and np.vectorize to repeatedly call the optimizer with the right
@@ -353,7 +354,8 @@ def bishop88_i_from_v(voltage, photocurrent, saturation_current,
 
         voc_est = _voc_bound(photocurrent, saturation_current, nNsVth)
         # stay below the asymptote at NsVbi
-        xp = np.where(voc_est < NsVbi, voc_est, 0.9999*NsVbi)
+        xp = np.where((voc_est < NsVbi) | np.equal(d2mutau, 0),
+                      voc_est, 0.9999*NsVbi)
         shape = _shape_of_max_size(voltage, xp)
         vlo = np.zeros(shape)
         vhi = np.full(shape, xp)
@@ -487,7 +489,8 @@ def bishop88_v_from_i(current, photocurrent, saturation_current,
     voc_est = _voc_bound(photocurrent, saturation_current, nNsVth)
     # start iteration slightly less than NsVbi when voc_est > NsVbi, to avoid
     # the asymptote at NsVbi
-    xp = np.where(voc_est < NsVbi, voc_est, 0.9999*NsVbi)
+    xp = np.where((voc_est < NsVbi) | np.equal(d2mutau, 0),
+                  voc_est, 0.9999*NsVbi)
 
     def fi(x, i, *a):
         # calculate current residual given diode voltage "x"
@@ -656,7 +659,8 @@ def bishop88_mpp(photocurrent, saturation_current, resistance_series,
     voc_est = estimate_voc(photocurrent, saturation_current, nNsVth)
     # start iteration slightly less than NsVbi when voc_est > NsVbi, to avoid
     # the asymptote at NsVbi
-    xp = np.where(voc_est < NsVbi, voc_est, 0.9999*NsVbi)
+    xp = np.where((voc_est < NsVbi) | np.equal(d2mutau, 0),
+                  voc_est, 0.9999*NsVbi)
 
     def fmpp(x, *a):
         return bishop88(x, *a, gradients=True)[6]
-- 
2.43.0


From 04a1b18389121deb9eb240280b78776aff00a48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:19 +0000
Subject: [PATCH 16/56] fix: derivative of the reverse breakdown term in
 bishop88

---
 pvlib/singlediode.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pvlib/singlediode.py b/pvlib/singlediode.py
index 00d73ea..5485eb5 100644
--- a/pvlib/singlediode.py
+++ b/pvlib/singlediode.py
@@ -183,10 +183,11 @@ def bishop88(diode_voltage, photocurrent, saturation_current,
         brk_pwr_1 = np.power(brk_term, -breakdown_exp - 1)
         brk_pwr_2 = np.power(brk_term, -breakdown_exp - 2)
         brk_fctr = breakdown_factor * g_sh
-        grad_i_brk = brk_fctr * (brk_pwr + diode_voltage *
-                                 -breakdown_exp * brk_pwr_1)
-        grad2i_brk = (brk_fctr * -breakdown_exp        # noqa: W503
-                      * (2 * brk_pwr_1 + diode_voltage   # noqa: W503
+        grad_brk_term = -1.0 / breakdown_voltage
+        grad_i_brk = brk_fctr * (brk_pwr + diode_voltage * grad_brk_term
+                                 * -breakdown_exp * brk_pwr_1)
+        grad2i_brk = (brk_fctr * -breakdown_exp * grad_brk_term  # noqa: W503
+                      * (2 * brk_pwr_1 + diode_voltage * grad_brk_term
                          * (-breakdown_exp - 1) * brk_pwr_2))  # noqa: W503
         grad_i = -g_diode - g_sh - grad_i_recomb - grad_i_brk  # di/dvd
         grad_v = 1.0 - grad_i * resistance_series  # dv/dvd
-- 
2.43.0


From 2a925141c6dfdcdc1e7282aee9f307688f57174a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:19 +0000
Subject: [PATCH 17/56] fix: bishop88 lost voltages below breakdown_voltage
 without breakdown

---
 pvlib/singlediode.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pvlib/singlediode.py b/pvlib/singlediode.py
index 5485eb5..2eec173 100644
--- a/pvlib/singlediode.py
+++ b/pvlib/singlediode.py
@@ -167,7 +167,10 @@ def bishop88(diode_voltage, photocurrent, saturation_current,
     v_star = diode_voltage / nNsVth  # non-dimensional diode voltage
     g_sh = 1.0 / resistance_shunt  # conductance
 
-    brk_term = 1 - diode_voltage / breakdown_voltage
+    # no breakdown term when breakdown_factor is zero: the power below is
+    # undefined for voltages beyond the breakdown voltage
+    brk_term = np.where(np.equal(breakdown_factor, 0), 1.,
+                        1 - diode_voltage / breakdown_voltage)
     brk_pwr = np.power(brk_term, -breakdown_exp)
     i_breakdown = breakdown_factor * diode_voltage * g_sh * brk_pwr
 
-- 
2.43.0


From a2bcd85676b66d0b5720104fcc1ea559e7e34087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:59 +0000
Subject: [PATCH 18/56] fix: calcparams_desoto raised ZeroDivisionError for
 scalar zero irradiance

---
 pvlib/pvsystem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvlib/pvsystem.py b/pvlib/pvsystem.py
index 02b16ed..c6933ce 100644
--- a/pvlib/pvsystem.py
+++ b/pvlib/pvsystem.py
@@ -1743,7 +1743,7 @@ def calcparams_desoto(effective_irradiance, temp_cell,
     # spectral_modifier = 1.0.
     # use errstate to silence divide by warning
     with np.errstate(divide='ignore'):
-        Rsh = R_sh_ref * (irrad_ref / effective_irradiance)
+        Rsh = R_sh_ref * np.divide(irrad_ref, effective_irradiance)
 
     Rs = R_s
 
-- 
2.43.0


From 1a9452bbd19713a6433a82f36510330b383698ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:13 +0000
Subject: [PATCH 19/56] fix: sapm gave NaN power at zero irradiance for modules
 with negative C2

---
 pvlib/pvsystem.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pvlib/pvsystem.py b/pvlib/pvsystem.py
index c6933ce..9104f56 100644
--- a/pvlib/pvsystem.py
+++ b/pvlib/pvsystem.py
@@ -2388,6 +2388,9 @@ def sapm(effective_irradiance, temp_cell, module, *, temperature_ref=25,
         module['C2'] * cells_in_series * delta * logEe +
         module['C3'] * cells_in_series * ((delta * logEe) ** 2) +
         Bvmpo*(temp_cell - temperature_ref)))
+    # in the dark the two logarithmic terms may be infinite of opposite signs
+    out['v_mp'] = np.where(Ee_eq_0 & np.isfinite(temp_cell),
+                           0., out['v_mp'])[()]
 
     out['p_mp'] = out['i_mp'] * out['v_mp']
 
-- 
2.43.0


From d49c02e613b58814e780d9b0aa8b7da8d14323f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:13 +0000
Subject: [PATCH 20/56] fix: sapm lost the index of a Series irradiance with a
 scalar temperature

---
 pvlib/pvsystem.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pvlib/pvsystem.py b/pvlib/pvsystem.py
index 9104f56..b654981 100644
--- a/pvlib/pvsystem.py
+++ b/pvlib/pvsystem.py
@@ -2406,6 +2406,8 @@ def sapm(effective_irradiance, temp_cell, module, *, temperature_ref=25,
 
     if isinstance(out['i_sc'], pd.Series):
         out = pd.DataFrame(out)
+    elif isinstance(effective_irradiance, pd.Series):
+        out = pd.DataFrame(out, index=effective_irradiance.index)
 
     return out
 
-- 
2.43.0


From 8442e3048a4fb9aefbc6d0b7cacf4423b2474992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:49 +0000
Subject: [PATCH 21/56] fix: sandia inverter failed for a voltage Series with
 scalar power

---
 pvlib/inverter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvlib/inverter.py b/pvlib/inverter.py
index 622fb9b..74cac1a 100644
--- a/pvlib/inverter.py
+++ b/pvlib/inverter.py
@@ -41,7 +41,7 @@ def _sandia_limits(power_ac, p_dc, Paco, Pnt, Pso):
     '''
     power_ac = np.minimum(Paco, power_ac)
     min_ac_power = -1.0 * abs(Pnt)
-    below_limit = p_dc < Pso
+    below_limit = np.broadcast_to(p_dc < Pso, np.shape(power_ac))
     try:
         power_ac[below_limit] = min_ac_power
     except TypeError:  # power_ac is a float
-- 
2.43.0


From 2bce2711158351a7feb91a7be0f693e5e2515a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:49 +0000
Subject: [PATCH 22/56] fix: sandia_multi raised ZeroDivisionError for scalar
 zero power

---
 pvlib/inverter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pvlib/inverter.py b/pvlib/inverter.py
index 74cac1a..5c0cbc3 100644
--- a/pvlib/inverter.py
+++ b/pvlib/inverter.py
@@ -195,7 +195,9 @@ def sandia_multi(v_dc, p_dc, inverter):
     power_ac = 0. * power_dc
 
     for vdc, pdc in zip(v_dc, p_dc):
-        power_ac += pdc / power_dc * _sandia_eff(vdc, power_dc, inverter)
+        with np.errstate(invalid='ignore'):
+            share = np.divide(pdc, power_dc)  # undefined at night
+        power_ac = power_ac + share * _sandia_eff(vdc, power_dc, inverter)
 
     return _sandia_limits(power_ac, power_dc, inverter['Paco'],
                           inverter['Pnt'], inverter['Pso'])
-- 
2.43.0


From 9d08652215432de2030258fe4bb22ee210732362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:49 +0000
Subject: [PATCH 23/56] fix: adr inverter failed for scalar zero voltage and
 for inputs of different shapes

---
 pvlib/inverter.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/pvlib/inverter.py b/pvlib/inverter.py
index 5c0cbc3..d28e03a 100644
--- a/pvlib/inverter.py
+++ b/pvlib/inverter.py
@@ -303,15 +303,17 @@ def adr(v_dc, p_dc, inverter, vtol=0.10):
     # zero voltage will lead to division by zero, but since power is
     # set to night time value later, these errors can be safely ignored
     with np.errstate(invalid='ignore', divide='ignore'):
-        poly = np.array([pdc**0,  # replace with np.ones_like?
-                         pdc,
-                         pdc**2,
-                         vdc - 1,
-                         pdc * (vdc - 1),
-                         pdc**2 * (vdc - 1),
-                         1. / vdc - 1,  # divide by 0
-                         pdc * (1. / vdc - 1),  # invalid 0./0. --> nan
-                         pdc**2 * (1. / vdc - 1)])  # divide by 0
+        inv_vdc = np.divide(1., vdc)  # divide by 0
+        poly = np.array(np.broadcast_arrays(
+            pdc**0,  # replace with np.ones_like?
+            pdc,
+            pdc**2,
+            vdc - 1,
+            pdc * (vdc - 1),
+            pdc**2 * (vdc - 1),
+            inv_vdc - 1,
+            pdc * (inv_vdc - 1),  # invalid 0./0. --> nan
+            pdc**2 * (inv_vdc - 1)))
     p_loss = np.dot(np.array(ce_list), poly)
     power_ac = p_nom * (pdc - p_loss)
     p_nt = -1 * np.absolute(p_nt)
-- 
2.43.0


From 04ede4b017fe1805acbff01d914f6aa603071891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:49 +0000
Subject: [PATCH 24/56] fix: inverter.pvwatts failed for scalar power with
 array pdc0

---
 pvlib/inverter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvlib/inverter.py b/pvlib/inverter.py
index d28e03a..d282db4 100644
--- a/pvlib/inverter.py
+++ b/pvlib/inverter.py
@@ -400,7 +400,7 @@ def pvwatts(pdc, pdc0, eta_inv_nom=0.96, eta_inv_ref=0.9637):
     zeta = pdc / pdc0
 
     # arrays to help avoid divide by 0 for scalar and array
-    eta = np.zeros_like(pdc, dtype=float)
+    eta = np.zeros_like(zeta, dtype=float)
     pdc_neq_0 = ~np.equal(pdc, 0)
 
     # eta < 0 if zeta < 0.006. power_ac is forced to be >= 0 below. GH 541
-- 
2.43.0


From f5f9b424e3fe3e664f8f9000c8ab34a927db1976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:40 +0000
Subject: [PATCH 25/56] fix: noct_sam was NaN at zero irradiance with
 effective_irradiance

---
 pvlib/temperature.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pvlib/temperature.py b/pvlib/temperature.py
index 55222c0..8deb823 100644
--- a/pvlib/temperature.py
+++ b/pvlib/temperature.py
@@ -1012,7 +1012,9 @@ def noct_sam(poa_global, temp_air, wind_speed, noct, module_efficiency,
     if effective_irradiance is None:
         irr_ratio = 1.
     else:
-        irr_ratio = effective_irradiance / poa_global
+        # the ratio has no effect without irradiance; avoid dividing by zero
+        dark = poa_global == 0
+        irr_ratio = (effective_irradiance + dark) / (poa_global + dark)
 
     if array_height == 1:
         wind_adj = 0.51 * wind_speed
-- 
2.43.0


From af5fcd9b52e657803aa84c9dd7549fd01cdf7678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:30 +0000
Subject: [PATCH 26/56] fix: _unshaded_ground_fraction lost shadows of dense
 rows at low sun

---
 pvlib/bifacial/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pvlib/bifacial/utils.py b/pvlib/bifacial/utils.py
index df10a8e..9f99d8e 100644
--- a/pvlib/bifacial/utils.py
+++ b/pvlib/bifacial/utils.py
@@ -93,8 +93,9 @@ def _unshaded_ground_fraction(tracker_rotation, phi, gcr, height=None,
     """
     if np.isscalar(g0) and g0 == 0 and np.isscalar(g1) and g1 == 1:
         # height and pitch have no effect, so set to arbitrary values so
-        # that they can be optional parameters
-        height = 1
+        # that they can be optional parameters. With height=0 the shadows
+        # stay close to the rows, so that max_rows includes all of them.
+        height = 0
         pitch = 1 / gcr
 
     # keep track of scalar inputs so that we can have output match at the end
-- 
2.43.0


From cb5c9fe7f93b63c80ae8d0b124e81b9745c50fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:03 +0000
Subject: [PATCH 27/56] fix: fully_covered_nrel failed on daily data and on
 fewer than three records

pandas cannot infer a frequency from fewer than three records, and its
daily (and longer) offsets are not divisible by a Timedelta, so that
fully_covered_nrel and coverage_nrel raised for such snowfall data.
Use the spacing of the records itself.
---
 pvlib/snow.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/pvlib/snow.py b/pvlib/snow.py
index b78a93a..53af597 100644
--- a/pvlib/snow.py
+++ b/pvlib/snow.py
@@ -56,13 +56,12 @@ def fully_covered_nrel(snowfall, snow_depth=None, threshold_snowfall=1.,
     '''
     timestep = _time_delta_in_hours(snowfall.index)
     hourly_snow_rate = snowfall / timestep
-    # if we can infer a time frequency, use first snowfall value
+    # if the data are equally spaced, use first snowfall value
     # otherwise the first snowfall value is ignored
-    freq = pd.infer_freq(snowfall.index)
-    if freq is not None:
-        timedelta = pd.tseries.frequencies.to_offset(freq) / pd.Timedelta('1h')
-        hourly_snow_rate.iloc[0] = snowfall.iloc[0] / timedelta
-    else:  # can't infer frequency from index
+    intervals = timestep.iloc[1:].unique()
+    if len(intervals) == 1:
+        hourly_snow_rate.iloc[0] = snowfall.iloc[0] / intervals[0]
+    else:  # length of the first interval is not known
         hourly_snow_rate.iloc[0] = 0  # replaces NaN
     covered = (hourly_snow_rate > threshold_snowfall)
     # no coverage when no snow on the ground
-- 
2.43.0


From b06b8b14f220edfd1d025f868d26d391101fb731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:54 +0000
Subject: [PATCH 28/56] fix: arrays with inferred temperature parameters shared
 the global parameter sets

Changing the parameters of one Array changed every other array with the
same inferred set and TEMPERATURE_MODEL_PARAMETERS itself.
---
 pvlib/pvsystem.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/pvlib/pvsystem.py b/pvlib/pvsystem.py
index b654981..7c5b7e3 100644
--- a/pvlib/pvsystem.py
+++ b/pvlib/pvsystem.py
@@ -1015,16 +1015,20 @@ class Array:
         # and module_type
         param_set = f'{self.mount.racking_model}_{self.module_type}'
         if param_set in temperature.TEMPERATURE_MODEL_PARAMETERS['sapm']:
-            return temperature._temperature_model_params('sapm', param_set)
+            return dict(
+                temperature._temperature_model_params('sapm', param_set))
         elif 'freestanding' in param_set:
-            return temperature._temperature_model_params('pvsyst',
-                                                         'freestanding')
+            return dict(
+                temperature._temperature_model_params('pvsyst',
+                                                      'freestanding'))
         elif 'insulated' in param_set:  # after SAPM to avoid confusing keys
-            return temperature._temperature_model_params('pvsyst',
-                                                         'insulated')
+            return dict(
+                temperature._temperature_model_params('pvsyst',
+                                                      'insulated'))
         elif 'semi_integrated' in param_set:
-            return temperature._temperature_model_params('pvsyst',
-                                                         'semi_integrated')
+            return dict(
+                temperature._temperature_model_params('pvsyst',
+                                                      'semi_integrated'))
         else:
             return {}
 
-- 
2.43.0


From 852b6eea60351f584c3e04ea595e9c15779bdea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:54 +0000
Subject: [PATCH 29/56] fix: ModelChain accepted any substring of 'adr' as AC
 model

---
 pvlib/modelchain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvlib/modelchain.py b/pvlib/modelchain.py
index cf7a5bf..355b0d8 100644
--- a/pvlib/modelchain.py
+++ b/pvlib/modelchain.py
@@ -720,7 +720,7 @@ class ModelChain:
             model = model.lower()
             if model == 'sandia':
                 self._ac_model = self.sandia_inverter
-            elif model in 'adr':
+            elif model == 'adr':
                 self._ac_model = self.adr_inverter
             elif model == 'pvwatts':
                 self._ac_model = self.pvwatts_inverter
-- 
2.43.0


From e9c208537b8bf16f29909964d2d898aabdcda320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:54 +0000
Subject: [PATCH 30/56] fix: adr inverter failed when data for a single array
 were given as a list

---
 pvlib/modelchain.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pvlib/modelchain.py b/pvlib/modelchain.py
index 355b0d8..c92b506 100644
--- a/pvlib/modelchain.py
+++ b/pvlib/modelchain.py
@@ -759,8 +759,8 @@ class ModelChain:
     def adr_inverter(self):
         self.results.ac = self.system.get_ac(
             'adr',
-            self.results.dc['p_mp'],
-            v_dc=self.results.dc['v_mp']
+            _tuple_from_dfs(self.results.dc, 'p_mp'),
+            v_dc=_tuple_from_dfs(self.results.dc, 'v_mp')
         )
         return self
 
-- 
2.43.0


From 3df9d5dc8b51ac2bf5895d6849c3db8620938fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:54 +0000
Subject: [PATCH 31/56] fix: irrad_ref was ignored with measured module
 temperature

---
 pvlib/modelchain.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pvlib/modelchain.py b/pvlib/modelchain.py
index c92b506..29b23bf 100644
--- a/pvlib/modelchain.py
+++ b/pvlib/modelchain.py
@@ -1546,7 +1546,8 @@ class ModelChain:
             return pvlib.temperature.sapm_cell_from_module(
                 module_temperature=data['module_temperature'],
                 poa_global=poa,
-                deltaT=temperature_model_parameters['deltaT'])
+                deltaT=temperature_model_parameters['deltaT'],
+                **_build_kwargs(['irrad_ref'], temperature_model_parameters))
 
     def _prepare_temperature_single_array(self, data, poa):
         """Set cell_temperature using a single data frame."""
-- 
2.43.0


From dbbda56b3650d6d12bf31f76fbeb7ea3be5c3c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:38 +0000
Subject: [PATCH 32/56] fix: ModelChain results kept values of an earlier run

A run that enters with plane-of-array or effective irradiance left solar
position, incidence angle, albedo, ... of the previous run in place, on a
different index.
---
 pvlib/modelchain.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pvlib/modelchain.py b/pvlib/modelchain.py
index 29b23bf..de0c47c 100644
--- a/pvlib/modelchain.py
+++ b/pvlib/modelchain.py
@@ -1339,6 +1339,7 @@ class ModelChain:
             if weather.get('temp_air') is None:
                 weather['temp_air'] = 20
             return weather
+        self.results = ModelChainResult()  # nothing is left of earlier runs
         if isinstance(data, tuple):
             weather = tuple(_build_weather(wx) for wx in data)
             self._configure_results(per_array_data=True)
-- 
2.43.0


From be0756db69d482b4d51a6ce68fcfc8bb2d2d9565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:39 +0000
Subject: [PATCH 33/56] fix: complete_irradiance failed after a run with a list
 of one DataFrame

---
 pvlib/modelchain.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pvlib/modelchain.py b/pvlib/modelchain.py
index de0c47c..3ab1635 100644
--- a/pvlib/modelchain.py
+++ b/pvlib/modelchain.py
@@ -1176,6 +1176,8 @@ class ModelChain:
         self._check_multiple_input(weather)
         # Don't use ModelChain._assign_weather() here because it adds
         # temperature and wind-speed columns which we do not need here.
+        self.results = ModelChainResult()  # nothing is left of earlier runs
+        self._configure_results(per_array_data=isinstance(weather, tuple))
         self.results.weather = _copy(weather)
         self._assign_times()
         self.results.solar_position = self.location.get_solarposition(
-- 
2.43.0


From b27ccb8330fe44ea3a4099cc6ac6290dc4cb3137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:06 +0000
Subject: [PATCH 34/56] fix: pvwatts inverter was applied to every column of
 the DC results

With a DC model that returns a DataFrame (sapm, desoto, cec, pvsyst) the
AC power was a DataFrame with one column per DC quantity.
---
 pvlib/modelchain.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pvlib/modelchain.py b/pvlib/modelchain.py
index 3ab1635..652ed7d 100644
--- a/pvlib/modelchain.py
+++ b/pvlib/modelchain.py
@@ -765,7 +765,15 @@ class ModelChain:
         return self
 
     def pvwatts_inverter(self):
-        ac = self.system.get_ac('pvwatts', self.results.dc)
+        def _p_dc(dc):
+            # only the pvwatts DC model returns Series of power
+            return dc['p_mp'] if isinstance(dc, pd.DataFrame) else dc
+
+        if isinstance(self.results.dc, tuple):
+            p_dc = tuple(_p_dc(dc) for dc in self.results.dc)
+        else:
+            p_dc = _p_dc(self.results.dc)
+        ac = self.system.get_ac('pvwatts', p_dc)
         self.results.ac = ac.fillna(0)
         return self
 
-- 
2.43.0


From 7c2e9795d66b3b50f9fffcf03cff29ee3ff044fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:48 +0000
Subject: [PATCH 35/56] fix: dc_model='singlediode' was accepted without
 setting a model

The name has a parameter list but no DC model, so the previous model was
silently kept (or the chain had none at all).
---
 pvlib/modelchain.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pvlib/modelchain.py b/pvlib/modelchain.py
index 652ed7d..630d23e 100644
--- a/pvlib/modelchain.py
+++ b/pvlib/modelchain.py
@@ -611,6 +611,8 @@ class ModelChain:
                     self._dc_model = self.pvsyst
                 elif model == 'pvwatts':
                     self._dc_model = self.pvwatts_dc
+                else:  # parameters are listed, but there is no such model
+                    raise ValueError(model + ' is not a valid DC power model')
             else:
                 raise ValueError(model + ' is not a valid DC power model')
         else:
-- 
2.43.0


From 8ab607978e2f2d903b046becef21075095fe15cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:07 +0000
Subject: [PATCH 36/56] fix: clearsky_index failed for scalar zero clear-sky
 irradiance

---
 pvlib/irradiance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvlib/irradiance.py b/pvlib/irradiance.py
index 9417178..d958ab8 100644
--- a/pvlib/irradiance.py
+++ b/pvlib/irradiance.py
@@ -1794,7 +1794,7 @@ def clearsky_index(ghi, ghi_clear, max_clearsky_index=2.0):
     clearsky_index : numeric
         Clearsky index. [unitless]
     """
-    clearsky_index = ghi / ghi_clear
+    clearsky_index = np.divide(ghi, ghi_clear)
     # set +inf, -inf, and nans to zero
     clearsky_index = np.where(~np.isfinite(clearsky_index), 0,
                               clearsky_index)
-- 
2.43.0


From 8d0116175ece63d13a06eecac0ecf54011397a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:26 +0000
Subject: [PATCH 37/56] fix: count samples per window without rounding error

---
 pvlib/tools.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pvlib/tools.py b/pvlib/tools.py
index 44e0877..cce4be0 100644
--- a/pvlib/tools.py
+++ b/pvlib/tools.py
@@ -433,8 +433,9 @@ def _get_sample_intervals(times, win_length):
     # determine if we can proceed
     if times.inferred_freq and len(np.unique(deltas)) == 1:
         sample_interval = times[1] - times[0]
+        samples_per_window = int(
+            pd.Timedelta(minutes=win_length) // sample_interval)
         sample_interval = sample_interval.total_seconds() / 60  # in minutes
-        samples_per_window = int(win_length / sample_interval)
         return sample_interval, samples_per_window
     else:
         message = (
-- 
2.43.0


From 39c0c27dcaa7d81fcd8beb15cc8c2716848195d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:26 +0000
Subject: [PATCH 38/56] fix: wvm gave NaN for a single point

---
 pvlib/scaling.py | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/pvlib/scaling.py b/pvlib/scaling.py
index 693d9f6..2f788d6 100644
--- a/pvlib/scaling.py
+++ b/pvlib/scaling.py
@@ -6,7 +6,6 @@ or other variables to account for temporal or spatial characteristics.
 import numpy as np
 import pandas as pd
 
-import scipy.optimize
 from scipy.spatial.distance import pdist
 
 
@@ -129,14 +128,8 @@ def _compute_vr(positions, cloud_speed, tmscales):
     pos = np.array(positions)
     dist = pdist(pos, 'euclidean')
 
-    # Find effective length of position vector, 'dist' is full pairwise
-    n_pairs = len(dist)
-
-    def fn(x):
-        return np.abs((x ** 2 - x) / 2 - n_pairs)
-
-    n_dist = np.round(scipy.optimize.fmin(fn, np.sqrt(n_pairs), disp=False))
-    n_dist = n_dist.item()
+    # Number of points, 'dist' is full pairwise
+    n_dist = len(pos)
     # Compute VR
     A = cloud_speed / 2  # Resultant fit for A from [2]
     vr = np.zeros(tmscales.shape)
-- 
2.43.0


From 9357e82255f8307f1e604d6e4329f3798e4ccce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:26 +0000
Subject: [PATCH 39/56] fix: wvm dropped whole days of the sampling interval

---
 pvlib/scaling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvlib/scaling.py b/pvlib/scaling.py
index 2f788d6..6f46a1d 100644
--- a/pvlib/scaling.py
+++ b/pvlib/scaling.py
@@ -247,7 +247,7 @@ def _compute_wavelet(clearsky_index, dt=None):
     else:  # flatten() succeeded, thus it's a pandas type, so get its dt
         try:  # Assume it's a time series type index
             dt = clearsky_index.index[1] - clearsky_index.index[0]
-            dt = dt.seconds + dt.microseconds/1e6
+            dt = dt.total_seconds()
         except AttributeError:  # It must just be a numeric index
             dt = (clearsky_index.index[1] - clearsky_index.index[0])
 
-- 
2.43.0


From f50c05493ce4e857a5a4bf2d0992cc9d52483593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:54 +0000
Subject: [PATCH 40/56] fix: keep everything after the first '=' of a PAN/OND
 value

---
 pvlib/iotools/panond.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvlib/iotools/panond.py b/pvlib/iotools/panond.py
index 2bc8363..da88f13 100644
--- a/pvlib/iotools/panond.py
+++ b/pvlib/iotools/panond.py
@@ -75,7 +75,7 @@ def _parse_panond(fbuf):
         indent_lvl_1 = (len(lines[i]) - len(lines[i].lstrip(' '))) // 2
         indent_lvl_2 = (len(lines[i + 1]) - len(lines[i + 1].lstrip(' '))) // 2
         # Split the line into key/value pair
-        line_data = lines[i].split('=')
+        line_data = lines[i].split('=', 1)
         key = line_data[0].strip()
         # Logical to make sure there is a value to extract
         if len(line_data) > 1:
-- 
2.43.0


From 81809691de7178ee4a99772e72c8f3514bf728fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:15 +0000
Subject: [PATCH 41/56] fix: get_surfrad honours map_variables

---
 pvlib/iotools/surfrad.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvlib/iotools/surfrad.py b/pvlib/iotools/surfrad.py
index 948ec5e..4d7bee9 100644
--- a/pvlib/iotools/surfrad.py
+++ b/pvlib/iotools/surfrad.py
@@ -259,7 +259,7 @@ def get_surfrad(station, start, end, map_variables=True,
     for f in filenames:
         try:
             dfi, file_metadata = read_surfrad(url + f,
-                                              map_variables=VARIABLE_MAP)
+                                              map_variables=map_variables)
             dfs.append(dfi)
 
         except urllib.error.HTTPError:
-- 
2.43.0


From 07c5363fc0c9dbcb911fdf54f1c09958497bed8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:15 +0000
Subject: [PATCH 42/56] fix: get_nasa_power accepts a single parameter as a
 string

---
 pvlib/iotools/nasa_power.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pvlib/iotools/nasa_power.py b/pvlib/iotools/nasa_power.py
index 7ab3829..eca8f63 100644
--- a/pvlib/iotools/nasa_power.py
+++ b/pvlib/iotools/nasa_power.py
@@ -120,6 +120,8 @@ def get_nasa_power(latitude, longitude, start, end,
 
     # allow the use of pvlib parameter names
     parameter_dict = {v: k for k, v in VARIABLE_MAP.items()}
+    if isinstance(parameters, str):
+        parameters = [parameters]
     parameters = [parameter_dict.get(p, p) for p in parameters]
 
     params = {
-- 
2.43.0


From 142301620fe68dd3f1316eb43d9c5c740bd6ee24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:15 +0000
Subject: [PATCH 43/56] fix: get_solargis accepts the ISO 8601 duration PT30M

---
 pvlib/iotools/solargis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pvlib/iotools/solargis.py b/pvlib/iotools/solargis.py
index 375c7ed..1f377af 100644
--- a/pvlib/iotools/solargis.py
+++ b/pvlib/iotools/solargis.py
@@ -11,7 +11,8 @@ URL = 'https://solargis.info/ws/rest/datadelivery/request'
 TIME_RESOLUTION_MAP = {
     5: 'MIN_5', 10: 'MIN_10', 15: 'MIN_15', 30:  'MIN_30', 60: 'HOURLY',
     'PT05M': 'MIN_5', 'PT5M': 'MIN_5', 'PT10M': 'MIN_10', 'PT15M': 'MIN_15',
-    'PT30': 'MIN_30', 'PT60M': 'HOURLY', 'PT1H': 'HOURLY', 'P1D': 'DAILY',
+    'PT30': 'MIN_30', 'PT30M': 'MIN_30',
+    'PT60M': 'HOURLY', 'PT1H': 'HOURLY', 'P1D': 'DAILY',
     'P1M': 'MONTHLY', 'P1Y': 'YEARLY'}
 
 
-- 
2.43.0


From b9e860f6c2ed4066f689990137ff946b0e880eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:50 +0000
Subject: [PATCH 44/56] fix: send timezone-aware Meteonorm times in UTC

---
 pvlib/iotools/meteonorm.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pvlib/iotools/meteonorm.py b/pvlib/iotools/meteonorm.py
index 61bf72b..37f49df 100644
--- a/pvlib/iotools/meteonorm.py
+++ b/pvlib/iotools/meteonorm.py
@@ -545,14 +545,16 @@ def _get_meteonorm(
     if (start is not None) & (start != 'now'):
         try:
             start = pd.Timestamp(start)
-            start = start.tz_localize("UTC") if start.tzinfo is None else start
+            start = start.tz_localize("UTC") if start.tzinfo is None \
+                else start.tz_convert("UTC")
             start = start.strftime("%Y-%m-%dT%H:%M:%SZ")
         except (ValueError, DateParseError):
             pass
     if (end is not None) & (end != 'now'):
         try:
             end = pd.Timestamp(end)
-            end = end.tz_localize("UTC") if end.tzinfo is None else end
+            end = end.tz_localize("UTC") if end.tzinfo is None \
+                else end.tz_convert("UTC")
             end = end.strftime("%Y-%m-%dT%H:%M:%SZ")
         except (ValueError, DateParseError):
             pass
-- 
2.43.0


From 92ec550dff3df29f9e9480b1356ba9e98f92676d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:50 +0000
Subject: [PATCH 45/56] fix: raise HTTPError for PSM4 JSON errors without an
 errors field

---
 pvlib/iotools/psm4.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pvlib/iotools/psm4.py b/pvlib/iotools/psm4.py
index 8088993..529f3a8 100644
--- a/pvlib/iotools/psm4.py
+++ b/pvlib/iotools/psm4.py
@@ -209,7 +209,7 @@ def get_nsrdb_psm4_aggregated(latitude, longitude, api_key, email,
         # Forbidden, and then the error is in the content and there is no JSON
         try:
             errors = response.json()['errors']
-        except JSONDecodeError:
+        except (JSONDecodeError, KeyError):
             errors = response.content.decode('utf-8')
         raise requests.HTTPError(errors, response=response)
     # the CSV is in the response content as a UTF-8 bytestring
@@ -349,7 +349,7 @@ def get_nsrdb_psm4_tmy(latitude, longitude, api_key, email, year='tmy',
         # Forbidden, and then the error is in the content and there is no JSON
         try:
             errors = response.json()['errors']
-        except JSONDecodeError:
+        except (JSONDecodeError, KeyError):
             errors = response.content.decode('utf-8')
         raise requests.HTTPError(errors, response=response)
     # the CSV is in the response content as a UTF-8 bytestring
@@ -485,7 +485,7 @@ def get_nsrdb_psm4_conus(latitude, longitude, api_key, email, year,
         # Forbidden, and then the error is in the content and there is no JSON
         try:
             errors = response.json()['errors']
-        except JSONDecodeError:
+        except (JSONDecodeError, KeyError):
             errors = response.content.decode('utf-8')
         raise requests.HTTPError(errors, response=response)
     # the CSV is in the response content as a UTF-8 bytestring
@@ -624,7 +624,7 @@ def get_nsrdb_psm4_full_disc(latitude, longitude, api_key, email,
         # Forbidden, and then the error is in the content and there is no JSON
         try:
             errors = response.json()['errors']
-        except JSONDecodeError:
+        except (JSONDecodeError, KeyError):
             errors = response.content.decode('utf-8')
         raise requests.HTTPError(errors, response=response)
     # the CSV is in the response content as a UTF-8 bytestring
@@ -773,7 +773,7 @@ def get_nsrdb_psm4_polar(latitude, longitude, api_key, email,
         # Forbidden, and then the error is in the content and there is no JSON
         try:
             errors = response.json()['errors']
-        except JSONDecodeError:
+        except (JSONDecodeError, KeyError):
             errors = response.content.decode('utf-8')
         raise requests.HTTPError(errors, response=response)
     # the CSV is in the response content as a UTF-8 bytestring
@@ -922,7 +922,7 @@ def get_nsrdb_psm4_polar_tmy(latitude, longitude, api_key, email, year='tmy',
         # Forbidden, and then the error is in the content and there is no JSON
         try:
             errors = response.json()['errors']
-        except JSONDecodeError:
+        except (JSONDecodeError, KeyError):
             errors = response.content.decode('utf-8')
         raise requests.HTTPError(errors, response=response)
     # the CSV is in the response content as a UTF-8 bytestring
-- 
2.43.0


From a67eddb276fd11710a612b293194a4d9f562a763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:50 +0000
Subject: [PATCH 46/56] fix: raise HTTPError for CAMS errors without an
 exception report

---
 pvlib/iotools/sodapro.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pvlib/iotools/sodapro.py b/pvlib/iotools/sodapro.py
index be11dbf..34f7f5b 100644
--- a/pvlib/iotools/sodapro.py
+++ b/pvlib/iotools/sodapro.py
@@ -240,8 +240,9 @@ def get_cams(latitude, longitude, start, end, email, identifier='mcclear',
     # Additional information is available in the response text, so it is added
     # to the error displayed to facilitate users effort to fix their request
     if not res.ok:
-        errors = res.text.split('ows:ExceptionText')[1][1:-2]
-        res.reason = "%s: <%s>" % (res.reason, errors)
+        if 'ows:ExceptionText' in res.text:
+            errors = res.text.split('ows:ExceptionText')[1][1:-2]
+            res.reason = "%s: <%s>" % (res.reason, errors)
         res.raise_for_status()
     # Successful requests returns a csv data file
     else:
-- 
2.43.0


From 77c1eaed0320ebb0bb2e435ba3709033a4b74ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:50 +0000
Subject: [PATCH 47/56] fix: raise HTTPError for PVGIS JSON errors without a
 message

---
 pvlib/iotools/pvgis.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pvlib/iotools/pvgis.py b/pvlib/iotools/pvgis.py
index 61f3eff..9e73e61 100644
--- a/pvlib/iotools/pvgis.py
+++ b/pvlib/iotools/pvgis.py
@@ -234,11 +234,11 @@ def get_pvgis_hourly(latitude, longitude, start=None, end=None,
     # HTTP/1.1 error caught by requests
     if not res.ok:
         try:
-            err_msg = res.json()
+            err_msg = res.json()['message']
         except Exception:
             res.raise_for_status()
         else:
-            raise requests.HTTPError(err_msg['message'])
+            raise requests.HTTPError(err_msg)
 
     return read_pvgis_hourly(io.StringIO(res.text), pvgis_format=outputformat,
                              map_variables=map_variables)
@@ -526,11 +526,11 @@ def get_pvgis_tmy(latitude, longitude, outputformat='json', usehorizon=True,
     # HTTP/1.1 error caught by requests
     if not res.ok:
         try:
-            err_msg = res.json()
+            err_msg = res.json()['message']
         except Exception:
             res.raise_for_status()
         else:
-            raise requests.HTTPError(err_msg['message'])
+            raise requests.HTTPError(err_msg)
     # initialize data to None in case API fails to respond to bad outputformat
     data = None, None
     if outputformat == 'json':
@@ -755,11 +755,11 @@ def get_pvgis_horizon(latitude, longitude, url=URL, **kwargs):
     res = requests.get(url + 'printhorizon', params=params, **kwargs)
     if not res.ok:
         try:
-            err_msg = res.json()
+            err_msg = res.json()['message']
         except Exception:
             res.raise_for_status()
         else:
-            raise requests.HTTPError(err_msg['message'])
+            raise requests.HTTPError(err_msg)
     json_output = res.json()
     metadata = json_output['meta']
     data = pd.DataFrame(json_output['outputs']['horizon_profile'])
-- 
2.43.0


From 18303441fc35e800e45d9b40e5a10406181b788b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:53 +0000
Subject: [PATCH 48/56] fix: get_meteonorm_tmy sends the albedo

---
 pvlib/iotools/meteonorm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pvlib/iotools/meteonorm.py b/pvlib/iotools/meteonorm.py
index 37f49df..8a216a8 100644
--- a/pvlib/iotools/meteonorm.py
+++ b/pvlib/iotools/meteonorm.py
@@ -505,6 +505,7 @@ def get_meteonorm_tmy(
                         addendum=msg)
     additional_params = {
         "situation": terrain_situation,
+        "albedo": albedo,
         "turbidity": turbidity,
         "clear_sky_radiation_model": clear_sky_radiation_model,
         "random_seed": random_seed,
-- 
2.43.0


From 8fec3220c4eb0fe36fa565aeb881c1bc6fe68ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:25 +0000
Subject: [PATCH 49/56] fix: read_cams looped forever on files without a column
 line

---
 pvlib/iotools/sodapro.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pvlib/iotools/sodapro.py b/pvlib/iotools/sodapro.py
index 34f7f5b..8dbe9af 100644
--- a/pvlib/iotools/sodapro.py
+++ b/pvlib/iotools/sodapro.py
@@ -295,7 +295,10 @@ def read_cams(filename, integrated=False, label=None, map_variables=True):
 
         # Initial lines starting with # contain metadata
         while True:
-            line = fbuf.readline().rstrip('\n')
+            line = fbuf.readline()
+            if line == '':
+                raise ValueError('No line with the column names found.')
+            line = line.rstrip('\n')
             if line.startswith('# Observation period'):
                 # The last line of the metadata section has the column names
                 names = line.lstrip('# ').split(';')
-- 
2.43.0


From 87097511853f009333c8da92a4cdd65f2d412c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:19 +0000
Subject: [PATCH 50/56] fix: get_solargis returned object columns when values
 are missing

---
 pvlib/iotools/solargis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvlib/iotools/solargis.py b/pvlib/iotools/solargis.py
index 1f377af..829339d 100644
--- a/pvlib/iotools/solargis.py
+++ b/pvlib/iotools/solargis.py
@@ -199,7 +199,7 @@ def get_solargis(latitude, longitude, start, end, variables, api_key,
     # Replace "-9" with nan values for specific columns
     for variable in data.columns:
         if variable in NA_9_COLUMNS:
-            data[variable] = data[variable].replace(-9, pd.NA)
+            data[variable] = data[variable].replace(-9, float('nan'))
 
     # rename and convert variables
     if map_variables:
-- 
2.43.0


From 133ffab32c9a54e260ba6794f9381f8146037d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:36 +0000
Subject: [PATCH 51/56] fix: read_pvgis_tmy padded truncated csv files with
 empty rows

The parser split exactly 8760 lines whether or not they were there, so a
csv answer cut off on the way was returned as a full year whose missing
records were rows of NaN stamped NaT.  Read the table up to its end.
---
 pvlib/iotools/pvgis.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pvlib/iotools/pvgis.py b/pvlib/iotools/pvgis.py
index 9e73e61..7a23baa 100644
--- a/pvlib/iotools/pvgis.py
+++ b/pvlib/iotools/pvgis.py
@@ -601,8 +601,12 @@ def _parse_pvgis_tmy_csv(src):
     # first there's a header row:
     #    time(UTC),T2m,RH,G(h),Gb(n),Gd(h),IR(h),WS10m,WD10m,SP
     headers = [h.decode('utf-8').strip() for h in src.readline().split(b',')]
-    data = pd.DataFrame(
-        [src.readline().split(b',') for _ in range(8760)], columns=headers)
+    rows = []
+    for line in iter(src.readline, b''):
+        if not line.strip():
+            break  # a blank line ends the table
+        rows.append(line.split(b','))
+    data = pd.DataFrame(rows, columns=headers)
     dtidx = data['time(UTC)'].apply(lambda dt: dt.decode('utf-8'))
     dtidx = pd.to_datetime(dtidx, format='%Y%m%d:%H%M', utc=True)
     data = data.drop('time(UTC)', axis=1)
-- 
2.43.0


From 4718f4677bd9438e6b84d95a23d22bbf60b20911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:44 +0000
Subject: [PATCH 52/56] fix: iam.physical gave NaN at -90 degrees and beyond
 for n = 1

The angles at which no light can enter were only recognised when positive;
other refraction indices give zero on both sides.
---
 pvlib/iam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvlib/iam.py b/pvlib/iam.py
index 9ba981c..e002d15 100644
--- a/pvlib/iam.py
+++ b/pvlib/iam.py
@@ -227,7 +227,7 @@ def physical(aoi, n=1.526, K=4.0, L=0.002, *, n_ar=None):
     # for light coming from behind the plane, none can enter the module
     # when n2 > 1, this is already the case
     if np.isclose(n2, 1).any():
-        iam = np.where(aoi >= 90, 0, iam)
+        iam = np.where(np.abs(aoi) >= 90, 0, iam)
         if isinstance(aoi, pd.Series):
             iam = pd.Series(iam, index=aoi.index)
 
-- 
2.43.0


From f0738e41c46b6ab77e817f6a7ae369cca91d2157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:26 +0000
Subject: [PATCH 53/56] fix: marion_integrate lost the band next to the horizon
 for some num

phi + ai can exceed pi/2 by one rounding error (num=42, 50, 100, 500...), so
the last band of the sky region was left out, and the horizon region came out
empty (0.0) for num=500.  Compare with a tolerance.
---
 pvlib/iam.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pvlib/iam.py b/pvlib/iam.py
index e002d15..65ec449 100644
--- a/pvlib/iam.py
+++ b/pvlib/iam.py
@@ -738,16 +738,19 @@ def marion_integrate(function, surface_tilt, region, num=None):
     phi_range = np.linspace(0, np.pi, num, endpoint=False)
     psi_range = np.linspace(0, 2*np.pi, 2*num, endpoint=False)
 
+    # allow for rounding in the region boundaries
+    tol = 1e-6 * ai
+
     # the pseudocode in [1] do these checks at the end, but it's
     # faster to do this criteria check up front instead of later.
     if region == 'sky':
-        mask = phi_range + ai <= np.pi/2
+        mask = phi_range + ai <= np.pi/2 + tol
     elif region == 'horizon':
         lo = 89.5 * np.pi/180
         hi = np.pi/2
-        mask = (lo <= phi_range) & (phi_range + ai <= hi)
+        mask = (lo <= phi_range + tol) & (phi_range + ai <= hi + tol)
     elif region == 'ground':
-        mask = (phi_range >= np.pi/2)
+        mask = (phi_range >= np.pi/2 - tol)
     else:
         raise ValueError(f'Invalid region: {region}')
     phi_range = phi_range[mask]
-- 
2.43.0


From 13612c6f2474f0cd4ee6515455e8ce9cd378c1e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:58 +0000
Subject: [PATCH 54/56] fix: perez appended an element to Series results when
 airmass is scalar

With one input a Series and airmass a scalar, poa_sky_diffuse[False] = 0
set a new label, so that the result had one more element than the input.
---
 pvlib/irradiance.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pvlib/irradiance.py b/pvlib/irradiance.py
index d958ab8..323a8f0 100644
--- a/pvlib/irradiance.py
+++ b/pvlib/irradiance.py
@@ -1333,7 +1333,10 @@ def perez(surface_tilt, surface_azimuth, dhi, dni, dni_extra,
 
     # we've preserved the input type until now, so don't ruin it!
     if isinstance(poa_sky_diffuse, pd.Series):
-        poa_sky_diffuse[np.isnan(airmass)] = 0
+        # airmass may be scalar, which cannot be used as a mask
+        no_airmass = np.isnan(airmass) | np.zeros(len(poa_sky_diffuse),
+                                                  dtype=bool)
+        poa_sky_diffuse[no_airmass] = 0
     else:
         poa_sky_diffuse = np.where(np.isnan(airmass), 0, poa_sky_diffuse)
 
-- 
2.43.0


From 96006ec5383a135c904f3b3e9824353a5ce7c4bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:42 +0000
Subject: [PATCH 55/56] fix: gti_dirint beyond 90 degrees lost its result when
 kt' of that instant had no bin

_gti_dirint_gte_90 averages kt' at incidence angles between 65 and 80
degrees for the instants beyond 90 degrees, but looked up the DIRINT
coefficient with kt' of the instant itself, which has no meaning there
(it is computed with the minimum cosine of the incidence angle) and in most
cases exceeds 1, which gave NaN for ghi, dni and dhi.
---
 pvlib/irradiance.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pvlib/irradiance.py b/pvlib/irradiance.py
index 323a8f0..5976489 100644
--- a/pvlib/irradiance.py
+++ b/pvlib/irradiance.py
@@ -2682,8 +2682,8 @@ def _gti_dirint_gte_90(poa_global, aoi, solar_zenith, solar_azimuth,
     kt = kt_prime_gte_90 * _kt_kt_prime_factor(airmass)
     disc_dni = np.maximum(_disc_kn(kt, airmass)[0] * I0, 0)
 
-    dni_gte_90 = _dirint_from_dni_ktprime(disc_dni, kt_prime, solar_zenith,
-                                          False, temp_dew)
+    dni_gte_90 = _dirint_from_dni_ktprime(disc_dni, kt_prime_gte_90,
+                                          solar_zenith, False, temp_dew)
 
     dni_gte_90_proj = dni_gte_90 * tools.cosd(solar_zenith)
     cos_surface_tilt = tools.cosd(surface_tilt)
-- 
2.43.0


From 933fd1ea172300d3859ac6040bc2174ae8132b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:32:06 +0000
Subject: [PATCH 56/56] fix: fit_sandia_simple raised ZeroDivisionError when no
 point reached ilim

Without a point to fit, lstsq returns zeros. Raise the documented
RuntimeError instead.
---
 pvlib/ivtools/sde.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvlib/ivtools/sde.py b/pvlib/ivtools/sde.py
index 236e91e..a1cf8ff 100644
--- a/pvlib/ivtools/sde.py
+++ b/pvlib/ivtools/sde.py
@@ -224,7 +224,7 @@ def _sandia_beta3_beta4(voltage, current, beta0, beta1, ilim, i_sc):
     coef = result[0]
     beta3 = coef[1].item()
     beta4 = coef[2].item()
-    if any(np.isnan([beta3, beta4])):
+    if not np.any(idx) or any(np.isnan([beta3, beta4])):
         raise RuntimeError("Parameter extraction failed: beta3={}, beta4={}"
                            .format(beta3, beta4))
     else:
-- 
2.43.0

