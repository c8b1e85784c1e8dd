From 5b8c9a9ddc64511e825988c381c7cc2709f3594c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:26 +0000
Subject: [PATCH 01/35] fix: sunset angle in degrees and radians raised
 UnboundLocalError

---
 src/sunwhere/_base.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/sunwhere/_base.py b/src/sunwhere/_base.py
index a0e3b18..f21cb9b 100644
--- a/src/sunwhere/_base.py
+++ b/src/sunwhere/_base.py
@@ -517,11 +517,9 @@ class Sunpos:
             dl_hr = self.daylight_length()
             wss = wsr + dl_hr.copy(data=(dl_hr*3600*1e9).astype('timedelta64[ns]'))
 
-        if units == 'deg':
-            wss = (12. - wss)*15
-
-        if units == 'rad':
-            wss = np.radians((12. - wss)*15)
+        if units in ('deg', 'rad'):
+            # symmetric, about the true solar noon, to the sunrise angle
+            wss = -self.sunrise(units)
 
         return wss.rename('wss').assign_attrs(
             units={'deg': 'degrees', 'rad': 'radians', 'tst': 'TST',
-- 
2.43.0


From 20d25b4673fc3d7de44fd520c1c76b5e987e1da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:26 +0000
Subject: [PATCH 02/35] fix: read the equation of time from the dict returned
 by evaluate in utils.datetime

---
 src/sunwhere/utils/datetime.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sunwhere/utils/datetime.py b/src/sunwhere/utils/datetime.py
index fd97acc..61c6974 100644
--- a/src/sunwhere/utils/datetime.py
+++ b/src/sunwhere/utils/datetime.py
@@ -8,7 +8,7 @@ def true_solar_time(times_utc, longitude):
     dt64 = 'datetime64[ns]'
     times_utc = np.array(times_utc, ndmin=1)
     longitude = np.array(longitude, ndmin=1)
-    eot = evaluate(times_utc, 0., 0.).eot  # eot, minutes
+    eot = evaluate(times_utc, 0., 0.)['eot']  # eot, minutes
     # for compat with numpy < 1.18.0, I use reshape instead of expand_dims
     new_shape = tuple(list(eot.shape) + [1]*longitude.ndim)
     expanded_eot = np.reshape(eot, new_shape)
@@ -26,7 +26,7 @@ def universal_time_coordinated(times_tst, longitude):
     dt64 = 'datetime64[ns]'
     times_tst = np.array(times_tst, ndmin=1)
     longitude = np.array(longitude, ndmin=1)
-    eot = evaluate(times_tst, 0., 0.).eot  # eot, minutes
+    eot = evaluate(times_tst, 0., 0.)['eot']  # eot, minutes
     # for compat with numpy < 1.18.0, I use reshape instead of expand_dims
     new_shape = tuple(list(eot.shape) + [1]*longitude.ndim)
     expanded_eot = np.reshape(eot, new_shape)
-- 
2.43.0


From 36d7236c6e520eb6f618183b915474dcfb614262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:26 +0000
Subject: [PATCH 03/35] fix: honour any truthy refraction flag, such as numpy
 booleans

---
 src/sunwhere/_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sunwhere/_core.py b/src/sunwhere/_core.py
index 155328c..e53f8e3 100644
--- a/src/sunwhere/_core.py
+++ b/src/sunwhere/_core.py
@@ -151,7 +151,7 @@ def evaluate(times, latitude, longitude, algorithm='psa', ndim=1,
 
     # load function to compute solar position...
     spa_func = __ALGORITHMS__.get(algorithm).get(engine).sunpos
-    spa_args = [ndim, refraction]
+    spa_args = [ndim, bool(refraction)]
 
     # ... and call it
     namespace = spa_func.__module__ + '.' + spa_func.__name__
-- 
2.43.0


From 4005bd5e56e21d33671e42e1274380dcd2b2cfc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:26 +0000
Subject: [PATCH 04/35] fix: return the incidence with the dimensions ordered
 as the other location-dependent variables

---
 src/sunwhere/_base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sunwhere/_base.py b/src/sunwhere/_base.py
index f21cb9b..b7cbd09 100644
--- a/src/sunwhere/_base.py
+++ b/src/sunwhere/_base.py
@@ -571,5 +571,6 @@ class Sunpos:
         coss = ((sinlat*cosbeta - coslat*sinbeta*cosgamma)*sindec +
                 (coslat*cosbeta + sinlat*sinbeta*cosgamma)*cosdec*coshour +
                 cosdec*sinhour*sinbeta*singamma)
+        coss = coss.transpose(*self._zenith.dims, ...)
         return coss.rename('incidence').assign_attrs(
             units='-', description='cosine of the angle of incidence')
-- 
2.43.0


From 84d7192d199bbc9b89e33a9359eb794d2333f695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:26 +0000
Subject: [PATCH 05/35] fix: loss of accuracy of the numpy soltrack engine
 close to the poles

---
 src/sunwhere/libspa/py_soltrack.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sunwhere/libspa/py_soltrack.py b/src/sunwhere/libspa/py_soltrack.py
index afae171..f46fe83 100644
--- a/src/sunwhere/libspa/py_soltrack.py
+++ b/src/sunwhere/libspa/py_soltrack.py
@@ -133,7 +133,7 @@ def _sunpos_one_dimensional(unixtime, longitude, latitude, with_refraction):
     tan_dec = sin_dec / cos_dec
 
     sin_lat = np.sin(lat_rad)
-    cos_lat = np.sqrt(1. - sin_lat**2)
+    cos_lat = np.cos(lat_rad)
 
     sin_alt = sin_lat*sin_dec + cos_lat*cos_dec*cos_ha   # -pi/2 <= solar altitude <= pi/2, Eq 24
     azimuth = np.arctan2(                                # 0 <= solar azimth < 2pi, Eq 25
@@ -181,7 +181,7 @@ def _sunpos_two_dimensional(unixtime, longitude, latitude, with_refraction):
     tan_dec = sin_dec / cos_dec
 
     sin_lat = np.sin(lat_rad)
-    cos_lat = np.sqrt(1. - sin_lat**2)
+    cos_lat = np.cos(lat_rad)
 
     sin_alt = sin_lat*sin_dec + cos_lat*cos_dec*cos_ha   # -pi/2 <= solar altitude <= pi/2, Eq 24
     azimuth = np.arctan2(                                # 0 <= solar azimth < 2pi, Eq 25
@@ -229,7 +229,7 @@ def _sunpos_three_dimensional(unixtime, longitude, latitude, with_refraction):
     tan_dec = sin_dec / cos_dec
 
     sin_lat = np.sin(lat_rad)
-    cos_lat = np.sqrt(1. - sin_lat**2)
+    cos_lat = np.cos(lat_rad)
 
     sin_alt = sin_lat*sin_dec + cos_lat*cos_dec*cos_ha   # -pi/2 <= solar altitude <= pi/2, Eq 24
     azimuth = np.arctan2(                                # 0 <= solar azimth < 2pi, Eq 25
-- 
2.43.0


From 89874b135f285bca4a8e2964c88d0865f4ef6ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:26 +0000
Subject: [PATCH 06/35] fix: nrel raised ValueError when there are no valid
 times

---
 src/sunwhere/_core.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/sunwhere/_core.py b/src/sunwhere/_core.py
index e53f8e3..862962c 100644
--- a/src/sunwhere/_core.py
+++ b/src/sunwhere/_core.py
@@ -156,7 +156,11 @@ def evaluate(times, latitude, longitude, algorithm='psa', ndim=1,
     # ... and call it
     namespace = spa_func.__module__ + '.' + spa_func.__name__
     logger.debug(f'running simulation with funtion {namespace}')
-    result = spa_func(times_nonat, lons_nonat, lats_nonat, *spa_args)
+    if n_times > 0:
+        result = spa_func(times_nonat, lons_nonat, lats_nonat, *spa_args)
+    else:  # no valid times: there is nothing to calculate
+        result = dict.fromkeys(
+            ('ecf', 'eot', 'declination', 'zenith', 'azimuth'), np.nan)
 
     # fill with NaN where times is NaT...
     nonat = ~np.isnat(times_utc)
-- 
2.43.0


From 79390e6da14467c3f15442ab67cd8481c5865354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:26 +0000
Subject: [PATCH 07/35] fix: times in zoneinfo or fixed-offset time zones, or
 at a DST change, were taken as UTC or rejected

---
 src/sunwhere/_base.py | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/src/sunwhere/_base.py b/src/sunwhere/_base.py
index b7cbd09..3d7d79d 100644
--- a/src/sunwhere/_base.py
+++ b/src/sunwhere/_base.py
@@ -53,23 +53,19 @@ class Sunpos:
         # when dealing with timezone-aware times. Hence, first I use
         # pd.to_datetime to retain the timezone of the input times (if
         # timezone-aware) or assume UTC if the input times are naive. Then, I
-        # convert to a numpy array of datetime64[ns] with ndmin=1, but de-localizing
-        # the times to prevent numpy complains. Afterwards, I convert back to
-        # pandas using again pd.to_datetime and localize
+        # convert the UTC times to a numpy array of datetime64[ns] with ndmin=1,
+        # but de-localizing them to prevent numpy complains. Afterwards, I convert
+        # back to pandas, localize as UTC (which, unlike the local time, is never
+        # ambiguous) and convert to the timezone of the input times
         _times = pd.to_datetime(times)
+        _tz = 'UTC' if _times.tz is None else _times.tz
+        self._timezone = getattr(_tz, 'zone', None) or str(_tz)
 
-        if _times.tz is None:
-            self._timezone = 'UTC'
-        elif hasattr(_times.tz, 'zone'):
-            self._timezone = _times.tz.zone
-        else:
-            self._timezone = 'UTC'
-
-        self._times = pd.to_datetime(
-            np.array(_times.tz_localize(None), ndmin=1, dtype='datetime64[ns]')
-        ).tz_localize(self._timezone, ambiguous='infer')
+        _times_utc = pd.to_datetime(times, utc=True).tz_localize(None)
+        self._times_utc = pd.to_datetime(
+            np.array(_times_utc, ndmin=1, dtype='datetime64[ns]')).tz_localize('UTC')
 
-        self._times_utc = pd.to_datetime(self._times).tz_convert('UTC')
+        self._times = self._times_utc.tz_convert(_tz)
 
         self._latitude = np.array(latitude, ndmin=1)
         self._longitude = np.array(longitude, ndmin=1)
-- 
2.43.0


From 93ba88d06a06a193c7430f0ccdecf36bf70aa593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:26 +0000
Subject: [PATCH 08/35] fix: soltrack applied the refraction correction below
 the horizon, where it diverges

---
 src/sunwhere/libspa/ne_soltrack.py | 9 ++++++---
 src/sunwhere/libspa/py_soltrack.py | 6 +++---
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/sunwhere/libspa/ne_soltrack.py b/src/sunwhere/libspa/ne_soltrack.py
index 27bd91b..e1bb850 100644
--- a/src/sunwhere/libspa/ne_soltrack.py
+++ b/src/sunwhere/libspa/ne_soltrack.py
@@ -152,7 +152,8 @@ def _sunpos_one_dimensional(unixtime, longitude, latitude, with_refraction):
 
     # correct for atmospheric refraction (ignore T and P), Eq 27
     if with_refraction is True:
-        alt = nex('alt + (2.967e-4 / tan(alt + 3.1376e-3/(alt + 8.92e-2)))')
+        dalt = nex('2.967e-4 / tan(alt + 3.1376e-3/(alt + 8.92e-2))')
+        alt = nex('where(alt >= -1.4545e-2, alt + dalt, alt)')
 
     zenith = HALFPI - alt
 
@@ -187,7 +188,8 @@ def _sunpos_two_dimensional(unixtime, longitude, latitude, with_refraction):
 
     # correct for atmospheric refraction (ignore T and P), Eq 27
     if with_refraction is True:
-        alt = nex('alt + (2.967e-4 / tan(alt + 3.1376e-3/(alt + 8.92e-2)))')
+        dalt = nex('2.967e-4 / tan(alt + 3.1376e-3/(alt + 8.92e-2))')
+        alt = nex('where(alt >= -1.4545e-2, alt + dalt, alt)')
 
     zenith = HALFPI - alt
 
@@ -223,7 +225,8 @@ def _sunpos_three_dimensional(unixtime, longitude, latitude, with_refraction):
 
     # correct for atmospheric refraction (ignore T and P), Eq 27
     if with_refraction is True:
-        alt = nex('alt + (2.967e-4 / tan(alt + 3.1376e-3/(alt + 8.92e-2)))')
+        dalt = nex('2.967e-4 / tan(alt + 3.1376e-3/(alt + 8.92e-2))')
+        alt = nex('where(alt >= -1.4545e-2, alt + dalt, alt)')
 
     zenith = HALFPI - alt
 
diff --git a/src/sunwhere/libspa/py_soltrack.py b/src/sunwhere/libspa/py_soltrack.py
index f46fe83..2202cf0 100644
--- a/src/sunwhere/libspa/py_soltrack.py
+++ b/src/sunwhere/libspa/py_soltrack.py
@@ -147,7 +147,7 @@ def _sunpos_one_dimensional(unixtime, longitude, latitude, with_refraction):
     # correct for atmospheric refraction (ignore T and P), Eq 27
     if with_refraction is True:
         dalt = (2.967e-4 / np.tan(alt + 3.1376e-3/(alt + 8.92e-2)))
-        alt = alt + dalt
+        alt = np.where(alt >= -1.4545e-2, alt + dalt, alt)
 
     # # convert the corrected horizontal coordinates back to equatorial coordinates
     # cos_az = np.cos(azimuth)
@@ -195,7 +195,7 @@ def _sunpos_two_dimensional(unixtime, longitude, latitude, with_refraction):
     # correct for atmospheric refraction (ignore T and P), Eq 27
     if with_refraction is True:
         dalt = (2.967e-4 / np.tan(alt + 3.1376e-3/(alt + 8.92e-2)))
-        alt = alt + dalt
+        alt = np.where(alt >= -1.4545e-2, alt + dalt, alt)
 
     # # convert the corrected horizontal coordinates back to equatorial coordinates
     # cos_az = np.cos(azimuth)
@@ -243,7 +243,7 @@ def _sunpos_three_dimensional(unixtime, longitude, latitude, with_refraction):
     # correct for atmospheric refraction (ignore T and P), Eq 27
     if with_refraction is True:
         dalt = (2.967e-4 / np.tan(alt + 3.1376e-3/(alt + 8.92e-2)))
-        alt = alt + dalt
+        alt = np.where(alt >= -1.4545e-2, alt + dalt, alt)
 
     # # convert the corrected horizontal coordinates back to equatorial coordinates
     # cos_az = np.cos(azimuth)
-- 
2.43.0


From 87b6d38342e59df696265a8cbcca8530fd13632b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:26 +0000
Subject: [PATCH 09/35] fix: NaN zenith when the sun is at, or very close to,
 the zenith or the nadir

---
 src/sunwhere/libspa/ne_iqbal.py    | 6 +++---
 src/sunwhere/libspa/ne_nrel.py     | 6 +++---
 src/sunwhere/libspa/ne_psa.py      | 6 +++---
 src/sunwhere/libspa/ne_soltrack.py | 6 +++---
 src/sunwhere/libspa/py_iqbal.py    | 6 +++---
 src/sunwhere/libspa/py_soltrack.py | 6 +++---
 6 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/sunwhere/libspa/ne_iqbal.py b/src/sunwhere/libspa/ne_iqbal.py
index bbacc02..0fe3850 100644
--- a/src/sunwhere/libspa/ne_iqbal.py
+++ b/src/sunwhere/libspa/ne_iqbal.py
@@ -142,7 +142,7 @@ def _sunpos_one_dimensional(unixtime, longitude, latitude, with_refraction):
     hour_angle = nex('(LAT - 12.)*15.*RAD')
     cosHour = nex('cos(hour_angle)')
 
-    sza_rad = nex('arccos(sinDecl*sinLat + cosDecl*cosLat*cosHour)')
+    sza_rad = np.arccos(np.clip(nex('sinDecl*sinLat + cosDecl*cosLat*cosHour'), -1., 1.))
 
     if with_refraction is True:
         # Simple refraction correction from Rigollier et al. (2000),
@@ -203,7 +203,7 @@ def _sunpos_two_dimensional(unixtime, longitude, latitude, with_refraction):
     hour_angle = (LAT - 12.)*15.*RAD
     cosHour = nex('cos(hour_angle)')
 
-    sza_rad = nex('arccos(sinDecl*sinLat + cosDecl*cosLat*cosHour)')
+    sza_rad = np.arccos(np.clip(nex('sinDecl*sinLat + cosDecl*cosLat*cosHour'), -1., 1.))
 
     if with_refraction is True:
         # Simple refraction correction from Rigollier et al. (2000),
@@ -265,7 +265,7 @@ def _sunpos_three_dimensional(unixtime, longitude, latitude, with_refraction):
     hour_angle = nex('(LAT - 12.)*15.*RAD')
     cosHour = nex('cos(hour_angle)')
 
-    sza_rad = nex('arccos(sinDecl*sinLat + cosDecl*cosLat*cosHour)')
+    sza_rad = np.arccos(np.clip(nex('sinDecl*sinLat + cosDecl*cosLat*cosHour'), -1., 1.))
 
     if with_refraction is True:
         # Simple refraction correction from Rigollier et al. (2000),
diff --git a/src/sunwhere/libspa/ne_nrel.py b/src/sunwhere/libspa/ne_nrel.py
index 4d0c475..15fefc2 100644
--- a/src/sunwhere/libspa/ne_nrel.py
+++ b/src/sunwhere/libspa/ne_nrel.py
@@ -227,7 +227,7 @@ def _sunpos_one_dimensional(unixtime, longitude, latitude, with_refraction):
     Hp = nex('H - deltaa')
 
     # topocentric elevation angle without atmosphere, radians
-    e = nex('arcsin(sin(latrad)*sin(deltap) + cos(latrad)*cos(deltap)*cos(Hp))')
+    e = np.arcsin(np.clip(nex('sin(latrad)*sin(deltap) + cos(latrad)*cos(deltap)*cos(Hp)'), -1., 1.))
 
     # topocentric elevation angle with refraction correction, radians
     if with_refraction is True:
@@ -280,7 +280,7 @@ def _sunpos_two_dimensional(unixtime, longitude, latitude, with_refraction):
     Hp = nex('H - deltaa')
 
     # topocentric elevation angle without atmosphere, radians
-    e = nex('arcsin(sin(latrad_)*sin(deltap) + cos(latrad_)*cos(deltap)*cos(Hp))')
+    e = np.arcsin(np.clip(nex('sin(latrad_)*sin(deltap) + cos(latrad_)*cos(deltap)*cos(Hp)'), -1., 1.))
 
     # topocentric elevation angle with refraction correction, radians
     if with_refraction is True:
@@ -333,7 +333,7 @@ def _sunpos_three_dimensional(unixtime, longitude, latitude, with_refraction):
     Hp = nex('H - deltaa')
 
     # topocentric elevation angle without atmosphere, radians
-    e = nex('arcsin(sin(latrad_)*sin(deltap) + cos(latrad_)*cos(deltap)*cos(Hp))')
+    e = np.arcsin(np.clip(nex('sin(latrad_)*sin(deltap) + cos(latrad_)*cos(deltap)*cos(Hp)'), -1., 1.))
 
     # topocentric elevation angle with refraction correction, radians
     if with_refraction is True:
diff --git a/src/sunwhere/libspa/ne_psa.py b/src/sunwhere/libspa/ne_psa.py
index e5ba0f3..366b149 100644
--- a/src/sunwhere/libspa/ne_psa.py
+++ b/src/sunwhere/libspa/ne_psa.py
@@ -127,7 +127,7 @@ def _sunpos_one_dimensional(unixtime, longitude, latitude, with_refraction):
     cosdec = nex('cos(delta)')
     tandec = nex('tan(delta)')
 
-    zenith = nex('arccos(coslat*coshour*cosdec + sindec*sinlat)')
+    zenith = np.arccos(np.clip(nex('coslat*coshour*cosdec + sindec*sinlat'), -1., 1.))
     zenith = nex('zenith + EMRAU*sin(zenith)')  # ..parallax correction
 
     if with_refraction is True:
@@ -169,7 +169,7 @@ def _sunpos_two_dimensional(unixtime, longitude, latitude, with_refraction):
     cosdec = nex('cos(decli)')
     tandec = nex('tan(decli)')
 
-    zenith = nex('arccos(coslat*coshour*cosdec + sindec*sinlat)')  # radians
+    zenith = np.arccos(np.clip(nex('coslat*coshour*cosdec + sindec*sinlat'), -1., 1.))  # radians
     zenith = nex('zenith + EMRAU*sin(zenith)')  # ..parallax correction
 
     if with_refraction is True:
@@ -211,7 +211,7 @@ def _sunpos_three_dimensional(unixtime, longitude, latitude, with_refraction):
     cosdec = nex('cos(decli)')
     tandec = nex('tan(decli)')
 
-    zenith = nex('arccos(coslat*coshour*cosdec + sindec*sinlat)')
+    zenith = np.arccos(np.clip(nex('coslat*coshour*cosdec + sindec*sinlat'), -1., 1.))
     zenith = nex('zenith + EMRAU*sin(zenith)')  # ..parallax Correction
 
     if with_refraction is True:
diff --git a/src/sunwhere/libspa/ne_soltrack.py b/src/sunwhere/libspa/ne_soltrack.py
index e1bb850..288a47f 100644
--- a/src/sunwhere/libspa/ne_soltrack.py
+++ b/src/sunwhere/libspa/ne_soltrack.py
@@ -147,7 +147,7 @@ def _sunpos_one_dimensional(unixtime, longitude, latitude, with_refraction):
     azimuth = nex('arctan2(sin_ha, cos_ha*sin_lat - tan_dec*cos_lat)')  # 0 <= solar azimth < 2pi, Eq 25
 
     # correct for parallax
-    alt_uncorr = nex('arcsin(sin_alt)')
+    alt_uncorr = np.arcsin(np.clip(sin_alt, -1., 1.))
     alt = nex('alt_uncorr - 4.2635e-5*cos(alt_uncorr)')      # horizontal parallax = 8.794" = 4.2635e-5 rad
 
     # correct for atmospheric refraction (ignore T and P), Eq 27
@@ -183,7 +183,7 @@ def _sunpos_two_dimensional(unixtime, longitude, latitude, with_refraction):
     azimuth = nex('arctan2(sin_ha, cos_ha*sin_lat - tan_dec*cos_lat)')  # 0 <= solar azimth < 2pi, Eq 25
 
     # correct for parallax
-    alt_uncorr = nex('arcsin(sin_alt)')
+    alt_uncorr = np.arcsin(np.clip(sin_alt, -1., 1.))
     alt = nex('alt_uncorr - 4.2635e-5*cos(alt_uncorr)')  # horizontal parallax = 8.794" = 4.2635e-5 rad
 
     # correct for atmospheric refraction (ignore T and P), Eq 27
@@ -220,7 +220,7 @@ def _sunpos_three_dimensional(unixtime, longitude, latitude, with_refraction):
     azimuth = nex('arctan2(sin_ha, cos_ha*sin_lat - tan_dec*cos_lat)')  # 0 <= solar azimth < 2pi, Eq 25
 
     # correct for parallax
-    alt_uncorr = nex('arcsin(sin_alt)')
+    alt_uncorr = np.arcsin(np.clip(sin_alt, -1., 1.))
     alt = nex('alt_uncorr - 4.2635e-5*cos(alt_uncorr)')  # horizontal parallax = 8.794" = 4.2635e-5 rad
 
     # correct for atmospheric refraction (ignore T and P), Eq 27
diff --git a/src/sunwhere/libspa/py_iqbal.py b/src/sunwhere/libspa/py_iqbal.py
index c60aaa8..20613a1 100644
--- a/src/sunwhere/libspa/py_iqbal.py
+++ b/src/sunwhere/libspa/py_iqbal.py
@@ -139,7 +139,7 @@ def _sunpos_one_dimensional(unixtime, longitude, latitude, with_refraction):
     hour_angle = (LAT - 12.)*15.*RAD
     cosHour = np.cos(hour_angle)
 
-    sza_rad = np.arccos(sinDecl*sinLat + cosDecl*cosLat*cosHour)
+    sza_rad = np.arccos(np.clip(sinDecl*sinLat + cosDecl*cosLat*cosHour, -1., 1.))
 
     if with_refraction is True:
         # Simple refraction correction from Rigollier et al. (2000),
@@ -198,7 +198,7 @@ def _sunpos_two_dimensional(unixtime, longitude, latitude, with_refraction):
     hour_angle = (LAT - 12.)*15.*RAD
     cosHour = np.cos(hour_angle)
 
-    sza_rad = np.arccos(sinDecl*sinLat + cosDecl*cosLat*cosHour)
+    sza_rad = np.arccos(np.clip(sinDecl*sinLat + cosDecl*cosLat*cosHour, -1., 1.))
 
     if with_refraction is True:
         # Simple refraction correction from Rigollier et al. (2000),
@@ -259,7 +259,7 @@ def _sunpos_three_dimensional(unixtime, longitude, latitude, with_refraction):
     hour_angle = (LAT - 12.)*15.*RAD
     cosHour = np.cos(hour_angle)
 
-    sza_rad = np.arccos(sinDecl*sinLat + cosDecl*cosLat*cosHour)
+    sza_rad = np.arccos(np.clip(sinDecl*sinLat + cosDecl*cosLat*cosHour, -1., 1.))
 
     if with_refraction is True:
         # Simple refraction correction from Rigollier et al. (2000),
diff --git a/src/sunwhere/libspa/py_soltrack.py b/src/sunwhere/libspa/py_soltrack.py
index 2202cf0..50853ec 100644
--- a/src/sunwhere/libspa/py_soltrack.py
+++ b/src/sunwhere/libspa/py_soltrack.py
@@ -140,7 +140,7 @@ def _sunpos_one_dimensional(unixtime, longitude, latitude, with_refraction):
         sin_ha, cos_ha*sin_lat - tan_dec*cos_lat)
 
     # correct for parallax
-    alt_uncorr = np.arcsin(sin_alt)
+    alt_uncorr = np.arcsin(np.clip(sin_alt, -1., 1.))
     cos_alt = np.cos(alt_uncorr)
     alt = alt_uncorr - 4.2635e-5*cos_alt                 # horizontal parallax = 8.794" = 4.2635e-5 rad
 
@@ -188,7 +188,7 @@ def _sunpos_two_dimensional(unixtime, longitude, latitude, with_refraction):
         sin_ha, cos_ha*sin_lat - tan_dec*cos_lat)
 
     # correct for parallax
-    alt_uncorr = np.arcsin(sin_alt)
+    alt_uncorr = np.arcsin(np.clip(sin_alt, -1., 1.))
     cos_alt = np.cos(alt_uncorr)
     alt = alt_uncorr - 4.2635e-5*cos_alt                 # horizontal parallax = 8.794" = 4.2635e-5 rad
 
@@ -236,7 +236,7 @@ def _sunpos_three_dimensional(unixtime, longitude, latitude, with_refraction):
         sin_ha, cos_ha*sin_lat - tan_dec*cos_lat)
 
     # correct for parallax
-    alt_uncorr = np.arcsin(sin_alt)
+    alt_uncorr = np.arcsin(np.clip(sin_alt, -1., 1.))
     cos_alt = np.cos(alt_uncorr)
     alt = alt_uncorr - 4.2635e-5*cos_alt                 # horizontal parallax = 8.794" = 4.2635e-5 rad
 
-- 
2.43.0


From 39ee0611ef1d099c702dd011155f7329afa27338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:26 +0000
Subject: [PATCH 10/35] fix: iqbal's refracted zenith out of [0, 180] degrees
 with the sun at the zenith or the nadir

---
 src/sunwhere/libspa/ne_iqbal.py | 6 +++---
 src/sunwhere/libspa/py_iqbal.py | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/sunwhere/libspa/ne_iqbal.py b/src/sunwhere/libspa/ne_iqbal.py
index 0fe3850..6671041 100644
--- a/src/sunwhere/libspa/ne_iqbal.py
+++ b/src/sunwhere/libspa/ne_iqbal.py
@@ -153,7 +153,7 @@ def _sunpos_one_dimensional(unixtime, longitude, latitude, with_refraction):
             '0.061359*(0.1594+(1.1230*alpha)'
             '+ (0.065656*alpha2))/(1.+(28.9344*alpha)'
             '+ (277.3971*alpha2))')
-        sza_rad = HALFPI - (alpha + refcor)
+        sza_rad = np.clip(HALFPI - (alpha + refcor), 0., PI)
 
     sinHour = nex('sin(hour_angle)')
     tanDecl = nex('tan(declination)')
@@ -214,7 +214,7 @@ def _sunpos_two_dimensional(unixtime, longitude, latitude, with_refraction):
             '0.061359*(0.1594+(1.1230*alpha)'
             '+ (0.065656*alpha2))/(1.+(28.9344*alpha)'
             '+ (277.3971*alpha2))')
-        sza_rad = HALFPI - (alpha + refcor)
+        sza_rad = np.clip(HALFPI - (alpha + refcor), 0., PI)
 
     sinHour = nex('sin(hour_angle)')
     tanDecl = nex('tan(declination)')[:, None]
@@ -276,7 +276,7 @@ def _sunpos_three_dimensional(unixtime, longitude, latitude, with_refraction):
             '0.061359*(0.1594+(1.1230*alpha)'
             '+ (0.065656*alpha2))/(1.+(28.9344*alpha)'
             '+ (277.3971*alpha2))')
-        sza_rad = HALFPI - (alpha + refcor)
+        sza_rad = np.clip(HALFPI - (alpha + refcor), 0., PI)
 
     sinHour = nex('sin(hour_angle)')
     tanDecl = nex('tan(declination)')[:, None, None]
diff --git a/src/sunwhere/libspa/py_iqbal.py b/src/sunwhere/libspa/py_iqbal.py
index 20613a1..854696f 100644
--- a/src/sunwhere/libspa/py_iqbal.py
+++ b/src/sunwhere/libspa/py_iqbal.py
@@ -149,7 +149,7 @@ def _sunpos_one_dimensional(unixtime, longitude, latitude, with_refraction):
         refcor = (0.061359*(0.1594+(1.1230*alpha)
                   + (0.065656*alpha2))/(1.+(28.9344*alpha)
                   + (277.3971*alpha2)))
-        sza_rad = HALFPI - (alpha + refcor)
+        sza_rad = np.clip(HALFPI - (alpha + refcor), 0., PI)
 
     dy = -np.sin(hour_angle)
     dx = tanDecl*cosLat - sinLat*cosHour
@@ -208,7 +208,7 @@ def _sunpos_two_dimensional(unixtime, longitude, latitude, with_refraction):
         refcor = (0.061359*(0.1594+(1.1230*alpha)
                   + (0.065656*alpha2))/(1.+(28.9344*alpha)
                   + (277.3971*alpha2)))
-        sza_rad = HALFPI - (alpha + refcor)
+        sza_rad = np.clip(HALFPI - (alpha + refcor), 0., PI)
 
     dy = -np.sin(hour_angle)
     dx = tanDecl*cosLat - sinLat*cosHour
@@ -269,7 +269,7 @@ def _sunpos_three_dimensional(unixtime, longitude, latitude, with_refraction):
         refcor = (0.061359*(0.1594+(1.1230*alpha)
                   + (0.065656*alpha2))/(1.+(28.9344*alpha)
                   + (277.3971*alpha2)))
-        sza_rad = HALFPI - (alpha + refcor)
+        sza_rad = np.clip(HALFPI - (alpha + refcor), 0., PI)
 
     dy = -np.sin(hour_angle)
     dx = tanDecl*cosLat - sinLat*cosHour
-- 
2.43.0


From e899dba171b52383491d18c9359e5889440bcd68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:32 +0000
Subject: [PATCH 11/35] fix: the CLI lost the sign of equations of time between
 -1 and 0 minutes

---
 src/sunwhere/_cli/position.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sunwhere/_cli/position.py b/src/sunwhere/_cli/position.py
index ef51f4f..c423a2f 100644
--- a/src/sunwhere/_cli/position.py
+++ b/src/sunwhere/_cli/position.py
@@ -32,8 +32,8 @@ def calculate_position(time, lat, lon, algorithm, refraction, timezone):
     sr_local = pd.Timestamp(sw.sunrise(units="local").isel(time=0, location=0).item())
     ss_local = pd.Timestamp(sw.sunset(units="local").isel(time=0, location=0).item())
     eot = sw.eot.isel(time=0).item()
-    eot_min = int(eot)
-    eot_sec = 60*(abs(eot) % 1)
+    eot_sign = '-' if eot < 0 else ''
+    eot_min, eot_sec = divmod(round(60*abs(eot), 1), 60)
 
     ts = pd.to_datetime(time).tz_localize(timezone)
 
@@ -53,7 +53,7 @@ def calculate_position(time, lat, lon, algorithm, refraction, timezone):
             'Sunset(UTC)': f'{ss_utc.tz_localize(sw.timezone):%H:%M:%S}',
             f'Sunrise({timezone})': f'{sr_local.tz_localize(sw.timezone):%H:%M:%S}',
             f'Sunset({timezone})': f'{ss_local.tz_localize(sw.timezone):%H:%M:%S}',
-            'Equation of time': f'{eot_min}:{eot_sec:.1f} min'
+            'Equation of time': f'{eot_sign}{eot_min:.0f}:{eot_sec:.1f} min'
         }
     ).to_frame('ephemeris')
 
-- 
2.43.0


From 7563447c582d75923817a3f4d82dd74f1aef1c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:32 +0000
Subject: [PATCH 12/35] fix: the CLI failed in polar days and nights, and with
 sunrise or sunset at a DST change

---
 src/sunwhere/_cli/position.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/sunwhere/_cli/position.py b/src/sunwhere/_cli/position.py
index c423a2f..dcf589d 100644
--- a/src/sunwhere/_cli/position.py
+++ b/src/sunwhere/_cli/position.py
@@ -13,6 +13,11 @@ import sunwhere
 locale.setlocale(locale.LC_TIME, locale.getlocale())
 
 
+def time_of_day(timestamp):
+    # there is neither sunrise nor sunset in the polar days and nights
+    return 'n/a' if pd.isna(timestamp) else f'{timestamp:%H:%M:%S}'
+
+
 def calculate_position(time, lat, lon, algorithm, refraction, timezone):
 
     # Online service to verify the results of NREL's SPA
@@ -49,10 +54,10 @@ def calculate_position(time, lat, lon, algorithm, refraction, timezone):
             'Zenith': f'{sw.sza.isel(time=0, location=0):.4f}\u00b0',
             'Elevation': f'{sw.elevation.isel(time=0, location=0):.4f}\u00b0',
             'Azimuth (0\u00b0 south)': f'{sw.saa.isel(time=0, location=0):.4f}\u00b0',
-            'Sunrise(UTC)': f'{sr_utc.tz_localize(sw.timezone):%H:%M:%S}',
-            'Sunset(UTC)': f'{ss_utc.tz_localize(sw.timezone):%H:%M:%S}',
-            f'Sunrise({timezone})': f'{sr_local.tz_localize(sw.timezone):%H:%M:%S}',
-            f'Sunset({timezone})': f'{ss_local.tz_localize(sw.timezone):%H:%M:%S}',
+            'Sunrise(UTC)': time_of_day(sr_utc),
+            'Sunset(UTC)': time_of_day(ss_utc),
+            f'Sunrise({timezone})': time_of_day(sr_local),
+            f'Sunset({timezone})': time_of_day(ss_local),
             'Equation of time': f'{eot_sign}{eot_min:.0f}:{eot_sec:.1f} min'
         }
     ).to_frame('ephemeris')
-- 
2.43.0


From 85b0ba225ce2bef9850e3881ed872823116bb2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:32 +0000
Subject: [PATCH 13/35] fix: `now` in the CLI took the system's wall time as if
 it were in the requested time zone

---
 src/sunwhere/_cli/position.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/sunwhere/_cli/position.py b/src/sunwhere/_cli/position.py
index dcf589d..c316c6e 100644
--- a/src/sunwhere/_cli/position.py
+++ b/src/sunwhere/_cli/position.py
@@ -1,6 +1,5 @@
 
 import locale
-from datetime import datetime
 
 from tabulate import tabulate
 
@@ -24,7 +23,7 @@ def calculate_position(time, lat, lon, algorithm, refraction, timezone):
     # https://www.kso.ac.at/beobachtungen/ephem_api.php?date=20230715&time=12%3A00%3A00&lat=40.0000&lon=0.0000
 
     if time == 'now':
-        time = datetime.now()
+        time = pd.Timestamp.now(tz=timezone).tz_localize(None)
 
     times = np.array(
         pd.to_datetime(time).tz_localize(None), ndmin=1, dtype='datetime64[ns]')
-- 
2.43.0


From 2e5c9f5d269e00914c80375f40a3e6eb774c5d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:32 +0000
Subject: [PATCH 14/35] fix: load_jpl_ephemeris dropped a column already
 dropped and localized times already localized

---
 src/sunwhere/utils/jpl_horizons.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sunwhere/utils/jpl_horizons.py b/src/sunwhere/utils/jpl_horizons.py
index 195f0ec..ae7a5f9 100644
--- a/src/sunwhere/utils/jpl_horizons.py
+++ b/src/sunwhere/utils/jpl_horizons.py
@@ -119,7 +119,7 @@ def load_jpl_ephemeris(year=2024, site_lon=-3.822, site_lat=36.949):
                 filenames.append(out_filename)
                 logger.success('data downloaded')
             logger.info(f'loading high-res ephemeris from file {out_filename}')
-            data.append(read_jpl_ephemeris_file(out_filename).drop(columns='julian_day'))
+            data.append(read_jpl_ephemeris_file(out_filename))
         df = pd.concat(data, axis=0)
         df.insert(0, 'site_lat', site_lat)
         df.insert(0, 'site_lon', site_lon)
@@ -129,4 +129,4 @@ def load_jpl_ephemeris(year=2024, site_lon=-3.822, site_lat=36.949):
         for filename in filenames:
             filename.unlink()
 
-    return pd.read_parquet(whole_data_filename).tz_localize('UTC')
+    return pd.read_parquet(whole_data_filename)
-- 
2.43.0


From e1de9be08f17a247c435bef6dba20ba4924ff52d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:40 +0000
Subject: [PATCH 15/35] fix: load_jpl_ephemeris returned the ephemeris stored
 for another site

---
 src/sunwhere/utils/jpl_horizons.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sunwhere/utils/jpl_horizons.py b/src/sunwhere/utils/jpl_horizons.py
index ae7a5f9..f3d8c25 100644
--- a/src/sunwhere/utils/jpl_horizons.py
+++ b/src/sunwhere/utils/jpl_horizons.py
@@ -105,12 +105,14 @@ def load_jpl_ephemeris(year=2024, site_lon=-3.822, site_lat=36.949):
     if not out_dir.exists():
         out_dir.mkdir(parents=True, exist_ok=True)
 
-    whole_data_filename = out_dir / f'jpl_ephemeris_highres_{year}.parquet'
+    # the stored data are those of a year and a site
+    stem = f'jpl_ephemeris_highres_{site_lon:.6f}_{site_lat:.6f}_{year}'
+    whole_data_filename = out_dir / f'{stem}.parquet'
     if not whole_data_filename.exists():
         data = []
         filenames = []
         for month in range(1, 13):
-            out_filename = out_dir / f'jpl_ephemeris_highres_{year}-{month:02d}.txt'
+            out_filename = out_dir / f'{stem}-{month:02d}.txt'
             if not out_filename.exists():
                 logger.info(f'downloading high-res ephemeris to file {out_filename}')
                 start_time = pd.to_datetime(f'{year}-{month:02d}-01 00:00')
-- 
2.43.0


From 43450f41740050653bd94d2ed0c808bb64c55811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:06 +0000
Subject: [PATCH 16/35] fix: times given as a pandas Series raised TypeError

---
 src/sunwhere/usecases.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/sunwhere/usecases.py b/src/sunwhere/usecases.py
index 325b260..6d4f5f7 100644
--- a/src/sunwhere/usecases.py
+++ b/src/sunwhere/usecases.py
@@ -19,6 +19,11 @@ from .utils.validate import check_dimensions
 #  TIME-INVARIANT IF THE LOCATIONS ARE FIXED, TIME-VARIANT OTHERWISE
 
 
+def _as_index(times):
+    # pd.to_datetime returns a series, rather than an index, for a series
+    return pd.Index(times) if isinstance(times, pd.Series) else times
+
+
 def sites(times, latitude, longitude, algorithm='psa',
           refraction=True, engine='numexpr'):
     """Solar position across an arbitrary number of locations throughout a common time grid.
@@ -80,6 +85,7 @@ def sites(times, latitude, longitude, algorithm='psa',
     # I use ndmin=1 to allow scalar inputs
     #   the argument `utc` of pd.to_datetime "localizes" timezone-naive
     #   inputs as UTC, while timezone-aware inputs are "converted" to UTC
+    times = _as_index(times)
     times_utc = np.array(
         pd.to_datetime(times, utc=True).tz_localize(None),  # naive datetime
         ndmin=1, dtype='datetime64[s]')
@@ -175,6 +181,7 @@ def regular_grid(times, latitude, longitude, algorithm='psa',
     # I use ndmin=1 to allow scalar input times
     #   the argument `utc` of pd.to_datetime "localizes" timezone-naive
     #   inputs as UTC, while timezone-aware inputs are "converted" to UTC
+    times = _as_index(times)
     times_utc = np.array(
         pd.to_datetime(times, utc=True).tz_localize(None),  # naive datetime
         ndmin=1, dtype='datetime64[s]')
@@ -263,6 +270,7 @@ def transect(times, latitude, longitude, algorithm='psa',
     # I use ndmin=1 to allow scalar inputs
     #   the argument `utc` of pd.to_datetime "localizes" timezone-naive
     #   inputs as UTC, while timezone-aware inputs are "converted" to UTC
+    times = _as_index(times)
     times_utc = np.array(
         pd.to_datetime(times, utc=True).tz_localize(None),
         ndmin=1, dtype='datetime64[s]')
-- 
2.43.0


From d0945c4253c55228b8ac61db7b4341c3e62e9f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:20 +0000
Subject: [PATCH 17/35] fix: sunrise and sunset raised AssertionError, not
 ValueError, for unknown units

---
 src/sunwhere/_base.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sunwhere/_base.py b/src/sunwhere/_base.py
index 3d7d79d..58f9c7a 100644
--- a/src/sunwhere/_base.py
+++ b/src/sunwhere/_base.py
@@ -437,7 +437,8 @@ class Sunpos:
             [1] Eq. (1.5.4) in Iqbal, M., An Introduction to Solar Radiation,
             Academic Press, 1983.
         """
-        assert units in ('rad', 'deg', 'tst', 'utc', 'local')
+        if units not in ('rad', 'deg', 'tst', 'utc', 'local'):
+            raise ValueError(f'unknown units {units}')
 
         tanlat = np.tan(np.radians(self.latitude))
         tandec = np.tan(np.radians(self.declination))
@@ -506,7 +507,8 @@ class Sunpos:
             [1] Eq. (1.5.4) in Iqbal, M., An Introduction to Solar Radiation,
             Academic Press, 1983.
         """
-        assert units in ('rad', 'deg', 'tst', 'utc', 'local')
+        if units not in ('rad', 'deg', 'tst', 'utc', 'local'):
+            raise ValueError(f'unknown units {units}')
 
         if units in ('tst', 'utc', 'local'):
             wsr = self.sunrise(units)
-- 
2.43.0


From 68030caa5d710431680c494f49d5dec8585c6ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:51 +0000
Subject: [PATCH 18/35] fix: eth was labelled with the range of cosz

---
 src/sunwhere/_base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sunwhere/_base.py b/src/sunwhere/_base.py
index 58f9c7a..fe962b1 100644
--- a/src/sunwhere/_base.py
+++ b/src/sunwhere/_base.py
@@ -353,6 +353,7 @@ class Sunpos:
 
         return (eth*corr).rename('eth').assign_attrs(
             units='W m-2',
+            range='[0, inf)',
             description='extraterrestrial horizontal solar irradiance')
 
     def airmass(self, parameterization='gueymard_2003'):
-- 
2.43.0


From 3a5f2e6b3488bd3f979de19932cbc932d0caac86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:08 +0000
Subject: [PATCH 19/35] fix: the hour lines of a solar chart were drawn at the
 hours of UTC, not of the time zone of the chart

---
 src/sunwhere/_cli/solar_chart.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sunwhere/_cli/solar_chart.py b/src/sunwhere/_cli/solar_chart.py
index 18e83b4..a551bba 100644
--- a/src/sunwhere/_cli/solar_chart.py
+++ b/src/sunwhere/_cli/solar_chart.py
@@ -140,7 +140,7 @@ class SolarChart(object):
             # draw analemmas
             date_s = pd.Timestamp(f'1 Jan {ts.year} {ho:02d}:{mn:02d}')
             times = self._date_range(date_s, 366 if ts.is_leap_year else 365, '1D')
-            sunpath = self.sunpath(pd.to_datetime(times).tz_localize(None))
+            sunpath = self.sunpath(times)
             self.plot_sunpath(sunpath, ls='-', marker='', lw=0.7, color=color)
 
             # draw time labels
-- 
2.43.0


From b440655c4aa1287620e133460931f70cf8bd44f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:09 +0000
Subject: [PATCH 20/35] fix: a solar chart took days 1 to 12 as months, and
 months as days

---
 src/sunwhere/_cli/solar_chart.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sunwhere/_cli/solar_chart.py b/src/sunwhere/_cli/solar_chart.py
index a551bba..e71fbc5 100644
--- a/src/sunwhere/_cli/solar_chart.py
+++ b/src/sunwhere/_cli/solar_chart.py
@@ -169,7 +169,7 @@ class SolarChart(object):
         for day, month in days:
             # draw sun path
             sunpath = self.sunpath(
-                self._date_range(f'{day}/{month}/{ts.year}', 288, '5min'))
+                self._date_range(f'{ts.year}-{month:02d}-{day:02d}', 288, '5min'))
             self.plot_sunpath(
                 sunpath, ls='-', lw=0.5, marker='',
                 color=SolarChart.color_solar_grid)
-- 
2.43.0


From 1f129504590aea267100291ce62dbb3d79be5c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:09 +0000
Subject: [PATCH 21/35] fix: make_solar_chart failed without a user_datetime,
 its default

---
 src/sunwhere/_cli/solar_chart.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sunwhere/_cli/solar_chart.py b/src/sunwhere/_cli/solar_chart.py
index e71fbc5..88e5816 100644
--- a/src/sunwhere/_cli/solar_chart.py
+++ b/src/sunwhere/_cli/solar_chart.py
@@ -338,6 +338,7 @@ def make_solar_chart(site_lat, site_lon, user_datetime=None, timezone='UTC',
 
     solar_chart = SolarChart(site_lat, site_lon, user_datetime, timezone, polar)
     solar_chart.draw_solar_grid()
-    solar_chart.draw_solar_path(user_datetime)
+    if user_datetime is not None:
+        solar_chart.draw_solar_path(user_datetime)
     if filename is not None:
         solar_chart.savefig(filename, transparent=transparent)
-- 
2.43.0


From ece48421e361f5108722832c4ce6365574d757c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:09 +0000
Subject: [PATCH 22/35] fix: east and west were swapped in solar charts

---
 src/sunwhere/_cli/solar_chart.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sunwhere/_cli/solar_chart.py b/src/sunwhere/_cli/solar_chart.py
index 88e5816..c749eb0 100644
--- a/src/sunwhere/_cli/solar_chart.py
+++ b/src/sunwhere/_cli/solar_chart.py
@@ -213,8 +213,8 @@ class SolarChart(object):
                      bbox=dict(fc='white', ec='none', pad=3), fontsize=14)
             add_text(0.5, 1.08, 'N', ha='center', fontsize=16)
             add_text(0.5, -.08, 'S', ha='center', fontsize=16)
-            add_text(-.09, .5, 'W', va='center', fontsize=16)
-            add_text(1.09, .5, 'E', va='center', fontsize=16)
+            add_text(-.09, .5, 'E', va='center', fontsize=16)
+            add_text(1.09, .5, 'W', va='center', fontsize=16)
         else:
             add_text(.01, .97, r'Latitude=$%.2f^{\circ}$' % self.latitude,
                      bbox=dict(fc='white', ec='none', pad=4), fontsize=14)
@@ -225,8 +225,8 @@ class SolarChart(object):
             add_text(0., 1.06, 'North', fontsize=16)
             add_text(1., 1.06, 'NortH', ha='right', fontsize=14)
             add_text(0.5, 1.06, 'South', ha='center', fontsize=14)
-            add_text(0.25, 1.06, 'West', ha='center', fontsize=14)
-            add_text(0.75, 1.06, 'East', ha='center', fontsize=14)
+            add_text(0.25, 1.06, 'East', ha='center', fontsize=14)
+            add_text(0.75, 1.06, 'West', ha='center', fontsize=14)
 
         self.draw_background_grid()
 
-- 
2.43.0


From ea9434ccc078e7fcb520f7a60b8f4acbe3b5f3a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:09 +0000
Subject: [PATCH 23/35] fix: the analemma of the user's time lacked a day, or
 had one too many, in some time zones

---
 src/sunwhere/_cli/solar_chart.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sunwhere/_cli/solar_chart.py b/src/sunwhere/_cli/solar_chart.py
index c749eb0..43cdeb3 100644
--- a/src/sunwhere/_cli/solar_chart.py
+++ b/src/sunwhere/_cli/solar_chart.py
@@ -313,8 +313,8 @@ class SolarChart(object):
 
         # analemma
         date_s = ts.tz_convert('UTC').replace(month=1, day=1)
-        times = self._date_range(date_s, 366 if ts.is_leap_year else 365, '1D')
-        sunpath = self.sunpath(pd.to_datetime(times).tz_localize(None))
+        times = pd.date_range(date_s, periods=366 if date_s.is_leap_year else 365, freq='1D')
+        sunpath = self.sunpath(times)
         self.plot_sunpath(sunpath, ls='-', marker='', lw=0.7, color=color)
 
         # solpos = self.sunpath([ts.tz_localize(None).tz_localize(self.timezone)])
-- 
2.43.0


From 3d6956b8962c7301cb0cf1a18377e0a17b764835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:29 +0000
Subject: [PATCH 24/35] fix: the benchmark inverted the sign of azimuth
 differences across due north

---
 src/sunwhere/_cli/benchmark.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sunwhere/_cli/benchmark.py b/src/sunwhere/_cli/benchmark.py
index 29e0e8f..5e2e714 100644
--- a/src/sunwhere/_cli/benchmark.py
+++ b/src/sunwhere/_cli/benchmark.py
@@ -127,8 +127,8 @@ def calc_residues(data, reference, relative=False):
     def calc_error(m, o):
         diff = m - o
         if 'azimuth' in diff.columns:
-            diff['azimuth'] = diff['azimuth'].where(diff['azimuth'] > -330, -360 - diff['azimuth'])
-            diff['azimuth'] = diff['azimuth'].where(diff['azimuth'] < 330, 360 - diff['azimuth'])
+            diff['azimuth'] = diff['azimuth'].where(diff['azimuth'] > -330, 360 + diff['azimuth'])
+            diff['azimuth'] = diff['azimuth'].where(diff['azimuth'] < 330, diff['azimuth'] - 360)
         return diff / o if relative is True else diff
 
     residue = data.copy()
-- 
2.43.0


From 3663f8fc25bad975fa9646ec3809731032b78ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:33 +0000
Subject: [PATCH 25/35] fix: times in steps of several units (e.g.,
 datetime64[15m]) were misread

---
 src/sunwhere/usecases.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/sunwhere/usecases.py b/src/sunwhere/usecases.py
index 6d4f5f7..9b0b99f 100644
--- a/src/sunwhere/usecases.py
+++ b/src/sunwhere/usecases.py
@@ -21,7 +21,13 @@ from .utils.validate import check_dimensions
 
 def _as_index(times):
     # pd.to_datetime returns a series, rather than an index, for a series
-    return pd.Index(times) if isinstance(times, pd.Series) else times
+    if isinstance(times, pd.Series):
+        return pd.Index(times)
+    # pd.to_datetime ignores how many units are in one step, e.g., datetime64[15m]
+    if isinstance(times, np.ndarray) and times.dtype.kind == 'M':
+        unit, count = np.datetime_data(times.dtype)
+        return times if count == 1 else times.astype(f'datetime64[{unit}]')
+    return times
 
 
 def sites(times, latitude, longitude, algorithm='psa',
-- 
2.43.0


From c0e3897d7584dfb225d0a1e5e37b0b68c21dba66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:06 +0000
Subject: [PATCH 26/35] fix: benchmarks on the equator and on the prime
 meridian

The hemisphere in the name of the ephemeris file was x/|x|, which raises
ZeroDivisionError at latitude or longitude 0.
---
 src/sunwhere/_cli/benchmark.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sunwhere/_cli/benchmark.py b/src/sunwhere/_cli/benchmark.py
index 5e2e714..3fe180a 100644
--- a/src/sunwhere/_cli/benchmark.py
+++ b/src/sunwhere/_cli/benchmark.py
@@ -539,7 +539,7 @@ def run_benchmark(year, site_lat, site_lon, show_accuracy=False, show_exec_time=
 
     logger.info(f'Performing benchmark tests for {year} at lat={site_lat} lon={site_lon}')
 
-    sign = lambda x: int(0.5*(1 + x / abs(x)))  # noqa: E731
+    sign = lambda x: int(x >= 0)  # noqa: E731
     lat_str = f'{abs(site_lat):07.4f}{("S", "N")[sign(site_lat)]}'.replace('.', 'p')
     lon_str = f'{abs(site_lon):08.4f}{("W", "E")[sign(site_lon)]}'.replace('.', 'p')
     out_filename = (Path(tempfile.gettempdir()) /
-- 
2.43.0


From d3257cff40bce5fddd81e64e9f9cce28355cfbdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:06 +0000
Subject: [PATCH 27/35] fix: benchmark ephemeris files are those of the site
 asked for

The names of the files kept four decimals of the coordinates, six of which
are requested: a benchmark would take the ephemeris of another site, up to
0.36 arc-sec away, while it prints thousandths of arc-sec.
---
 src/sunwhere/_cli/benchmark.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sunwhere/_cli/benchmark.py b/src/sunwhere/_cli/benchmark.py
index 3fe180a..1324eb3 100644
--- a/src/sunwhere/_cli/benchmark.py
+++ b/src/sunwhere/_cli/benchmark.py
@@ -540,8 +540,8 @@ def run_benchmark(year, site_lat, site_lon, show_accuracy=False, show_exec_time=
     logger.info(f'Performing benchmark tests for {year} at lat={site_lat} lon={site_lon}')
 
     sign = lambda x: int(x >= 0)  # noqa: E731
-    lat_str = f'{abs(site_lat):07.4f}{("S", "N")[sign(site_lat)]}'.replace('.', 'p')
-    lon_str = f'{abs(site_lon):08.4f}{("W", "E")[sign(site_lon)]}'.replace('.', 'p')
+    lat_str = f'{abs(site_lat):09.6f}{("S", "N")[sign(site_lat)]}'.replace('.', 'p')
+    lon_str = f'{abs(site_lon):010.6f}{("W", "E")[sign(site_lon)]}'.replace('.', 'p')
     out_filename = (Path(tempfile.gettempdir()) /
                     f'jpl_ephemerides_{year}_{lat_str}_{lon_str}.txt')
     logger.debug(f'JPL filename: {out_filename}')
-- 
2.43.0


From f9c76a7c8b2a687c34d8e854ebfbe4c9cc5ce20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:06 +0000
Subject: [PATCH 28/35] fix: a Horizons reply without an ephemeris is not
 stored

An error message was stored as if it were the ephemeris, and every later load
or benchmark of the same site and period found it and failed.
---
 src/sunwhere/utils/jpl_horizons.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sunwhere/utils/jpl_horizons.py b/src/sunwhere/utils/jpl_horizons.py
index f3d8c25..7f4ced8 100644
--- a/src/sunwhere/utils/jpl_horizons.py
+++ b/src/sunwhere/utils/jpl_horizons.py
@@ -63,6 +63,9 @@ def get_jpl_ephemeris(out_filename, start_time, stop_time, site_lon,
     data = response.data.decode('utf-8')
     http.clear()
 
+    if '$$SOE' not in data:
+        raise RuntimeError(f'JPL Horizons returned no ephemeris: {data[:500]}')
+
     path = Path(out_filename)
     if not path.parent.exists():
         path.parent.mkdir(parents=True, exist_ok=True)
-- 
2.43.0


From 6bf545149382ccbaf04ba93e1b458a51ee37052c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:08 +0000
Subject: [PATCH 29/35] fix: an interrupted download does not pass for an
 ephemeris

A process ended while it wrote the reply, or the year, left a part of the
file under the name of the whole, which every later load took for it.
---
 src/sunwhere/utils/jpl_horizons.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/sunwhere/utils/jpl_horizons.py b/src/sunwhere/utils/jpl_horizons.py
index 7f4ced8..97fd558 100644
--- a/src/sunwhere/utils/jpl_horizons.py
+++ b/src/sunwhere/utils/jpl_horizons.py
@@ -1,4 +1,5 @@
 
+import os
 from pathlib import Path
 
 import urllib3
@@ -69,7 +70,12 @@ def get_jpl_ephemeris(out_filename, start_time, stop_time, site_lon,
     path = Path(out_filename)
     if not path.parent.exists():
         path.parent.mkdir(parents=True, exist_ok=True)
-    path.open(mode='w').write(data)
+    # it has another name until it is complete, lest an interruption leaves a
+    # part of it that later looks like the whole
+    part = path.with_name(f'{path.name}.{os.getpid()}.part')
+    with part.open(mode='w') as f:
+        f.write(data)
+    part.replace(path)
 
     return path
 
@@ -129,7 +135,9 @@ def load_jpl_ephemeris(year=2024, site_lon=-3.822, site_lat=36.949):
         df.insert(0, 'site_lat', site_lat)
         df.insert(0, 'site_lon', site_lon)
 
-        df.to_parquet(whole_data_filename)
+        part = whole_data_filename.with_name(f'{whole_data_filename.name}.{os.getpid()}.part')
+        df.to_parquet(part)
+        part.replace(whole_data_filename)
 
         for filename in filenames:
             filename.unlink()
-- 
2.43.0


From d2a16a44907aff0d927ea2169558b3c760248599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:46 +0000
Subject: [PATCH 30/35] fix: downloads of several threads do not share their
 partial files

---
 src/sunwhere/utils/jpl_horizons.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/sunwhere/utils/jpl_horizons.py b/src/sunwhere/utils/jpl_horizons.py
index 97fd558..5ebefc9 100644
--- a/src/sunwhere/utils/jpl_horizons.py
+++ b/src/sunwhere/utils/jpl_horizons.py
@@ -1,5 +1,6 @@
 
 import os
+import threading
 from pathlib import Path
 
 import urllib3
@@ -9,6 +10,11 @@ from loguru import logger
 import dateutil.parser as dtparser
 
 
+def part_name(path):
+    # what others write at the same time has other names
+    return path.with_name(f'{path.name}.{os.getpid()}.{threading.get_ident()}.part')
+
+
 def get_jpl_ephemeris(out_filename, start_time, stop_time, site_lon,
                       site_lat, site_elev=0., step_size=1):
     # site_elev in km
@@ -72,7 +78,7 @@ def get_jpl_ephemeris(out_filename, start_time, stop_time, site_lon,
         path.parent.mkdir(parents=True, exist_ok=True)
     # it has another name until it is complete, lest an interruption leaves a
     # part of it that later looks like the whole
-    part = path.with_name(f'{path.name}.{os.getpid()}.part')
+    part = part_name(path)
     with part.open(mode='w') as f:
         f.write(data)
     part.replace(path)
@@ -135,7 +141,7 @@ def load_jpl_ephemeris(year=2024, site_lon=-3.822, site_lat=36.949):
         df.insert(0, 'site_lat', site_lat)
         df.insert(0, 'site_lon', site_lon)
 
-        part = whole_data_filename.with_name(f'{whole_data_filename.name}.{os.getpid()}.part')
+        part = part_name(whole_data_filename)
         df.to_parquet(part)
         part.replace(whole_data_filename)
 
-- 
2.43.0


From 836856a17004c57da976033e4a30a641e1551d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:46 +0000
Subject: [PATCH 31/35] fix: simultaneous loads of the ephemeris of a year do
 not fail

---
 src/sunwhere/utils/jpl_horizons.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/sunwhere/utils/jpl_horizons.py b/src/sunwhere/utils/jpl_horizons.py
index 5ebefc9..16246f8 100644
--- a/src/sunwhere/utils/jpl_horizons.py
+++ b/src/sunwhere/utils/jpl_horizons.py
@@ -128,15 +128,20 @@ def load_jpl_ephemeris(year=2024, site_lon=-3.822, site_lat=36.949):
         filenames = []
         for month in range(1, 13):
             out_filename = out_dir / f'{stem}-{month:02d}.txt'
-            if not out_filename.exists():
-                logger.info(f'downloading high-res ephemeris to file {out_filename}')
-                start_time = pd.to_datetime(f'{year}-{month:02d}-01 00:00')
-                stop_time = (start_time + pd.Timedelta('35days')).replace(day=1) - pd.Timedelta('1min')
-                get_jpl_ephemeris(out_filename, start_time, stop_time, site_lon, site_lat, step_size=12)
-                filenames.append(out_filename)
-                logger.success('data downloaded')
-            logger.info(f'loading high-res ephemeris from file {out_filename}')
-            data.append(read_jpl_ephemeris_file(out_filename))
+            # another load of this year may remove the file, when it ends, at any moment
+            while len(data) < month:
+                if not out_filename.exists():
+                    logger.info(f'downloading high-res ephemeris to file {out_filename}')
+                    start_time = pd.to_datetime(f'{year}-{month:02d}-01 00:00')
+                    stop_time = (start_time + pd.Timedelta('35days')).replace(day=1) - pd.Timedelta('1min')
+                    get_jpl_ephemeris(out_filename, start_time, stop_time, site_lon, site_lat, step_size=12)
+                    filenames.append(out_filename)
+                    logger.success('data downloaded')
+                logger.info(f'loading high-res ephemeris from file {out_filename}')
+                try:
+                    data.append(read_jpl_ephemeris_file(out_filename))
+                except FileNotFoundError:
+                    logger.info(f'{out_filename} is not there any longer')
         df = pd.concat(data, axis=0)
         df.insert(0, 'site_lat', site_lat)
         df.insert(0, 'site_lon', site_lon)
@@ -146,6 +151,6 @@ def load_jpl_ephemeris(year=2024, site_lon=-3.822, site_lat=36.949):
         part.replace(whole_data_filename)
 
         for filename in filenames:
-            filename.unlink()
+            filename.unlink(missing_ok=True)
 
     return pd.read_parquet(whole_data_filename)
-- 
2.43.0


From 8da4f5beb5e73c65f5b618a3e7de07d63c6a7949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:36 +0000
Subject: [PATCH 32/35] fix: load_speed_tests: keep the figures (a chained
 assignment stores nothing in pandas 3)

---
 src/sunwhere/_cli/benchmark.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sunwhere/_cli/benchmark.py b/src/sunwhere/_cli/benchmark.py
index 1324eb3..9503752 100644
--- a/src/sunwhere/_cli/benchmark.py
+++ b/src/sunwhere/_cli/benchmark.py
@@ -455,7 +455,7 @@ def load_speed_tests(out_dir=None):
                             continue
                         mean_time, std_time = speed_meter(
                             library, algorithm, n_times, n_locs)
-                        df.loc[n_times][n_locs] = mean_time
+                        df.loc[n_times, n_locs] = mean_time
                     df.to_parquet(this_filename)
                 keys.append(f'{library}.{algorithm}')
                 exec_time.append(pd.read_parquet(this_filename))
-- 
2.43.0


From 5dd9553ebddad94fe7c3026a1cbe312321a479f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:26 +0000
Subject: [PATCH 33/35] fix: run_benchmark: show the accuracy plot for whoever
 runs it (it was saved in a folder of the author, and failed for others)

---
 src/sunwhere/_cli/benchmark.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/sunwhere/_cli/benchmark.py b/src/sunwhere/_cli/benchmark.py
index 9503752..041abc8 100644
--- a/src/sunwhere/_cli/benchmark.py
+++ b/src/sunwhere/_cli/benchmark.py
@@ -596,10 +596,7 @@ def run_benchmark(year, site_lat, site_lon, show_accuracy=False, show_exec_time=
 
     # plot the zenith and azimuth absolute error distributions...
     if show_accuracy is True:
-        plot_accuracy(
-            ephemeris, sort_by=ephemeris_errors.loc[('zenith', 'mae')],
-            filename='/home/jararias/code/devel/sunwhere/assets/accuracy_benchmark.png'
-        )
+        plot_accuracy(ephemeris, sort_by=ephemeris_errors.loc[('zenith', 'mae')])
 
     # plot_exec_time('/home/jararias/code/devel/sunwhere/assets/exec_time_benchmark.png')
     if show_exec_time is True:
-- 
2.43.0


From eed39704de471fcc6ddb438db0f7db41005665fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:19:46 +0000
Subject: [PATCH 34/35] fix: at now: work in the hour that is repeated when
 clocks are turned back (it was an ambiguous time)

---
 src/sunwhere/_cli/position.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/sunwhere/_cli/position.py b/src/sunwhere/_cli/position.py
index c316c6e..377ca5c 100644
--- a/src/sunwhere/_cli/position.py
+++ b/src/sunwhere/_cli/position.py
@@ -23,11 +23,14 @@ def calculate_position(time, lat, lon, algorithm, refraction, timezone):
     # https://www.kso.ac.at/beobachtungen/ephem_api.php?date=20230715&time=12%3A00%3A00&lat=40.0000&lon=0.0000
 
     if time == 'now':
-        time = pd.Timestamp.now(tz=timezone).tz_localize(None)
-
-    times = np.array(
-        pd.to_datetime(time).tz_localize(None), ndmin=1, dtype='datetime64[ns]')
-    times = pd.to_datetime(times).tz_localize(timezone)
+        # an instant, also in the hour that is repeated when clocks are turned back
+        ts = pd.Timestamp.now(tz=timezone)
+        times = pd.DatetimeIndex([ts])
+    else:
+        ts = pd.to_datetime(time).tz_localize(timezone)
+        times = np.array(
+            pd.to_datetime(time).tz_localize(None), ndmin=1, dtype='datetime64[ns]')
+        times = pd.to_datetime(times).tz_localize(timezone)
 
     sw = sunwhere.sites(times, lat, lon, algorithm=algorithm, refraction=refraction)
 
@@ -39,8 +42,6 @@ def calculate_position(time, lat, lon, algorithm, refraction, timezone):
     eot_sign = '-' if eot < 0 else ''
     eot_min, eot_sec = divmod(round(60*abs(eot), 1), 60)
 
-    ts = pd.to_datetime(time).tz_localize(timezone)
-
     s = pd.Series(
         {
             'Day of week': ts.strftime("%A").capitalize(),
-- 
2.43.0


From d8818106bdf6838b2800e26ae957dc2afdb70241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:45:11 +0000
Subject: [PATCH 35/35] fix: solar chart of now: take the time of the zone of
 the chart (the clock of the machine was read in it, which may not show such
 an hour)

---
 src/sunwhere/_cli/solar_chart.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/sunwhere/_cli/solar_chart.py b/src/sunwhere/_cli/solar_chart.py
index 43cdeb3..d87851b 100644
--- a/src/sunwhere/_cli/solar_chart.py
+++ b/src/sunwhere/_cli/solar_chart.py
@@ -1,6 +1,5 @@
 
 import itertools as itt
-from datetime import datetime
 
 import numpy as np
 import pylab as pl
@@ -91,10 +90,10 @@ class SolarChart(object):
     def draw_solar_grid(self, days=None, months=None, hours=None, minutes=None,
                         include_solstice=True, include_equinox=True):
 
-        ts = pd.Timestamp(datetime.now())
         if self._user_datetime is not None:
-            ts = pd.Timestamp(self._user_datetime)
-        ts = ts.tz_localize(self.timezone)
+            ts = pd.Timestamp(self._user_datetime).tz_localize(self.timezone)
+        else:
+            ts = pd.Timestamp.now(tz=self.timezone)
         time_ref = ts.tzname()
 
         zone_name = self.timezone
-- 
2.43.0

