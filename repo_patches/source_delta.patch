From f83aa1d45fc1aba82efafda5cf3d3b427cb72a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:20 +0000
Subject: [PATCH 01/56] fix: dollar_round long mode treats exactly one million
 as million

---
 impactutils/textformat/text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/impactutils/textformat/text.py b/impactutils/textformat/text.py
index c4ff3b1..62f6d4e 100644
--- a/impactutils/textformat/text.py
+++ b/impactutils/textformat/text.py
@@ -126,7 +126,7 @@ def dollar_round(value, digits=2, mode='short'):
         if value >= suffixdict['K'] and value < suffixdict['M']:
             dollar_value = set_num_precision(value / 1e3, digits, mode='float')
             return (f'${dollar_value} thousand')
-        if value > suffixdict['M'] and value < suffixdict['B']:
+        if value >= suffixdict['M'] and value < suffixdict['B']:
             dollar_value = set_num_precision(value / 1e6, digits, mode='float')
             return (f'${dollar_value} million')
         else:
-- 
2.43.0


From 465b7ee43c11656badfb53d62e19a6030775bcef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:20 +0000
Subject: [PATCH 02/56] fix: rounding to a decimal fraction returns a multiple
 of it (0.29 * 100 is not 29)

---
 impactutils/textformat/text.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/impactutils/textformat/text.py b/impactutils/textformat/text.py
index 62f6d4e..5e0a14d 100644
--- a/impactutils/textformat/text.py
+++ b/impactutils/textformat/text.py
@@ -177,7 +177,7 @@ def round_to_nearest(value, round_value=1000):
         ds = str(round_value)
         nd = len(ds) - (ds.find('.') + 1)
         value = value * 10**nd
-        round_value = round_value * 10**nd
+        round_value = int(round(round_value * 10**nd))
         value = int(round(float(value) / round_value) * round_value)
         value = float(value) / 10**nd
     else:
@@ -200,7 +200,7 @@ def floor_to_nearest(value, floor_value=1000):
         ds = str(floor_value)
         nd = len(ds) - (ds.find('.') + 1)
         value = value * 10**nd
-        floor_value = floor_value * 10**nd
+        floor_value = int(round(floor_value * 10**nd))
         value = int(floor(float(value) / floor_value) * floor_value)
         value = float(value) / 10**nd
     else:
@@ -222,7 +222,7 @@ def ceil_to_nearest(value, ceil_value=1000):
         ds = str(ceil_value)
         nd = len(ds) - (ds.find('.') + 1)
         value = value * 10**nd
-        ceil_value = ceil_value * 10**nd
+        ceil_value = int(round(ceil_value * 10**nd))
         value = int(ceil(float(value) / ceil_value) * ceil_value)
         value = float(value) / 10**nd
     else:
-- 
2.43.0


From 59f67a5edb5ba126a855fde92f96aaaccf0fe8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:20 +0000
Subject: [PATCH 03/56] fix: HistoricTime.strftime accepts years like 1500 that
 map onto 1900

---
 impactutils/time/ancient_time.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/impactutils/time/ancient_time.py b/impactutils/time/ancient_time.py
index 5d852c7..9b3c038 100755
--- a/impactutils/time/ancient_time.py
+++ b/impactutils/time/ancient_time.py
@@ -37,7 +37,7 @@ class HistoricTime(datetime):
         assert year < 1900
         factor = (1900 - year - 1) // 400 + 1
         future_year = year + factor * 400
-        assert future_year > 1900
+        assert future_year >= 1900
 
         format = Specifier('%Y').replace_in(format, year)
         result = self.replace(year=future_year).strftime(format)
-- 
2.43.0


From 86a8ba2ba19940d662232faf449393c8d31786c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:20 +0000
Subject: [PATCH 04/56] fix: HistoricTime.strftime pads years before 1000 to
 four digits

---
 impactutils/time/ancient_time.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/impactutils/time/ancient_time.py b/impactutils/time/ancient_time.py
index 9b3c038..1267870 100755
--- a/impactutils/time/ancient_time.py
+++ b/impactutils/time/ancient_time.py
@@ -39,7 +39,7 @@ class HistoricTime(datetime):
         future_year = year + factor * 400
         assert future_year >= 1900
 
-        format = Specifier('%Y').replace_in(format, year)
+        format = Specifier('%Y').replace_in(format, f'{year:04d}')
         result = self.replace(year=future_year).strftime(format)
         if any(f.ispresent_in(format) for f in map(Specifier, ['%c', '%x'])):
             msg = "'%c', '%x' produce unreliable results for year < 1900"
-- 
2.43.0


From 612f9ab1352c7c6046b820cc9c8ebd02de71b7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:20 +0000
Subject: [PATCH 05/56] fix: HistoricTime.strftime raises the documented
 ValueError for %c and %x

---
 impactutils/time/ancient_time.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/impactutils/time/ancient_time.py b/impactutils/time/ancient_time.py
index 1267870..5ddadb5 100755
--- a/impactutils/time/ancient_time.py
+++ b/impactutils/time/ancient_time.py
@@ -1,6 +1,5 @@
 #!/usr/bin/env python
 import re
-import warnings
 from datetime import datetime
 
 
@@ -43,10 +42,7 @@ class HistoricTime(datetime):
         result = self.replace(year=future_year).strftime(format)
         if any(f.ispresent_in(format) for f in map(Specifier, ['%c', '%x'])):
             msg = "'%c', '%x' produce unreliable results for year < 1900"
-            if not force:
-                raise ValueError(msg + " use force=True to override")
-            warnings.warn(msg)
-            result = result.replace(str(future_year), str(year))
+            raise ValueError(msg)
         assert (future_year % 100) == (year %
                                        100)  # last two digits are the same
         return result
-- 
2.43.0


From 04c18125b95a742f37a91685dccadd3d5d27c651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:20 +0000
Subject: [PATCH 06/56] fix: HistoricTime.strftime looks at every %c/%x, not
 only the first match

---
 impactutils/time/ancient_time.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/impactutils/time/ancient_time.py b/impactutils/time/ancient_time.py
index 5ddadb5..61c64fb 100755
--- a/impactutils/time/ancient_time.py
+++ b/impactutils/time/ancient_time.py
@@ -13,8 +13,8 @@ class Specifier(str):
         return self
 
     def ispresent_in(self, format):
-        m = self._regex.search(format)
-        return m and m.group(1).count('%') & 1  # odd number of '%'
+        return any(m.group(1).count('%') & 1  # odd number of '%'
+                   for m in self._regex.finditer(format))
 
     def replace_in(self, format, by):
         def repl(m):
-- 
2.43.0


From 7d38cf8889ce205db2bb1c0bc60e89f26b1a57ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:20 +0000
Subject: [PATCH 07/56] fix: TimeConversion.to_localtime/to_utctime honour
 rounding_method

---
 impactutils/time/timeutils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/impactutils/time/timeutils.py b/impactutils/time/timeutils.py
index bad0ff5..ab15d2b 100644
--- a/impactutils/time/timeutils.py
+++ b/impactutils/time/timeutils.py
@@ -545,7 +545,7 @@ class TimeConversion(object):
         Returns:
             Datetime object for the local time.
         """
-        code = self.get_timezone_code(lat, lon)
+        code = self.get_timezone_code(lat, lon, rounding_method)
         timezone = pytz.timezone(code)
         local_time = pytz.utc.localize(utctime).astimezone(timezone)
         return local_time
@@ -565,7 +565,7 @@ class TimeConversion(object):
         Returns:
             Datetime object for the UTC time.
         """
-        code = self.get_timezone_code(lat, lon)
+        code = self.get_timezone_code(lat, lon, rounding_method)
         timezone = pytz.timezone(code)
         # Set the local timezone information
         local = timezone.localize(localtime)
-- 
2.43.0


From 02e958ca6fe26bcecf7f7366e8fe919d137a2b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:28 +0000
Subject: [PATCH 08/56] fix: get_compass_dir honours the format argument

---
 impactutils/mapping/compass.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/impactutils/mapping/compass.py b/impactutils/mapping/compass.py
index 652f3d6..b23b5eb 100755
--- a/impactutils/mapping/compass.py
+++ b/impactutils/mapping/compass.py
@@ -42,7 +42,7 @@ def get_compass_dir(lat1, lon1, lat2, lon2, resolution='intercardinal', format='
     az = azimuth(lon1, lat1, lon2, lat2)
     if az < 0:
         az += 360
-    return get_compass_dir_azimuth(az, resolution=resolution)
+    return get_compass_dir_azimuth(az, resolution=resolution, format=format)
 
 
 def get_compass_dir_azimuth(azimuth, resolution='intercardinal', format='short'):
-- 
2.43.0


From 301560a414e76c8e077b240138f5ad67045b3b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:20 +0000
Subject: [PATCH 09/56] fix: ColorPalette refuses control sequences of unequal
 length (chained != only compared neighbours), complete the shaketopo preset

---
 impactutils/colors/cpalette.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/impactutils/colors/cpalette.py b/impactutils/colors/cpalette.py
index 89b6f85..9a5f631 100644
--- a/impactutils/colors/cpalette.py
+++ b/impactutils/colors/cpalette.py
@@ -55,7 +55,7 @@ POP = {'z0': [0, 4, 49, 99, 499, 999, 4999, 9999],
 
 
 TOPO = {'z0': [-100, 0, 50, 350, 1000, 1800, 2300, 2600, 4000, 9000, 9100],
-        'z1': [0, 50, 350, 1000, 1800, 2300, 2600, 4000, 9000, 9200],
+        'z1': [0, 50, 350, 1000, 1800, 2300, 2600, 4000, 9000, 9100, 9200],
         'rgb0': [(195, 255, 193),
                  (110, 135, 80),
                  (120, 160, 90),
@@ -108,7 +108,7 @@ class ColorPalette(object):
                 transparent, and 255 is opaque.)
         """
         # validate that lengths are all identical
-        if len(z0) != len(z1) != len(rgb0) != len(rgb1):
+        if not (len(z0) == len(z1) == len(rgb0) == len(rgb1)):
             raise ConsistentLengthError('Lengths of input sequences to ColorPalette() '
                                       'must be identical.')
         self._is_log = is_log
-- 
2.43.0


From d7d5359df5500553ae9c421490eef4efc205b8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:51 +0000
Subject: [PATCH 10/56] fix: is_quad measures the fourth corner against the
 plane of the other three (it was compared with a plane through itself)

---
 impactutils/rupture/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/impactutils/rupture/utils.py b/impactutils/rupture/utils.py
index b42275c..c7d0446 100755
--- a/impactutils/rupture/utils.py
+++ b/impactutils/rupture/utils.py
@@ -44,7 +44,7 @@ def is_quad(q):
     new_p2 = p3 + v0 * d
 
     # How far off of the plane is the origin p2?
-    planepoints = [p0, p1, p2]
+    planepoints = [p0, p1, p3]
     dist = get_distance_to_plane(planepoints, p2)
 
     # Is it close enough?
-- 
2.43.0


From 0b5947a1af4d2864928760b965acf8647ea28514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:09 +0000
Subject: [PATCH 11/56] fix: get_distance_to_plane is right for planes through
 the Earth's centre (it returned 0, e.g. vertical faults at longitude 0)

---
 impactutils/rupture/utils.py | 24 ++++--------------------
 1 file changed, 4 insertions(+), 20 deletions(-)

diff --git a/impactutils/rupture/utils.py b/impactutils/rupture/utils.py
index c7d0446..b4c2f0a 100755
--- a/impactutils/rupture/utils.py
+++ b/impactutils/rupture/utils.py
@@ -505,27 +505,11 @@ def get_distance_to_plane(planepoints, otherpoint):
         float: Distance (in meters) from otherpoint to plane.
 
     """
-    # from
-    # https://en.wikipedia.org/wiki/Plane_(geometry)#Describing_a_plane_through_three_points
     p0, p1, p2 = planepoints
-    x1, y1, z1 = p0.getArray()
-    x2, y2, z2 = p1.getArray()
-    x3, y3, z3 = p2.getArray()
-    D = np.linalg.det(np.array([[x1, y1, z1], [x2, y2, z2], [x3, y3, z3]]))
-    if D != 0:
-        d = -1
-        at = np.linalg.det(np.array([[1, y1, z1], [1, y2, z2], [1, y3, z3]]))
-        bt = np.linalg.det(np.array([[x1, 1, z1], [x2, 1, z2], [x3, 1, z3]]))
-        ct = np.linalg.det(np.array([[x1, y1, 1], [x2, y2, 1], [x3, y3, 1]]))
-        a = (-d / D) * at
-        b = (-d / D) * bt
-        c = (-d / D) * ct
-
-        numer = np.abs(a * otherpoint.x +
-                       b * otherpoint.y +
-                       c * otherpoint.z + d)
-        denom = np.sqrt(a**2 + b**2 + c**2)
-        dist = numer / denom
+    normal = (p1 - p0).cross(p2 - p0)
+    nmag = normal.mag()
+    if nmag != 0:
+        dist = np.abs(normal.dot(otherpoint - p0)) / nmag
     else:
         dist = 0
     return dist
-- 
2.43.0


From 06d713b6366b9a482fa3733698128a38df87bd76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:55 +0000
Subject: [PATCH 12/56] fix: EdgeRupture.getQuadrilaterals uses the vertices of
 each group

---
 impactutils/rupture/edge_rupture.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/impactutils/rupture/edge_rupture.py b/impactutils/rupture/edge_rupture.py
index b65a0ab..48b5575 100755
--- a/impactutils/rupture/edge_rupture.py
+++ b/impactutils/rupture/edge_rupture.py
@@ -502,7 +502,7 @@ class EdgeRupture(Rupture):
         for i in range(ngroup):
             ind = np.where(self._group_index == ugroup[i])[0]
             nq = len(ind) - 1
-            for j in range(nq):
+            for j in ind[:nq]:
                 P0 = Point(self._toplons[j],
                            self._toplats[j],
                            self._topdeps[j])
-- 
2.43.0


From 8b01bbd35135aabcda3b6411fae0ec17051e6400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:58 +0000
Subject: [PATCH 13/56] fix: _computeGC2 handles edge ruptures of several
 groups (vertex groups were used as quadrilateral groups)

---
 impactutils/rupture/gc2.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/impactutils/rupture/gc2.py b/impactutils/rupture/gc2.py
index 6a7687a..e37db5f 100644
--- a/impactutils/rupture/gc2.py
+++ b/impactutils/rupture/gc2.py
@@ -61,6 +61,11 @@ def _computeGC2(rupture, lon, lat, depth):
     # starting the loop if there is more than one group/trace.
     # -------------------------------------------------------------------------
     group_ind = rupture._getGroupIndex()
+    if len(group_ind) != len(quadlist):
+        # The index of an EdgeRupture is by vertex: there is a quad between
+        # consecutive vertices of the same group.
+        group_ind = [g for g, h in zip(group_ind[:-1], group_ind[1:])
+                     if g == h]
 
     # Need group_ind as numpy array for sensible indexing...
     group_ind_np = np.array(group_ind)
-- 
2.43.0


From d518a519cb0691ce99c24e66339cbb47991a515b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:31 +0000
Subject: [PATCH 14/56] fix: GC2 looks for the most distant trace end points
 among both ends of every group

---
 impactutils/rupture/gc2.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/impactutils/rupture/gc2.py b/impactutils/rupture/gc2.py
index e37db5f..53afbb4 100644
--- a/impactutils/rupture/gc2.py
+++ b/impactutils/rupture/gc2.py
@@ -110,9 +110,9 @@ def _computeGC2(rupture, lon, lat, depth):
             else:
                 P0 = quadlist[iq1[s0ind]][1]
             if p1ind == 0:
-                P1 = quadlist[iq1[s1ind]][0]
+                P1 = quadlist[iq0[s1ind]][0]
             else:
-                P1 = quadlist[iq0[s1ind]][1]
+                P1 = quadlist[iq1[s1ind]][1]
 
             dist = geodetic.distance(P0.longitude, P0.latitude, 0.0,
                                      P1.longitude, P1.latitude, 0.0)
-- 
2.43.0


From 7e560164dd86bc19e47ade108e7c7ece1451948b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:12 +0000
Subject: [PATCH 15/56] fix: GC2 coordinates of sites exactly on the trace are
 those of the segment (U was 0 there)

---
 impactutils/rupture/gc2.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/impactutils/rupture/gc2.py b/impactutils/rupture/gc2.py
index 53afbb4..91e2b0d 100644
--- a/impactutils/rupture/gc2.py
+++ b/impactutils/rupture/gc2.py
@@ -55,6 +55,8 @@ def _computeGC2(rupture, lon, lat, depth):
     totweight = np.zeros(newshape, dtype=lon.dtype)
     GC2T = np.zeros(newshape, dtype=lon.dtype)
     GC2U = np.zeros(newshape, dtype=lon.dtype)
+    on_trace = np.zeros(newshape, dtype=bool)
+    U_trace = np.zeros(newshape, dtype=lon.dtype)
 
     # -------------------------------------------------------------------------
     # First sort out strike discordance and nominal strike prior to
@@ -210,8 +212,8 @@ def _computeGC2(rupture, lon, lat, depth):
         w_i = np.zeros_like(t_i)
 
         # To avoid division by zero in totweight later on:
-        ix = (t_i == 0) & (0 <= u_i) & (u_i <= l_i[i])
-        totweight[ix] = 1.0
+        ix3 = (t_i == 0) & (0 <= u_i) & (u_i <= l_i[i])
+        totweight[ix3] = 1.0
 
         # Case 1:
         ix = t_i != 0
@@ -226,7 +228,7 @@ def _computeGC2(rupture, lon, lat, depth):
         GC2T = GC2T + w_i * t_i
 
         if n_groups == 1:
-            GC2U = GC2U + w_i * (u_i + s_i)
+            s_ij = s_i
         else:
             if i == 0:
                 qind = np.array(range(len(quadgc2)))
@@ -244,12 +246,17 @@ def _computeGC2(rupture, lon, lat, depth):
             # s_ij_2 = (p1 - p_origin).dot(bhat) / 1000.0
 
             s_ij = s_ij_1 + s_ij_2
-            GC2U = GC2U + w_i * (u_i + s_ij)
+
+        GC2U = GC2U + w_i * (u_i + s_ij)
+
+        # A site on the segment has its coordinates (infinite weight)
+        on_trace = on_trace | ix3
+        U_trace = np.where(ix3, u_i + s_ij, U_trace)
 
         s_i = s_i + l_i[i]
 
-    GC2T = GC2T / totweight
-    GC2U = GC2U / totweight
+    GC2T = np.where(on_trace, 0.0, GC2T / totweight)
+    GC2U = np.where(on_trace, U_trace, GC2U / totweight)
 
     # Dictionary for holding the distances
     distdict = dict()
-- 
2.43.0


From 96fe4d69c5d178909d4c9ee552deddf04724d6fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:41 +0000
Subject: [PATCH 16/56] fix: GC2 segment weights are stable for sites next to
 the strike line (T and U were nan for some sites at the end of a trace)

---
 impactutils/rupture/gc2.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/impactutils/rupture/gc2.py b/impactutils/rupture/gc2.py
index 91e2b0d..335f75b 100644
--- a/impactutils/rupture/gc2.py
+++ b/impactutils/rupture/gc2.py
@@ -217,8 +217,11 @@ def _computeGC2(rupture, lon, lat, depth):
 
         # Case 1:
         ix = t_i != 0
-        w_i[ix] = (1.0 / t_i[ix]) * (np.arctan(
-            (l_i[i] - u_i[ix]) / t_i[ix]) - np.arctan(-u_i[ix] / t_i[ix]))
+        # arctan((l - u) / t) - arctan(-u / t), without the cancellation for
+        # sites close to the strike line
+        w_i[ix] = np.arctan2(
+            l_i[i] * np.abs(t_i[ix]),
+            t_i[ix]**2 - u_i[ix] * (l_i[i] - u_i[ix])) / np.abs(t_i[ix])
 
         # Case 2:
         ix = (t_i == 0) & ((u_i < 0) | (u_i > l_i[i]))
-- 
2.43.0


From 0ff2e67c10e7abee59fd2e37379d6d5096500844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:07 +0000
Subject: [PATCH 17/56] fix: ruptures keep the reference of their description
 when the origin has one of its own

---
 impactutils/rupture/edge_rupture.py  | 4 ++--
 impactutils/rupture/point_rupture.py | 2 +-
 impactutils/rupture/quad_rupture.py  | 6 +++---
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/impactutils/rupture/edge_rupture.py b/impactutils/rupture/edge_rupture.py
index 48b5575..08ae9e3 100755
--- a/impactutils/rupture/edge_rupture.py
+++ b/impactutils/rupture/edge_rupture.py
@@ -85,7 +85,7 @@ class EdgeRupture(Rupture):
         for k, v in odict.items():
             if isinstance(v, HistoricTime):
                 d['metadata'][k] = v.strftime(constants.TIMEFMT)
-            else:
+            elif k != 'reference':
                 d['metadata'][k] = v
         d['metadata']['mesh_dx'] = mesh_dx
 
@@ -174,7 +174,7 @@ class EdgeRupture(Rupture):
         for k, v in odict.items():
             if isinstance(v, HistoricTime):
                 d['metadata'][k] = v.strftime(constants.TIMEFMT)
-            else:
+            elif k != 'reference':
                 d['metadata'][k] = v
         d['metadata']['mesh_dx'] = mesh_dx
 
diff --git a/impactutils/rupture/point_rupture.py b/impactutils/rupture/point_rupture.py
index 8f0872a..e05bac2 100755
--- a/impactutils/rupture/point_rupture.py
+++ b/impactutils/rupture/point_rupture.py
@@ -60,7 +60,7 @@ class PointRupture(Rupture):
         for k, v in odict.items():
             if isinstance(v, HistoricTime):
                 d['metadata'][k] = v.strftime(TIMEFMT)
-            else:
+            elif k != 'reference':
                 d['metadata'][k] = v
 
         self._geojson = d
diff --git a/impactutils/rupture/quad_rupture.py b/impactutils/rupture/quad_rupture.py
index 7a5c52f..63cadf2 100755
--- a/impactutils/rupture/quad_rupture.py
+++ b/impactutils/rupture/quad_rupture.py
@@ -67,7 +67,7 @@ class QuadRupture(Rupture):
         for k, v in odict.items():
             if isinstance(v, datetime):
                 d['metadata'][k] = v.strftime(constants.TIMEFMT)
-            else:
+            elif k != 'reference':
                 d['metadata'][k] = v
 
         self._geojson = d
@@ -386,7 +386,7 @@ class QuadRupture(Rupture):
         for k, v in odict.items():
             if isinstance(v, HistoricTime):
                 d['metadata'][k] = v.strftime(constants.TIMEFMT)
-            else:
+            elif k != 'reference':
                 d['metadata'][k] = v
 
         return cls(d, origin)
@@ -664,7 +664,7 @@ class QuadRupture(Rupture):
         for k, v in odict.items():
             if isinstance(v, HistoricTime):
                 d['metadata'][k] = v.strftime(constants.TIMEFMT)
-            else:
+            elif k != 'reference':
                 d['metadata'][k] = v
         if hasattr(origin, 'id'):
             d['metadata']['eventid'] = origin.id
-- 
2.43.0


From a419025553211d33ab0cf1c93b6747d588ff3acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:28 +0000
Subject: [PATCH 18/56] fix: read_event_file reads old event files with
 separate date and time attributes (it called a method that does not exist)

---
 impactutils/rupture/origin.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/impactutils/rupture/origin.py b/impactutils/rupture/origin.py
index ba3505c..8dcf563 100755
--- a/impactutils/rupture/origin.py
+++ b/impactutils/rupture/origin.py
@@ -381,13 +381,13 @@ def read_event_file(eventxml):
            'day' not in xmldict or 'hour' not in xmldict or \
            'minute' not in xmldict or 'second' not in xmldict:
             raise ValueError("Missing date/time elements in event file.")
-        eqdict['time'] = HistoricTime.datetime(
-            xmldict['year'],
-            xmldict['month'],
-            xmldict['day'],
-            xmldict['hour'],
-            xmldict['minute'],
-            xmldict['second'])
+        eqdict['time'] = HistoricTime(
+            int(xmldict['year']),
+            int(xmldict['month']),
+            int(xmldict['day']),
+            int(xmldict['hour']),
+            int(xmldict['minute']),
+            int(xmldict['second']))
 
     eqdict['lat'] = float(xmldict['lat'])
     eqdict['lon'] = float(xmldict['lon'])
-- 
2.43.0


From 9ceac5c863099e4c509a7c6b5ea7d9e0ca5c5e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:28 +0000
Subject: [PATCH 19/56] fix: read_source keeps values that contain '=' and
 skips blank lines

---
 impactutils/rupture/origin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/impactutils/rupture/origin.py b/impactutils/rupture/origin.py
index 8dcf563..42378bf 100755
--- a/impactutils/rupture/origin.py
+++ b/impactutils/rupture/origin.py
@@ -423,9 +423,9 @@ def read_source(sourcefile):
         f = sourcefile
     params = {}
     for line in f.readlines():
-        if line.startswith('#'):
+        if line.startswith('#') or not line.strip():
             continue
-        parts = line.split('=')
+        parts = line.split('=', 1)
         key = parts[0].strip()
         value = parts[1].strip()
         # see if this is some sort of number
-- 
2.43.0


From d6326316b9b01f34ee95833e8371f0aa8d200642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:53 +0000
Subject: [PATCH 20/56] fix: Cities.sortByColumns works (the data frame's
 columns were called as a function) and takes a single name

---
 impactutils/mapping/city.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/impactutils/mapping/city.py b/impactutils/mapping/city.py
index 1c70718..41c43fe 100755
--- a/impactutils/mapping/city.py
+++ b/impactutils/mapping/city.py
@@ -198,7 +198,8 @@ class Cities(object):
         Raises:
             KeyError: When column(s) are not in the list of dataframe columns.
         """
-        bad_columns = set(columns).difference(set(self._dataframe.columns()))
+        names = [columns] if isinstance(columns, str) else columns
+        bad_columns = set(names).difference(set(self._dataframe.columns))
         if bad_columns:
             raise KeyError(
                 f'Column(s) not in list of DataFrame columns: {str(bad_columns)}')
-- 
2.43.0


From 018d37d4a1a817538f2e67203e8f35860c3986e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:53 +0000
Subject: [PATCH 21/56] fix: Cities.limitByGrid joins its cells with
 pandas.concat (DataFrame.append was removed from pandas)

---
 impactutils/mapping/city.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/impactutils/mapping/city.py b/impactutils/mapping/city.py
index 41c43fe..36d031d 100755
--- a/impactutils/mapping/city.py
+++ b/impactutils/mapping/city.py
@@ -327,7 +327,7 @@ class Cities(object):
                 if newdf is None:
                     newdf = tdf.copy()
                 else:
-                    newdf = newdf.append(tdf)
+                    newdf = pd.concat([newdf, tdf])
         return type(self)(newdf)
 
     def limitByName(self, cityname):
-- 
2.43.0


From 30fc0aff9f6d225e2a5135b5d9bfb7ea83dc03f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:53 +0000
Subject: [PATCH 22/56] fix: Cities.limitByGrid keeps the cities on the western
 and southern edge (a city could be in no cell at all)

---
 impactutils/mapping/city.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/impactutils/mapping/city.py b/impactutils/mapping/city.py
index 36d031d..714075a 100755
--- a/impactutils/mapping/city.py
+++ b/impactutils/mapping/city.py
@@ -309,11 +309,12 @@ class Cities(object):
         # start from the bottom left of our grid, and trim our cities.
 
         for i in range(0, ny):
-            cellymin = ymin + (i * dy)
-            cellymax = cellymin + dy
+            # the outer cells take in the cities on the edge of the grid
+            cellymin = ymin + (i * dy) if i > 0 else -np.inf
+            cellymax = ymin + ((i + 1) * dy) if i < ny - 1 else np.inf
             for j in range(0, nx):
-                cellxmin = xmin + (j * dx)
-                cellxmax = cellxmin + dx
+                cellxmin = xmin + (j * dx) if j > 0 else -np.inf
+                cellxmax = xmin + ((j + 1) * dx) if j < nx - 1 else np.inf
                 tcities = self.limitByBounds(
                     (cellxmin, cellxmax, cellymin, cellymax))
                 # older versions of pandas use a different sort function
-- 
2.43.0


From 11611c4d858f4c391c9f6afc99e19591cd8b79ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:58 +0000
Subject: [PATCH 23/56] fix: HDFContainer.getDataFrame reads its attribute with
 h5py 3, where it is text

---
 impactutils/io/container.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/impactutils/io/container.py b/impactutils/io/container.py
index fa3cbcd..3168c3e 100644
--- a/impactutils/io/container.py
+++ b/impactutils/io/container.py
@@ -460,7 +460,10 @@ class HDFContainer(object):
         # date/time columns in an attribute.  Let's use that
         # now to make sure those are read back in with the appropriate
         # type
-        clist = json.loads(mdataset.attrs['time_columns'].decode('utf-8'))
+        cstr = mdataset.attrs['time_columns']
+        if isinstance(cstr, bytes):
+            cstr = cstr.decode('utf-8')
+        clist = json.loads(cstr)
         dataframe = pd.read_json(outstring, convert_dates=clist)
 
         return dataframe
-- 
2.43.0


From 5d1526f8c6ca33885d37a761cfe452dff9300541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:58 +0000
Subject: [PATCH 24/56] fix: HDFContainer data frames keep text that looks like
 numbers, small values and times

---
 impactutils/io/container.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/impactutils/io/container.py b/impactutils/io/container.py
index 3168c3e..2a8b37c 100644
--- a/impactutils/io/container.py
+++ b/impactutils/io/container.py
@@ -430,7 +430,8 @@ class HDFContainer(object):
         else:
             dataframe_group = self._hdfobj[GROUPS['dataframe']]
 
-        inbytes = dataframe.to_json(date_format='iso').encode('utf-8')
+        inbytes = dataframe.to_json(date_format='iso', date_unit='ns',
+                                    double_precision=15).encode('utf-8')
         mdataset = dataframe_group.create_dataset(dataframe_name, data=inbytes)
         # use attributes to store time columns?
         cidx = dataframe.select_dtypes(include=['datetime64[ns]']).columns
@@ -464,7 +465,8 @@ class HDFContainer(object):
         if isinstance(cstr, bytes):
             cstr = cstr.decode('utf-8')
         clist = json.loads(cstr)
-        dataframe = pd.read_json(outstring, convert_dates=clist)
+        dataframe = pd.read_json(outstring, dtype=False, convert_dates=clist,
+                                 keep_default_dates=False)
 
         return dataframe
 
-- 
2.43.0


From 57e50281cc9d9e0d60537e2b6a0ad6ace21454fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:58 +0000
Subject: [PATCH 25/56] fix: ShakeMap containers list only what they hold, not
 groups left empty

---
 impactutils/io/smcontainers.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/impactutils/io/smcontainers.py b/impactutils/io/smcontainers.py
index cff91ec..5a5591a 100644
--- a/impactutils/io/smcontainers.py
+++ b/impactutils/io/smcontainers.py
@@ -89,9 +89,8 @@ class HDFContainerBase(object):
         except Exception:
             return plist
         for kk in k:
-            paths = self._getGroupPaths(dd[kk])
-            if len(paths) > 0:
-                for path in paths:
+            if hasattr(dd[kk], 'keys'):
+                for path in self._getGroupPaths(dd[kk]):
                     nn = kk + '/' + path
                     plist.append(nn)
             else:
-- 
2.43.0


From 2d49ff57d00dbe0b2fab6fd298828e017d21576f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:58 +0000
Subject: [PATCH 26/56] fix: setRuptureDict keeps the rupture it holds when it
 refuses the new one

---
 impactutils/io/smcontainers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/impactutils/io/smcontainers.py b/impactutils/io/smcontainers.py
index 5a5591a..cb9a87e 100644
--- a/impactutils/io/smcontainers.py
+++ b/impactutils/io/smcontainers.py
@@ -371,11 +371,11 @@ class ShakeMapContainerBase(HDFContainerBase):
             TypeError: If input object or dictionary does not
                 represent a Rupture object.
         """
-        if 'rupture' in self.getDictionaries():
-            self.dropDictionary([], 'rupture')
         if not isinstance(rupture, dict):
             fmt = 'Input dict does not represent a rupture object.'
             raise TypeError(fmt)
+        if 'rupture' in self.getDictionaries():
+            self.dropDictionary([], 'rupture')
         self.setDictionary([], 'rupture', rupture)
 
     def getRuptureDict(self):
-- 
2.43.0


From 9249964f69e83545f10724ec52953ca582181a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:58 +0000
Subject: [PATCH 27/56] fix: setIMTArrays sets the data type only for arrays it
 accepts

---
 impactutils/io/smcontainers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/impactutils/io/smcontainers.py b/impactutils/io/smcontainers.py
index cb9a87e..65ccbdd 100644
--- a/impactutils/io/smcontainers.py
+++ b/impactutils/io/smcontainers.py
@@ -634,7 +634,6 @@ class ShakeMapOutputContainer(ShakeMapContainerBase):
 
         if self.getDataType() == 'grid':
             raise TypeError('Setting point data in a file containing grids')
-        self.setDataType('points')
 
         #
         # Check that all of the arrays are the same
@@ -645,6 +644,7 @@ class ShakeMapOutputContainer(ShakeMapContainerBase):
            lons.shape != imt_mean.shape or \
            lons.shape != imt_std.shape:
             raise ValueError('All input arrays must be the same shape')
+        self.setDataType('points')
 
         # set up the name of the group holding all the information for the IMT
         sub_groups = ['imts', component, imt_name]
-- 
2.43.0


From c7aa8c6c0498ec675266cce140ad2ad142383a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:44 +0000
Subject: [PATCH 28/56] fix: senders report missing files and directories
 instead of an undefined name

---
 impactutils/transfer/sender.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/impactutils/transfer/sender.py b/impactutils/transfer/sender.py
index f402a13..5850659 100644
--- a/impactutils/transfer/sender.py
+++ b/impactutils/transfer/sender.py
@@ -65,7 +65,7 @@ class Sender(object):
         if local_directory is not None:
             if not os.path.isdir(local_directory):
                 raise FileNotFoundError(
-                    f'Input directory {directory} could not be found')
+                    f'Input directory {local_directory} could not be found')
         if local_files is not None:
             self._local_files = local_files
         else:
@@ -82,7 +82,7 @@ class Sender(object):
         self._properties[key] = value
 
     def addFiles(self, local_files):
-        for f in files:
+        for f in local_files:
             if not os.path.isfile(f):
                 raise FileNotFoundError(f'Input file {f} could not be found')
         self._local_files += local_files
@@ -90,7 +90,7 @@ class Sender(object):
     def changeDirectory(self, local_directory, directory_alias=None):
         if not os.path.isdir(local_directory):
             raise FileNotFoundError(
-                f'Input directory {directory} could not be found')
+                f'Input directory {local_directory} could not be found')
         self._local_directory = local_directory
         self._directory_alias = directory_alias
 
-- 
2.43.0


From 6638a522395b1c5d0f813a7e7690f1c57d8b2a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:44 +0000
Subject: [PATCH 29/56] fix: CopySender counts the files of a directory once

---
 impactutils/transfer/copysender.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/impactutils/transfer/copysender.py b/impactutils/transfer/copysender.py
index 891bd02..a73feec 100755
--- a/impactutils/transfer/copysender.py
+++ b/impactutils/transfer/copysender.py
@@ -76,9 +76,6 @@ class CopySender(Sender):
                     filename, remote_folder, local_folder=local_folder)
                 nfiles += 1
 
-            nfiles += sum([len(files)
-                           for r, d, files in os.walk(local_folder)])
-
         # copy files to remote location
         for filename in self._local_files:
             self._copy_file_with_path(filename, remote_folder)
-- 
2.43.0


From 1bd895b098f89e5d213d5f12b8011cb9b20c533d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:44 +0000
Subject: [PATCH 30/56] fix: CopySender keeps relative paths when the directory
 name recurs in them and when the remote directory is relative

---
 impactutils/transfer/copysender.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/impactutils/transfer/copysender.py b/impactutils/transfer/copysender.py
index a73feec..2d09ee4 100755
--- a/impactutils/transfer/copysender.py
+++ b/impactutils/transfer/copysender.py
@@ -133,11 +133,8 @@ class CopySender(Sender):
                 name (not preserving path) into remote_folder.
         """
         if local_folder is not None:
-            local_parts = local_file.replace(local_folder, '').strip(
-                os.path.sep).split(os.path.sep)
-            remote_parts = remote_folder.strip(os.path.sep).split(os.path.sep)
-            all_parts = [os.path.sep] + remote_parts + local_parts
-            remote_file = os.path.join(*all_parts)
+            remote_file = os.path.join(
+                remote_folder, os.path.relpath(local_file, local_folder))
             root, rfile = os.path.split(remote_file)
             if not os.path.isdir(root):
                 os.makedirs(root)
-- 
2.43.0


From 522c767f42fa2567a7c380aa8c0593cc7355df59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:44 +0000
Subject: [PATCH 31/56] fix: SecureSender keeps relative paths when the
 directory name recurs in them and when the remote directory is relative

---
 impactutils/transfer/securesender.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/impactutils/transfer/securesender.py b/impactutils/transfer/securesender.py
index b6138fe..3d4a1fc 100755
--- a/impactutils/transfer/securesender.py
+++ b/impactutils/transfer/securesender.py
@@ -198,11 +198,8 @@ class SecureSender(Sender):
         """
         remote_host = self._properties['remote_host']
         if local_folder is not None:
-            local_parts = local_file.replace(local_folder, '').strip(
-                os.path.sep).split(os.path.sep)
-            remote_parts = remote_folder.strip(os.path.sep).split(os.path.sep)
-            all_parts = [os.path.sep] + remote_parts + local_parts
-            remote_file = os.path.join(*all_parts)
+            remote_file = os.path.join(
+                remote_folder, os.path.relpath(local_file, local_folder))
             root, rfile = os.path.split(remote_file)
             exists, isdir = self._check_remote_folder(ssh, root)
             if not isdir:
-- 
2.43.0


From a28afc44f01360cdbcb01c0630652755832e234a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:44 +0000
Subject: [PATCH 32/56] fix: FTPSender reports a failure instead of an
 undefined name

---
 impactutils/transfer/ftpsender.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/impactutils/transfer/ftpsender.py b/impactutils/transfer/ftpsender.py
index f736392..d0ebe71 100755
--- a/impactutils/transfer/ftpsender.py
+++ b/impactutils/transfer/ftpsender.py
@@ -95,7 +95,7 @@ class FTPSender(Sender):
             return (nfiles, f'{int(nfiles):d} files were sent successfully to {remote_host} {remote_folder}')
         except Exception as obj:
             raise Exception(
-                f'Could not send to {host}.  Error "{str(obj)}"')
+                f'Could not send to {remote_host}.  Error "{str(obj)}"')
 
     def cancel(self):
         """
@@ -226,7 +226,7 @@ class FTPSender(Sender):
         """
         if local_folder is None:
             ftp.cwd(remote_folder)
-            self.__sendfile(filename, ftp)
+            self.__sendfile(local_file, ftp)
         else:
             local_parts = local_file.replace(local_folder, '').strip(
                 os.path.sep).split(os.path.sep)
-- 
2.43.0


From 87f3d9f88a8b0c0eddb43641c2375634b9d5239f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:44 +0000
Subject: [PATCH 33/56] fix: FTPSender reports files of the directory it could
 not send

---
 impactutils/transfer/ftpsender.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/impactutils/transfer/ftpsender.py b/impactutils/transfer/ftpsender.py
index d0ebe71..bd785c6 100755
--- a/impactutils/transfer/ftpsender.py
+++ b/impactutils/transfer/ftpsender.py
@@ -83,13 +83,10 @@ class FTPSender(Sender):
                 local_directory = self._local_directory
                 allfiles = self.getAllLocalFiles()
                 for filename in allfiles:
-                    try:
-                        self._copy_file_with_path(
-                            ftp, filename, remote_folder,
-                            local_folder=local_directory)
-                        nfiles += 1
-                    except:
-                        x = 1
+                    self._copy_file_with_path(
+                        ftp, filename, remote_folder,
+                        local_folder=local_directory)
+                    nfiles += 1
 
             ftp.quit()
             return (nfiles, f'{int(nfiles):d} files were sent successfully to {remote_host} {remote_folder}')
@@ -241,7 +238,7 @@ class FTPSender(Sender):
                 self._create_remote_directory(ftp, remfolder)
 
             self.__sendfile(local_file, ftp)
-            ftp.cwd(remote_folder)
+            ftp.cwd(self._join(*remote_parts))
 
     def __sendfile(self, filename, ftp):
         '''Internal function used to send a file using an FTP object.
-- 
2.43.0


From 657df3afe1ffe1ef92df94b86e82d2dac20df7c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:44 +0000
Subject: [PATCH 34/56] fix: FTPSender keeps relative paths when the directory
 name recurs in them

---
 impactutils/transfer/ftpsender.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/impactutils/transfer/ftpsender.py b/impactutils/transfer/ftpsender.py
index bd785c6..5932a6b 100755
--- a/impactutils/transfer/ftpsender.py
+++ b/impactutils/transfer/ftpsender.py
@@ -225,8 +225,8 @@ class FTPSender(Sender):
             ftp.cwd(remote_folder)
             self.__sendfile(local_file, ftp)
         else:
-            local_parts = local_file.replace(local_folder, '').strip(
-                os.path.sep).split(os.path.sep)
+            local_parts = os.path.relpath(
+                local_file, local_folder).split(os.path.sep)
             remote_parts = self._split(remote_folder)
             all_parts = remote_parts + local_parts
             remote_file = '/' + '/'.join(all_parts)
-- 
2.43.0


From 7d5ace2f225765f4c93e64e65efe49ab05d0de21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:44 +0000
Subject: [PATCH 35/56] fix: EmailSender with batches of one address does not
 loop for ever

---
 impactutils/transfer/emailsender.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/impactutils/transfer/emailsender.py b/impactutils/transfer/emailsender.py
index 35903be..fe15e4d 100644
--- a/impactutils/transfer/emailsender.py
+++ b/impactutils/transfer/emailsender.py
@@ -287,7 +287,7 @@ def _split_addresses(recipients, max_bcc, primary_recipient):
     iend = max_bcc
     while istart < len(recipients):
         address = primary_recipient
-        iend = min(len(recipients), istart + (max_bcc - 1))
+        iend = min(len(recipients), istart + max(max_bcc - 1, 1))
         bcclist = recipients[istart:iend]
         tuples.append((address, bcclist))
         istart = iend
-- 
2.43.0


From 18d56eac5e7e7ceaff1be369c70ad57e8d814485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:44 +0000
Subject: [PATCH 36/56] fix: EmailSender attaches a directory when no files are
 listed

---
 impactutils/transfer/emailsender.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/impactutils/transfer/emailsender.py b/impactutils/transfer/emailsender.py
index fe15e4d..87738e2 100644
--- a/impactutils/transfer/emailsender.py
+++ b/impactutils/transfer/emailsender.py
@@ -177,7 +177,7 @@ class EmailSender(Sender):
                         for filename in self._local_files:
                             attachments.append(filename)
 
-                            all_files = self.getAllLocalFiles()
+                        all_files = self.getAllLocalFiles()
                         for filename in all_files:
                             attachments.append(filename)
 
-- 
2.43.0


From 803b9b02818bb1e40262605095725b97afce2726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:44 +0000
Subject: [PATCH 37/56] fix: EmailSender keeps relative paths in the zip file
 when the directory name recurs in them

---
 impactutils/transfer/emailsender.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/impactutils/transfer/emailsender.py b/impactutils/transfer/emailsender.py
index 87738e2..ecd4cfe 100644
--- a/impactutils/transfer/emailsender.py
+++ b/impactutils/transfer/emailsender.py
@@ -168,8 +168,8 @@ class EmailSender(Sender):
                         if self._local_directory:
                             allfiles = self.getAllLocalFiles()
                             for filename in allfiles:
-                                arcname = filename.replace(
-                                    self._local_directory, '')
+                                arcname = os.path.relpath(
+                                    filename, self._local_directory)
                                 myzip.write(filename, arcname)
                         myzip.close()
                         attachments.append(zfilename)
-- 
2.43.0


From 2670878f93e65a4b0da50b5a143092252c9198d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:44 +0000
Subject: [PATCH 38/56] fix: EmailSender does not send a message again when
 only closing the session failed

---
 impactutils/transfer/emailsender.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/impactutils/transfer/emailsender.py b/impactutils/transfer/emailsender.py
index ecd4cfe..f86ed3e 100644
--- a/impactutils/transfer/emailsender.py
+++ b/impactutils/transfer/emailsender.py
@@ -335,6 +335,9 @@ def _send_email(sender, address, msgtxt, smtp_servers):
                 {server: 'Server responded with an unexpected error code'})
             continue
         except:
+            if messageSent:
+                # only the farewell failed
+                break
             errormsg.append(
                 {server: 'Connection to server failed (possible timeout)'})
 
-- 
2.43.0


From b187533044d920b52493b59b063285e86f0b4b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:59 +0000
Subject: [PATCH 39/56] fix: keep blind-copied addresses out of the e-mail text

The Bcc header was part of the message handed to the SMTP server, so every
recipient could read the addresses of all the others in the batch.
---
 impactutils/transfer/emailsender.py | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/impactutils/transfer/emailsender.py b/impactutils/transfer/emailsender.py
index f86ed3e..11842cd 100644
--- a/impactutils/transfer/emailsender.py
+++ b/impactutils/transfer/emailsender.py
@@ -187,9 +187,6 @@ class EmailSender(Sender):
                     msg['To'] = address
                     msg['Subject'] = subject
                     msg['Date'] = email.utils.formatdate()
-                    if bcc is not None:
-                        bccstr = ', '.join(bcc)
-                        msg['Bcc'] = bccstr
                     msgtxt = msg.as_string()
                 else:
                     msgtxt = _get_encoded_message(
@@ -258,8 +255,6 @@ class EmailSender(Sender):
             msg['To'] = address
             msg['Subject'] = subject
             msg['Date'] = email.utils.formatdate()
-            bccstr = ', '.join(bcc)
-            msg['Bcc'] = bccstr
             msgtxt = msg.as_string()
             all_addresses = [address] + bcc
             _send_email(sender, all_addresses, msgtxt, smtp_servers)
@@ -372,8 +367,6 @@ def _get_encoded_message(address, subject, text, sender, attachments,
     outer['To'] = address
     outer['From'] = sender
     outer['Date'] = email.utils.formatdate()
-    if bcc is not None:
-        outer['Bcc'] = ', '.join(bcc)
 
     # insert the text into the email as a MIMEText part...
     firstSubMsg = Message()
-- 
2.43.0


From ed89ca503831dc5da4e9505de643782d878aa6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:59 +0000
Subject: [PATCH 40/56] fix: import time so that a download answered with 503
 is tried again

---
 impactutils/comcat/query.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/impactutils/comcat/query.py b/impactutils/comcat/query.py
index 98f7c3a..5e99fd9 100644
--- a/impactutils/comcat/query.py
+++ b/impactutils/comcat/query.py
@@ -1,6 +1,7 @@
 # stdlib imports
 from datetime import datetime
 import json
+import time
 from urllib import request
 from urllib.error import HTTPError
 import warnings
-- 
2.43.0


From 55a70f2213bc67cc2e5865bbd97882a4839cc897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:59 +0000
Subject: [PATCH 41/56] fix: report HTTP errors other than 503 instead of
 returning no data

---
 impactutils/comcat/query.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/impactutils/comcat/query.py b/impactutils/comcat/query.py
index 5e99fd9..e0ba060 100644
--- a/impactutils/comcat/query.py
+++ b/impactutils/comcat/query.py
@@ -33,6 +33,7 @@ def _get_url_data(url, timeout=TIMEOUT):
             except Exception as msg:
                 raise Exception(
                     f'Error downloading data from url {url}.  "{msg}".')
+        raise
 
 
 class GeoServe(object):
-- 
2.43.0


From d4f4779de3d2d8f6f229245f0509cbf463312753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:59 +0000
Subject: [PATCH 42/56] fix: leave the metadata out of GeoServe.getRegions, as
 documented

---
 impactutils/comcat/query.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/impactutils/comcat/query.py b/impactutils/comcat/query.py
index e0ba060..aef2332 100644
--- a/impactutils/comcat/query.py
+++ b/impactutils/comcat/query.py
@@ -95,7 +95,7 @@ class GeoServe(object):
             dict: geojson-like dictionaries, described here: https://earthquake.usgs.gov/ws/geoserve/regions.php
                   The 'metadata' dictionary is omitted.
         """
-        self._regdict.get('metadata', None)
+        self._regdict.pop('metadata', None)
         return self._regdict
 
     def getAuthoritative(self):
-- 
2.43.0


From ff89cfa5dcffc4bd9c3301185d701b5e9f8a064d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:41 +0000
Subject: [PATCH 43/56] fix: QuadRupture.getDepthAtPoint mixed metres and
 kilometres

The width was converted to metres while the projected coordinates are in
kilometres, and the depth of the bottom edge multiplied back by 1000. The
depth of the top edge was thereby weighted by about one instead of by the
share of the way up, so depths were too large whenever the top edge is below
the surface.
---
 impactutils/rupture/quad_rupture.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/impactutils/rupture/quad_rupture.py b/impactutils/rupture/quad_rupture.py
index 63cadf2..5d932de 100755
--- a/impactutils/rupture/quad_rupture.py
+++ b/impactutils/rupture/quad_rupture.py
@@ -137,8 +137,8 @@ class QuadRupture(Rupture):
         # dot product
         sxdd = ddn.dot(s0sx)
 
-        # get width of quad (convert from km to m)
-        w = get_quad_width(quad) * 1000
+        # get width of quad (km, like the projected coordinates)
+        w = get_quad_width(quad)
 
         # Get weights for top and bottom edge depths
         N = get_quad_normal(quad)
@@ -149,7 +149,7 @@ class QuadRupture(Rupture):
         wtb = sxdd / ws
 
         # Compute the depth of of the plane at Px:
-        depth = wtt * P0.z + wtb * P3.z * 1000
+        depth = wtt * P0.z + wtb * P3.z
 
         return depth
 
-- 
2.43.0


From 44ce2960e974185c30300c1c22e200deea47922a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:25 +0000
Subject: [PATCH 44/56] fix: ry0 of a rupture with several groups depended on
 the order of the groups

The far end of the rupture was taken to be the end of the last segment listed.
With groups listed in another order than along strike, sites alongside the
rupture got a distance beyond its end.
---
 impactutils/rupture/gc2.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/impactutils/rupture/gc2.py b/impactutils/rupture/gc2.py
index 335f75b..fe85917 100644
--- a/impactutils/rupture/gc2.py
+++ b/impactutils/rupture/gc2.py
@@ -192,6 +192,7 @@ def _computeGC2(rupture, lon, lat, depth):
         # End of if-statement for adjusting group discordancy
 
     s_i = 0.0
+    s_end = 0.0
     l_i = np.zeros(len(quadgc2))
 
     for i in range(len(quadgc2)):
@@ -256,6 +257,9 @@ def _computeGC2(rupture, lon, lat, depth):
         on_trace = on_trace | ix3
         U_trace = np.where(ix3, u_i + s_ij, U_trace)
 
+        # Far end of the rupture along strike: groups may be in any order
+        s_end = max(s_end, s_ij + l_i[i])
+
         s_i = s_i + l_i[i]
 
     GC2T = np.where(on_trace, 0.0, GC2T / totweight)
@@ -281,10 +285,8 @@ def _computeGC2(rupture, lon, lat, depth):
     Ry0 = np.zeros_like(GC2U)
     ix = GC2U < 0
     Ry0[ix] = np.abs(GC2U[ix])
-    if n_groups > 1:
-        s_i = s_ij + l_i[-1]
-    ix = GC2U > s_i
-    Ry0[ix] = GC2U[ix] - s_i
+    ix = GC2U > s_end
+    Ry0[ix] = GC2U[ix] - s_end
     Ry0 = Ry0.reshape(oldshape)
     distdict['ry0'] = Ry0
 
-- 
2.43.0


From 458586ca4842aa38873cf0b71ab327b4a4f34432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:48 +0000
Subject: [PATCH 45/56] fix: draw_scale draws a bar of a given length (the map
 width was known for chosen lengths only)

---
 impactutils/mapping/scalebar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/impactutils/mapping/scalebar.py b/impactutils/mapping/scalebar.py
index 7f85a5c..5840e55 100644
--- a/impactutils/mapping/scalebar.py
+++ b/impactutils/mapping/scalebar.py
@@ -224,9 +224,9 @@ def draw_scale(ax, pos='ll', padx=0.1, pady=0.1, font_size=None, units='km',
     gap_height = top_data - bottom_data
 
     # what is the bar length data units?
+    map_width_data = xmax - xmin
     if bar_length is None:
         lengths = np.array(list(LENGTHS.keys()))
-        map_width_data = xmax - xmin
         map_width_meters = map_width_data * dataunits_to_meters
         map_width_scale_units = map_width_meters * 1 / UNITS[units]
         qmap_width_scale_units = map_width_scale_units * BAR_WIDTH_FRACTION
-- 
2.43.0


From 6d18c7ef9d53c0cd872fdbf57b1ed5e7fc0d8360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:48 +0000
Subject: [PATCH 46/56] fix: draw_scale labels lengths that are not whole
 numbers (they were cut off)

---
 impactutils/mapping/scalebar.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/impactutils/mapping/scalebar.py b/impactutils/mapping/scalebar.py
index 5840e55..16011e7 100644
--- a/impactutils/mapping/scalebar.py
+++ b/impactutils/mapping/scalebar.py
@@ -288,8 +288,7 @@ def draw_scale(ax, pos='ll', padx=0.1, pady=0.1, font_size=None, units='km',
             color = 'black'
         else:
             color = 'white'
-            tick_i = int(i * (bar_length / divisions))
-            scale_tick = f'{tick_i:d}'
+            scale_tick = f'{i * bar_length / divisions:.10g}'
             if is_div_even or i == 0:
                 # if we have an even number of divisions, draw every other
                 # tick mark
@@ -306,7 +305,7 @@ def draw_scale(ax, pos='ll', padx=0.1, pady=0.1, font_size=None, units='km',
         ax.fill(barx, recty, color, zorder=zorder)
     # draw the last tick mark and number
     ax.text(bar_left + bar_length_data, bar_bottom - (tick_height + gap_height),
-            f'{int(bar_length):d}', ha='center', zorder=zorder, va='top',
+            f'{bar_length:.10g}', ha='center', zorder=zorder, va='top',
             fontsize=font_size)
     left = bar_left + bar_length_data
     bottom = bar_bottom - tick_height
-- 
2.43.0


From fe57b93d118a289f964e7e0234fff0ea51521251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:18 +0000
Subject: [PATCH 47/56] fix: LocalTimeNE names UTM zones as PROJ understands
 them (every call failed)

---
 impactutils/time/timeutils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/impactutils/time/timeutils.py b/impactutils/time/timeutils.py
index ab15d2b..e60f7f6 100644
--- a/impactutils/time/timeutils.py
+++ b/impactutils/time/timeutils.py
@@ -317,9 +317,9 @@ class LocalTimeNE(LocalTime):
             if xmin > xmax:
                 xmin -= 360
             clon = (xmin + xmax) / 2
-            hem = 'N'
+            hem = ''
             if lat < 0:
-                hem = 'S'
+                hem = ' +south'
             utmzone = _get_utm_zone(clon)
             utmstr = (f'+proj=utm +zone={int(utmzone):d}{hem} '
                       '+ellps=WGS84 +datum=WGS84 +units=m +no_defs')
-- 
2.43.0


From 44c41f0e43f2f100d22b8e3016cac308f484d729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:30 +0000
Subject: [PATCH 48/56] fix: local time near clock changes (the UTC time was
 read as a local one: an hour off, or AmbiguousTimeError)

---
 impactutils/time/timeutils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/impactutils/time/timeutils.py b/impactutils/time/timeutils.py
index e60f7f6..33fba55 100644
--- a/impactutils/time/timeutils.py
+++ b/impactutils/time/timeutils.py
@@ -244,7 +244,7 @@ class LocalTime(object):
 
             if is_inside:
                 mytz = pytz.timezone(timezone)
-                utcoffset = mytz.utcoffset(utctime)
+                utcoffset = mytz.fromutc(utctime).utcoffset()
                 local_time = utctime + utcoffset
                 break
         if local_time is None:
@@ -346,7 +346,7 @@ class LocalTimeNE(LocalTime):
                     timezone = 'undefined'
                 if timezone != 'undefined':
                     mytz = pytz.timezone(timezone)
-                    utcoffset = mytz.utcoffset(utctime)
+                    utcoffset = mytz.fromutc(utctime).utcoffset()
                     local_time = utctime + utcoffset
                 else:
                     offset_hours = f['properties']['zone']
-- 
2.43.0


From 553044c9b685631b060fd51dfd95d17a8f3c8ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:30 +0000
Subject: [PATCH 49/56] fix: nautical time reports its offset as timedelta and
 no longer the zone of the last polygon looked at

---
 impactutils/time/timeutils.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/impactutils/time/timeutils.py b/impactutils/time/timeutils.py
index 33fba55..ff8ae96 100644
--- a/impactutils/time/timeutils.py
+++ b/impactutils/time/timeutils.py
@@ -249,8 +249,9 @@ class LocalTime(object):
                 break
         if local_time is None:
             # this is effectively nautical time as the ultimate failover.
-            utcoffset = round(lon / 15)
-            local_time = utctime + timedelta(seconds=utcoffset * 3600)
+            utcoffset = timedelta(seconds=round(lon / 15) * 3600)
+            local_time = utctime + utcoffset
+            timezone = 'undefined'
         self._local_time = local_time
         self._timezone_str = timezone
         self._utcoffset = utcoffset
@@ -356,8 +357,9 @@ class LocalTimeNE(LocalTime):
                 break
         if local_time is None:
             # this is effectively nautical time as the ultimate failover.
-            utcoffset = round(lon / 15)
-            local_time = utctime + timedelta(seconds=utcoffset * 3600)
+            utcoffset = timedelta(seconds=round(lon / 15) * 3600)
+            local_time = utctime + utcoffset
+            timezone = 'undefined'
         self._local_time = local_time
         self._timezone_str = timezone
         self._utcoffset = utcoffset
-- 
2.43.0


From bcd0da3aba9a7fc96526c21b1d1bef6e6134807c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:30 +0000
Subject: [PATCH 50/56] fix: LocalTime.getTimeZone read an attribute that does
 not exist

---
 impactutils/time/timeutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/impactutils/time/timeutils.py b/impactutils/time/timeutils.py
index ff8ae96..3fcf1b2 100644
--- a/impactutils/time/timeutils.py
+++ b/impactutils/time/timeutils.py
@@ -273,7 +273,7 @@ class LocalTime(object):
         return self._utcoffset
 
     def getTimeZone(self):
-        return self._timezone
+        return self._timezone_str
 
     def update(self, utctime, lat, lon):
         self._lat = lat
-- 
2.43.0


From 7a5f64d60a34efd7cd6b6dd2bd7e4465724a45d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:19 +0000
Subject: [PATCH 51/56] fix: MercatorMap: collisions are judged where the
 labels are drawn

---
 impactutils/mapping/mercatormap.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/impactutils/mapping/mercatormap.py b/impactutils/mapping/mercatormap.py
index 4ee38a7..8257662 100644
--- a/impactutils/mapping/mercatormap.py
+++ b/impactutils/mapping/mercatormap.py
@@ -98,11 +98,16 @@ class MercatorMap(object):
         # set up an identical axes object - this will be used to determine city
         # label collisions.
         self._figure_clone = plt.figure(figsize=figsize)
-        self._ax_clone = self._figure_clone.add_axes([0, 0, 1, 1],
+        self._ax_clone = self._figure_clone.add_axes(dimensions,
                                                      projection=self._proj)
         self._ax_clone.set_extent([xmin, xmax, ymin, ymax],
                                   crs=self._geoproj)
 
+        # put both axes where they will be drawn (the aspect ratio is otherwise
+        # only applied when a figure is drawn)
+        self._ax.apply_aspect()
+        self._ax_clone.apply_aspect()
+
         # establish list of supported fonts
         self._fontlist = [f.name for f in fm.fontManager.ttflist]
         self._fontlist.sort()
-- 
2.43.0


From ba03255170caacef571a3f769523a460ef2a8c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:19 +0000
Subject: [PATCH 52/56] fix: MercatorMap: the largest city is judged like any
 other

---
 impactutils/mapping/mercatormap.py | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/impactutils/mapping/mercatormap.py b/impactutils/mapping/mercatormap.py
index 8257662..6b013a9 100644
--- a/impactutils/mapping/mercatormap.py
+++ b/impactutils/mapping/mercatormap.py
@@ -266,8 +266,8 @@ class MercatorMap(object):
         rights = rights[ikeep]
         bottoms = bottoms[ikeep]
         tops = tops[ikeep]
-        ikeep = [0]  # indices of non-overlapping cities in dataframe
-        for i in range(1, len(tops)):
+        ikeep = []  # indices of non-overlapping cities in dataframe
+        for i in range(len(tops)):
             # what is this cities name?
             # Seems like an unused variable...
             # cname = newdf.iloc[i]['name']
@@ -318,16 +318,8 @@ class MercatorMap(object):
         lefts = np.ones(len(df)) * np.nan
         rights = np.ones(len(df)) * np.nan
 
-        # get the extent of the first city
-        left, right, bottom, top = self.getCityEdges(
-            df.iloc[0], fontname, fontsize, shadow, zorder)
-        lefts[0] = left
-        rights[0] = right
-        bottoms[0] = bottom
-        tops[0] = top
-
         # loop over all the cities and get their extents on the map
-        for i in range(1, len(df)):
+        for i in range(len(df)):
             row = df.iloc[i]
             left, right, bottom, top = self.getCityEdges(
                 row, fontname, fontsize, shadow, zorder)
-- 
2.43.0


From fc6739bef39305bf00c04ffe1e5b618142cc951b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:19 +0000
Subject: [PATCH 53/56] fix: MercatorMap.getAxesClone returns the axes

---
 impactutils/mapping/mercatormap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/impactutils/mapping/mercatormap.py b/impactutils/mapping/mercatormap.py
index 6b013a9..88c7387 100644
--- a/impactutils/mapping/mercatormap.py
+++ b/impactutils/mapping/mercatormap.py
@@ -178,7 +178,7 @@ class MercatorMap(object):
         Returns:
             Cartopy GeoAxes instance.
         """
-        return self._axes_clone
+        return self._ax_clone
 
     def getFonts(self):
         """Get list of supported fonts.
-- 
2.43.0


From 1518fc0815f0a669473ad60ce0cee8f2bca5d215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:19 +0000
Subject: [PATCH 54/56] fix: scp: a connection lost while receiving a file is
 an error

---
 impactutils/extern/scp/scp.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/impactutils/extern/scp/scp.py b/impactutils/extern/scp/scp.py
index 88b1ddf..2fedf78 100644
--- a/impactutils/extern/scp/scp.py
+++ b/impactutils/extern/scp/scp.py
@@ -410,7 +410,10 @@ class SCPClient(object):
                 # we have to make sure we don't read the final byte
                 if size - pos <= buff_size:
                     buff_size = size - pos
-                file_hdl.write(chan.recv(buff_size))
+                data = chan.recv(buff_size)
+                if not data:  # chan closed while recving
+                    raise SCPException('Connection lost while receiving')
+                file_hdl.write(data)
                 pos = file_hdl.tell()
                 if self._progress:
                     self._progress(path, size, pos)
-- 
2.43.0


From 4a1d016e7992bc33b60e2475b3a7f303010f7c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:19 +0000
Subject: [PATCH 55/56] fix: scp: sending a directory named with a trailing
 slash

---
 impactutils/extern/scp/scp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/impactutils/extern/scp/scp.py b/impactutils/extern/scp/scp.py
index 2fedf78..c7d64f6 100644
--- a/impactutils/extern/scp/scp.py
+++ b/impactutils/extern/scp/scp.py
@@ -295,7 +295,7 @@ class SCPClient(object):
 
     def _send_pushd(self, directory):
         (mode, size, mtime, atime) = self._read_stats(directory)
-        basename = asbytes(os.path.basename(directory))
+        basename = asbytes(os.path.basename(directory.rstrip(bytes_sep)))
         if self.preserve_times:
             self._send_time(mtime, atime)
         self.channel.sendall((f'D{mode} 0 ').encode('ascii') +
-- 
2.43.0


From 0403885d58f8ee4bb1dec3550d241d02ddff68cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:19 +0000
Subject: [PATCH 56/56] fix: scp: names from the server stay in the local
 directory

---
 impactutils/extern/scp/scp.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/impactutils/extern/scp/scp.py b/impactutils/extern/scp/scp.py
index c7d64f6..d8e8ff5 100644
--- a/impactutils/extern/scp/scp.py
+++ b/impactutils/extern/scp/scp.py
@@ -368,6 +368,11 @@ class SCPClient(object):
         # save for later
         self._utime = (atime, mtime)
 
+    def _check_name(self, name):
+        # a name received from the server must not lead out of the directory
+        if b'/' in name or name == b'..':
+            raise ValueError(name)
+
     def _recv_file(self, cmd):
         chan = self.channel
         parts = cmd.strip().split(b' ', 2)
@@ -375,6 +380,8 @@ class SCPClient(object):
         try:
             mode = int(parts[0], 8)
             size = int(parts[1])
+            if not self._rename:
+                self._check_name(parts[2])
             if self._rename:
                 path = self._recv_dir
                 self._rename = False
@@ -439,6 +446,8 @@ class SCPClient(object):
         parts = cmd.split(b' ', 2)
         try:
             mode = int(parts[0], 8)
+            if not self._rename:
+                self._check_name(parts[2])
             if self._rename:
                 path = self._recv_dir
                 self._rename = False
-- 
2.43.0

