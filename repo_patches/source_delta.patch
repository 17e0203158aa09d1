From d0dd2dbcbacece10003a43132e516a782c458bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:59 +0000
Subject: [PATCH 01/63] fix: STA/LTA of a silent window is 1, not NaN

The compiled overlapping and recursive STA/LTA (and the first value of the centred
one) divided by a long-term average of zero. The pure-Python versions and the rest of
the centred one return 1 (the null result) there.
---
 quakemigrate/core/src/onsetlib.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/quakemigrate/core/src/onsetlib.c b/quakemigrate/core/src/onsetlib.c
index fe14a1d..90d0b17 100644
--- a/quakemigrate/core/src/onsetlib.c
+++ b/quakemigrate/core/src/onsetlib.c
@@ -49,12 +49,12 @@ overlapping_sta_lta(const double * signal,
     lta += buf;
     sta += buf - signal[i - head -> nsta];
   }
-  onset[head -> nlta - 1] = sta / lta * frac;
+  onset[head -> nlta - 1] = lta > 0. ? sta / lta * frac : 1.;
   for (i = head -> nlta; i < head -> n; ++i) {
     buf = signal[i];
     sta += buf - signal[i - head -> nsta];
     lta += buf - signal[i - head -> nlta];
-    onset[i] = sta / lta * frac;
+    onset[i] = lta > 0. ? sta / lta * frac : 1.;
   }
 }
 
@@ -95,7 +95,7 @@ centred_sta_lta(const double * signal,
   }
 
   // Set first value, and loop over rest of signal
-  onset[head -> nlta - 1] = sta / lta * frac;
+  onset[head -> nlta - 1] = lta > 0. ? sta / lta * frac : 1.;
   for (i = head -> nlta; i < head -> n - head -> nsta; ++i) {
     sta += signal[i + head -> nsta] - signal[i];
     lta += signal[i] - signal[i - head -> nlta];
@@ -136,7 +136,7 @@ recursive_sta_lta(const double * signal,
     buf = signal[i];
     sta = csta * buf + (1 - csta) * sta;
     lta = clta * buf + (1 - clta) * lta;
-    onset[i] = sta / lta;
+    onset[i] = lta > 0. ? sta / lta : 1.;
   }
 
   // Null first nlta to remove transient signal from "recursive" measure
-- 
2.43.0


From 73c4818ab3f4caef8f4937f2f025a8dc527b88a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:08 +0000
Subject: [PATCH 02/63] fix: do not write outside the onset when the windows
 exceed the signal

The compiled STA/LTA functions wrote to (and read from) memory beyond the signal and
onset arrays when no complete window fits in the signal.
---
 quakemigrate/core/src/onsetlib.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/quakemigrate/core/src/onsetlib.c b/quakemigrate/core/src/onsetlib.c
index 90d0b17..0d54ff9 100644
--- a/quakemigrate/core/src/onsetlib.c
+++ b/quakemigrate/core/src/onsetlib.c
@@ -40,6 +40,11 @@ overlapping_sta_lta(const double * signal,
   const double frac = (double) head -> nlta / (double) head -> nsta;
   double buf, sta = 0., lta;
 
+  // No complete window in the signal: leave the null result
+  if (head -> n < head -> nlta) {
+    return;
+  }
+
   for (i = 0; i < head -> nsta; ++i) {
     sta += signal[i];
   }
@@ -84,6 +89,11 @@ centred_sta_lta(const double * signal,
   const double frac = (double) head -> nlta / (double) head -> nsta;
   double sta = 0., lta = 0.;
 
+  // No complete windows in the signal: leave the null result
+  if (head -> n < head -> nlta + head -> nsta) {
+    return;
+  }
+
   // Calculate initial LTA
   for (i = 0; i < head -> nlta; ++i) {
     lta += signal[i];
-- 
2.43.0


From 746b738c7e61e57cc0aaf19177d3c13166d9bd0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:36 +0000
Subject: [PATCH 03/63] fix: a kill while a day file is being written no longer
 destroys it

---
 quakemigrate/io/scanmseed.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/quakemigrate/io/scanmseed.py b/quakemigrate/io/scanmseed.py
index 59937b8..1e6a722 100644
--- a/quakemigrate/io/scanmseed.py
+++ b/quakemigrate/io/scanmseed.py
@@ -209,14 +209,18 @@ class ScanmSEED:
         fstem = f"{starttime.year}_{starttime.julday:03d}"
         file = (fpath / fstem).with_suffix(".scanmseed")
 
+        # Write to a temporary file and move it into place, so that being interrupted
+        # part way through never damages what was already written for this day.
+        partial = file.with_suffix(".scanmseed.partial")
         try:
-            st.write(str(file), format="MSEED", encoding="STEIM2")
+            st.write(str(partial), format="MSEED", encoding="STEIM2")
         except InternalMSEEDError as e:
             logging.debug(
                 f"Cannot compress data: {e}\nUnable to compress data using STEIM2 - "
                 "falling back on STEIM1."
             )
-            st.write(str(file), format="MSEED", encoding="STEIM1")
+            st.write(str(partial), format="MSEED", encoding="STEIM1")
+        partial.replace(file)
         self.written = True
 
     def _data2int(self, data, factor):
-- 
2.43.0


From 829856616c5f6a75efda3423432a7d113f2ea351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:37 +0000
Subject: [PATCH 04/63] fix: trigger no longer drops the coalescence that
 follows a gap

---
 quakemigrate/io/scanmseed.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/quakemigrate/io/scanmseed.py b/quakemigrate/io/scanmseed.py
index 1e6a722..a284fc1 100644
--- a/quakemigrate/io/scanmseed.py
+++ b/quakemigrate/io/scanmseed.py
@@ -303,6 +303,9 @@ def read_scanmseed(run, starttime, endtime, pad, ucf):
         raise util.NoScanMseedDataException
 
     scanmseed.merge(method=-1)
+    # Any period not covered by detect is filled with zeros - as detect itself does for
+    # timesteps without data - so that the coalescence either side of it is retained.
+    scanmseed.merge(fill_value=0)
     stats = scanmseed.select(station="COA")[0].stats
 
     data = pd.DataFrame()
-- 
2.43.0


From 0f9112927798f7622299d58ed72ab58abea17ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:04 +0000
Subject: [PATCH 05/63] fix: writing event time windows once no longer changes
 later trigger files

---
 quakemigrate/io/triggered_events.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quakemigrate/io/triggered_events.py b/quakemigrate/io/triggered_events.py
index 059c5c5..1436ec1 100644
--- a/quakemigrate/io/triggered_events.py
+++ b/quakemigrate/io/triggered_events.py
@@ -125,7 +125,7 @@ def write_triggered_events(run, events, starttime, write_event_time_windows):
     fpath = run.path / "trigger" / run.subname / "events"
     fpath.mkdir(exist_ok=True, parents=True)
 
-    output_cols = OUTPUT_COLS
+    output_cols = list(OUTPUT_COLS)
     if write_event_time_windows:
         output_cols.extend(["MinTime", "MaxTime"])
 
-- 
2.43.0


From 6426ee079b06069113d1c36c6258adf72d3a292c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:08 +0000
Subject: [PATCH 06/63] fix: loading a lookup table keeps its station table

---
 quakemigrate/lut/lut.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quakemigrate/lut/lut.py b/quakemigrate/lut/lut.py
index 310cc96..91ed412 100644
--- a/quakemigrate/lut/lut.py
+++ b/quakemigrate/lut/lut.py
@@ -453,6 +453,8 @@ class LUT(Grid3D):
     def __init__(self, fraction_tt=0.1, lut_file=None, **grid_spec):
         """Instantiate the LUT object."""
 
+        self.station_data = pd.DataFrame()
+
         if grid_spec:
             super().__init__(**grid_spec)
             self.fraction_tt = fraction_tt
@@ -465,8 +467,6 @@ class LUT(Grid3D):
             if lut_file is not None:
                 self.load(lut_file)
 
-        self.station_data = pd.DataFrame()
-
     def __str__(self):
         """Return short summary string of the lookup table object."""
 
-- 
2.43.0


From b055d6daece81a77cef9fd9ab67f428a8afa8d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:08 +0000
Subject: [PATCH 07/63] fix: adding lookup tables keeps the stations already
 present

---
 quakemigrate/lut/lut.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quakemigrate/lut/lut.py b/quakemigrate/lut/lut.py
index 91ed412..0593e7a 100644
--- a/quakemigrate/lut/lut.py
+++ b/quakemigrate/lut/lut.py
@@ -880,7 +880,8 @@ class LUT(Grid3D):
             return self
         else:
             if self == other:
-                self.traveltimes.update(other.traveltimes)
+                for station, traveltimes in other.traveltimes.items():
+                    self.traveltimes.setdefault(station, traveltimes)
                 return self
             else:
                 print("Grid definitions do not match - cannot combine.")
-- 
2.43.0


From e3ad18c10d22822b05cbfd6be9b28d5db89e79b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:08 +0000
Subject: [PATCH 08/63] fix: a decimated lookup table starts at the first node
 it retains

---
 quakemigrate/lut/lut.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/quakemigrate/lut/lut.py b/quakemigrate/lut/lut.py
index 0593e7a..ff210db 100644
--- a/quakemigrate/lut/lut.py
+++ b/quakemigrate/lut/lut.py
@@ -127,8 +127,11 @@ class Grid3D:
         else:
             grid = copy.deepcopy(self)
 
+        # The first node retained is c1 nodes in from the original lower-left corner
+        grid.ll_corner = self.ll_corner + c1 * self.node_spacing
         grid.node_count = new_node_count
         grid.node_spacing = self.node_spacing * df
+        grid.ur_corner = grid.ll_corner + (grid.node_count - 1) * grid.node_spacing
 
         for station, map_ in grid.traveltimes.items():
             for phase, ttimes in map_.items():
-- 
2.43.0


From f7178811904a753102a69c73a1802e32b5eecaec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:08 +0000
Subject: [PATCH 09/63] fix: lookup table summary prints latitude as latitude

---
 quakemigrate/lut/lut.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/quakemigrate/lut/lut.py b/quakemigrate/lut/lut.py
index ff210db..9cd2ff6 100644
--- a/quakemigrate/lut/lut.py
+++ b/quakemigrate/lut/lut.py
@@ -487,11 +487,11 @@ class LUT(Grid3D):
         )
 
         out = out.format(
-            lat1=ll[0],
-            lon1=ll[1],
+            lat1=ll[1],
+            lon1=ll[0],
             dep1=ll[2],
-            lat2=ur[0],
-            lon2=ur[1],
+            lat2=ur[1],
+            lon2=ur[0],
             dep2=ur[2],
             unit_name=self.unit_name,
         )
-- 
2.43.0


From 87d16004c2c25bcad5a9387ff3ffef6a9c071c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:18 +0000
Subject: [PATCH 10/63] fix: complete data is no longer rejected through
 floating point error

---
 quakemigrate/io/data.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/quakemigrate/io/data.py b/quakemigrate/io/data.py
index 7774784..f655426 100755
--- a/quakemigrate/io/data.py
+++ b/quakemigrate/io/data.py
@@ -604,7 +604,10 @@ class WaveformData:
                 # rate as provided. To check that as well, use
                 # `check_sampling_rate=True` and specify a sampling rate.
                 if full_timespan:
-                    n_samples = timespan * st_id[0].stats.sampling_rate + 1
+                    # Round to suppress floating point error in the product.
+                    n_samples = (
+                        round(timespan * st_id[0].stats.sampling_rate, 3) + 1
+                    )
                     if len(st_id) > 1:
                         continue
                     elif st_id[0].stats.npts < n_samples:
-- 
2.43.0


From e9473858023ab6d378788e36560a4dc1315d72ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:49 +0000
Subject: [PATCH 11/63] fix: window pads are a whole number of samples

---
 quakemigrate/util.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/quakemigrate/util.py b/quakemigrate/util.py
index d4fd81c..e3e8e4c 100644
--- a/quakemigrate/util.py
+++ b/quakemigrate/util.py
@@ -260,13 +260,14 @@ def trim2sample(time, sampling_rate):
 
     Returns
     -------
-    out : int
+    out : float
         Time that correpsonds to an integer number of samples at a specific sampling
         rate.
 
     """
 
-    return int(np.ceil(time * sampling_rate) / sampling_rate * 1000) / 1000
+    # Round to suppress floating point error in the product before taking the ceiling
+    return float(np.ceil(round(time * sampling_rate, 6)) / sampling_rate)
 
 
 def wa_response(convert="DIS2DIS", obspy_def=True):
-- 
2.43.0


From a4cc09678e093b484157f79fe704ac9d4f53c770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:19 +0000
Subject: [PATCH 12/63] fix: locate stamps every sample of the scan window for
 any marginal window

---
 quakemigrate/io/event.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quakemigrate/io/event.py b/quakemigrate/io/event.py
index 2d44e0b..31a33e5 100644
--- a/quakemigrate/io/event.py
+++ b/quakemigrate/io/event.py
@@ -411,7 +411,7 @@ class Event:
         # Utilise the .times() method of `obspy.Trace` objects
         tr = Trace(
             header={
-                "npts": 4 * self.marginal_window * sampling_rate + 1,
+                "npts": round(4 * self.marginal_window * sampling_rate) + 1,
                 "sampling_rate": sampling_rate,
                 "starttime": self.trigger_time - 2 * self.marginal_window,
             }
-- 
2.43.0


From 6985bad48ad32d329aec38f9e57e16f4d2b28178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:10 +0000
Subject: [PATCH 13/63] fix: pick windows do not depend on the order in which
 phases are listed

---
 quakemigrate/signal/pickers/gaussian.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/quakemigrate/signal/pickers/gaussian.py b/quakemigrate/signal/pickers/gaussian.py
index 2fa8c89..52eeb56 100644
--- a/quakemigrate/signal/pickers/gaussian.py
+++ b/quakemigrate/signal/pickers/gaussian.py
@@ -301,6 +301,9 @@ class GaussianPicker(PhasePicker):
 
         """
 
+        # Work through the phases in order of their modelled arrival
+        phases = sorted(phases, key=lambda phase: windows[phase][1])
+
         # Handle first key
         first_idx = windows[phases[0]][0]
         windows[phases[0]][0] = 0 if first_idx < 0 else first_idx
-- 
2.43.0


From 50f0eff6fe89563474a33e5be1dc291e02b546bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:10 +0000
Subject: [PATCH 14/63] fix: picking does not fail when there is no noise
 outside the pick windows

---
 quakemigrate/signal/pickers/gaussian.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/quakemigrate/signal/pickers/gaussian.py b/quakemigrate/signal/pickers/gaussian.py
index 52eeb56..88ce4db 100644
--- a/quakemigrate/signal/pickers/gaussian.py
+++ b/quakemigrate/signal/pickers/gaussian.py
@@ -348,6 +348,10 @@ class GaussianPicker(PhasePicker):
         # pad windows)
         onset_noise = onset_noise[onset_noise > 1]
 
+        # If no data exceeds the null value of the onset function, use that value
+        if len(onset_noise) == 0:
+            return 1.0
+
         if method == "percentile":
             pick_threshold = np.percentile(
                 onset_noise, self.percentile_pick_threshold * 100
-- 
2.43.0


From df7e1c30ada7897fac3f93d9e7fe911d38749c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:24 +0000
Subject: [PATCH 15/63] fix: Gaussian location on grids that are a single node
 thick

---
 quakemigrate/signal/scan.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/quakemigrate/signal/scan.py b/quakemigrate/signal/scan.py
index e41bbea..a3700b0 100755
--- a/quakemigrate/signal/scan.py
+++ b/quakemigrate/signal/scan.py
@@ -894,7 +894,9 @@ class QuakeScan:
             [2 * P[0], P[3], P[4], P[3], 2 * P[1], P[5], P[4], P[5], 2 * P[2]]
         ).reshape((3, 3))
         H = np.array([P[6], P[7], P[8]])
-        loc = np.matmul(np.linalg.inv(G), H)
+        # Use the pseudo-inverse, so that an axis that cannot be resolved (e.g. if there is
+        # only a single node along it) does not move the location off the grid
+        loc = np.matmul(np.linalg.pinv(G, rcond=1e-10), H)
         cx, cy, cz = loc
 
         K = (
-- 
2.43.0


From ac977677d5f9bfbf7e9ba19726667b7f94345e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:24 +0000
Subject: [PATCH 16/63] fix: give Gaussian location uncertainties to the axes
 they belong to

---
 quakemigrate/signal/scan.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/quakemigrate/signal/scan.py b/quakemigrate/signal/scan.py
index a3700b0..17193ea 100755
--- a/quakemigrate/signal/scan.py
+++ b/quakemigrate/signal/scan.py
@@ -921,7 +921,7 @@ class QuakeScan:
                 P[2],
             ]
         ).reshape(3, 3)
-        egv, vec = np.linalg.eig(M)
+        egv, vec = np.linalg.eigh(M)
         sgm = np.sqrt(0.5 / np.clip(np.abs(egv), 1e-10, np.inf)) / 2
         val = np.exp(-K)
         csgm = np.sqrt(0.5 / np.clip(np.abs(M.diagonal()), 1e-10, np.inf))
@@ -933,7 +933,8 @@ class QuakeScan:
         location = [[gau_3d[0][0], gau_3d[0][1], gau_3d[0][2]]]
         location = self.lut.index2coord(location)[0]
 
-        uncertainty = sgm * self.lut.node_spacing
+        # Project the uncertainties along the principal axes onto the grid axes
+        uncertainty = np.sqrt(np.sum((vec * sgm) ** 2, axis=1)) * self.lut.node_spacing
 
         return location, uncertainty
 
-- 
2.43.0


From f08b91e7650115d72384efe82701408dd8b2ccd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:24 +0000
Subject: [PATCH 17/63] fix: do not overwrite zero epicentral distances in the
 amplitude table

---
 quakemigrate/signal/local_mag/magnitude.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quakemigrate/signal/local_mag/magnitude.py b/quakemigrate/signal/local_mag/magnitude.py
index c2cd2b6..78e29f7 100644
--- a/quakemigrate/signal/local_mag/magnitude.py
+++ b/quakemigrate/signal/local_mag/magnitude.py
@@ -245,7 +245,7 @@ class Magnitude:
         if self.use_hyp_dist:
             dist = np.sqrt(edist.values**2 + zdist.values**2)
         else:
-            dist = edist.values
+            dist = edist.values.copy()
         dist[dist == 0.0] = np.nan
 
         # Calculate magnitudes and associated errors
@@ -777,7 +777,7 @@ class Magnitude:
         if self.use_hyp_dist:
             dist = np.sqrt(edist.values**2 + zdist.values**2)
         else:
-            dist = edist.values
+            dist = edist.values.copy()
 
         # Apply distance filter
         if self.dist_filter:
-- 
2.43.0


From c9593afb62b3fa5d2fb36843c348ae8ac35f453f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:24 +0000
Subject: [PATCH 18/63] fix: leave observations without a magnitude out of the
 network magnitude

---
 quakemigrate/signal/local_mag/magnitude.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/quakemigrate/signal/local_mag/magnitude.py b/quakemigrate/signal/local_mag/magnitude.py
index 78e29f7..f570169 100644
--- a/quakemigrate/signal/local_mag/magnitude.py
+++ b/quakemigrate/signal/local_mag/magnitude.py
@@ -800,6 +800,8 @@ class Magnitude:
             magnitudes.loc[~magnitudes["is_picked"], "Used"] = False
         if self.noise_filter != 0.0:
             magnitudes.loc[~magnitudes["Noise_Filter"], "Used"] = False
+        # Observations without a magnitude (e.g. signal below noise) can't be used
+        magnitudes.loc[magnitudes["ML"].isnull(), "Used"] = False
 
         return magnitudes
 
-- 
2.43.0


From 15435a8b3e386ebd18ad491c98ce808da62df929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:24 +0000
Subject: [PATCH 19/63] fix: weighted standard deviation of the network
 magnitude

---
 quakemigrate/signal/local_mag/magnitude.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quakemigrate/signal/local_mag/magnitude.py b/quakemigrate/signal/local_mag/magnitude.py
index f570169..a5ce952 100644
--- a/quakemigrate/signal/local_mag/magnitude.py
+++ b/quakemigrate/signal/local_mag/magnitude.py
@@ -417,7 +417,7 @@ class Magnitude:
         # single estimate, then take the uncertainty from that value.
         if len(mags) > 1:
             mean_mag_err = np.sqrt(
-                np.sum(((mags - mean_mag) * weights) ** 2) / np.sum(weights)
+                np.sum(weights * (mags - mean_mag) ** 2) / np.sum(weights)
             )
         else:
             mean_mag_err = used_mags["ML_Err"].values[0]
-- 
2.43.0


From bc4ce3658743214c7e6fe7a04f09eba7cacdc700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:24 +0000
Subject: [PATCH 20/63] fix: drop noise-dominated observations from the
 r-squared of all observations

---
 quakemigrate/signal/local_mag/magnitude.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quakemigrate/signal/local_mag/magnitude.py b/quakemigrate/signal/local_mag/magnitude.py
index a5ce952..6df1357 100644
--- a/quakemigrate/signal/local_mag/magnitude.py
+++ b/quakemigrate/signal/local_mag/magnitude.py
@@ -890,7 +890,7 @@ class Magnitude:
                 # If predicted amp is more than 5x larger than noise amp, keep
                 # this observation for mag_r2 calculation
                 if predicted_amp / noise_amp < 5:
-                    magnitudes.drop(labels=mag.name)
+                    magnitudes = magnitudes.drop(labels=mag.name)
 
         # Calculate amplitudes -- including station corrections!
         amps = (
-- 
2.43.0


From 52c48f9141aee5e6d2f631315836ef0136c5155b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:05 +0000
Subject: [PATCH 21/63] fix: keep the data type of floating point data when
 padding in upsample

The constant-value pads were cast to integers, so e.g. data in physical units
were padded with zeros.
---
 quakemigrate/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quakemigrate/util.py b/quakemigrate/util.py
index e3e8e4c..fdefdec 100644
--- a/quakemigrate/util.py
+++ b/quakemigrate/util.py
@@ -563,7 +563,7 @@ def upsample(trace, upfactor, starttime, endtime):
         )
         logging.debug(f"Start pad = {start_pad}")
         # Add padding data (constant value)
-        start_fill = np.full(int(start_pad), trace.data[0], dtype=int)
+        start_fill = np.full(int(start_pad), trace.data[0])
         dnew = np.append(start_fill, dnew)
         # Calculate new starttime of trace
         new_starttime = trace.stats.starttime - start_pad / (
@@ -582,7 +582,7 @@ def upsample(trace, upfactor, starttime, endtime):
         )
         logging.debug(f"End pad = {end_pad}")
         # Add padding data (constant value)
-        end_fill = np.full(int(end_pad), trace.data[-1], dtype=int)
+        end_fill = np.full(int(end_pad), trace.data[-1])
         dnew = np.append(dnew, end_fill)
 
     out = Trace()
-- 
2.43.0


From d98f83f5171d74bea17461fd664338f423ca6d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:05 +0000
Subject: [PATCH 22/63] fix: only decimate upsampled data which is not at the
 target sampling rate

The sampling rate of the trace before upsampling was compared, so data already
at the target rate were needlessly detrended, tapered and filtered.
---
 quakemigrate/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quakemigrate/util.py b/quakemigrate/util.py
index fdefdec..0e71b45 100644
--- a/quakemigrate/util.py
+++ b/quakemigrate/util.py
@@ -457,7 +457,7 @@ def resample(stream, sampling_rate, resample, upfactor, starttime, endtime):
                     raise BadUpfactorException(trace)
                 stream.remove(trace)
                 trace = upsample(trace, upfactor, starttime, endtime)
-                if trace_sampling_rate != sampling_rate:
+                if trace.stats.sampling_rate != sampling_rate:
                     trace = decimate(trace, sampling_rate)
                 stream += trace
             else:
-- 
2.43.0


From 9051f9449cc7571438560bf80aa6ea7cd40334c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:05 +0000
Subject: [PATCH 23/63] fix: identify off-sample data for any sampling rate in
 shift_to_sample

The microsecond was compared with the sample interval: data at sampling rates
such as 12.5 or 62.5 Hz (for which a second is not a whole number of samples)
were moved off-sample by up to half a sample, and on-sample data at rates such
as 30 or 300 Hz (with intervals that are not a whole number of microseconds)
were interpolated. Use the time since midnight, to the microsecond.
---
 quakemigrate/util.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/quakemigrate/util.py b/quakemigrate/util.py
index 0e71b45..28697ff 100644
--- a/quakemigrate/util.py
+++ b/quakemigrate/util.py
@@ -20,7 +20,7 @@ from itertools import tee
 
 import matplotlib.ticker as ticker
 import numpy as np
-from obspy import Trace, Stream
+from obspy import Trace, Stream, UTCDateTime
 
 
 log_spacer = "=" * 110
@@ -347,10 +347,13 @@ def shift_to_sample(stream, interpolate=False):
     stream = stream.copy()
 
     for tr in stream:
-        # Check if microsecond is divisible by sampling rate; only guaranteed to work
-        # for sampling rates of 1 Hz or less
-        delta = tr.stats.starttime.microsecond % (1e6 / tr.stats.sampling_rate)
-        if delta == 0:
+        # Check if the time since midnight (in microseconds) is a multiple of the sample
+        # interval - to the microsecond, as not all intervals are an integer number of
+        # microseconds
+        midnight = UTCDateTime(tr.stats.starttime.date)
+        interval = 1e6 / tr.stats.sampling_rate
+        delta = round((tr.stats.starttime - midnight) * 1e6) % interval
+        if min(delta, interval - delta) < 1:
             if tr.stats.sampling_rate < 1.0:
                 logging.warning(
                     f"Trace\n\t{tr}\nhas a sampling rate less than 1 Hz, so off-sample "
-- 
2.43.0


From ca172e978549cea00714727ee3120ca0cf68ca61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:05 +0000
Subject: [PATCH 24/63] fix: only return requested stations when other files
 match the archive format

File names of other stations may match the format (e.g. "ST10" and "ST1*"), in
which case their data were included although read_all_stations was False.
---
 quakemigrate/io/data.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/quakemigrate/io/data.py b/quakemigrate/io/data.py
index f655426..c6a360e 100755
--- a/quakemigrate/io/data.py
+++ b/quakemigrate/io/data.py
@@ -299,21 +299,22 @@ class Archive:
             # Merge waveforms channel-by-channel with no-clobber merge
             st = util.merge_stream(st)
 
+            # Select only stations in station file. NOTE: files for other stations may
+            # also match the archive format (e.g. "{station}*")
+            st_selected = Stream()
+            for station in self.stations.unique():
+                st_selected += st.select(station=station)
+
             # Make copy of raw waveforms to output if requested
-            data.raw_waveforms = st.copy()
+            if self.read_all_stations:
+                data.raw_waveforms = st.copy()
+            else:
+                data.raw_waveforms = st_selected.copy()
 
             # Ensure data is timestamped "on-sample" (i.e. an integer number of samples
             # after midnight). Otherwise the data will be implicitly shifted when it is
             # used to calculate the onset function / migrated.
-            st = util.shift_to_sample(st, interpolate=self.interpolate)
-
-            if self.read_all_stations:
-                # Re-populate st with only stations in station file
-                st_selected = Stream()
-                for station in self.stations:
-                    st_selected += st.select(station=station)
-                st = st_selected.copy()
-                del st_selected
+            st = util.shift_to_sample(st_selected, interpolate=self.interpolate)
 
             if pre_pad != 0.0 or post_pad != 0.0:
                 # Trim data between start and end time
-- 
2.43.0


From 96b7283ee257fca9d3209dbb3661f472329007ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:02 +0000
Subject: [PATCH 25/63] fix: STA/LTA is 1 where there is no signal in the
 long-term window

Gaps are padded with tiny numbers; what was left in the running sums once the
data had left the windows was rounding error, giving onsets of up to several
thousand where there is no data, and infinity where data come back on-line
during the short-term window.
---
 quakemigrate/core/src/onsetlib.c     | 44 ++++++++++++++++++++++++++--
 quakemigrate/signal/onsets/stalta.py | 12 ++++----
 2 files changed, 48 insertions(+), 8 deletions(-)

diff --git a/quakemigrate/core/src/onsetlib.c b/quakemigrate/core/src/onsetlib.c
index 0d54ff9..c135704 100644
--- a/quakemigrate/core/src/onsetlib.c
+++ b/quakemigrate/core/src/onsetlib.c
@@ -14,6 +14,31 @@
 
 #include "qmlib.h"
 
+// Samples no larger than this hold no signal - gaps in the data are padded with
+// sqrt(DBL_MIN), or its square
+#define NO_SIGNAL 1.5e-154
+
+/*
+ * Function: count_silent
+ * ----------------------
+ * Count the consecutive samples without signal up to, and including, this one.
+ */
+static int
+count_silent(const double sample, const int silent) {
+  return sample > NO_SIGNAL ? 0 : silent + 1;
+}
+
+/*
+ * Function: clear_silent
+ * ----------------------
+ * All that is left in the running sum for a window of n samples without signal
+ * is rounding error.
+ */
+static double
+clear_silent(const double sum, const int silent, const int n) {
+  return silent >= n ? 0. : sum;
+}
+
 /*
  * Function: overlapping_sta_lta
  * -----------------------------
@@ -36,7 +61,7 @@ void
 overlapping_sta_lta(const double * signal,
   const stalta_header * head, double * onset) {
 
-  int i;
+  int i, silent = 0;
   const double frac = (double) head -> nlta / (double) head -> nsta;
   double buf, sta = 0., lta;
 
@@ -47,18 +72,25 @@ overlapping_sta_lta(const double * signal,
 
   for (i = 0; i < head -> nsta; ++i) {
     sta += signal[i];
+    silent = count_silent(signal[i], silent);
   }
   lta = sta;
   for (i = head -> nsta; i < head -> nlta; ++i) {
     buf = signal[i];
     lta += buf;
     sta += buf - signal[i - head -> nsta];
+    silent = count_silent(buf, silent);
   }
+  sta = clear_silent(sta, silent, head -> nsta);
+  lta = clear_silent(lta, silent, head -> nlta);
   onset[head -> nlta - 1] = lta > 0. ? sta / lta * frac : 1.;
   for (i = head -> nlta; i < head -> n; ++i) {
     buf = signal[i];
     sta += buf - signal[i - head -> nsta];
     lta += buf - signal[i - head -> nlta];
+    silent = count_silent(buf, silent);
+    sta = clear_silent(sta, silent, head -> nsta);
+    lta = clear_silent(lta, silent, head -> nlta);
     onset[i] = lta > 0. ? sta / lta * frac : 1.;
   }
 }
@@ -85,7 +117,7 @@ void
 centred_sta_lta(const double * signal,
   const stalta_header * head, double * onset) {
 
-  int i;
+  int i, sta_silent = 0, lta_silent = 0;
   const double frac = (double) head -> nlta / (double) head -> nsta;
   double sta = 0., lta = 0.;
 
@@ -97,18 +129,26 @@ centred_sta_lta(const double * signal,
   // Calculate initial LTA
   for (i = 0; i < head -> nlta; ++i) {
     lta += signal[i];
+    lta_silent = count_silent(signal[i], lta_silent);
   }
 
   // Calculate initial STA (starting from last sample of long-term window)
   for (i = head -> nlta; i < head -> nlta + head -> nsta; ++i) {
     sta += signal[i];
+    sta_silent = count_silent(signal[i], sta_silent);
   }
+  sta = clear_silent(sta, sta_silent, head -> nsta);
+  lta = clear_silent(lta, lta_silent, head -> nlta);
 
   // Set first value, and loop over rest of signal
   onset[head -> nlta - 1] = lta > 0. ? sta / lta * frac : 1.;
   for (i = head -> nlta; i < head -> n - head -> nsta; ++i) {
     sta += signal[i + head -> nsta] - signal[i];
     lta += signal[i] - signal[i - head -> nlta];
+    sta_silent = count_silent(signal[i + head -> nsta], sta_silent);
+    lta_silent = count_silent(signal[i], lta_silent);
+    sta = clear_silent(sta, sta_silent, head -> nsta);
+    lta = clear_silent(lta, lta_silent, head -> nlta);
     if (lta > 0.) {
       onset[i] = sta / lta * frac;
     } else {
diff --git a/quakemigrate/signal/onsets/stalta.py b/quakemigrate/signal/onsets/stalta.py
index 4cb9812..3910f99 100644
--- a/quakemigrate/signal/onsets/stalta.py
+++ b/quakemigrate/signal/onsets/stalta.py
@@ -69,9 +69,9 @@ def centred_sta_lta_py(signal, nsta, nlta):
     sta[-nsta:] = 1.0
     lta[-nsta:] = 1.0
 
-    # Avoid division by zero by setting zero values to tiny float, giving an
-    # STA/LTA of 1 (= null result)
-    dtiny = np.finfo(float).tiny
+    # Avoid division by zero (or by the tiny floats with which gaps are padded) by
+    # setting these values to tiny float, giving an STA/LTA of 1 (= null result)
+    dtiny = 2 * np.sqrt(np.finfo(float).tiny)
     idx = lta < dtiny
     lta[idx] = dtiny
     sta[idx] = dtiny
@@ -124,9 +124,9 @@ def overlapping_sta_lta_py(signal, nsta, nlta):
     sta[: nlta - 1] = 1.0
     lta[: nlta - 1] = 1.0
 
-    # Avoid division by zero by setting zero values to tiny float, giving an
-    # STA/LTA of 1 (= null result)
-    dtiny = np.finfo(0.0).tiny
+    # Avoid division by zero (or by the tiny floats with which gaps are padded) by
+    # setting these values to tiny float, giving an STA/LTA of 1 (= null result)
+    dtiny = 2 * np.sqrt(np.finfo(float).tiny)
     idx = lta < dtiny
     lta[idx] = dtiny
     sta[idx] = dtiny
-- 
2.43.0


From 86296b7eee3bb6e8bc7d9cc54ec9ea29e32bca5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:02 +0000
Subject: [PATCH 26/63] fix: flatlined channels are recognised after
 pre-processing

The availability check is made on the filtered data, in which a constant value
(other than 0) leaves rounding errors, so onsets were calculated from these.
---
 quakemigrate/signal/onsets/stalta.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/quakemigrate/signal/onsets/stalta.py b/quakemigrate/signal/onsets/stalta.py
index 3910f99..0103ff4 100644
--- a/quakemigrate/signal/onsets/stalta.py
+++ b/quakemigrate/signal/onsets/stalta.py
@@ -408,6 +408,13 @@ class STALTAOnset(Onset):
                 data.endtime,
             )
 
+            # Rounding errors in the pre-processing would otherwise obscure flatlined
+            # channels from the availability check
+            flatlined = [tr.id for tr in phase_waveforms if np.ptp(tr.data) == 0]
+            for tr in filtered_phase_waveforms:
+                if tr.id in flatlined:
+                    tr.data = np.zeros_like(tr.data)
+
             # Loop through stations, check data availability for this phase,
             # and store this info, filtered waveforms and calculated onsets
             for station in data.stations:
-- 
2.43.0


From 333184881be59c410bb3771de3635c06ed16d60c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:25 +0000
Subject: [PATCH 27/63] fix: interpolation of velocity slices between the grid
 nodes

---
 quakemigrate/lut/create_lut.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/quakemigrate/lut/create_lut.py b/quakemigrate/lut/create_lut.py
index 5c1b3b4..09d16b9 100644
--- a/quakemigrate/lut/create_lut.py
+++ b/quakemigrate/lut/create_lut.py
@@ -742,11 +742,15 @@ def _bilinear_interpolate(xz, xz_origin, xz_dimensions, traveltimes):
 
     """
 
+    # Get position in nodes from the origin of the grid (which is rounded on output)
+    xz = np.maximum((xz - xz_origin) / xz_dimensions, 0)
+
     # Get indices of the nearest node
-    i, k = np.floor((xz - xz_origin) / xz_dimensions).astype(int).T
+    ik = np.floor(xz).astype(int)
+    i, k = ik.T
 
     # Get fractional distance along each axis
-    x_d, z_d = (np.remainder(xz, xz_dimensions) / xz_dimensions).T
+    x_d, z_d = (xz - ik).T
 
     # Get 4 data points of surrounding square
     c00 = traveltimes[i, k]
-- 
2.43.0


From fd9e2748322b872654229a77e4775aecc7ed45d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:26 +0000
Subject: [PATCH 28/63] fix: lookup tables read from NonLinLoc take the grid
 dimensions of the file

---
 quakemigrate/lut/create_lut.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/quakemigrate/lut/create_lut.py b/quakemigrate/lut/create_lut.py
index 09d16b9..b278509 100644
--- a/quakemigrate/lut/create_lut.py
+++ b/quakemigrate/lut/create_lut.py
@@ -98,6 +98,8 @@ def read_nlloc(
                     coord_proj=cproj,
                     fraction_tt=fraction_tt,
                 )
+                # The transforms are only accurate to rounding error
+                lut.node_count = node_count
             else:
                 _, _, traveltimes = _read_nlloc(file)
 
-- 
2.43.0


From 926bf0a3bb46ee240c929066c39a3d7c7ef7e36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:26 +0000
Subject: [PATCH 29/63] fix: projection parameters of NonLinLoc SIMPLE and
 TRANS_MERC grids

---
 quakemigrate/lut/create_lut.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/quakemigrate/lut/create_lut.py b/quakemigrate/lut/create_lut.py
index b278509..f79e12f 100644
--- a/quakemigrate/lut/create_lut.py
+++ b/quakemigrate/lut/create_lut.py
@@ -645,7 +645,9 @@ def _read_nlloc(fname, ignore_proj=False):
             orig_lon = float(line[5])
 
             # The simple projection is the Plate Carree/Equidistant Cylindrical
-            gproj = Proj(proj="eqc", lat_0=orig_lat, lon_0=orig_lon, units="km")
+            gproj = Proj(
+                proj="eqc", lat_0=orig_lat, lat_ts=orig_lat, lon_0=orig_lon, units="km"
+            )
         elif line[1] == "LAMBERT":
             proj_ellipsoid = line[3]
             orig_lat = float(line[5])
@@ -700,7 +702,7 @@ def _read_nlloc(fname, ignore_proj=False):
             orig_lat = float(line[5])
             orig_lon = float(line[7])
 
-            gproj = Proj(proj="tmerc", lon=orig_lon, lat=orig_lat, units="km")
+            gproj = Proj(proj="tmerc", lon_0=orig_lon, lat_0=orig_lat, units="km")
 
         transform = [gproj, cproj, line[1]]
 
-- 
2.43.0


From c718e38c5329e3575a953071210ed94661aae88c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:26 +0000
Subject: [PATCH 30/63] fix: keep other files in the model directory when
 tidying up NonLinLoc grids

---
 quakemigrate/lut/create_lut.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/quakemigrate/lut/create_lut.py b/quakemigrate/lut/create_lut.py
index f79e12f..ed8f76e 100644
--- a/quakemigrate/lut/create_lut.py
+++ b/quakemigrate/lut/create_lut.py
@@ -523,7 +523,10 @@ def _compute_1d_nlloc(lut, phase, vmodel, **kwargs):
                 file.unlink()
 
     if not retain_nll_grids:
-        rmtree(cwd / "model")
+        for file in (cwd / "model").glob(f"layer.{phase}.mod.*"):
+            file.unlink()
+        if not os.listdir(cwd / "model"):
+            rmtree(cwd / "model")
         # Check time directory is empty before removing (might have saved grids from
         # previous runs)
         if not os.listdir(cwd / "time"):
-- 
2.43.0


From 9ea8d8b8886d4d9e801622c8c1a922071b82333e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:26 +0000
Subject: [PATCH 31/63] fix: missing phase in a 1-D velocity model for
 NonLinLoc raises InvalidVelocityModelHeader

---
 quakemigrate/lut/create_lut.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/quakemigrate/lut/create_lut.py b/quakemigrate/lut/create_lut.py
index ed8f76e..b3ffa6b 100644
--- a/quakemigrate/lut/create_lut.py
+++ b/quakemigrate/lut/create_lut.py
@@ -426,6 +426,9 @@ def _compute_1d_nlloc(lut, phase, vmodel, **kwargs):
 
     Raises
     ------
+    InvalidVelocityModelHeader
+        If the velocity model does not contain the key corresponding to the specified
+        seismic `phase`. (E.g. "Vp" for "P" phase.)
     FileNotFoundError
         If the Vel2Grid and/or Grid2Time executables are not found in the `nlloc_path`.
     Exception
@@ -435,6 +438,10 @@ def _compute_1d_nlloc(lut, phase, vmodel, **kwargs):
 
     from subprocess import check_output, STDOUT
 
+    for column in ["Depth", f"V{phase.lower()}"]:
+        if column not in vmodel.columns:
+            raise util.InvalidVelocityModelHeader(column)
+
     # Unpack kwargs
     nlloc_dx = kwargs.get("nlloc_dx", 0.1)
     nlloc_path = pathlib.Path(kwargs.get("nlloc_path", ""))
-- 
2.43.0


From 26921adbb320c4dbee2aaec9e69f44a8ac79ecb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:26 +0000
Subject: [PATCH 32/63] fix: station file headers are checked for all required
 columns

---
 quakemigrate/io/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quakemigrate/io/core.py b/quakemigrate/io/core.py
index 99f1463..b5e2a6b 100644
--- a/quakemigrate/io/core.py
+++ b/quakemigrate/io/core.py
@@ -89,7 +89,8 @@ def read_stations(station_file, **kwargs):
 
     stn_data = pd.read_csv(station_file, **kwargs)
 
-    if ("Latitude" or "Longitude" or "Elevation" or "Name") not in stn_data.columns:
+    required = ["Latitude", "Longitude", "Elevation", "Name"]
+    if not all(column in stn_data.columns for column in required):
         raise util.StationFileHeaderException
 
     stn_data["Elevation"] = stn_data["Elevation"].apply(lambda x: -1 * x)
-- 
2.43.0


From 0e9644f8947a825f3c52ae16a2234c976690e527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:26 +0000
Subject: [PATCH 33/63] fix: station names are read as written

---
 quakemigrate/io/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/quakemigrate/io/core.py b/quakemigrate/io/core.py
index b5e2a6b..ecfce8c 100644
--- a/quakemigrate/io/core.py
+++ b/quakemigrate/io/core.py
@@ -87,6 +87,8 @@ def read_stations(station_file, **kwargs):
 
     """
 
+    # Ensure station names are read exactly as written (e.g. "001", "NA")
+    kwargs.setdefault("converters", {"Name": str})
     stn_data = pd.read_csv(station_file, **kwargs)
 
     required = ["Latitude", "Longitude", "Elevation", "Name"]
-- 
2.43.0


From bfefe8cda8f49fffa30336d8e6e209b851d7f8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:26 +0000
Subject: [PATCH 34/63] fix: locate with only one of starttime and endtime
 raises RuntimeError

---
 quakemigrate/signal/scan.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/quakemigrate/signal/scan.py b/quakemigrate/signal/scan.py
index 17193ea..92157fb 100755
--- a/quakemigrate/signal/scan.py
+++ b/quakemigrate/signal/scan.py
@@ -373,14 +373,14 @@ class QuakeScan:
         self.run.stage = "locate"
         self.run.logger(self.log)
 
-        if not (starttime is None and endtime is None):
-            starttime, endtime = UTCDateTime(starttime), UTCDateTime(endtime)
-            if starttime > endtime:
-                raise util.TimeSpanException
         if trigger_file is None and starttime is None and endtime is None:
             raise RuntimeError("Must supply an input argument.")
         if (starttime is None) ^ (endtime is None):
             raise RuntimeError("Must supply a starttime AND an endtime.")
+        if starttime is not None:
+            starttime, endtime = UTCDateTime(starttime), UTCDateTime(endtime)
+            if starttime > endtime:
+                raise util.TimeSpanException
 
         logging.info(util.log_spacer)
         logging.info("\tLOCATE - Determining event location and uncertainty")
-- 
2.43.0


From fa092c7f908e399eb7f39f9b1319a1cd10d4a858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:26 +0000
Subject: [PATCH 35/63] fix: check the minimum event interval against the
 marginal window used

---
 quakemigrate/signal/trigger.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/quakemigrate/signal/trigger.py b/quakemigrate/signal/trigger.py
index 9b9c199..671db84 100755
--- a/quakemigrate/signal/trigger.py
+++ b/quakemigrate/signal/trigger.py
@@ -292,12 +292,17 @@ class Trigger:
         ------
         TimeSpanException
             If `starttime` is after `endtime`.
+        ValueError
+            If `min_event_interval` < 2 * `marginal_window`.
 
         """
 
         starttime, endtime = UTCDateTime(starttime), UTCDateTime(endtime)
         if starttime > endtime:
             raise util.TimeSpanException
+        # The marginal window may have been changed since the interval was set
+        if self.min_event_interval < 2 * self.marginal_window:
+            raise ValueError("\tMinimum event interval must be >= 2 * marginal window.")
 
         logging.info(util.log_spacer)
         logging.info("\tTRIGGER - Triggering events from .scanmseed")
-- 
2.43.0


From 2c23fc57eea80717e370943daeb6880172bd15c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:26 +0000
Subject: [PATCH 36/63] fix: missing amplitude bandpass frequencies raise
 AttributeError

---
 quakemigrate/signal/local_mag/amplitude.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quakemigrate/signal/local_mag/amplitude.py b/quakemigrate/signal/local_mag/amplitude.py
index b74947a..1428163 100644
--- a/quakemigrate/signal/local_mag/amplitude.py
+++ b/quakemigrate/signal/local_mag/amplitude.py
@@ -117,8 +117,8 @@ class Amplitude:
         self.bandpass_filter = amplitude_params.get("bandpass_filter", False)
         if self.bandpass_filter:
             try:
-                self.bandpass_lowcut = amplitude_params.get("bandpass_lowcut")
-                self.bandpass_highcut = amplitude_params.get("bandpass_highcut")
+                self.bandpass_lowcut = amplitude_params["bandpass_lowcut"]
+                self.bandpass_highcut = amplitude_params["bandpass_highcut"]
             except KeyError as e:
                 raise AttributeError(f"Bandpass filter frequencies not specified! {e}")
         self.filter_corners = amplitude_params.get("filter_corners", 4)
-- 
2.43.0


From 4473d79f8038bc56478fb02c328908321e94dd0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:26 +0000
Subject: [PATCH 37/63] fix: export of a run that located no events

---
 quakemigrate/export/to_obspy.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/quakemigrate/export/to_obspy.py b/quakemigrate/export/to_obspy.py
index af8b301..ad396d5 100644
--- a/quakemigrate/export/to_obspy.py
+++ b/quakemigrate/export/to_obspy.py
@@ -71,6 +71,7 @@ def read_quakemigrate(run_dir, units, run_subname="", local_mag_ph="S"):
     locate_dir = pathlib.Path(run_dir) / "locate" / run_subname
     events_dir = locate_dir / "events"
 
+    event_files = []
     if events_dir.is_dir():
         try:
             event_files = events_dir.glob("*.event")
-- 
2.43.0


From 09671c146ff1b217279192e3258fef6ef1a11612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:26 +0000
Subject: [PATCH 38/63] fix: station names in pick files are read as written

---
 quakemigrate/export/to_obspy.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/quakemigrate/export/to_obspy.py b/quakemigrate/export/to_obspy.py
index ad396d5..2b1502f 100644
--- a/quakemigrate/export/to_obspy.py
+++ b/quakemigrate/export/to_obspy.py
@@ -216,7 +216,10 @@ def _read_single_event(event_file, locate_dir, units, local_mag_ph):
     # --- Handle picks file ---
     pick_file = locate_dir / "picks" / event_uid
     if pick_file.with_suffix(".picks").is_file():
-        picks = pd.read_csv(pick_file.with_suffix(".picks"))
+        # Read station names exactly as written (e.g. "001", "NA")
+        picks = pd.read_csv(
+            pick_file.with_suffix(".picks"), converters={"Station": str, "Phase": str}
+        )
     else:
         return None
 
-- 
2.43.0


From 87f17c4698bfad9d164b29a525b1b504c3c4b153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:26 +0000
Subject: [PATCH 39/63] fix: export events without a local magnitude

---
 quakemigrate/export/to_obspy.py | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/quakemigrate/export/to_obspy.py b/quakemigrate/export/to_obspy.py
index 2b1502f..4313c74 100644
--- a/quakemigrate/export/to_obspy.py
+++ b/quakemigrate/export/to_obspy.py
@@ -284,7 +284,7 @@ def _read_single_event(event_file, locate_dir, units, local_mag_ph):
                 except KeyError:
                     pass
 
-                if phase[0] == local_mag_ph and not pd.isna(ampsline["ML"]):
+                if phase[0] == local_mag_ph and not pd.isna(ampsline.get("ML")):
                     i += 1
                     stat_mag = StationMagnitude()
                     stat_mag.extra = AttribDict()
@@ -310,17 +310,19 @@ def _read_single_event(event_file, locate_dir, units, local_mag_ph):
 
                 event.amplitudes.append(amp)
 
-        mag = Magnitude()
-        mag.extra = AttribDict()
-        mag.mag = event_info["ML"]
-        mag.mag_errors.uncertainty = event_info["ML_Err"]
-        mag.magnitude_type = "ML"
-        # mag.origin_id = ?
-        mag.station_count = i
-        mag.evaluation_mode = "automatic"
-        mag.extra.r2 = {"value": event_info["ML_r2"], "namespace": ns}
-
-        event.magnitudes = [mag]
-        event.preferred_magnitude_id = mag.resource_id
+        # There may be no magnitude, if no amplitude measurements could be used
+        if not pd.isna(event_info.get("ML")):
+            mag = Magnitude()
+            mag.extra = AttribDict()
+            mag.mag = event_info["ML"]
+            mag.mag_errors.uncertainty = event_info["ML_Err"]
+            mag.magnitude_type = "ML"
+            # mag.origin_id = ?
+            mag.station_count = i
+            mag.evaluation_mode = "automatic"
+            mag.extra.r2 = {"value": event_info["ML_r2"], "namespace": ns}
+
+            event.magnitudes = [mag]
+            event.preferred_magnitude_id = mag.resource_id
 
     return event
-- 
2.43.0


From 93fe88573ce6a943b8bef817d8e348b765f62139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:26 +0000
Subject: [PATCH 40/63] fix: fractional seconds in Snuffler marker files

---
 quakemigrate/export/to_snuffler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quakemigrate/export/to_snuffler.py b/quakemigrate/export/to_snuffler.py
index c578a6d..7f33409 100644
--- a/quakemigrate/export/to_snuffler.py
+++ b/quakemigrate/export/to_snuffler.py
@@ -98,7 +98,7 @@ def snuffler_markers(event, output_path, filename=None):
         hr=str(origin.time.hour).zfill(2),
         min=str(origin.time.minute).zfill(2),
         sec=str(origin.time.second).zfill(2),
-        msec=origin.time.microsecond,
+        msec=str(origin.time.microsecond).zfill(6),
         eventid=str(event.resource_id),
     )
 
@@ -118,7 +118,7 @@ def snuffler_markers(event, output_path, filename=None):
                 hr=str(pick.time.hour).zfill(2),
                 min=str(pick.time.minute).zfill(2),
                 sec=str(pick.time.second).zfill(2),
-                msec=pick.time.microsecond,
+                msec=str(pick.time.microsecond).zfill(6),
                 nw=pick.waveform_id.network_code,
                 stat=pick.waveform_id.station_code,
                 comp=comp,
-- 
2.43.0


From b9dcd531c1e14759aa62acffb122b302b3df6797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:26 +0000
Subject: [PATCH 41/63] fix: Snuffler markers of phases other than P and S

---
 quakemigrate/export/to_snuffler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/quakemigrate/export/to_snuffler.py b/quakemigrate/export/to_snuffler.py
index 7f33409..abb3829 100644
--- a/quakemigrate/export/to_snuffler.py
+++ b/quakemigrate/export/to_snuffler.py
@@ -111,6 +111,8 @@ def snuffler_markers(event, output_path, filename=None):
                 comp = "BHZ"
             elif pick.phase_hint == "S":
                 comp = "BHN"
+            else:
+                comp = ""
             line = line_template.format(
                 year=pick.time.year,
                 month=str(pick.time.month).zfill(2),
-- 
2.43.0


From cea2d594b0932163661954761966205596593c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:26 +0000
Subject: [PATCH 42/63] fix: Snuffler station file takes each station's own
 network code

---
 quakemigrate/export/to_snuffler.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/quakemigrate/export/to_snuffler.py b/quakemigrate/export/to_snuffler.py
index abb3829..f96c4ec 100644
--- a/quakemigrate/export/to_snuffler.py
+++ b/quakemigrate/export/to_snuffler.py
@@ -37,14 +37,16 @@ def snuffler_stations(stations, output_path, filename, network_code=None):
 
     with output.open(mode="w") as f:
         for i, station in stations.iterrows():
-            if network_code is None:
+            if network_code is not None:
+                network = network_code
+            else:
                 try:
-                    network_code = station["Network"]
+                    network = station["Network"]
                 except KeyError:
-                    network_code = ""
+                    network = ""
 
             line = line_template.format(
-                nw=network_code,
+                nw=network,
                 stat=station["Name"],
                 lat=station["Latitude"],
                 lon=station["Longitude"],
-- 
2.43.0


From 4ccd000cc75e602f6c13321c0dbfd9ec63b56496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:26 +0000
Subject: [PATCH 43/63] fix: do not write modelled arrivals as picks for MFAST

---
 quakemigrate/export/to_mfast.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/quakemigrate/export/to_mfast.py b/quakemigrate/export/to_mfast.py
index ee45c67..0a22857 100644
--- a/quakemigrate/export/to_mfast.py
+++ b/quakemigrate/export/to_mfast.py
@@ -88,6 +88,9 @@ def sac_mfast(event, stations, output_path, units, filename=None):
         # Get relevant picks here
         picks = []
         for pick in event.picks:
+            # Modelled arrival times are not phase picks
+            if pick.method_id == "modelled":
+                continue
             if pick.waveform_id.station_code == station.Name:
                 picks.append(pick)
 
-- 
2.43.0


From 07d5f76dc60c5b7089137809ff5bc5a33bbcb93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:26 +0000
Subject: [PATCH 44/63] fix: skip stations without waveforms in the MFAST
 export

---
 quakemigrate/export/to_mfast.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quakemigrate/export/to_mfast.py b/quakemigrate/export/to_mfast.py
index 0a22857..7c5d1d7 100644
--- a/quakemigrate/export/to_mfast.py
+++ b/quakemigrate/export/to_mfast.py
@@ -94,8 +94,8 @@ def sac_mfast(event, stations, output_path, units, filename=None):
             if pick.waveform_id.station_code == station.Name:
                 picks.append(pick)
 
-        if not picks:
-            # If no phase picks for this station, continue
+        if not picks or not st:
+            # If no phase picks (or no waveforms) for this station, continue
             continue
 
         reference = st[0].stats.starttime
-- 
2.43.0


From 50eb102a26f3f27489565402a986ffb22e989818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:26 +0000
Subject: [PATCH 45/63] fix: times in MFAST SAC headers are relative to the
 file's reference time

---
 quakemigrate/export/to_mfast.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/quakemigrate/export/to_mfast.py b/quakemigrate/export/to_mfast.py
index 7c5d1d7..88bee3e 100644
--- a/quakemigrate/export/to_mfast.py
+++ b/quakemigrate/export/to_mfast.py
@@ -98,28 +98,22 @@ def sac_mfast(event, stations, output_path, units, filename=None):
             # If no phase picks (or no waveforms) for this station, continue
             continue
 
-        reference = st[0].stats.starttime
-        origin_time = origin.time - reference
-        p_pick = s_pick = 0
+        p_pick = s_pick = None
         for pick in picks:
             if pick.phase_hint == "P":
-                p_pick = pick.time - reference
+                p_pick = pick.time
             elif pick.phase_hint == "S":
-                s_pick = pick.time - reference
+                s_pick = pick.time
 
-        if s_pick == 0:
+        if s_pick is None:
             continue
 
         # Set pick error (think about good bounds?)
         kt5 = 1
 
         pick_header = AttribDict()
-        pick_header.t0 = s_pick
         pick_header.kt5 = str(kt5)
         pick_header.kt0 = str(kt5)
-        pick_header.o = origin_time
-        if p_pick != 0:
-            pick_header.a = p_pick
 
         for comp in ["Z", "N", "E"]:
             tr = st.select(channel=f"*{comp}")[0]
@@ -130,6 +124,13 @@ def sac_mfast(event, stations, output_path, units, filename=None):
             tr.write(name, format="SAC")
             tr = read(name)[0]
 
+            # Times in the header are relative to the reference time of this file
+            reference = tr.stats.starttime - tr.stats.sac.b
+            pick_header.t0 = s_pick - reference
+            pick_header.o = origin.time - reference
+            if p_pick is not None:
+                pick_header.a = p_pick - reference
+
             sac_header = AttribDict()
             sac_header.cmpaz = str(cmpaz[comp])
             sac_header.cmpinc = str(cmpinc[comp])
-- 
2.43.0


From d110f1b9272a5e900c0cce469856117d36b5f196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:26 +0000
Subject: [PATCH 46/63] fix: station elevation in MFAST SAC headers is in
 metres

---
 quakemigrate/export/to_mfast.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/quakemigrate/export/to_mfast.py b/quakemigrate/export/to_mfast.py
index 88bee3e..9fdc760 100644
--- a/quakemigrate/export/to_mfast.py
+++ b/quakemigrate/export/to_mfast.py
@@ -47,9 +47,9 @@ def sac_mfast(event, stations, output_path, units, filename=None):
 
     # Set distance conversion factor (from units of QM LUT projection units).
     if units == "km":
-        factor = 1
-    elif units == "m":
         factor = 1e3
+    elif units == "m":
+        factor = 1
     else:
         raise AttributeError(f"units must be 'km' or 'm'; not {units}")
 
@@ -75,7 +75,7 @@ def sac_mfast(event, stations, output_path, units, filename=None):
         station_header = AttribDict()
         station_header.stla = station.Latitude
         station_header.stlo = station.Longitude
-        station_header.stel = station.Elevation / factor  # convert to m
+        station_header.stel = station.Elevation * factor  # convert to m
 
         # Calculate the distance and azimuth between event and station
         dist, az, _ = gps2dist_azimuth(
-- 
2.43.0


From ef497ff3f854df68eb7a46014d50f5ceb227252a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:15 +0000
Subject: [PATCH 47/63] fix: velocity cut waveforms are not replaced by the
 displacement made for the magnitude

---
 quakemigrate/io/cut_waveforms.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/quakemigrate/io/cut_waveforms.py b/quakemigrate/io/cut_waveforms.py
index 072321d..0f5c0ae 100644
--- a/quakemigrate/io/cut_waveforms.py
+++ b/quakemigrate/io/cut_waveforms.py
@@ -105,8 +105,10 @@ def write_cut_waveforms(
             st.remove(tr)
 
     if waveform_type == "real" or waveform_type == "wa":
+        # NOTE: waveforms made for the magnitude calculation are displacement
         if (
             waveform_type == "real"
+            and units != "velocity"
             and isinstance(event.data.real_waveforms, Stream)
             and not pre_cut
             and not post_cut
@@ -114,6 +116,7 @@ def write_cut_waveforms(
             st = event.data.real_waveforms
         elif (
             waveform_type == "wa"
+            and units != "velocity"
             and isinstance(event.data.wa_waveforms, Stream)
             and not pre_cut
             and not post_cut
-- 
2.43.0


From 4df76bb4e706090188f38ce53fc645f60fbf59ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:15 +0000
Subject: [PATCH 48/63] fix: a scan uses its own lookup table's padding when
 the onset is shared

---
 quakemigrate/signal/scan.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/quakemigrate/signal/scan.py b/quakemigrate/signal/scan.py
index 92157fb..46ab316 100755
--- a/quakemigrate/signal/scan.py
+++ b/quakemigrate/signal/scan.py
@@ -422,6 +422,8 @@ class QuakeScan:
             self.run, self.continuous_scanmseed_write, self.scan_rate
         )
 
+        # The onset object may be shared with a scan that uses another lookup table
+        self.onset.post_pad = self.lut.max_traveltime
         self.pre_pad, self.post_pad = self.onset.pad(self.timestep)
         availability_cols = np.array(
             [
@@ -491,6 +493,8 @@ class QuakeScan:
         triggered_events = read_triggered_events(self.run, **kwargs)
         n_events = len(triggered_events.index)
 
+        # The onset object may be shared with a scan that uses another lookup table
+        self.onset.post_pad = self.lut.max_traveltime
         self.pre_pad, self.post_pad = self.onset.pad(4 * self.marginal_window)
 
         for i, triggered_event in triggered_events.iterrows():
-- 
2.43.0


From 7d800174d738cf909fc956cab4653140dfa863f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:15 +0000
Subject: [PATCH 49/63] fix: a trigger run without candidates removes the day's
 events of an earlier run

---
 quakemigrate/io/__init__.py         |  6 +++++-
 quakemigrate/io/triggered_events.py | 20 ++++++++++++++++++++
 quakemigrate/signal/trigger.py      |  8 +++++++-
 3 files changed, 32 insertions(+), 2 deletions(-)

diff --git a/quakemigrate/io/__init__.py b/quakemigrate/io/__init__.py
index 2893351..eeed740 100755
--- a/quakemigrate/io/__init__.py
+++ b/quakemigrate/io/__init__.py
@@ -45,4 +45,8 @@ from .coalescence import (
     read_coalescence,  # NOQA
 )
 from .scanmseed import ScanmSEED, read_scanmseed  # NOQA
-from .triggered_events import read_triggered_events, write_triggered_events  # NOQA
+from .triggered_events import (
+    read_triggered_events,  # NOQA
+    remove_triggered_events,  # NOQA
+    write_triggered_events,  # NOQA
+)
diff --git a/quakemigrate/io/triggered_events.py b/quakemigrate/io/triggered_events.py
index 1436ec1..22d6749 100644
--- a/quakemigrate/io/triggered_events.py
+++ b/quakemigrate/io/triggered_events.py
@@ -136,3 +136,23 @@ def write_triggered_events(run, events, starttime, write_event_time_windows):
     fstem = f"{run.name}_{starttime.year}_{starttime.julday:03d}"
     file = (fpath / f"{fstem}_TriggeredEvents").with_suffix(".csv")
     events.to_csv(file, index=False)
+
+
+def remove_triggered_events(run, starttime):
+    """
+    Remove the triggered events .csv file left for this day by an earlier run, if any.
+
+    Parameters
+    ----------
+    run : :class:`~quakemigrate.io.core.Run` object
+        Light class encapsulating i/o path information for a given run.
+    starttime : `obspy.UTCDateTime` object
+        Timestamp from which no events have been triggered.
+
+    """
+
+    fpath = run.path / "trigger" / run.subname / "events"
+
+    fstem = f"{run.name}_{starttime.year}_{starttime.julday:03d}"
+    file = (fpath / f"{fstem}_TriggeredEvents").with_suffix(".csv")
+    file.unlink(missing_ok=True)
diff --git a/quakemigrate/signal/trigger.py b/quakemigrate/signal/trigger.py
index 671db84..08d2253 100755
--- a/quakemigrate/signal/trigger.py
+++ b/quakemigrate/signal/trigger.py
@@ -18,7 +18,12 @@ from obspy import UTCDateTime
 import pandas as pd
 from scipy.ndimage import gaussian_filter1d
 
-from quakemigrate.io import Run, read_scanmseed, write_triggered_events
+from quakemigrate.io import (
+    Run,
+    read_scanmseed,
+    remove_triggered_events,
+    write_triggered_events,
+)
 from quakemigrate.plot import trigger_summary
 import quakemigrate.util as util
 
@@ -366,6 +371,7 @@ class Trigger:
             )
             events = candidate_events
             discarded = candidate_events
+            remove_triggered_events(self.run, batchstart)
         else:
             refined_events = self._refine_candidates(candidate_events)
             logging.debug(refined_events)
-- 
2.43.0


From 39fded4624dfc65c354518cbb5bf70f7ee7edb68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:15 +0000
Subject: [PATCH 50/63] fix: NonLinLoc grids are placed with the reference
 ellipsoid of their header

---
 quakemigrate/lut/create_lut.py | 86 ++++++++++++++++++++--------------
 1 file changed, 50 insertions(+), 36 deletions(-)

diff --git a/quakemigrate/lut/create_lut.py b/quakemigrate/lut/create_lut.py
index b3ffa6b..b673e80 100644
--- a/quakemigrate/lut/create_lut.py
+++ b/quakemigrate/lut/create_lut.py
@@ -659,45 +659,12 @@ def _read_nlloc(fname, ignore_proj=False):
                 proj="eqc", lat_0=orig_lat, lat_ts=orig_lat, lon_0=orig_lon, units="km"
             )
         elif line[1] == "LAMBERT":
-            proj_ellipsoid = line[3]
+            proj_ellipsoid = _nlloc_ellipsoid(line[3])
             orig_lat = float(line[5])
             orig_lon = float(line[7])
             parallel_1 = float(line[9])
             parallel_2 = float(line[11])
 
-            if proj_ellipsoid == "WGS-84":
-                proj_ellipsoid = "WGS84"
-            elif proj_ellipsoid == "GRS-80":
-                proj_ellipsoid = "GRS80"
-            elif proj_ellipsoid == "WGS-72":
-                proj_ellipsoid = "WGS72"
-            elif proj_ellipsoid == "Australian":
-                proj_ellipsoid = "aust_SA"
-            elif proj_ellipsoid == "Krasovsky":
-                proj_ellipsoid = "krass"
-            elif proj_ellipsoid == "International":
-                proj_ellipsoid = "intl"
-            elif proj_ellipsoid == "Hayford-1909":
-                proj_ellipsoid = "intl"
-            elif proj_ellipsoid == "Clarke-1880":
-                proj_ellipsoid = "clrk80"
-            elif proj_ellipsoid == "Clarke-1866":
-                proj_ellipsoid = "clrk66"
-            elif proj_ellipsoid == "Airy":
-                proj_ellipsoid = "airy"
-            elif proj_ellipsoid == "Bessel":
-                proj_ellipsoid = "bessel"
-            elif proj_ellipsoid == "Hayford-1830":
-                proj_ellipsoid = "evrst30"
-            elif proj_ellipsoid == "Sphere":
-                proj_ellipsoid = "sphere"
-            else:
-                logging.info(
-                    f"Projection Ellipsoid {proj_ellipsoid} not supported!\n\tPlease "
-                    "notify the QuakeMigrate developers.\n\n\tWGS-84 used instead...\n"
-                )
-                proj_ellipsoid = "WGS84"
-
             gproj = Proj(
                 proj="lcc",
                 lon_0=orig_lon,
@@ -706,13 +673,19 @@ def _read_nlloc(fname, ignore_proj=False):
                 lat_2=parallel_2,
                 units="km",
                 ellps=proj_ellipsoid,
-                datum="WGS84",
             )
         elif line[1] == "TRANS_MERC":
+            proj_ellipsoid = _nlloc_ellipsoid(line[3])
             orig_lat = float(line[5])
             orig_lon = float(line[7])
 
-            gproj = Proj(proj="tmerc", lon_0=orig_lon, lat_0=orig_lat, units="km")
+            gproj = Proj(
+                proj="tmerc",
+                lon_0=orig_lon,
+                lat_0=orig_lat,
+                units="km",
+                ellps=proj_ellipsoid,
+            )
 
         transform = [gproj, cproj, line[1]]
 
@@ -727,6 +700,47 @@ def _read_nlloc(fname, ignore_proj=False):
     return gridspec, transform, traveltimes
 
 
+def _nlloc_ellipsoid(name):
+    """
+    Translate the name of a reference ellipsoid in NonLinLoc to its name in PROJ.
+
+    Parameters
+    ----------
+    name : str
+        Name of the ellipsoid, as given in the header of a NonLinLoc grid file.
+
+    Returns
+    -------
+    ellipsoid : str
+        Name of the ellipsoid in PROJ; "WGS84" if it is not supported.
+
+    """
+
+    ellipsoids = {
+        "WGS-84": "WGS84",
+        "GRS-80": "GRS80",
+        "WGS-72": "WGS72",
+        "Australian": "aust_SA",
+        "Krasovsky": "krass",
+        "International": "intl",
+        "Hayford-1909": "intl",
+        "Clarke-1880": "clrk80",
+        "Clarke-1866": "clrk66",
+        "Airy": "airy",
+        "Bessel": "bessel",
+        "Hayford-1830": "evrst30",
+        "Sphere": "sphere",
+    }
+
+    if name not in ellipsoids:
+        logging.info(
+            f"Projection Ellipsoid {name} not supported!\n\tPlease "
+            "notify the QuakeMigrate developers.\n\n\tWGS-84 used instead...\n"
+        )
+
+    return ellipsoids.get(name, "WGS84")
+
+
 def _bilinear_interpolate(xz, xz_origin, xz_dimensions, traveltimes):
     """
     Perform a bi-linear interpolation between 4 data points on the input 2-D lookup
-- 
2.43.0


From e15dd2aa6d23ec7ed27b2d0395a64f486f8d3e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:32 +0000
Subject: [PATCH 51/63] fix: a span of whole time steps is not extended by
 floating point error

---
 quakemigrate/signal/scan.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/quakemigrate/signal/scan.py b/quakemigrate/signal/scan.py
index 46ab316..80931c2 100755
--- a/quakemigrate/signal/scan.py
+++ b/quakemigrate/signal/scan.py
@@ -324,8 +324,9 @@ class QuakeScan:
         if endtime.time == time(0, 0):
             endtime -= 1 / self.scan_rate
 
-        # Number of steps to break run duration into
-        n_steps = int(np.ceil((endtime - starttime) / self.timestep))
+        # Number of steps to break run duration into. Rounded, so that a duration which
+        # is a whole number of timesteps is not extended due to floating point precision
+        n_steps = int(np.ceil(round((endtime - starttime) / self.timestep, 9)))
 
         # Check if chosen start & endtimes and timestep are compatible
         calc_endtime = starttime + n_steps * self.timestep - 1 / self.scan_rate
-- 
2.43.0


From 77e6da51d87e71412d6ff49f011abaa2802ca219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:32 +0000
Subject: [PATCH 52/63] fix: QuakeScan accepts the deprecated sampling_rate
 argument

---
 quakemigrate/signal/scan.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quakemigrate/signal/scan.py b/quakemigrate/signal/scan.py
index 80931c2..d74792f 100755
--- a/quakemigrate/signal/scan.py
+++ b/quakemigrate/signal/scan.py
@@ -243,8 +243,8 @@ class QuakeScan:
         # General QuakeScan parameters
         self.threads = kwargs.get("threads", 1)
         self.n_cores = kwargs.get("n_cores")  # DEPRECATING
-        self.sampling_rate = kwargs.get("sampling_rate")  # DEPRECATING
         self.scan_rate = self.onset.sampling_rate
+        self.sampling_rate = kwargs.get("sampling_rate")  # DEPRECATING
 
         # Magnitudes
         mags = kwargs.get("mags")
-- 
2.43.0


From 8dbac4eca502425e05cdf16acff2020addc06e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:32 +0000
Subject: [PATCH 53/63] fix: update_lut keeps the phases and fraction_tt stored
 in the file

---
 quakemigrate/lut/__init__.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/quakemigrate/lut/__init__.py b/quakemigrate/lut/__init__.py
index 35b87cf..9b4cb28 100644
--- a/quakemigrate/lut/__init__.py
+++ b/quakemigrate/lut/__init__.py
@@ -55,8 +55,6 @@ def update_lut(old_lut_file, save_file):
         del lut.maps
     except AttributeError:
         pass
-    lut.phases = ["P", "S"]
-    lut.fraction_tt = 0.1
     try:
         lut.node_spacing = lut.cell_size
         lut.node_count = lut.cell_count
-- 
2.43.0


From f3fcf41e988413a3d170d3626f16012281dd0f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:29 +0000
Subject: [PATCH 54/63] fix: plots work when only the used phase is in the
 channel maps

---
 quakemigrate/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quakemigrate/util.py b/quakemigrate/util.py
index 28697ff..fe6c25c 100644
--- a/quakemigrate/util.py
+++ b/quakemigrate/util.py
@@ -709,8 +709,8 @@ def get_phase_component_strings(channel_maps):
 
     """
 
-    p_comps = list(channel_maps["P"].strip("*").strip("[").strip("]"))[::2]
-    s_comps = list(channel_maps["S"].strip("*").strip("[").strip("]"))[::2]
+    p_comps = list(channel_maps.get("P", "").strip("*").strip("[").strip("]"))[::2]
+    s_comps = list(channel_maps.get("S", "").strip("*").strip("[").strip("]"))[::2]
     p_str, s_str_1, s_str_2 = "", "", ""
     for p_comp in p_comps:
         p_str += f"{p_comp},"
-- 
2.43.0


From 61e00680321c56b24cc4393b3b572a239890e57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:29 +0000
Subject: [PATCH 55/63] fix: trigger summary counts stations, not phases, when
 there are more than two phases

---
 quakemigrate/plot/trigger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quakemigrate/plot/trigger.py b/quakemigrate/plot/trigger.py
index 03e4a54..5397ef6 100644
--- a/quakemigrate/plot/trigger.py
+++ b/quakemigrate/plot/trigger.py
@@ -240,9 +240,9 @@ def _plot_station_availability(ax, availability, endtime):
             "\t\t    Only P and/or S are currently supported! "
             "Plotting by station only."
         )
+        divideby = len(phases)
         phases = ["*"]
         colours = ["green"]
-        divideby = len(phases)
     elif len(phases) == 1:
         if phases[0] == "P":
             colours = ["#F03B20"]
-- 
2.43.0


From 69ca01ff3debd5b615943c83833caa6f4ea00f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:29 +0000
Subject: [PATCH 56/63] fix: event summary shows the uncertainty of tables in
 metres

---
 quakemigrate/plot/event.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quakemigrate/plot/event.py b/quakemigrate/plot/event.py
index f37bc45..b3b61b2 100644
--- a/quakemigrate/plot/event.py
+++ b/quakemigrate/plot/event.py
@@ -340,7 +340,7 @@ def _plot_text_summary(ax, lut, event):
     precision.append(max((lut.precision[2] + 2), 0 + unit_correction))
 
     hypocentre = [round(dimh, dimp) for dimh, dimp in zip(event.hypocentre, precision)]
-    gau_unc = [round(dim, precision[2]) for dim in event.loc_uncertainty / km_cf]
+    gau_unc = [round(dim, precision[2]) / km_cf for dim in event.loc_uncertainty]
     hypo = (
         f"{hypocentre[1]}\u00b0N \u00b1 {gau_unc[1]} km\n"
         f"{hypocentre[0]}\u00b0E \u00b1 {gau_unc[0]} km\n"
-- 
2.43.0


From 31458a6c0440969c289a8cb29347304f65fe4583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:29 +0000
Subject: [PATCH 57/63] fix: pick plots show each phase in its own column
 whatever the order of the phases

---
 quakemigrate/plot/phase_picks.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/quakemigrate/plot/phase_picks.py b/quakemigrate/plot/phase_picks.py
index 62ed745..adea587 100644
--- a/quakemigrate/plot/phase_picks.py
+++ b/quakemigrate/plot/phase_picks.py
@@ -99,8 +99,11 @@ def pick_summary(
     times = waveforms[0].times(type="utcdatetime")
     dtimes = [x.datetime for x in times]
 
-    phases = [phase for phase, _ in onsets.items()]
-    onsets = [onset for _, onset in onsets.items()]
+    # The P phase is always shown on the left, whatever the order of the phases
+    ttimes = [tt for _, tt in sorted(zip(onsets.keys(), ttimes))]
+    picks = picks.sort_values("Phase", ignore_index=True)
+    phases = sorted(onsets.keys())
+    onsets = [onsets[phase] for phase in phases]
 
     # --- Calculate plotting window ---
     # Estimate suitable windows based on ttimes
-- 
2.43.0


From b9624c2cb0ffae8b0c926740e6d66c12f44ac64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:29 +0000
Subject: [PATCH 58/63] fix: amplitude plots label stations with a single
 trace, and each station once

---
 quakemigrate/plot/amplitudes.py | 94 ++++++---------------------------
 1 file changed, 16 insertions(+), 78 deletions(-)

diff --git a/quakemigrate/plot/amplitudes.py b/quakemigrate/plot/amplitudes.py
index c97b293..688b4b9 100644
--- a/quakemigrate/plot/amplitudes.py
+++ b/quakemigrate/plot/amplitudes.py
@@ -11,6 +11,8 @@ corrected displacement amplitude measurements.
 
 """
 
+from itertools import groupby
+
 import matplotlib.pyplot as plt
 import numpy as np
 import pandas as pd
@@ -201,84 +203,20 @@ def label_stations(ax, tr_ids, amps, dists, rejected=False):
 
     """
 
-    stn = None
     stns = []
-    comps = []
-    for i, tr_id in enumerate(tr_ids):
-        if not stn:
-            stn = tr_id[:-1]
-            stn_start = 0
-            comps.append(tr_id[-1])
-            continue
-        elif tr_id[:-1] != stn:
-            stn_end = i
-            distance = dists.iloc[i - 1]
-            amp = max(amps[stn_start:stn_end])
-            compstring = ""
-            for comp in comps:
-                compstring += f"{comp},"
-            label = f"{stn}[{compstring[:-1]}]"
-            if not rejected:
-                ax.annotate(
-                    label, (distance, amp), ha="center", va="bottom", fontsize=8
-                )
-            else:
-                ax.annotate(
-                    label,
-                    (distance, amp),
-                    color="gray",
-                    ha="center",
-                    va="bottom",
-                    fontsize=8,
-                )
-            stns.append(stn)
-            stn = tr_id[:-1]
-            stn_start = i
-            comps = [tr_id[-1]]
-            if i == len(tr_ids) - 1:
-                distance = dists.iloc[i]
-                amp = max(amps[stn_start:])
-                compstring = ""
-                for comp in comps:
-                    compstring += f"{comp},"
-                label = f"{stn}[{compstring[:-1]}]"
-                if not rejected:
-                    ax.annotate(
-                        label, (distance, amp), ha="center", va="bottom", fontsize=8
-                    )
-                else:
-                    ax.annotate(
-                        label,
-                        (distance, amp),
-                        color="gray",
-                        ha="center",
-                        va="bottom",
-                        fontsize=8,
-                    )
-        elif i == len(tr_ids) - 1:
-            stn = tr_id[:-1]
-            comps.append(tr_id[-1])
-            distance = dists.iloc[i]
-            amp = max(amps[stn_start:])
-            compstring = ""
-            for comp in comps:
-                compstring += f"{comp},"
-            label = f"{stn}[{compstring[:-1]}]"
-            if not rejected:
-                ax.annotate(
-                    label, (distance, amp), ha="center", va="bottom", fontsize=8
-                )
-            else:
-                ax.annotate(
-                    label,
-                    (distance, amp),
-                    color="gray",
-                    ha="center",
-                    va="bottom",
-                    fontsize=8,
-                )
-            stns.append(stn)
-        else:
-            comps.append(tr_id[-1])
+    for stn, group in groupby(range(len(tr_ids)), key=lambda i: tr_ids[i][:-1]):
+        group = list(group)
+        comps = ",".join(tr_ids[i][-1] for i in group)
+        distance = dists.iloc[group[-1]]
+        amp = max(amps.iloc[group])
+        ax.annotate(
+            f"{stn}[{comps}]",
+            (distance, amp),
+            color="gray" if rejected else None,
+            ha="center",
+            va="bottom",
+            fontsize=8,
+        )
+        stns.append(stn)
 
     return ax, stns
-- 
2.43.0


From 27d968210e397f52da491f8d4b6c015ef8b96026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:16 +0000
Subject: [PATCH 59/63] fix: skip missing components of a station in the MFAST
 export

---
 quakemigrate/export/to_mfast.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/quakemigrate/export/to_mfast.py b/quakemigrate/export/to_mfast.py
index 9fdc760..18780f1 100644
--- a/quakemigrate/export/to_mfast.py
+++ b/quakemigrate/export/to_mfast.py
@@ -116,7 +116,11 @@ def sac_mfast(event, stations, output_path, units, filename=None):
         pick_header.kt0 = str(kt5)
 
         for comp in ["Z", "N", "E"]:
-            tr = st.select(channel=f"*{comp}")[0]
+            channel = st.select(channel=f"*{comp}")
+            if not channel:
+                # If no waveforms for this component, continue
+                continue
+            tr = channel[0]
 
             # Write out to SAC file, then read in again to fill header
             name = filename.format(station.Name, comp.lower())
-- 
2.43.0


From 872f7677faae8c0527ef5582e4c6a393e3ddd5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:16 +0000
Subject: [PATCH 60/63] fix: convert poles and zeros given in Hz to angular
 frequency for response removal

---
 quakemigrate/io/data.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/quakemigrate/io/data.py b/quakemigrate/io/data.py
index c6a360e..5b28848 100755
--- a/quakemigrate/io/data.py
+++ b/quakemigrate/io/data.py
@@ -14,6 +14,7 @@ from itertools import chain
 import logging
 import pathlib
 
+import numpy as np
 from obspy import read, Stream, UTCDateTime
 
 import quakemigrate.util as util
@@ -697,14 +698,22 @@ class WaveformData:
 
             # Get the instrument transfer function as a PAZ dictionary
             paz = response.get_paz()
+            poles, zeros = list(paz.poles), list(paz.zeros)
+            gain = paz.normalization_factor
+
+            # Poles and zeros may be in Hz; convert to angular frequency
+            if paz.pz_transfer_function_type == "LAPLACE (HERTZ)":
+                gain *= (2 * np.pi) ** (len(poles) - len(zeros))
+                poles = [2 * np.pi * complex(pole) for pole in poles]
+                zeros = [2 * np.pi * complex(zero) for zero in zeros]
 
             if not velocity:
-                paz.zeros.extend([0j])
+                zeros.append(0j)
 
             paz_dict = {
-                "poles": paz.poles,
-                "zeros": paz.zeros,
-                "gain": paz.normalization_factor,
+                "poles": poles,
+                "zeros": zeros,
+                "gain": gain,
                 "sensitivity": response.instrument_sensitivity.value,
             }
 
-- 
2.43.0


From fb40e083a632e1a0b3c5ddb3964d07c4a33054db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:16 +0000
Subject: [PATCH 61/63] fix: restored waveforms of accelerometers were
 acceleration in place of velocity or displacement

---
 quakemigrate/io/data.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/quakemigrate/io/data.py b/quakemigrate/io/data.py
index 5b28848..55070df 100755
--- a/quakemigrate/io/data.py
+++ b/quakemigrate/io/data.py
@@ -20,6 +20,11 @@ from obspy import read, Stream, UTCDateTime
 import quakemigrate.util as util
 
 
+# Units of the ground motion recorded by accelerometers, as they are named in response
+# files
+ACCELERATION_UNITS = ["M/S**2", "M/(S**2)", "M/SEC**2", "M/(SEC**2)", "M/S/S"]
+
+
 class Archive:
     """
     The Archive class handles the reading of archived waveform data.
@@ -707,6 +712,10 @@ class WaveformData:
                 poles = [2 * np.pi * complex(pole) for pole in poles]
                 zeros = [2 * np.pi * complex(zero) for zero in zeros]
 
+            # The transfer function of an accelerometer is relative to acceleration
+            if str(paz.input_units).upper() in ACCELERATION_UNITS:
+                zeros.append(0j)
+
             if not velocity:
                 zeros.append(0j)
 
-- 
2.43.0


From bc9aaba732160c2557b094ee8571432e333097a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:10:44 +0000
Subject: [PATCH 62/63] fix: threshold windows were a sample short where their
 length in samples is inexact in floating point

---
 quakemigrate/signal/trigger.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/quakemigrate/signal/trigger.py b/quakemigrate/signal/trigger.py
index 08d2253..012fdd2 100755
--- a/quakemigrate/signal/trigger.py
+++ b/quakemigrate/signal/trigger.py
@@ -469,7 +469,9 @@ class Trigger:
                 window_length = self.mad_window_length
             else:
                 window_length = self.median_window_length
-            breaks = breaks[breaks % int(window_length * sampling_rate) == 0][1:]
+            # Round to suppress floating point error in the product
+            window_samples = int(round(window_length * sampling_rate, 6))
+            breaks = breaks[breaks % window_samples == 0][1:]
             chunks = np.split(scandata.values, breaks)
 
             # Calculate the median values
-- 
2.43.0


From caf556a8c0629e33958df3e3fa2a7d63712f0ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:10:44 +0000
Subject: [PATCH 63/63] fix: stations with an underscore in their name stopped
 detect, locate and the trigger figure

---
 quakemigrate/io/availability.py |  9 +++------
 quakemigrate/lut/lut.py         |  2 +-
 quakemigrate/plot/event.py      |  2 +-
 quakemigrate/plot/trigger.py    | 10 +++++-----
 4 files changed, 10 insertions(+), 13 deletions(-)

diff --git a/quakemigrate/io/availability.py b/quakemigrate/io/availability.py
index 59caf0c..490cb97 100644
--- a/quakemigrate/io/availability.py
+++ b/quakemigrate/io/availability.py
@@ -98,10 +98,8 @@ def _handle_old_structure(availability_in_file, permanent_conversion=False):
 
     availability_in = pd.read_csv(availability_in_file, index_col=0)
 
-    cols = [col_names.split("_") for col_names in availability_in.columns]
-
     # Check if station + phase are already in the column names
-    if len(cols[0]) == 2:
+    if all("_" in col_name for col_name in availability_in.columns):
         return availability_in
 
     availability_out = pd.DataFrame()
@@ -109,9 +107,8 @@ def _handle_old_structure(availability_in_file, permanent_conversion=False):
         "\t\tWarning: an availability file is in the old format - converting..."
     )
     for phase in "PS":
-        for stat in cols:
-            new_key = f"{stat[0]}_{phase}"
-            availability_out[new_key] = availability_in[stat[0]].values
+        for stat in availability_in.columns:
+            availability_out[f"{stat}_{phase}"] = availability_in[stat].values
     availability_out.index = availability_in.index
 
     if permanent_conversion:
diff --git a/quakemigrate/lut/lut.py b/quakemigrate/lut/lut.py
index 9cd2ff6..aa0be6c 100644
--- a/quakemigrate/lut/lut.py
+++ b/quakemigrate/lut/lut.py
@@ -531,7 +531,7 @@ class LUT(Grid3D):
         else:
             traveltimes = []
             for key, available in availability.items():
-                station, phase = key.split("_")
+                station, phase = key.rsplit("_", 1)
                 if available == 1:
                     try:
                         traveltimes.append(self[station][phase])
diff --git a/quakemigrate/plot/event.py b/quakemigrate/plot/event.py
index b3b61b2..bc1f37a 100644
--- a/quakemigrate/plot/event.py
+++ b/quakemigrate/plot/event.py
@@ -88,7 +88,7 @@ def event_summary(
     if not plot_all_stns:
         station_list = []
         for key, available in event.onset_data.availability.items():
-            station, _ = key.split("_")
+            station, _ = key.rsplit("_", 1)
             if available == 1:
                 station_list.append(station)
         station_list = list(set(sorted(station_list)))
diff --git a/quakemigrate/plot/trigger.py b/quakemigrate/plot/trigger.py
index 5397ef6..d7e8efd 100644
--- a/quakemigrate/plot/trigger.py
+++ b/quakemigrate/plot/trigger.py
@@ -131,9 +131,9 @@ def trigger_summary(
         if not plot_all_stns:
             for col, ava in availability.items():
                 if np.any(ava == 1):
-                    station_list.append(col.split("_")[0])
+                    station_list.append(col.rsplit("_", 1)[0])
         else:
-            station_list = [col.split("_")[0] for col in availability.columns]
+            station_list = [col.rsplit("_", 1)[0] for col in availability.columns]
         station_list = list(set(sorted(station_list)))
         lut.plot(fig, gs, station_list=station_list)
     else:
@@ -231,7 +231,7 @@ def _plot_station_availability(ax, availability, endtime):
     """
 
     # Get list of phases from station availability dataframe
-    phases = sorted(set([col_name.split("_")[1] for col_name in availability.columns]))
+    phases = sorted(set([col.rsplit("_", 1)[1] for col in availability.columns]))
     logging.debug(f"\t\t    Found phases: {phases}")
 
     # Sort out plotting options based on the number of phases
@@ -249,8 +249,8 @@ def _plot_station_availability(ax, availability, endtime):
         else:
             colours = ["#3182BD"]
     elif (
-        availability.filter(like=f"_{phases[0]}").values
-        == availability.filter(like=f"_{phases[1]}").values
+        availability.filter(regex=f"_{phases[0]}$").values
+        == availability.filter(regex=f"_{phases[1]}$").values
     ).all():
         logging.info(
             "\t\t    Station availability is identical for both "
-- 
2.43.0

