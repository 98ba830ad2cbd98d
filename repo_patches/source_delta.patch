From 26736d2012e48a59eafed715847990a8af7a1c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:07 +0000
Subject: [PATCH 01/44] fix: start each level from empty eddy tables

The tables of stored and discarded eddies were only reset when a level had
stored an eddy, so discarded eddies (and the eddies of an interrupted
detection) leaked into the next detection of any TrackEddy object.
---
 trackeddy/trackeddy.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/trackeddy/trackeddy.py b/trackeddy/trackeddy.py
index 7d1c455..58596ab 100644
--- a/trackeddy/trackeddy.py
+++ b/trackeddy/trackeddy.py
@@ -279,6 +279,10 @@ class TrackEddy:
         discarded = None
         eddy = None
 
+        # Start from empty tables, even if a previous detection stored no
+        # eddies or was interrupted.
+        Eddy(None, level).exit()
+
         contours, _ = extract_contours(self.X, self.Y, self.data2track.values, level)
 
         for contour in contours:
-- 
2.43.0


From 87c5ded19132acf06b5ace3b3fce6829384ebbd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:07 +0000
Subject: [PATCH 02/44] fix: keep the eddy tables of each thread separate

The tables were shared by the whole process, so trackers running in
different threads mixed up and lost each other's eddies.
---
 trackeddy/decorators.py | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/trackeddy/decorators.py b/trackeddy/decorators.py
index b5953c9..870f120 100644
--- a/trackeddy/decorators.py
+++ b/trackeddy/decorators.py
@@ -1,3 +1,4 @@
+import threading
 from functools import wraps
 
 import pandas as pd
@@ -13,28 +14,34 @@ def eddy_identifier(f):
         Function that stores the data of identified and discarded eddies.
     """
 
+    class State(threading.local):
+        # Counter of the function call and the table to store data. Each
+        # thread has its own, so detections running in different threads
+        # can't mix their tables.
+        def __init__(self):
+            self.calls = 0
+            self.df_store = pd.DataFrame({"": []})
+
+    state = State()
+
     def wrapped(*args, **kwargs):
         # If argument exit is passed, then reset the wrap function
         if "exit" in kwargs:
-            wrapped.calls = 0
-            wrapped.df_store = pd.DataFrame({"": []})
+            state.__init__()
             return wrapped
 
         # Get table to store eddy data.
-        table = f(*args, id=wrapped.calls, **kwargs)
+        table = f(*args, id=state.calls, **kwargs)
         # if table within wrapper is empty, assign the output of the function
         # else concatenate the tables together.
-        if wrapped.df_store.empty:
-            wrapped.df_store = table
+        if state.df_store.empty:
+            state.df_store = table
         else:
-            wrapped.df_store = pd.concat((wrapped.df_store, table))
+            state.df_store = pd.concat((state.df_store, table))
         # Counter in wrapper that works as the eddy identifier.
-        wrapped.calls += 1
-        return wrapped.df_store
+        state.calls += 1
+        return state.df_store
 
-    # Definition of the counter of the function call and the table to store data.
-    wrapped.calls = 0
-    wrapped.df_store = pd.DataFrame({"": []})
     return wrapped
 
 
-- 
2.43.0


From 75f2af26c360082ae40709f16e736c96492987ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:07 +0000
Subject: [PATCH 03/44] fix: discard open contours

Only closed contours are eddies, but contours cut by the edge of the domain
were processed as if they were closed.
---
 trackeddy/trackeddy.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/trackeddy/trackeddy.py b/trackeddy/trackeddy.py
index 58596ab..b4a6fc9 100644
--- a/trackeddy/trackeddy.py
+++ b/trackeddy/trackeddy.py
@@ -307,6 +307,12 @@ class TrackEddy:
                 discarded = eddy.discarded("area")
                 continue
 
+            # Only closed contours can be an eddy, contours that leave the
+            # domain (or the valid data) are open.
+            if not np.array_equal(eddy.contour[0], eddy.contour[-1]):
+                discarded = eddy.discarded("open_contour")
+                continue
+
             # TODO clean the fit_ellipse function and input only eddy.contour
             eddy.ellipse, eddy.ellipse_params = fit_ellipse(
                 eddy.contour[:, 0], eddy.contour[:, 1]
-- 
2.43.0


From 2b231a777707c40c5cc839332376373c6424efd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:07 +0000
Subject: [PATCH 04/44] fix: locate contours in rotated and curvilinear grids

The points near a contour were assumed to be a rectangle of the grid, so in
a rotated grid contours were mapped to the wrong points or raised IndexError.
---
 trackeddy/trackeddy.py | 20 +++++---------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/trackeddy/trackeddy.py b/trackeddy/trackeddy.py
index b4a6fc9..e4f1417 100644
--- a/trackeddy/trackeddy.py
+++ b/trackeddy/trackeddy.py
@@ -415,16 +415,9 @@ class TrackEddy:
         Xmask = np.isclose(self.X, pt[0][0], rtol=0.05, atol=3)
         Ymask = np.isclose(self.Y, pt[0][1], rtol=0.05, atol=3)
 
-        # This step finds some rough coordinates to crop the domain so
-        # the BallTree search is quicker.
-        sum_x = np.sum(Xmask * Ymask, 0)
-        sim_y = np.sum(Xmask * Ymask, 1)
-        # Corners of the box
-        shift_x = np.argmax(sum_x)
-        shift_y = np.argmax(sim_y)
-
-        # Extract last item, since it will always be different than 0.
-        mask_shape = np.unique(sum_x)[-1], np.unique(sim_y)[-1]
+        # Indexes of the cropped domain so the BallTree search is quicker.
+        # In a curvilinear grid, these may not be a rectangle.
+        mask_ind = np.argwhere(Xmask * Ymask)
 
         x = self.X[Xmask * Ymask]
         y = self.Y[Xmask * Ymask]
@@ -443,11 +436,8 @@ class TrackEddy:
         ball_tree = BallTree(coords)
         dist, ind = ball_tree.query(eddy.contour, k=1)
 
-        # Extract coordinates from the mask shape
-        coord_slice = np.hstack(np.unravel_index(ind, mask_shape)).squeeze()
-
-        # Shift back to the original coordinates
-        coord_ind = coord_slice + [shift_y, shift_x]
+        # Extract the indexes in the original coordinates
+        coord_ind = mask_ind[ind[:, 0]]
 
         (
             eddy.data_near_contour,
-- 
2.43.0


From b4156004345c207a1249ba8c5a54e1514b7def77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:07 +0000
Subject: [PATCH 05/44] fix: search the whole contour of large eddies

Contours larger than 3 degrees close to the origin of the coordinates were
cropped, so their maxima could be missed.
---
 trackeddy/trackeddy.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/trackeddy/trackeddy.py b/trackeddy/trackeddy.py
index e4f1417..ad309a7 100644
--- a/trackeddy/trackeddy.py
+++ b/trackeddy/trackeddy.py
@@ -412,8 +412,10 @@ class TrackEddy:
         # we mask values near the point that are close by 5% of its value,
         # with a largest cap of 3 degrees if coordinates are geographical.
         # The atol fixes the issue in x or y coordinates close to 0.
-        Xmask = np.isclose(self.X, pt[0][0], rtol=0.05, atol=3)
-        Ymask = np.isclose(self.Y, pt[0][1], rtol=0.05, atol=3)
+        # The mask always covers the whole contour.
+        x_atol, y_atol = np.maximum(3, np.ptp(eddy.contour, axis=0))
+        Xmask = np.isclose(self.X, pt[0][0], rtol=0.05, atol=x_atol)
+        Ymask = np.isclose(self.Y, pt[0][1], rtol=0.05, atol=y_atol)
 
         # Indexes of the cropped domain so the BallTree search is quicker.
         # In a curvilinear grid, these may not be a rectangle.
-- 
2.43.0


From 4b23acf475d8ecdc4935d46bcabc162fdd6ab224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:32 +0000
Subject: [PATCH 06/44] fix: track through snapshots without eddies and after
 ntimes

The eddies of the last ntimes snapshots were looked up in a way that raised
KeyError when a snapshot had no eddies (or when the tracking didn't start at
the first snapshot), and that never forgot an eddy whatever the ntimes. Tracks
that were too old could be matched to the wrong identifier, since positions
were used as identifiers.
---
 trackeddy/utils.py | 89 ++++++++++------------------------------------
 1 file changed, 18 insertions(+), 71 deletions(-)

diff --git a/trackeddy/utils.py b/trackeddy/utils.py
index f26a7f5..c8f7103 100644
--- a/trackeddy/utils.py
+++ b/trackeddy/utils.py
@@ -154,75 +154,17 @@ def _mask_data_in_contour(coord_ind_contour, data_near_contour, level, mask="con
     return data_inside_contour, eddy_sign, eddy_maxima_loc, inside_contour
 
 
-def _get_non_duplicated_identifiers(merged_identifiers):
-    values, counts = np.unique(merged_identifiers, return_counts=True)
-
-    duplicated = []
-    for count in range(0, len(counts)):
-        if counts[count] >= 2:
-            duplicated.append(count)
-
-    values = np.delete(values, duplicated)
-    return values
-
-
 def unlink_eddies_in_previous_times(previous_time, time, ntimes=5):
     # Move to decorator
-    if time < ntimes:
-        ntimes = time
-    # Extract identifier of eddies identified as the last imput in the table.
-    last_identified_eddies = previous_time.xs(time, level="time").index.levels[0]
-
-    # Loop and arrays to contain extracted identifier of eddies identified
-    # in the last ntimes in the table.
-    unlinked_tracks_in_time = last_identified_eddies
-    unlinked_times = np.ones_like(last_identified_eddies) * time
-    # Loop back in time to check if missing a eddy track
-    for prev_time in np.arange(time - ntimes, time):
-        # Extracted identifier of eddies identified in the last time-ntimes
-        # in the table.
-        previous_identified_eddies = previous_time.xs(
-            prev_time, level="time"
-        ).index.levels[0]
-
-        merged_identifiers = np.hstack(
-            (last_identified_eddies, previous_identified_eddies)
-        )
+    # Extract the eddies identified in the last ntimes in the table.
+    eddies = previous_time.reset_index()
+    eddies = eddies[(eddies["time"] >= time - ntimes) & (eddies["time"] <= time)]
 
-        values = _get_non_duplicated_identifiers(merged_identifiers)
+    # Only the last time for all the detected eddies is the output.
+    last_time = eddies.groupby("identifier")["time"].transform("max")
+    eddies_to_track = eddies[eddies["time"] == last_time]
 
-        unlinked_tracks_in_time = np.hstack((unlinked_tracks_in_time, values))
-        unlinked_times = np.hstack((unlinked_times, np.ones_like(values) * prev_time))
-
-    # Perhaps not the cleanest code, but it ensures that only the last time
-    # for all the detected eddies is the output.
-    unlinked_tracks_in_time = np.unique(unlinked_tracks_in_time)
-
-    times = (
-        previous_time.loc[unlinked_tracks_in_time]
-        .reset_index()
-        .groupby("identifier")
-        .max("time")["time"]
-        .values
-    )
-
-    eddies_to_track = (
-        previous_time.loc[unlinked_tracks_in_time]
-        .groupby(["identifier", "index"])
-        .last("time")
-    )
-
-    eddies_to_track["time"] = [times[index] for index, n in eddies_to_track.index]
-
-    eddies_to_track = eddies_to_track.reset_index().set_index(
-        ["identifier", "time", "index"]
-    )
-
-    previous_time = eddies_to_track.reindex(
-        previous_time.index.levels[0], level=0, fill_value=0
-    )
-
-    return eddies_to_track
+    return eddies_to_track.set_index(["identifier", "time", "index"]).sort_index()
 
 
 def track_online(track_in_time, current_time, time, ntimes):
@@ -232,12 +174,17 @@ def track_online(track_in_time, current_time, time, ntimes):
         track_in_time, time - 1, ntimes=ntimes
     )
 
-    # Detect nearest eddies.
-    index, nearest = _detect_nearest(previous_time, current_time)
-
-    # Update counter of current time to avoid overlap with the
-    # previous time
-    current_time, prev_count = _update_counter(previous_time, current_time)
+    # Detect nearest eddies, if there is any eddy left to track.
+    if previous_time.empty:
+        index, nearest = [], []
+    else:
+        index, nearest = _detect_nearest(previous_time, current_time)
+        # Convert positions into identifiers of the tracks.
+        index = previous_time.index.unique("identifier").values[index]
+
+    # Update counter of current time to avoid overlap with all the
+    # previous times
+    current_time, prev_count = _update_counter(track_in_time, current_time)
 
     # Rename identifier of  nearest eddies to match the previous
     # table identifier
-- 
2.43.0


From dfeb863aaf097613f05d6a41cd03f7cb06fdaa18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:32 +0000
Subject: [PATCH 07/44] fix: continue each track with a single eddy

When two eddies were close to the same previous eddy, both got the identifier
of its track, so the track had two eddies at the same time.
---
 trackeddy/utils.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/trackeddy/utils.py b/trackeddy/utils.py
index c8f7103..7e5d681 100644
--- a/trackeddy/utils.py
+++ b/trackeddy/utils.py
@@ -7,7 +7,13 @@ from sklearn.neighbors import BallTree
 
 
 def _rename_eddies_in_time(current_time, index, nearest, prev_count):
+    tracked_eddies = []
     for near in nearest:
+        # Each track continues in a single eddy, the closest one.
+        if index[near][0] in tracked_eddies:
+            continue
+        tracked_eddies.append(index[near][0])
+
         shifted_counter = near + prev_count + 1
 
         current_time = current_time.rename(
@@ -112,6 +118,8 @@ def _detect_nearest(p_eddy, n_eddy):
     # If the distance is negative, then the current eddy is within
     # the previous eddy.
     nearest, _ = np.where(distance_between_nearest < 0)
+    # Sort by distance, so the closest eddies are matched first.
+    nearest = nearest[np.argsort(distance[nearest, 0], kind="stable")]
     return index, nearest
 
 
-- 
2.43.0


From 35effeccea8380d8e0cda8a9ac3762d258da8407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:32 +0000
Subject: [PATCH 08/44] fix: replace an eddy with a single eddy of the next
 level

When two eddies of a level replaced the same eddy of the previous levels, both
got its identifier, and the next level raised ValueError.
---
 trackeddy/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/trackeddy/utils.py b/trackeddy/utils.py
index 7e5d681..8fa3a08 100644
--- a/trackeddy/utils.py
+++ b/trackeddy/utils.py
@@ -62,6 +62,10 @@ def _update_better_eddy(p_eddy, n_eddy, index, nearest):
 
         # TODO check if this is the best condition.
         if p_ellipse_error > c_ellipse_error and p_gauss_error > c_gauss_error:
+            # The previous eddy was already replaced by a closer eddy, then
+            # this one keeps its own identifier.
+            if index[duplicated][0] in replaced_eddies:
+                continue
             n_eddy = n_eddy.rename(
                 index={shifted_counter: index[duplicated][0]}, level=0
             )
-- 
2.43.0


From e7f0d16083fb8157454857950c4cb13e3f97da75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:32 +0000
Subject: [PATCH 09/44] fix: time_tracking without tf tracks from t0 to the
 last time

t0 was ignored and the progress printer raised TypeError with tf=None.
---
 trackeddy/trackeddy.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/trackeddy/trackeddy.py b/trackeddy/trackeddy.py
index ad309a7..aafce3a 100644
--- a/trackeddy/trackeddy.py
+++ b/trackeddy/trackeddy.py
@@ -183,9 +183,8 @@ class TrackEddy:
     ):
         # TODO Move to decorator?
         if not tf:
-            times = range(0, len(self.Dataset[self.coords["time"]]))
-        else:
-            times = range(t0, tf)
+            tf = len(self.Dataset[self.coords["time"]])
+        times = range(t0, tf)
 
         track_in_time = pd.DataFrame({"": []})
 
-- 
2.43.0


From bb591a26397065dd15e1dd914ded463e66013efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:23 +0000
Subject: [PATCH 10/44] fix: store the first snapshot when tracking offline

With online_track=False, the first snapshot with eddies was never written.
---
 trackeddy/trackeddy.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/trackeddy/trackeddy.py b/trackeddy/trackeddy.py
index aafce3a..6be485a 100644
--- a/trackeddy/trackeddy.py
+++ b/trackeddy/trackeddy.py
@@ -202,6 +202,10 @@ class TrackEddy:
                     .set_index(["identifier", "time", "index"])
                     .sort_index(level=["identifier", "time", "index"])
                 )
+                if not online_track:
+                    store_snapshot(
+                        track_in_time, self.out_path, time, format=self.out_format
+                    )
                 continue
 
             # Reindex to avoid loosing indexes, it's important for the
-- 
2.43.0


From d9b3c2360a48b710c9cd74768724abb3ad9c2e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:23 +0000
Subject: [PATCH 11/44] fix: apply nan_treatment before the filters

nan_treatment=True had no effect unless the filter was disabled.
---
 trackeddy/decorators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trackeddy/decorators.py b/trackeddy/decorators.py
index 870f120..ae38796 100644
--- a/trackeddy/decorators.py
+++ b/trackeddy/decorators.py
@@ -68,7 +68,7 @@ def filter_data(func):
             filtered = func(self, filtered, "space")
             self.data2track = func(self, filtered, "time")
         elif kwargs.get("filter") == "space" or kwargs.get("filter") == "time":
-            self.data2track = func(self, *args, kwargs.get("filter"))
+            self.data2track = func(self, filtered, kwargs.get("filter"))
         else:
             self.data2track = filtered
 
-- 
2.43.0


From ee489aba56a557f7404d2c11677a7d1edd9d1662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:23 +0000
Subject: [PATCH 12/44] fix: accept levels given as a list or tuple

Comparing a list to 0 ignored the mask, so lists raised TypeError or were
reduced to their first level.
---
 trackeddy/trackeddy.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/trackeddy/trackeddy.py b/trackeddy/trackeddy.py
index 6be485a..df8cdc4 100644
--- a/trackeddy/trackeddy.py
+++ b/trackeddy/trackeddy.py
@@ -228,6 +228,7 @@ class TrackEddy:
 
     def _detect_snapshot(self, time, levels):
         # Ignore level == 0 since it can cause issues.
+        levels = np.asarray(levels)
         levels = levels[levels != 0]
         if isinstance(time, int) and self.coords["time"]:
             data_snapshot = self.rawdata.isel({self.coords["time"]: time}).squeeze()
-- 
2.43.0


From b5e56e26691cc46d4a74f8ae8fb69c98e7e5c9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:23 +0000
Subject: [PATCH 13/44] fix: accept any order of the dimensions

A variable with dimensions (lon, lat) was read as (lat, lon).
---
 trackeddy/trackeddy.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/trackeddy/trackeddy.py b/trackeddy/trackeddy.py
index df8cdc4..6853379 100644
--- a/trackeddy/trackeddy.py
+++ b/trackeddy/trackeddy.py
@@ -43,6 +43,12 @@ class TrackEddy:
         self.identify_coords()
         self.check_coords()
 
+        # The grid (X, Y) expects y and x to be the last dimensions.
+        if self.coords["x"] and self.coords["y"]:
+            self.rawdata = self.rawdata.transpose(
+                ..., self.coords["y"], self.coords["x"]
+            )
+
         self.identification_criteria = {
             "ellipse_fit": 0.85,
             "eccentricity": 0.85,
-- 
2.43.0


From 3afe7cf0d45908e22420b52274a980fd5e9b62fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:23 +0000
Subject: [PATCH 14/44] fix: use 2D coordinates of curvilinear grids

2D longitudes and latitudes stored as coordinates of the variable were
ignored, and the indexes of the grid were used as degrees.
---
 trackeddy/trackeddy.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/trackeddy/trackeddy.py b/trackeddy/trackeddy.py
index 6853379..c7736ec 100644
--- a/trackeddy/trackeddy.py
+++ b/trackeddy/trackeddy.py
@@ -111,6 +111,10 @@ class TrackEddy:
         self.coords = {"time": "", "x": "", "y": ""}
         for dim_name in self.rawdata.dims:
             self._get_dims(dim_name)
+        for var_name in self.rawdata.coords:
+            # Coordinates of a curvilinear grid
+            if self.rawdata[var_name].ndim == 2:
+                self._get_vars(var_name)
         for var_name in self.Dataset.keys():
             self._get_vars(var_name)
 
-- 
2.43.0


From 88ef4a9e26404f2d2acc4b4ae3a4df7af6b2e855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:23 +0000
Subject: [PATCH 15/44] fix: area of polygons around lon=180, lat=0

The area of the rest of the sphere was returned.
---
 trackeddy/geometry.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/trackeddy/geometry.py b/trackeddy/geometry.py
index 70eb80b..4f9fb0d 100644
--- a/trackeddy/geometry.py
+++ b/trackeddy/geometry.py
@@ -464,6 +464,9 @@ def area_latlon_polygon(lonlat):
 
     # Integrate
     area = abs(sum(integrands)) / (4 * np.pi)
+    # A polygon around the antipode of the reference point (0,0) gives the
+    # area of the rest of the sphere.
+    area = min(area, 1 - area)
 
     radius = 6378137
     area_km = (area * 4 * np.pi * radius**2) * 1e-6  # km^2
-- 
2.43.0


From ea157e1bc6ad2f1ca35768b3033990b7e7b37b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:23 +0000
Subject: [PATCH 16/44] fix: frechet distance of long curves

The recursive implementation raised RecursionError when only one of the curves
was longer than 300 points.
---
 trackeddy/geometry.py | 48 +++++++++++++++----------------------------
 1 file changed, 17 insertions(+), 31 deletions(-)

diff --git a/trackeddy/geometry.py b/trackeddy/geometry.py
index 4f9fb0d..8212605 100644
--- a/trackeddy/geometry.py
+++ b/trackeddy/geometry.py
@@ -304,30 +304,6 @@ def compute_similarity(curve1, curve2):
     return np.array(round(result, 4))
 
 
-def _c(ca, i, j, p, q):
-    if ca[i, j] > -1:
-        return ca[i, j]
-    elif i == 0 and j == 0:
-        ca[i, j] = np.linalg.norm(p[i] - q[j])
-    elif i > 0 and j == 0:
-        ca[i, j] = max(_c(ca, i - 1, 0, p, q), np.linalg.norm(p[i] - q[j]))
-    elif i == 0 and j > 0:
-        ca[i, j] = max(_c(ca, 0, j - 1, p, q), np.linalg.norm(p[i] - q[j]))
-    elif i > 0 and j > 0:
-        ca[i, j] = max(
-            min(
-                _c(ca, i - 1, j, p, q),
-                _c(ca, i - 1, j - 1, p, q),
-                _c(ca, i, j - 1, p, q),
-            ),
-            np.linalg.norm(p[i] - q[j]),
-        )
-    else:
-        ca[i, j] = float("inf")
-
-    return ca[i, j]
-
-
 def frdist(P, Q):
     """
     Computes the discrete Fréchet distance between
@@ -397,8 +373,7 @@ def frdist(P, Q):
     len_p = len(p)
     len_q = len(q)
 
-    # Force comparison between curves smaller than 300 points to avoid
-    # RecursionError in _c
+    # Force comparison between curves smaller than 300 points.
     c = 2
     while len_p > 300 and len_q > 300:
         p = p[0::c]
@@ -407,11 +382,22 @@ def frdist(P, Q):
         len_q = len(q)
         c += 1
 
-    ca = np.ones((len_p, len_q), dtype=np.float64) * -1
-
-    dist = _c(ca, len_p - 1, len_q - 1, p, q)
-
-    return dist
+    # Distances between all the points of the curves.
+    ca = np.linalg.norm(p[:, np.newaxis] - q[np.newaxis, :], axis=2)
+
+    for i in range(len_p):
+        for j in range(len_q):
+            if i > 0 and j > 0:
+                reach = min(ca[i - 1, j], ca[i - 1, j - 1], ca[i, j - 1])
+            elif i > 0:
+                reach = ca[i - 1, 0]
+            elif j > 0:
+                reach = ca[0, j - 1]
+            else:
+                continue
+            ca[i, j] = max(reach, ca[i, j])
+
+    return ca[len_p - 1, len_q - 1]
 
 
 def eccentricity(a, b):
-- 
2.43.0


From e0d3cbd172e011f3474f634d5cdf42432c112b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:23 +0000
Subject: [PATCH 17/44] fix: generate fields with a different number of points
 in x and y

The field was reshaped to (x, y) instead of (y, x).
---
 trackeddy/generator/field_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trackeddy/generator/field_generator.py b/trackeddy/generator/field_generator.py
index 9e6acb2..f952229 100644
--- a/trackeddy/generator/field_generator.py
+++ b/trackeddy/generator/field_generator.py
@@ -176,7 +176,7 @@ class Generate_field:
         return indexs[0] + movcood[0], indexs[1] + movcood[1]
 
     def assemble_field(self, N, margin=50):
-        data = np.zeros((N, self.xlen + 2 * margin, self.ylen + 2 * margin))
+        data = np.zeros((N, self.ylen + 2 * margin, self.xlen + 2 * margin))
         for t in range(N):
             # pdb.set_trace()
             if self.opt == "no_interaction" or self.opt == "Nint":
-- 
2.43.0


From 37b6d1d0651018acd316eb61b8e8cefea9881e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:50 +0000
Subject: [PATCH 18/44] fix: don't generate non interacting eddies in the same
 location

Eddies in the same location were accepted as if they were far away.
---
 trackeddy/generator/field_generator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trackeddy/generator/field_generator.py b/trackeddy/generator/field_generator.py
index f952229..7732cd2 100644
--- a/trackeddy/generator/field_generator.py
+++ b/trackeddy/generator/field_generator.py
@@ -146,10 +146,10 @@ class Generate_field:
                     ]
                 )
                 numzeros = [ii for ii in distance if ii == 0]
+                # The distance to itself is 0, any other 0 is an eddy in
+                # the same location.
                 if len(numzeros) <= 1:
                     distance[distance == 0] = np.inf
-                else:
-                    distance[distance == 0] = away_val * self.a
                 checker = (distance < away_val * self.a).any() or (
                     distance < away_val * self.b
                 ).any()
-- 
2.43.0


From 1b77047b92f955120229be3a7142d7fd7a1c980e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:50 +0000
Subject: [PATCH 19/44] fix: stop searching the position of an eddy after 10000
 attempts

After 10000 attempts the search never ended.
---
 trackeddy/generator/field_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trackeddy/generator/field_generator.py b/trackeddy/generator/field_generator.py
index 7732cd2..5c95e0b 100644
--- a/trackeddy/generator/field_generator.py
+++ b/trackeddy/generator/field_generator.py
@@ -131,7 +131,7 @@ class Generate_field:
                 or (distance < away_val * self.b).any()
             ) or loc
             count = 0
-            while checker or count >= 10000:
+            while checker and count < 10000:
                 newx = rnd.randint(0, self.xlen - 1)
                 newy = rnd.randint(0, self.ylen - 1)
                 self.eddies[key1]["loc"] = [[newx, newy]]
-- 
2.43.0


From 69fd97c5b05e2b107cd3eef3137fa9588e72bf47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:50 +0000
Subject: [PATCH 20/44] fix: plot the eddies when none was discarded

discarded is an empty list if no eddy was discarded, and plotting raised
AttributeError.
---
 trackeddy/trackeddy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trackeddy/trackeddy.py b/trackeddy/trackeddy.py
index c7736ec..86de62a 100644
--- a/trackeddy/trackeddy.py
+++ b/trackeddy/trackeddy.py
@@ -597,7 +597,7 @@ class TrackEddy:
             vmax=0.5,
         )
 
-        for idx in discarded.index:
+        for idx in discarded.index if len(discarded) else []:
             x_cont = discarded.loc[idx]["contour_x"]
             y_cont = discarded.loc[idx]["contour_y"]
 
-- 
2.43.0


From fe1a34da5745e591e83141f6f6fd5be5bd356759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:54 +0000
Subject: [PATCH 21/44] fix: reject empty arrays in the contour tracer

Tracing an empty array read outside of it.
---
 trackeddy/src/cntr.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/trackeddy/src/cntr.c b/trackeddy/src/cntr.c
index a607454..7e7a673 100644
--- a/trackeddy/src/cntr.c
+++ b/trackeddy/src/cntr.c
@@ -1834,6 +1834,12 @@ Cntr_init(Cntr *self, PyObject *args, PyObject *kwds)
     }
     iMax = PyArray_DIM(zpa, 1);
     jMax = PyArray_DIM(zpa, 0);
+    if (iMax < 1 || jMax < 1)
+    {
+        PyErr_SetString(PyExc_ValueError,
+            "Arguments x, y, z must not be empty.");
+        goto error;
+    }
     if (PyArray_DIM(xpa, 0) != jMax || PyArray_DIM(xpa, 1) != iMax ||
         PyArray_DIM(ypa, 0) != jMax || PyArray_DIM(ypa, 1) != iMax ||
         (mpa && (PyArray_DIM(mpa, 0) != jMax || PyArray_DIM(mpa, 1) != iMax)))
-- 
2.43.0


From d9f7d06a45a69d6e1271f746f04e77cd128ed38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:13 +0000
Subject: [PATCH 22/44] fix: fit ellipses to contours with few points

---
 trackeddy/geometry.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/trackeddy/geometry.py b/trackeddy/geometry.py
index 8212605..1c9e0b8 100644
--- a/trackeddy/geometry.py
+++ b/trackeddy/geometry.py
@@ -222,7 +222,12 @@ def fit_ellipse(x, y):
     a = np.sum(X, axis=0)
     b = np.dot(X.T, X)
 
-    x2 = np.linalg.solve(b.T, a.T)
+    try:
+        x2 = np.linalg.solve(b.T, a.T)
+    except np.linalg.LinAlgError:
+        # Many ellipses fit the same points (i.e. contours of 4 points), then
+        # use the least squares solution.
+        x2 = np.linalg.lstsq(b.T, a.T, rcond=None)[0]
 
     a, b, c, d, e = x2
 
-- 
2.43.0


From 4d560eff8d857ea01bcbaf82033e22628388f103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:16 +0000
Subject: [PATCH 23/44] fix: reconstruct the field of the generated eddies

---
 trackeddy/generator/field_generator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trackeddy/generator/field_generator.py b/trackeddy/generator/field_generator.py
index 5c95e0b..87a80a4 100644
--- a/trackeddy/generator/field_generator.py
+++ b/trackeddy/generator/field_generator.py
@@ -194,10 +194,10 @@ class Generate_field:
         return data
 
     def reconstruct_field(self):
-        data = np.zeros((self.xlen, self.ylen))
+        data = np.zeros((self.ylen, self.xlen))
         for keys, item in self.eddies.items():
             gauss = self.twoD_Gaussian(
-                self.pass_args(keys),
+                self.pass_args(keys, margin=0),
                 item["radius"][0],
                 item["radius"][1],
                 item["angle"],
-- 
2.43.0


From c114ed1578c7fb517730f52e444a9708af9a53ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:01 +0000
Subject: [PATCH 24/44] fix: export tables of properties without the contour

---
 trackeddy/eddy.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/trackeddy/eddy.py b/trackeddy/eddy.py
index ee23659..20e2950 100644
--- a/trackeddy/eddy.py
+++ b/trackeddy/eddy.py
@@ -149,6 +149,9 @@ class Eddy:
             in the out_properties list.
         """
         eddy_dict = self.to_dict(out_properties)
+        if not any(np.ndim(value) for value in eddy_dict.values()):
+            # There is no contour, so the table has a single row.
+            eddy_dict = {key: np.atleast_1d(eddy_dict[key]) for key in eddy_dict}
         table = pd.DataFrame.from_dict(eddy_dict, **kwards).reset_index()
         return table
 
-- 
2.43.0


From d40acce2ab67f440a7331c3aad2056edc7be22ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:01 +0000
Subject: [PATCH 25/44] fix: raise ValueError when an exported property does
 not exist

---
 trackeddy/eddy.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/trackeddy/eddy.py b/trackeddy/eddy.py
index 20e2950..0cd6b7d 100644
--- a/trackeddy/eddy.py
+++ b/trackeddy/eddy.py
@@ -89,6 +89,13 @@ class Eddy:
 
         eddy_dict = {}
         for property in out_properties:
+            if not hasattr(self, property):
+                raise ValueError(
+                    """{0} doesn't exist, make sure the property is an
+                    attribute of the eddy class.""".format(
+                        property
+                    )
+                )
             attr = getattr(self, property)
 
             if not isinstance(attr, np.ndarray):
-- 
2.43.0


From 98bd92754319196660975270a01833f3f09233d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:25 +0000
Subject: [PATCH 26/44] fix: label the levels with the color of their contours

---
 trackeddy/trackeddy.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/trackeddy/trackeddy.py b/trackeddy/trackeddy.py
index 86de62a..67a3ef2 100644
--- a/trackeddy/trackeddy.py
+++ b/trackeddy/trackeddy.py
@@ -556,7 +556,10 @@ class TrackEddy:
         if len(levels) < 5:
             for level in range(len(levels)):
                 plt.plot(
-                    c_path_x[0], c_path_y[0], color=n_colors[level], label=levels[level]
+                    c_path_x[0],
+                    c_path_y[0],
+                    color=n_colors[color_index[level]],
+                    label=levels[level],
                 )
             plt.legend()
 
-- 
2.43.0


From bae2cb5aad7435a5460f3107c78c475ac9b532c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:25 +0000
Subject: [PATCH 27/44] fix: plot the field when no eddies were identified

---
 trackeddy/trackeddy.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/trackeddy/trackeddy.py b/trackeddy/trackeddy.py
index 67a3ef2..2e31308 100644
--- a/trackeddy/trackeddy.py
+++ b/trackeddy/trackeddy.py
@@ -537,7 +537,9 @@ class TrackEddy:
 
         n_colors = list(mcolors.XKCD_COLORS.keys())
 
-        levels = df_eddy_multilevel_store.level.unique()
+        levels = []
+        if len(df_eddy_multilevel_store):
+            levels = df_eddy_multilevel_store.level.unique()
         color_index = np.linspace(0, len(n_colors) - 1, len(levels), dtype=int)
 
         plt.figure(figsize=(10, 6), dpi=300)
@@ -581,7 +583,7 @@ class TrackEddy:
             vmax=0.5,
         )
 
-        for idx in eddies.index.levels[0]:
+        for idx in eddies.index.levels[0] if len(eddies) else []:
             Xcontour = eddies.loc[idx]["contour_path_x"]
             Ycontour = eddies.loc[idx]["contour_path_y"]
 
-- 
2.43.0


From 918b5234a2ed3464b2c257e03ad2c2960465713d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:25 +0000
Subject: [PATCH 28/44] fix: plot discarded open contours as such

---
 trackeddy/trackeddy.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/trackeddy/trackeddy.py b/trackeddy/trackeddy.py
index 2e31308..538bc61 100644
--- a/trackeddy/trackeddy.py
+++ b/trackeddy/trackeddy.py
@@ -613,6 +613,8 @@ class TrackEddy:
                     ax[1].plot(x_cont, y_cont, ".", color="gray", **plot_args)
                 case "similarity":
                     ax[1].plot(x_cont, y_cont, ".c", **plot_args)
+                case "open_contour":
+                    ax[1].plot(x_cont, y_cont, ".", color="brown", **plot_args)
                 case "ellipse_area":
                     ax[1].plot(x_cont, y_cont, ".m", **plot_args)
                 case "eddy_is_island":
@@ -625,6 +627,7 @@ class TrackEddy:
         label = [
             "Fail eccentricity",
             "Area fail",
+            "Open contour",
             "Contour != ellipse",
             "Ellipse area fail",
             "Eddy is island",
@@ -632,7 +635,7 @@ class TrackEddy:
             "Contour != Gaussian",
         ]
 
-        colors = ["r", "gray", "c", "m", "orange", "pink", "b"]
+        colors = ["r", "gray", "brown", "c", "m", "orange", "pink", "b"]
         [
             ax[1].plot(
                 self.X[0, 0],
-- 
2.43.0


From 1cb07bd70959f7642c1421a814f563a8891ce8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:48 +0000
Subject: [PATCH 29/44] fix: raise MemoryError when the contour tracer runs out
 of memory

---
 trackeddy/src/cntr.c | 34 ++++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/trackeddy/src/cntr.c b/trackeddy/src/cntr.c
index 7e7a673..370f1ca 100644
--- a/trackeddy/src/cntr.c
+++ b/trackeddy/src/cntr.c
@@ -1313,14 +1313,11 @@ cntr_init(Csite *site, long iMax, long jMax, double *x, double *y,
     site->data = (Cdata *) PyMem_Malloc(sizeof(Cdata) * nreg);
     if (site->data == NULL)
     {
-        PyMem_Free(site);
         return -1;
     }
     site->saddle = (Saddle*) PyMem_Malloc(sizeof(Saddle) * ijmax);
     if (site->saddle == NULL)
     {
-        PyMem_Free(site->data);
-        PyMem_Free(site);
         return -1;
     }
     site->reg = NULL;
@@ -1329,9 +1326,6 @@ cntr_init(Csite *site, long iMax, long jMax, double *x, double *y,
         site->reg = (char *) PyMem_Malloc(sizeof(char) * nreg);
         if (site->reg == NULL)
         {
-            PyMem_Free(site->saddle);
-            PyMem_Free(site->data);
-            PyMem_Free(site);
             return -1;
         }
         mask_zones(iMax, jMax, mask, site->reg);
@@ -1348,6 +1342,7 @@ cntr_init(Csite *site, long iMax, long jMax, double *x, double *y,
 
 void cntr_del(Csite *site)
 {
+    if (site == NULL) return;
     PyMem_Free(site->saddle);
     PyMem_Free(site->reg);
     PyMem_Free(site->data);
@@ -1375,6 +1370,12 @@ int reorder(double *xpp, double *ypp, short *kpp,
     /* allocate maximum possible size--gross overkill */
     i0 = (int *)malloc(maxnsegs * sizeof(int));
     i1 = (int *)malloc(maxnsegs * sizeof(int));
+    if (i0 == NULL || i1 == NULL)
+    {
+        PyErr_NoMemory();
+        k = -1;
+        goto ending;
+    }
 
     /* Find the segments. */
     iseg = 0;
@@ -1409,6 +1410,12 @@ int reorder(double *xpp, double *ypp, short *kpp,
 
     if (nsegs) {
         subp = (int *)malloc(nsegs * sizeof(int));
+        if (subp == NULL)
+        {
+            PyErr_NoMemory();
+            k = -1;
+            goto ending;
+        }
     } else {
         subp = NULL;
     }
@@ -1502,6 +1509,7 @@ build_cntr_list_v2(long *np, double *xp, double *yp, short *kp,
     PyArray_Dims newshape;
 
     all_contours = PyList_New(nparts*2);
+    if (all_contours == NULL) return NULL;
 
     for (i=0, k=0; i < nparts; k+= np[i], i++)
     {
@@ -1533,9 +1541,10 @@ build_cntr_list_v2(long *np, double *xp, double *yp, short *kp,
         if (PyArray_Resize(kv, &newshape, 1, NPY_CORDER) == NULL) goto error;
 
 
-        if (PyList_SetItem(all_contours, i, (PyObject *)xyv)) goto error;
-        if (PyList_SetItem(all_contours, nparts+i,
-                                (PyObject *)kv)) goto error;
+        /* The list takes the references, so don't release them on error. */
+        PyList_SET_ITEM(all_contours, i, (PyObject *)xyv);
+        PyList_SET_ITEM(all_contours, nparts+i, (PyObject *)kv);
+        xyv = kv = NULL;
     }
     return all_contours;
 
@@ -1654,7 +1663,11 @@ cntr_trace(Csite *site, double levels[], int nlevels, long nchunk)
     yp0 = (double *) PyMem_Malloc(ntotal * sizeof(double));
     kp0 = (short *) PyMem_Malloc(ntotal * sizeof(short));
     nseg0 = (long *) PyMem_Malloc(nparts * sizeof(long));
-    if (xp0 == NULL || yp0 == NULL || kp0 == NULL || nseg0 == NULL) goto error;
+    if (xp0 == NULL || yp0 == NULL || kp0 == NULL || nseg0 == NULL)
+    {
+        PyErr_NoMemory();
+        goto error;
+    }
 
     /* second pass */
     site->xcp = xp0;
@@ -1733,6 +1746,7 @@ Cntr_clear(Cntr* self)
     PyArrayObject *tmp;
 
     cntr_del(self->site);
+    self->site = NULL;
 
     tmp = self->xpa;
     self->xpa = NULL;
-- 
2.43.0


From 635be724d94d4516f43424d5a52d6d094368bf97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:48 +0000
Subject: [PATCH 30/44] fix: raise ValueError when tracing with an
 uninitialized Cntr

---
 trackeddy/src/cntr.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/trackeddy/src/cntr.c b/trackeddy/src/cntr.c
index 370f1ca..36295c2 100644
--- a/trackeddy/src/cntr.c
+++ b/trackeddy/src/cntr.c
@@ -1906,6 +1906,11 @@ Cntr_trace(Cntr *self, PyObject *args, PyObject *kwds)
     {
         return NULL;
     }
+    if (self->zpa == NULL)
+    {
+        PyErr_SetString(PyExc_ValueError, "Cntr was not initialized.");
+        return NULL;
+    }
     if (levels[1] == -1e100 || levels[1] <= levels[0])
         nlevels = 1;
     return cntr_trace(self->site, levels, nlevels, nchunk);
@@ -1923,6 +1928,12 @@ Cntr_get_cdata(Cntr *self)
     int ni, nj;
     char *data;
 
+    if (self->zpa == NULL)
+    {
+        PyErr_SetString(PyExc_ValueError, "Cntr was not initialized.");
+        return NULL;
+    }
+
     dims[0] = ni = self->site->imax;
     dims[1] = nj = self->site->jmax;
 
-- 
2.43.0


From ca467689a103bfd3fc4ec897ea08943cdb3f2f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:18 +0000
Subject: [PATCH 31/44] fix: detect small contours far from the origin of the
 coordinates

The tolerance used to skip singular contours was relative to the
coordinates, thus contours of small eddies were silently ignored at large
longitudes or latitudes.
---
 trackeddy/trackeddy.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/trackeddy/trackeddy.py b/trackeddy/trackeddy.py
index 538bc61..05848c7 100644
--- a/trackeddy/trackeddy.py
+++ b/trackeddy/trackeddy.py
@@ -302,7 +302,9 @@ class TrackEddy:
         for contour in contours:
             # Discard contour if contour is a singular point or if it
             # contains nans
-            if np.allclose(np.mean(contour, axis=0), contour[0], equal_nan=True):
+            if np.allclose(
+                np.mean(contour, axis=0), contour[0], rtol=0, equal_nan=True
+            ):
                 continue
 
             eddy = Eddy(contour, level)
-- 
2.43.0


From 43431494b88a50ffad6c772474b8ade92b642811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:16 +0000
Subject: [PATCH 32/44] fix: discard contours whose ellipse has no axes

The detection of all the eddies failed in the fit of the gaussian when a
contour collapses to a line (two neighbouring values just above the
level).
---
 trackeddy/trackeddy.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/trackeddy/trackeddy.py b/trackeddy/trackeddy.py
index 05848c7..9f94fb7 100644
--- a/trackeddy/trackeddy.py
+++ b/trackeddy/trackeddy.py
@@ -348,9 +348,11 @@ class TrackEddy:
                 discarded = eddy.discarded("ellipse_area")
                 continue
 
-            # Check eccentricity of ellipse.
+            # Check eccentricity of ellipse (nan if the ellipse has no axes).
             eddy.ellipse_eccen = eccentricity(*eddy.ellipse_params[0:2])
-            if eddy.ellipse_eccen > self.identification_criteria["eccentricity"]:
+            if not (
+                eddy.ellipse_eccen <= self.identification_criteria["eccentricity"]
+            ):
                 discarded = eddy.discarded(reason="eccentricity")
                 continue
 
-- 
2.43.0


From 63be4c0690cc5971bbb42b3089351f01d52682e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:14 +0000
Subject: [PATCH 33/44] fix: don't take other variables for the coordinates of
 the grid

Variables such as longwave, latent_heat or lon_bnds contain lon or lat in
their name, and replaced the coordinates of the dataset.
---
 trackeddy/trackeddy.py | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/trackeddy/trackeddy.py b/trackeddy/trackeddy.py
index 9f94fb7..e6081c4 100644
--- a/trackeddy/trackeddy.py
+++ b/trackeddy/trackeddy.py
@@ -111,12 +111,40 @@ class TrackEddy:
         self.coords = {"time": "", "x": "", "y": ""}
         for dim_name in self.rawdata.dims:
             self._get_dims(dim_name)
+        var_names = []
         for var_name in self.rawdata.coords:
             # Coordinates of a curvilinear grid
             if self.rawdata[var_name].ndim == 2:
+                var_names.append(var_name)
+        var_names.extend(self.Dataset.keys())
+
+        # Other variables may also contain lon or lat in their name, i.e.
+        # longwave, latent_heat or lon_bnds. The coordinates of the grid are
+        # those named alike (nav_lon, nav_lat) along its dimensions.
+        grid_dims = {self.coords["x"], self.coords["y"]}
+        grid_vars = [
+            var_name
+            for var_name in var_names
+            if self.Dataset[var_name].ndim > 0
+            and grid_dims.issuperset(self.Dataset[var_name].dims)
+        ]
+        pairs = [
+            pair
+            for pair in map(self._pair_vars, grid_vars)
+            if pair[0] != pair[1] and pair[1] in grid_vars
+        ]
+        if pairs:
+            self.coords["x_var"], self.coords["y_var"] = pairs[-1]
+        elif not grid_dims.issubset(self.rawdata.coords):
+            for var_name in var_names:
                 self._get_vars(var_name)
-        for var_name in self.Dataset.keys():
-            self._get_vars(var_name)
+
+    def _pair_vars(self, x_name):
+        if "longitude" in x_name:
+            return x_name, x_name.replace("longitude", "latitude")
+        elif x_name == "x":
+            return x_name, "y"
+        return x_name, x_name.replace("lon", "lat")
 
     def _get_dims(self, dim_name):
         if "time" in dim_name or dim_name == "t":
-- 
2.43.0


From d223c345404b0e61359509246e9d97fe26f9e4fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:14 +0000
Subject: [PATCH 34/44] fix: raise ValueError when the filter does not exist

An unknown filter was ignored, and the eddies were identified in the field
without filtering.
---
 trackeddy/decorators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trackeddy/decorators.py b/trackeddy/decorators.py
index ae38796..de953ec 100644
--- a/trackeddy/decorators.py
+++ b/trackeddy/decorators.py
@@ -67,7 +67,7 @@ def filter_data(func):
         if kwargs.get("filter") == "both":
             filtered = func(self, filtered, "space")
             self.data2track = func(self, filtered, "time")
-        elif kwargs.get("filter") == "space" or kwargs.get("filter") == "time":
+        elif kwargs.get("filter"):
             self.data2track = func(self, filtered, kwargs.get("filter"))
         else:
             self.data2track = filtered
-- 
2.43.0


From 5c6b11d670d7e62f61eaf140cbfe8c099c167678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:14 +0000
Subject: [PATCH 35/44] fix: raise ValueError when the mode of the filter does
 not exist

An unknown mode was ignored, and the eddies were identified in the field
without filtering.
---
 trackeddy/trackeddy.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/trackeddy/trackeddy.py b/trackeddy/trackeddy.py
index e6081c4..9ba2361 100644
--- a/trackeddy/trackeddy.py
+++ b/trackeddy/trackeddy.py
@@ -185,6 +185,11 @@ class TrackEddy:
     ) -> xr.DataArray:
         # Apply spatial filter.
         if filter_type == "convolution":
+            if mode not in ("uniform", "gaussian"):
+                raise ValueError(
+                    """Define the mode argument between the options:
+                    'uniform' and 'gaussian'"""
+                )
             if mode == "uniform":
                 tmp_data = data2track.squeeze().copy()
                 if kernel % 2 == 0:
-- 
2.43.0


From 397047dce169f1b9aac89b5ac7f2375c91fc280b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:14 +0000
Subject: [PATCH 36/44] fix: raise ValueError when the output format does not
 exist

With an unknown format, tracking offline stored nothing.
---
 trackeddy/utils.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/trackeddy/utils.py b/trackeddy/utils.py
index 8fa3a08..0af97ac 100644
--- a/trackeddy/utils.py
+++ b/trackeddy/utils.py
@@ -226,3 +226,8 @@ def store_snapshot(track_in_time, path, time, format="csv", **kwargs):
             track_in_time.to_json(out_path, **kwargs)
         case "hd5":
             track_in_time.to_hdf(out_path, **kwargs)
+        case _:
+            raise ValueError(
+                """Define the format of the output between the options:
+                'csv', 'json' and 'hd5'"""
+            )
-- 
2.43.0


From bf692ecd92bb5101dbacb8d97fc7aa836967217a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:36 +0000
Subject: [PATCH 37/44] fix: raise ValueError when nan_treatment isn't True or
 False

The check could never fail, any other value was taken as True or False.
---
 trackeddy/trackeddy.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/trackeddy/trackeddy.py b/trackeddy/trackeddy.py
index 9ba2361..13333b9 100644
--- a/trackeddy/trackeddy.py
+++ b/trackeddy/trackeddy.py
@@ -311,12 +311,12 @@ class TrackEddy:
         return joint_eddies
 
     def treat_nan(self, data_snapshot, nan_value=0):
-        if not self.nan_treatment:
+        if self.nan_treatment not in (True, False):
+            raise ValueError("The nan_treatment can only be True or False")
+        elif not self.nan_treatment:
             data2track = data_snapshot.copy()
-        elif self.nan_treatment:
-            data2track = data_snapshot.fillna(nan_value).copy()
         else:
-            raise ValueError("The nan_treatment can only be True or False")
+            data2track = data_snapshot.fillna(nan_value).copy()
         return data2track
 
     @check_return_eddies
-- 
2.43.0


From 02ec00fd33eaaab203f9cea91f0d63984cbc48e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:18 +0000
Subject: [PATCH 38/44] fix: normalise the Gaussian fit by the amplitude of the
 eddy

The tolerances of least_squares are absolute, so the fit stopped at its
initial guess for amplitudes below ~0.5 (i.e. sea level anomalies in
metres).
---
 trackeddy/geometry.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/trackeddy/geometry.py b/trackeddy/geometry.py
index 1c9e0b8..ede1e9d 100644
--- a/trackeddy/geometry.py
+++ b/trackeddy/geometry.py
@@ -106,10 +106,15 @@ class Fit_Surface:
     def fit_curve(self, coords):
         bounds = self.construct_bounds()
 
+        # The tolerances of least_squares are absolute, therefore normalise by
+        # the amplitude so the fit doesn't depend on the units of the data.
+        X, Y, amplitude = coords
+        scale = np.where(amplitude == 0, 1, np.abs(amplitude))
+
         res = least_squares(
             gaussian_residual,
             self.initial_guess,
-            args=(coords, self.data),
+            args=((X, Y, amplitude / scale), self.data / scale),
             bounds=bounds,
         )
 
-- 
2.43.0


From 8212199f7bbf46848145d02d94fac25c37631f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:23 +0000
Subject: [PATCH 39/44] fix: track an empty window if tf is 0

tf=0 was taken for no tf at all, and all the times were tracked.
---
 trackeddy/trackeddy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trackeddy/trackeddy.py b/trackeddy/trackeddy.py
index 13333b9..af254c2 100644
--- a/trackeddy/trackeddy.py
+++ b/trackeddy/trackeddy.py
@@ -225,7 +225,7 @@ class TrackEddy:
         self, t0=0, tf=None, lin_levels=None, ntimes=5, online_track=True
     ):
         # TODO Move to decorator?
-        if not tf:
+        if tf is None:
             tf = len(self.Dataset[self.coords["time"]])
         times = range(t0, tf)
 
-- 
2.43.0


From a2fff0b084c4741d0711b5b1b250c031f4c58593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:25 +0000
Subject: [PATCH 40/44] fix: a circle has an orientation

The orientation of the ellipse fitted to an exact circle was 0/0.
---
 trackeddy/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trackeddy/geometry.py b/trackeddy/geometry.py
index ede1e9d..279a94a 100644
--- a/trackeddy/geometry.py
+++ b/trackeddy/geometry.py
@@ -236,7 +236,7 @@ def fit_ellipse(x, y):
 
     a, b, c, d, e = x2
 
-    if b == 0 and a < c:
+    if b == 0 and a <= c:
         anglexaxis_rad = 0
     elif b == 0 and c < a:
         anglexaxis_rad = np.pi / 2
-- 
2.43.0


From 36a9f9c0924a98a612d1edb205daef62e460d6ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:13 +0000
Subject: [PATCH 41/44] fix: place the first eddies in the coordinates of the
 field

---
 trackeddy/generator/field_generator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/trackeddy/generator/field_generator.py b/trackeddy/generator/field_generator.py
index 87a80a4..fde37a5 100644
--- a/trackeddy/generator/field_generator.py
+++ b/trackeddy/generator/field_generator.py
@@ -177,6 +177,9 @@ class Generate_field:
 
     def assemble_field(self, N, margin=50):
         data = np.zeros((N, self.ylen + 2 * margin, self.xlen + 2 * margin))
+        # The eddies are placed in the coordinates of the field.
+        self.x = np.linspace(min(self.x), max(self.x), self.xlen + 2 * margin)
+        self.y = np.linspace(min(self.y), max(self.y), self.ylen + 2 * margin)
         for t in range(N):
             # pdb.set_trace()
             if self.opt == "no_interaction" or self.opt == "Nint":
-- 
2.43.0


From 2edfa51de7d46f916e7a47d25a2a1cd3746c3ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:30 +0000
Subject: [PATCH 42/44] fix: trace meshes of one row or column in chunks

---
 trackeddy/src/cntr.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/trackeddy/src/cntr.c b/trackeddy/src/cntr.c
index 36295c2..628c27f 100644
--- a/trackeddy/src/cntr.c
+++ b/trackeddy/src/cntr.c
@@ -1031,7 +1031,11 @@ data_init (Csite * site, long nchunk)
     long jcsize = jmax - 1;
     long ichunk, jchunk, irem, jrem, i, j, ij;
 
-    if (nchunk && two_levels)
+    /* a single row or column has no zones to share out, and no mesh has more
+     * zones than points */
+    if (nchunk > ijmax)
+        nchunk = ijmax;
+    if (nchunk > 0 && two_levels && imax > 1 && jmax > 1)
     {
         /* figure out chunk sizes
          * -- input nchunk is square root of maximum allowed zones per chunk
-- 
2.43.0


From 90d827fc0c3522db641b10dfe441252e1443f300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:25 +0000
Subject: [PATCH 43/44] fix: plot a selection of the eddies

---
 trackeddy/trackeddy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trackeddy/trackeddy.py b/trackeddy/trackeddy.py
index af254c2..6ce5b6f 100644
--- a/trackeddy/trackeddy.py
+++ b/trackeddy/trackeddy.py
@@ -620,7 +620,7 @@ class TrackEddy:
             vmax=0.5,
         )
 
-        for idx in eddies.index.levels[0] if len(eddies) else []:
+        for idx in eddies.index.unique(level=0) if len(eddies) else []:
             Xcontour = eddies.loc[idx]["contour_path_x"]
             Ycontour = eddies.loc[idx]["contour_path_y"]
 
-- 
2.43.0


From 080906905c519a213797dbffac82602b84fd897d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:12 +0000
Subject: [PATCH 44/44] fix: detect the snapshot of a date or of a numpy
 integer

---
 trackeddy/trackeddy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trackeddy/trackeddy.py b/trackeddy/trackeddy.py
index 6ce5b6f..fcb4817 100644
--- a/trackeddy/trackeddy.py
+++ b/trackeddy/trackeddy.py
@@ -273,10 +273,10 @@ class TrackEddy:
         # Ignore level == 0 since it can cause issues.
         levels = np.asarray(levels)
         levels = levels[levels != 0]
-        if isinstance(time, int) and self.coords["time"]:
+        if isinstance(time, (int, np.integer)) and self.coords["time"]:
             data_snapshot = self.rawdata.isel({self.coords["time"]: time}).squeeze()
         elif isinstance(time, str) and self.coords["time"]:
-            data_snapshot = self.rawdata.isel({self.coords["time"]: time}).squeeze()
+            data_snapshot = self.rawdata.sel({self.coords["time"]: time}).squeeze()
         else:
             data_snapshot = self.rawdata.squeeze()
 
-- 
2.43.0

