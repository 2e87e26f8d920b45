From b4540dd0164b4c5caf38fd1e820851203d4e8d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:57 +0000
Subject: [PATCH 01/24] fix: do not plan towards an exit velocity above the
 target velocity

A junction velocity that exceeds the target velocity by a rounding error made the
decelerating segment end before it began, so valid programs raised a RuntimeError.
---
 pyGCodeDecode/planner_block.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyGCodeDecode/planner_block.py b/pyGCodeDecode/planner_block.py
index 9c43909..8b0d8ca 100644
--- a/pyGCodeDecode/planner_block.py
+++ b/pyGCodeDecode/planner_block.py
@@ -156,6 +156,7 @@ class planner_block:
         v_target = settings.speed
         v_begin = previous_segment.vel_end.get_norm()
         v_begin = v_begin if v_begin < v_target else v_target
+        v_end = v_end if v_end < v_target else v_target  # junction vel can exceed target vel by rounding
 
         # calculate min travel for trapezoidal shape, if sum larger than distance, regular movement pattern is possible
         travel_ramp_up = (v_target - v_begin) * (v_begin + v_target) / (2 * acc)
-- 
2.43.0


From efd74305e02a1ca6de9e8ece8e14c5332fa56b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:57 +0000
Subject: [PATCH 02/24] fix: correct long chains of short moves without
 recursion

Every block corrected backwards added a stack frame, so finely discretised paths
(about 1000 short moves within one braking distance) raised a RecursionError.
---
 pyGCodeDecode/planner_block.py | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/pyGCodeDecode/planner_block.py b/pyGCodeDecode/planner_block.py
index 8b0d8ca..0f9f639 100644
--- a/pyGCodeDecode/planner_block.py
+++ b/pyGCodeDecode/planner_block.py
@@ -203,7 +203,23 @@ class planner_block:
             raise RuntimeError()
 
     def self_correction(self, tolerance=float("1e-12")):
-        """Check for interfacing vel and self correct."""
+        """Check for interfacing vel and self correct, including all previous blocks affected by the correction."""
+        flag_correct = self._correct_velocity(tolerance)
+
+        # a corrected single segment block begins with a different velocity, so its previous block needs correction too
+        blocks = [self]
+        corrected = flag_correct
+        while corrected and blocks[-1].blocktype == "single" and blocks[-1].prev_block is not None:
+            blocks.append(blocks[-1].prev_block)
+            corrected = blocks[-1]._correct_velocity(tolerance)
+
+        for block in reversed(blocks):
+            block._align_next_block(tolerance)
+
+        return flag_correct
+
+    def _correct_velocity(self, tolerance):
+        """Recalculate the block if it does not end with the velocity the next block begins with."""
         flag_correct = False
         if self.next_block is not None:
             same_vel = (
@@ -220,9 +236,11 @@ class planner_block:
         if self.next_block is not None and flag_correct:
             vel_end = self.next_block.get_segments()[0].vel_begin.get_norm()
             self.move_maker2(v_end=vel_end)
-            if self.blocktype == "single":
-                self.prev_block.self_correction()  # forward correction?
 
+        return flag_correct
+
+    def _align_next_block(self, tolerance):
+        """Shift the next block in time to follow this block and check the result."""
         # Timeshift the corrected blocks
         if self.next_block is not None:
             delta_t = self.get_segments()[-1].t_end - self.next_block.get_segments()[0].t_begin
@@ -244,8 +262,6 @@ class planner_block:
         except ValueError as ve:
             custom_print(f"Segment for {self.state_B} does not adhere to machine limits: {ve}")
 
-        return flag_correct
-
     def timeshift(self, delta_t: float):
         """Shift planner block in time.
 
-- 
2.43.0


From 932430bdeb36ec3561753629f46a153c5b75cea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:57 +0000
Subject: [PATCH 03/24] fix: dwell before the first move and on the line of a
 move

G4 without a preceding move raised an AttributeError, and G4 sharing its line with a
move replaced the segments of that move, so the target position was never reached.
---
 pyGCodeDecode/planner_block.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/pyGCodeDecode/planner_block.py b/pyGCodeDecode/planner_block.py
index 0f9f639..7c36cba 100644
--- a/pyGCodeDecode/planner_block.py
+++ b/pyGCodeDecode/planner_block.py
@@ -336,7 +336,7 @@ class planner_block:
         # standard move maker
         if self.valid:
             self.JD = v_JD * self.direction  # jd writeout for debugging plot
-            self.move_maker2(v_end=v_JD)
+            self.move_maker2(v_end=v_JD if self.state_B.pause is None else 0)
             self.is_extruding = self.state_A.state_position.is_extruding(
                 self.state_B.state_position
             )  # store extrusion flag
@@ -344,16 +344,22 @@ class planner_block:
         # dwell functionality
         if self.state_B.pause is not None:
             self.JD = [0, 0, 0, 0]
-            self.segments = [
+            if len(self.segments) > 0:
+                previous_segment = self.segments[-1]  # dwell after the move of the same line
+            elif self.prev_block is not None:
+                previous_segment = self.prev_block.segments[-1]
+            else:
+                previous_segment = segment.create_initial(initial_position=self.state_B.state_position)
+            self.segments.append(
                 segment(
-                    t_begin=self.prev_block.segments[-1].t_end,
-                    t_end=self.prev_block.segments[-1].t_end + self.state_B.pause,
-                    pos_begin=self.prev_block.segments[-1].pos_end,
-                    pos_end=self.prev_block.segments[-1].pos_end,
+                    t_begin=previous_segment.t_end,
+                    t_end=previous_segment.t_end + self.state_B.pause,
+                    pos_begin=previous_segment.pos_end,
+                    pos_end=previous_segment.pos_end,
                     vel_begin=velocity(0, 0, 0, 0),
                     vel_end=velocity(0, 0, 0, 0),
                 )
-            ]
+            )
 
     @property
     def prev_block(self):
-- 
2.43.0


From 39e6eea2b5610b5813a82e6683077008913135cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:57 +0000
Subject: [PATCH 04/24] fix: setting a position with G92 does not move the
 nozzle

The offset was calculated with the wrong sign, so any G92 with a value other than zero
shifted the current and all following positions.
---
 pyGCodeDecode/state_generator.py | 24 +++++++++---------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/pyGCodeDecode/state_generator.py b/pyGCodeDecode/state_generator.py
index fc370c8..06f6833 100644
--- a/pyGCodeDecode/state_generator.py
+++ b/pyGCodeDecode/state_generator.py
@@ -238,13 +238,11 @@ def dict_list_traveler(line_dict_list: List[dict], initial_machine_setup: dict)
             )"""
             virtual_machine[key] = default_virtual_machine[key]
 
+    # absolute machine position including offsets, only changed by movement commands
+    machine_position = {key: virtual_machine[key] + virtual_machine["_" + key] for key in ["X", "Y", "Z", "E"]}
+
     # initial state creation
-    state_position = position(
-        virtual_machine["X"] + virtual_machine["_X"],
-        virtual_machine["Y"] + virtual_machine["_Y"],
-        virtual_machine["Z"] + virtual_machine["_Z"],
-        virtual_machine["E"] + virtual_machine["_E"],
-    )
+    state_position = position([machine_position[key] for key in ["X", "Y", "Z", "E"]])
 
     p_settings = state.p_settings(
         speed=virtual_machine["p_vel"],
@@ -302,6 +300,9 @@ def dict_list_traveler(line_dict_list: List[dict], initial_machine_setup: dict)
                         virtual_machine["E"] = line_dict[command]["E"]
                     if virtual_machine["absolute_extrusion"] is False:  # redundant
                         virtual_machine["E"] = virtual_machine["E"] + line_dict[command]["E"]
+                for key in ["X", "Y", "Z", "E"]:
+                    if key in line_dict[command]:
+                        machine_position[key] = virtual_machine[key] + virtual_machine["_" + key]
                 if "F" in line_dict[command]:
                     virtual_machine["p_vel"] = line_dict[command]["F"] / 60
 
@@ -309,9 +310,7 @@ def dict_list_traveler(line_dict_list: List[dict], initial_machine_setup: dict)
         if "G92" in line_dict:
             for key in line_dict["G92"]:
                 if key in known_commands["G92"]:
-                    virtual_machine["_" + key] = (
-                        virtual_machine[key] + line_dict["G92"][key] + virtual_machine["_" + key]
-                    )
+                    virtual_machine["_" + key] = machine_position[key] - line_dict["G92"][key]
                     virtual_machine[key] = line_dict["G92"][key]
 
         # set acceleration
@@ -336,12 +335,7 @@ def dict_list_traveler(line_dict_list: List[dict], initial_machine_setup: dict)
             if "S" in line_dict["G4"]:
                 pause_duration = line_dict["G4"]["S"]
 
-        state_position = position(
-            virtual_machine["X"] + virtual_machine["_X"],
-            virtual_machine["Y"] + virtual_machine["_Y"],
-            virtual_machine["Z"] + virtual_machine["_Z"],
-            virtual_machine["E"] + virtual_machine["_E"],
-        )
+        state_position = position([machine_position[key] for key in ["X", "Y", "Z", "E"]])
 
         p_settings = state.p_settings(
             speed=virtual_machine["p_vel"],
-- 
2.43.0


From 569f137f62bf40600cadb783f50cba2e5b9bb631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:39 +0000
Subject: [PATCH 05/24] fix: apply the unit selected with G20

---
 pyGCodeDecode/state_generator.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/pyGCodeDecode/state_generator.py b/pyGCodeDecode/state_generator.py
index 06f6833..fce3f6d 100644
--- a/pyGCodeDecode/state_generator.py
+++ b/pyGCodeDecode/state_generator.py
@@ -195,6 +195,25 @@ def read_gcode_to_dict_list(filepath: pathlib.Path) -> List[dict]:
     return dict_list
 
 
+def inch_to_mm(line_dict: dict) -> dict:
+    """
+    Convert all lengths of a line given in inches to millimeters.
+
+    Args:
+        line_dict: (dict) dict with commands of a line
+
+    Returns:
+        dict: (dict) copy of the line with lengths in millimeters
+    """
+    line_dict = dict(line_dict)
+    for command in ["G0", "G1", "G92", "M203", "M204", "M205"]:
+        if command in line_dict:
+            line_dict[command] = {
+                key: 25.4 * arg if isinstance(arg, float) else arg for key, arg in line_dict[command].items()
+            }
+    return line_dict
+
+
 def dict_list_traveler(line_dict_list: List[dict], initial_machine_setup: dict) -> List[state]:
     """
     Convert the line dictionary to a state.
@@ -280,6 +299,8 @@ def dict_list_traveler(line_dict_list: List[dict], initial_machine_setup: dict)
             virtual_machine["units"] = "inch"
         if "G21" in line_dict:
             virtual_machine["units"] = "SImm"
+        if virtual_machine["units"] == "inch":
+            line_dict = inch_to_mm(line_dict)
 
         # position & velocity
         pos_keys = ["X", "Y", "Z"]
-- 
2.43.0


From 8daad586747030c35e2876cf9fabca0ec66b627b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:10 +0000
Subject: [PATCH 06/24] fix: unknown commands starting with a known command are
 not executed

---
 pyGCodeDecode/state_generator.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyGCodeDecode/state_generator.py b/pyGCodeDecode/state_generator.py
index fce3f6d..1594c61 100644
--- a/pyGCodeDecode/state_generator.py
+++ b/pyGCodeDecode/state_generator.py
@@ -120,7 +120,9 @@ def arg_extract(string: str, key_dict: dict) -> dict:
     matches: List[Match] = list()  # list to store matching keywords
 
     for key in key_dict.keys():  # look for each key in the dictionary
-        match = re.search(key, string)  # regex search for key in string
+        # commands may have leading zeros, but no further digits (G1 is neither G17 nor G1.1)
+        pattern = rf"{key[0]}0*{key[1:]}(?![.\d])" if len(key) > 1 else key
+        match = re.search(pattern, string)  # regex search for key in string
         if match is not None:
             matches.append(match)  # append found matches
 
@@ -145,7 +147,7 @@ def arg_extract(string: str, key_dict: dict) -> dict:
 
     for match in matches:  # iterate through all matches, with next match available
         match_end = match.end()  # find arg beginning by using end of match
-        key = match.group()  # get key from match
+        key = re.sub(r"^([GM])0+(?=\d)", r"\1", match.group())  # get key from match without leading zeros
         arg = None
 
         match_next_start = next_larger(match_start_list, match_end)  # find arg end by using beginning of next arg
-- 
2.43.0


From 86229ac76b84e91a4d006067e10c4d4490c3ddbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:31 +0000
Subject: [PATCH 07/24] fix: find the segment at the end time independent of
 earlier searches

---
 pyGCodeDecode/gcode_interpreter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyGCodeDecode/gcode_interpreter.py b/pyGCodeDecode/gcode_interpreter.py
index 7f91066..b13f1d8 100644
--- a/pyGCodeDecode/gcode_interpreter.py
+++ b/pyGCodeDecode/gcode_interpreter.py
@@ -135,10 +135,10 @@ def find_current_segment(path: List[segment], t: float, last_index: int = None,
         if path[-1].t_end < t:
             custom_print("No movement at this time in Path!")
             return None, None
-        elif last_index is None or len(path) - 1 < last_index or path[last_index].t_begin > t:
+        elif last_index is None or len(path) - 1 < last_index or path[last_index].t_begin >= t:
             # custom_print(f"unoptimized Search, last index: {last_index}")
             for last_index, segm in enumerate(path):
-                if t >= segm.t_begin and t < segm.t_end:
+                if t >= segm.t_begin and t <= segm.t_end:
                     return segm, last_index
         else:
             for id, segm in enumerate(path[last_index:]):
-- 
2.43.0


From e8022fe6144ad8bf442e50f3dfad2909b93522cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:56 +0000
Subject: [PATCH 08/24] fix: map space to time in decelerating segments

---
 pyGCodeDecode/utils.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/pyGCodeDecode/utils.py b/pyGCodeDecode/utils.py
index 5405adb..0492f36 100644
--- a/pyGCodeDecode/utils.py
+++ b/pyGCodeDecode/utils.py
@@ -466,14 +466,10 @@ class segment:
             return slope * t + scalar_begin
 
         def get_time(x):
-            a = (self.vel_end - self.vel_begin).get_norm() / (self.t_end - self.t_begin)
-            if a > 0:
-                v_sq = 2 * a * x + self.vel_begin.get_norm() ** 2
-                t = (np.sqrt(v_sq) - self.vel_begin.get_norm()) / a if v_sq > 0 else 0
-                if v_sq <= 0:
-                    raise ValueError("Could not map time dependant scalar to space.")
-            elif a == 0:
-                t = x / self.vel_begin.get_norm()
+            a = (self.vel_end.get_norm() - self.vel_begin.get_norm()) / (self.t_end - self.t_begin)
+            v_begin = self.vel_begin.get_norm()
+            v_x = np.sqrt(max(2 * a * x + v_begin**2, 0))  # velocity at x, standstill at the end of a decelerating segment
+            t = 2 * x / (v_begin + v_x) if x > 0 else 0
             return t
 
         t = get_time(x)
-- 
2.43.0


From 57d486893e28fb1c7f6ebc5ef4a6e5c830751995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:19 +0000
Subject: [PATCH 09/24] fix: include the last block in the layer metrics

---
 pyGCodeDecode/tools.py | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/pyGCodeDecode/tools.py b/pyGCodeDecode/tools.py
index ac79908..9b04987 100644
--- a/pyGCodeDecode/tools.py
+++ b/pyGCodeDecode/tools.py
@@ -47,20 +47,12 @@ def save_layer_metrics(
     travel = 0
 
     for block in simulation.blocklist:
-        last_block_of_layer = False
         next_layer = block.state_B.layer
 
-        # calculate the duration of the block
-        if next_layer > current_layer:  # layer switch in this block
-            last_block_of_layer = True
+        # layer switch in this block: finish the current layer at the beginning of the block
+        if next_layer > current_layer:
             block_begin = block.segments[0].t_begin
             duration = block_begin - last_layer_time
-        elif block.next_block is None:  # last block of the print
-            last_block_of_layer = True
-            block_end = block.segments[-1].t_end
-            duration = block_end - last_layer_time
-
-        if last_block_of_layer:
             average_speed = travel / duration if duration != 0 else "NaN"
 
             layers.append(current_layer)
@@ -69,14 +61,23 @@ def save_layer_metrics(
             avg_speeds.append(average_speed)
 
             # set variables for next layer
-            if next_layer > current_layer:
-                travel = 0
-                last_layer_time = block_begin
-                current_layer = next_layer
+            travel = 0
+            last_layer_time = block_begin
+            current_layer = next_layer
 
         # add travel distance of current block
         travel += block.get_block_travel()
 
+        # last block of the print: finish the last layer including this block
+        if block.next_block is None:
+            duration = block.segments[-1].t_end - last_layer_time
+            average_speed = travel / duration if duration != 0 else "NaN"
+
+            layers.append(current_layer)
+            durations.append(duration)
+            travel_distances.append(travel)
+            avg_speeds.append(average_speed)
+
     # write the layer info to a csv if a filepath is given
     if filepath is not None:
         # create directory if necessary
-- 
2.43.0


From 9e12cd72bcb132a4fdb9a39a7f2015dad5ad916a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:47 +0000
Subject: [PATCH 10/24] fix: submodel times without crossings and with
 crossings subject to rounding

---
 pyGCodeDecode/planner_block.py |  2 +-
 pyGCodeDecode/tools.py         | 12 +++++++-----
 pyGCodeDecode/utils.py         |  2 +-
 3 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/pyGCodeDecode/planner_block.py b/pyGCodeDecode/planner_block.py
index 7c36cba..261cf33 100644
--- a/pyGCodeDecode/planner_block.py
+++ b/pyGCodeDecode/planner_block.py
@@ -418,7 +418,7 @@ class planner_block:
         for segm in self.segments:
             cum_dist += segm.get_segm_len()  # len with current segment
             # last_cum_dist = len, without curr segm; dist_local >= last_cum_dist and ; last_cum_dist = cum_dist
-            if dist_local <= cum_dist:
+            if dist_local <= cum_dist + 1e-9:
                 segm_local_dist = segm.get_segm_len() - (cum_dist - dist_local)
 
                 time_of_isect = segm._interpolate_time_to_space(
diff --git a/pyGCodeDecode/tools.py b/pyGCodeDecode/tools.py
index 9b04987..eebdba8 100644
--- a/pyGCodeDecode/tools.py
+++ b/pyGCodeDecode/tools.py
@@ -167,12 +167,12 @@ def write_submodel_times(
 
             return [X_pos, X_neg, Y_pos, Y_neg, Z_pos, Z_neg]
 
-    def point_eval(point, pl_lim):
+    def point_eval(point, pl_lim, tolerance=0.0):
         p_eval = []
         for lim_n, p_n in zip(pl_lim, point):
             inters_pl = [
-                p_n <= lim_n[0],
-                p_n >= lim_n[1],
+                p_n <= lim_n[0] + tolerance,
+                p_n >= lim_n[1] - tolerance,
             ]  # check if point is inside of [CV+, CV-]
             p_eval.append(inters_pl)
         return p_eval
@@ -250,10 +250,12 @@ def write_submodel_times(
                     p_no=plane_normal,
                 )
 
-                if isec is not None and point_inside(p_eval=point_eval(isec, control_volume.get_plane_lim())):
+                if isec is not None and point_inside(
+                    p_eval=point_eval(isec, control_volume.get_plane_lim(), tolerance=1e-9)
+                ):
                     timetable.append([float(block.inverse_time_at_pos(s_len)), sgn])
 
-    timetable = np.asarray(timetable)  # convert list to array for sorting
+    timetable = np.asarray(timetable).reshape(-1, 2)  # convert list to array for sorting, possibly without crossings
     timetable = timetable[timetable[:, 0].argsort()]  # sort array by first column
 
     time_in = timetable[:, 0][np.asarray(timetable[:, 1], dtype=bool)]  # filter the data for entering the CV
diff --git a/pyGCodeDecode/utils.py b/pyGCodeDecode/utils.py
index 0492f36..e85aff8 100644
--- a/pyGCodeDecode/utils.py
+++ b/pyGCodeDecode/utils.py
@@ -468,7 +468,7 @@ class segment:
         def get_time(x):
             a = (self.vel_end.get_norm() - self.vel_begin.get_norm()) / (self.t_end - self.t_begin)
             v_begin = self.vel_begin.get_norm()
-            v_x = np.sqrt(max(2 * a * x + v_begin**2, 0))  # velocity at x, standstill at the end of a decelerating segment
+            v_x = np.sqrt(max(2 * a * x + v_begin**2, 0))  # standstill at the end at least
             t = 2 * x / (v_begin + v_x) if x > 0 else 0
             return t
 
-- 
2.43.0


From 6fe7143516a7cda1b9b2aa653fbad840ff12b4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:47 +0000
Subject: [PATCH 11/24] fix: divide 4D vectors by int as documented

---
 pyGCodeDecode/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyGCodeDecode/utils.py b/pyGCodeDecode/utils.py
index e85aff8..1c0dc5b 100644
--- a/pyGCodeDecode/utils.py
+++ b/pyGCodeDecode/utils.py
@@ -129,7 +129,7 @@ class vector_4D:
         Returns:
             div: (self) scalar division, scaling
         """
-        if type(other) is float or type(other) is np.float64:
+        if type(other) is float or type(other) is np.float64 or type(other) is int:
             x = self.x / other
             y = self.y / other
             z = self.z / other
-- 
2.43.0


From 9cc80ecdb807649421c8912ad925f1a1dcc39041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:01 +0000
Subject: [PATCH 12/24] fix: apply the MKA jerk factor once per junction

---
 pyGCodeDecode/junction_handling.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyGCodeDecode/junction_handling.py b/pyGCodeDecode/junction_handling.py
index ddc7371..ab5eefd 100644
--- a/pyGCodeDecode/junction_handling.py
+++ b/pyGCodeDecode/junction_handling.py
@@ -321,10 +321,10 @@ class junction_handling_MKA(junction_handling):
                 v_factor *= self.jerk / jerk
                 lim_flag = True
 
-            if lim_flag:
-                v_max_junc *= v_factor
+        if lim_flag:
+            v_max_junc *= v_factor
 
-            self.junction_vel = v_max_junc
+        self.junction_vel = v_max_junc
 
     def get_junction_vel(self):
         """Return the calculated junction velocity.
-- 
2.43.0


From 150b805dde98f73c36f95a3bb6d4a4ce5c6f0389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:49 +0000
Subject: [PATCH 13/24] fix: stop at junctions when the marlin jerk is zero

---
 pyGCodeDecode/junction_handling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyGCodeDecode/junction_handling.py b/pyGCodeDecode/junction_handling.py
index ab5eefd..72085b9 100644
--- a/pyGCodeDecode/junction_handling.py
+++ b/pyGCodeDecode/junction_handling.py
@@ -182,7 +182,7 @@ class junction_handling_marlin_jerk(junction_handling):
 
         vel_diff = vel_0 - vel_1
         jerk_move = vel_diff.get_norm()
-        scale = jerk_move / self.jerk if self.jerk > 0 else 0
+        scale = jerk_move / self.jerk if self.jerk > 0 else (np.inf if jerk_move > 0 else 0)
 
         if scale >= 1:
             self.junction_vel = (vel_0 / scale).get_norm()
-- 
2.43.0


From 7f82976dce0bf9863ad492f1519f8653add30f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:41 +0000
Subject: [PATCH 14/24] fix: a simulation keeps its machine setup when the
 setup object changes later

---
 pyGCodeDecode/gcode_interpreter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyGCodeDecode/gcode_interpreter.py b/pyGCodeDecode/gcode_interpreter.py
index b13f1d8..85132ef 100644
--- a/pyGCodeDecode/gcode_interpreter.py
+++ b/pyGCodeDecode/gcode_interpreter.py
@@ -911,7 +911,7 @@ class setup:
         Returns:
             return_dict: (dict) setup dictionary
         """
-        return_dict = self.setup_dict[self.printer_select]  # create dict
+        return_dict = dict(self.setup_dict[self.printer_select])  # create independent dict
         return_dict.update(self.initial_position)  # add initial position
         if self.layer_cue is not None:
             return_dict.update({"layer_cue": self.layer_cue})  # add layer cue
-- 
2.43.0


From 2310d38ba71df9c384fdd5f6bd4e58400f56a80b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:26 +0000
Subject: [PATCH 15/24] fix: create an initial segment without initial position

---
 pyGCodeDecode/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyGCodeDecode/utils.py b/pyGCodeDecode/utils.py
index 1c0dc5b..440a0b7 100644
--- a/pyGCodeDecode/utils.py
+++ b/pyGCodeDecode/utils.py
@@ -552,5 +552,5 @@ class segment:
             segment: (segment) initial beginning segment
         """
         velocity_0 = velocity(0, 0, 0, 0)
-        pos_0 = position(x=0, y=0, z=0, e=0) if initial_position is None else initial_position
+        pos_0 = position(0, 0, 0, 0) if initial_position is None else initial_position
         return cls(t_begin=0, t_end=0, pos_begin=pos_0, vel_begin=velocity_0, pos_end=pos_0, vel_end=velocity_0)
-- 
2.43.0


From f7c5cf5bb8534f28e9f414f1cc1bb2a5a80b17e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:26 +0000
Subject: [PATCH 16/24] fix: measure positions against lists, tuples and arrays
 as documented

---
 pyGCodeDecode/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyGCodeDecode/utils.py b/pyGCodeDecode/utils.py
index 440a0b7..988d1da 100644
--- a/pyGCodeDecode/utils.py
+++ b/pyGCodeDecode/utils.py
@@ -265,6 +265,7 @@ class position(vector_4D):
         Returns:
             is_travel: (bool) true if between self and other is distance
         """
+        other = other if isinstance(other, vector_4D) else position(other)
         if abs(other.x - self.x) + abs(other.y - self.y) + abs(other.z - self.z) > 0:
             return True
         else:
@@ -280,6 +281,7 @@ class position(vector_4D):
         Returns:
             is_extruding: (bool) true if between self and other is extrusion
         """
+        other = other if isinstance(other, vector_4D) else position(other)
         extrusion = other.e - self.e if ignore_retract else abs(other.e - self.e)
 
         if extrusion > 0:
@@ -299,6 +301,7 @@ class position(vector_4D):
         """
         if other is None:
             other = position(0, 0, 0, 0)
+        other = other if isinstance(other, vector_4D) else position(other)
         return np.linalg.norm(
             np.subtract(self.get_vec(withExtrusion=withExtrusion), other.get_vec(withExtrusion=withExtrusion))
         )
-- 
2.43.0


From 37a2e690c122100aeb6b1efce90314fb76e0d40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:06 +0000
Subject: [PATCH 17/24] fix: read G-code as UTF-8 and tolerate other bytes in
 comments

---
 pyGCodeDecode/state_generator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyGCodeDecode/state_generator.py b/pyGCodeDecode/state_generator.py
index 1594c61..6806350 100644
--- a/pyGCodeDecode/state_generator.py
+++ b/pyGCodeDecode/state_generator.py
@@ -186,7 +186,8 @@ def read_gcode_to_dict_list(filepath: pathlib.Path) -> List[dict]:
     custom_print("Parsing the gcode...")
     dict_list = []
 
-    with open(file=filepath) as file_gcode:
+    # comments may hold any bytes, which must not stop the simulation
+    with open(file=filepath, encoding="utf-8", errors="replace") as file_gcode:
         for i, line in enumerate(file_gcode):
             line_dict = arg_extract(string=line, key_dict=known_commands)
             line_dict["line_number"] = i + 1
-- 
2.43.0


From 4082e33cff01f0919e7cc7b15a9eef6fe132df0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:06 +0000
Subject: [PATCH 18/24] fix: read presets as UTF-8 whatever the locale

---
 pyGCodeDecode/gcode_interpreter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyGCodeDecode/gcode_interpreter.py b/pyGCodeDecode/gcode_interpreter.py
index 85132ef..c9888b6 100644
--- a/pyGCodeDecode/gcode_interpreter.py
+++ b/pyGCodeDecode/gcode_interpreter.py
@@ -842,7 +842,7 @@ class setup:
         import yaml
         from yaml import Loader
 
-        file = open(file=filepath)
+        file = open(file=filepath, encoding="utf-8")
 
         setup_dict = yaml.load(file, Loader=Loader)
         return setup_dict
-- 
2.43.0


From bd146cf8f2711f4f29edc637e189a6807dbe8b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:38 +0000
Subject: [PATCH 19/24] fix: find crossings by moves almost parallel to a face
 of the submodel

---
 pyGCodeDecode/tools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyGCodeDecode/tools.py b/pyGCodeDecode/tools.py
index eebdba8..a9af8e8 100644
--- a/pyGCodeDecode/tools.py
+++ b/pyGCodeDecode/tools.py
@@ -195,7 +195,7 @@ def write_submodel_times(
 
         return possible
 
-    def isect_line_plane(p0, p1, p_co, p_no, epsilon=1e-6):
+    def isect_line_plane(p0, p1, p_co, p_no):
         """Return a Vector or None (when the intersection can't be found).
 
         p0, p1: Define the line.
@@ -212,7 +212,7 @@ def write_submodel_times(
         u = p1 - p0
         dot = p_no.dot(u)
 
-        if abs(dot) > epsilon:
+        if dot != 0:
             # The factor of the point between p0 -> p1 (0 - 1)
             # if 'fac' is between (0 - 1) the point intersects with the segment.
             # Otherwise:
-- 
2.43.0


From e94f77605c90ed3e7e3bedec6e5d89c435be3452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:11 +0000
Subject: [PATCH 20/24] fix: report an entry or exit of the submodel only once
 at edges and at corners of the path on a face

---
 pyGCodeDecode/tools.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/pyGCodeDecode/tools.py b/pyGCodeDecode/tools.py
index a9af8e8..50dc575 100644
--- a/pyGCodeDecode/tools.py
+++ b/pyGCodeDecode/tools.py
@@ -242,6 +242,8 @@ def write_submodel_times(
         p_eval_B = point_eval(block.state_B.state_position.get_vec(), control_volume.get_plane_lim())
 
         if intersect_possible(p_eval0=p_eval_A, p_eval1=p_eval_B):
+            len_in, len_out = [], []
+
             for plane_orig, plane_normal in zip(control_volume.get_plane_orig(), control_volume.get_plane_normals()):
                 isec, s_len, sgn = isect_line_plane(
                     p0=block.state_A.state_position.get_vec(),
@@ -253,7 +255,18 @@ def write_submodel_times(
                 if isec is not None and point_inside(
                     p_eval=point_eval(isec, control_volume.get_plane_lim(), tolerance=1e-9)
                 ):
-                    timetable.append([float(block.inverse_time_at_pos(s_len)), sgn])
+                    (len_in if sgn else len_out).append(s_len)
+
+            # a motion enters and leaves at most once, even if it passes through an edge or begins or ends on a face
+            inside_A, inside_B = point_inside(p_eval_A), point_inside(p_eval_B)
+            enters = not inside_A and len(len_in) > 0
+            leaves = not inside_B and len(len_out) > 0
+            if not inside_A and not inside_B and not (enters and leaves and max(len_in) <= min(len_out)):
+                continue  # only touched within the tolerance
+            if enters:
+                timetable.append([float(block.inverse_time_at_pos(max(len_in))), True])
+            if leaves:
+                timetable.append([float(block.inverse_time_at_pos(min(len_out))), False])
 
     timetable = np.asarray(timetable).reshape(-1, 2)  # convert list to array for sorting, possibly without crossings
     timetable = timetable[timetable[:, 0].argsort()]  # sort array by first column
-- 
2.43.0


From a2f17ce433b74a0a892987ea139ece34e7be0a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:07 +0000
Subject: [PATCH 21/24] fix: time at a place in a piece of motion without
 duration was not a number

---
 pyGCodeDecode/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyGCodeDecode/utils.py b/pyGCodeDecode/utils.py
index 988d1da..3acb41c 100644
--- a/pyGCodeDecode/utils.py
+++ b/pyGCodeDecode/utils.py
@@ -463,6 +463,8 @@ class segment:
             scalar_end: (float) end value
             x: (float) x position
         """
+        if self.t_end == self.t_begin:  # no duration due to rounding
+            return scalar_begin
 
         def lin_scalar(t):
             slope = (scalar_end - scalar_begin) / (self.t_end - self.t_begin)
-- 
2.43.0


From 47f6eaaaa0b3e02005924429c46663bd4a3583c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:40 +0000
Subject: [PATCH 22/24] fix: a layer cue set as a property was ignored if the
 setup had been created with a cue

---
 pyGCodeDecode/gcode_interpreter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyGCodeDecode/gcode_interpreter.py b/pyGCodeDecode/gcode_interpreter.py
index c9888b6..3d590d1 100644
--- a/pyGCodeDecode/gcode_interpreter.py
+++ b/pyGCodeDecode/gcode_interpreter.py
@@ -902,6 +902,8 @@ class setup:
         """
         if self.printer_select is not None:
             self.setup_dict[self.printer_select].update(property_dict)
+            if "layer_cue" in property_dict:  # takes precedence over the cue given at creation
+                self.layer_cue = property_dict["layer_cue"]
         else:
             raise ValueError("No printer is selected. Select printer through select_printer() beforehand.")
 
-- 
2.43.0


From caa5a67cc94c30edf9aef80dd1550f4595e9b0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:09 +0000
Subject: [PATCH 23/24] fix: a time between two motions could not be queried
 when shifting them left a gap by rounding

---
 pyGCodeDecode/planner_block.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyGCodeDecode/planner_block.py b/pyGCodeDecode/planner_block.py
index 261cf33..1ea7ee6 100644
--- a/pyGCodeDecode/planner_block.py
+++ b/pyGCodeDecode/planner_block.py
@@ -245,6 +245,9 @@ class planner_block:
         if self.next_block is not None:
             delta_t = self.get_segments()[-1].t_end - self.next_block.get_segments()[0].t_begin
             self.next_block.timeshift(delta_t=delta_t)
+            # begin exactly at the end of this block, the shifted time may be rounded
+            next_segment = self.next_block.get_segments()[0]
+            next_segment.t_begin = min(self.get_segments()[-1].t_end, next_segment.t_end)
 
         # Check continuity in Position
         if self.next_block is not None:
-- 
2.43.0


From c31634b2b458112878f8f4896b08346b6e755fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:58 +0000
Subject: [PATCH 24/24] fix: a directory named like a program was taken for the
 program in the current directory

---
 pyGCodeDecode/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyGCodeDecode/cli.py b/pyGCodeDecode/cli.py
index 7b4e484..c04715a 100644
--- a/pyGCodeDecode/cli.py
+++ b/pyGCodeDecode/cli.py
@@ -34,7 +34,7 @@ def _plot(args: argparse.Namespace):
             exit()
         else:
             custom_print("⚠️ No G-code file specified. Looking for a G-code file in the current directory... 👀")
-            files_list = list(pathlib.Path.cwd().glob("*.gcode"))
+            files_list = [file for file in pathlib.Path.cwd().glob("*.gcode") if file.is_file()]
             if files_list.__len__() == 0:
                 custom_print("❌ No G-code file found in the current directory.\n" "🛑 Exiting the program.")
                 exit()
-- 
2.43.0

