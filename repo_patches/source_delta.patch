From 4a2c6a6362b31dcdde7101ad8190e54798a2d8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:03 +0000
Subject: [PATCH 01/41] fix: do not modify the caller's downtime_windows dict

---
 .../simulator/timeline_builders/rotation_builder.py      | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
index a5b614d..2eebed2 100644
--- a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
+++ b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
@@ -97,10 +97,11 @@ class RotationBuilder:
                 downtime_windows
             )
         else:
-            for target, downtime_windows_use in downtime_windows.items():
-                downtime_windows[target] = RotationBuilder.__do_init_downtime_windows(
-                    downtime_windows_use
-                )
+            # Build a new dict, so that the caller's dict is left untouched.
+            downtime_windows = {
+                target: RotationBuilder.__do_init_downtime_windows(downtime_windows_use)
+                for target, downtime_windows_use in downtime_windows.items()
+            }
         return downtime_windows
 
     def __process_downtime_windows(self):
-- 
2.43.0


From e5e29cc3e2151842f2cb7e1659b47b2f1c7f1893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:11 +0000
Subject: [PATCH 02/41] fix: apply downtime windows given without a target to
 targets added after a query

---
 .../timeline_builders/rotation_builder.py      | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
index 2eebed2..2d68200 100644
--- a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
+++ b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
@@ -73,7 +73,6 @@ class RotationBuilder:
             downtime_windows
         )
         self.__default_target = default_target
-        self.__all_targets = set()
 
     @staticmethod
     def __do_init_downtime_windows(downtime_windows):
@@ -104,12 +103,11 @@ class RotationBuilder:
             }
         return downtime_windows
 
-    def __process_downtime_windows(self):
+    def __get_downtime_windows(self, target):
+        # A tuple of downtime windows applies to every target.
         if isinstance(self.__downtime_windows, tuple):
-            res = {}
-            for k in self.__all_targets:
-                res[k] = self.__downtime_windows
-            self.__downtime_windows = res
+            return self.__downtime_windows
+        return self.__downtime_windows.get(target, tuple())
 
     def get_button_press_timing(self):
         res = copy.deepcopy(self.__q_button_press_timing)
@@ -129,8 +127,6 @@ class RotationBuilder:
             targets, str
         ), "'targets' must be specified as a comma-separate string. Perhaps you made it a tuple? Got: {targets}"
         all_targets = tuple(x.strip() for x in targets.split(","))
-        for target in all_targets:
-            self.__all_targets.add(target)
         return all_targets
 
     @staticmethod
@@ -696,7 +692,7 @@ class RotationBuilder:
         return res
 
     def __filter_by_downtime_range_and_damage_class(self, t, target, damage_class):
-        for r in self.__downtime_windows.get(target, tuple()):
+        for r in self.__get_downtime_windows(target):
             # None indicates filtering all damage types
             is_filtered_damage_type = (r[2] is None) or (r[2] == damage_class)
             if (r[0] <= t < r[1]) and is_filtered_damage_type:
@@ -759,8 +755,6 @@ class RotationBuilder:
         # Each downtime range is the semi-open interval [start_time, end_time). In other
         # words, boss cannot be hit at start_time, but can be hit immediately at end_time.
         # Windows are assumed to be non-overlapping.
-        self.__process_downtime_windows()
-
         self._q_snapshot_and_applications = SnapshotAndApplicationEvents()
         self.__q_button_press_timing.clear()
         self.__process_q_sequence()
@@ -897,7 +891,7 @@ class RotationBuilder:
 
     # This is only called during a downtime window.
     def forward_to_next_non_downtime_time(self, snapshot_time, auto_target):
-        for r in self.__downtime_windows.get(auto_target, tuple()):
+        for r in self.__get_downtime_windows(auto_target):
             if r[0] <= snapshot_time < r[1] and (
                 r[2] is None or r[2] == DamageClass.AUTO
             ):
-- 
2.43.0


From b3d5031a59a1186798d2f57ce5b52294d66a1c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:22 +0000
Subject: [PATCH 03/41] fix: do not carry dots and press targets of earlier
 queries into get_skill_timing

---
 .../simulator/timeline_builders/rotation_builder.py             | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
index 2d68200..82f6519 100644
--- a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
+++ b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
@@ -757,6 +757,8 @@ class RotationBuilder:
         # Windows are assumed to be non-overlapping.
         self._q_snapshot_and_applications = SnapshotAndApplicationEvents()
         self.__q_button_press_timing.clear()
+        self._q_dot_skills.clear()
+        self.__timestamps_and_main_target.clear()
         self.__process_q_sequence()
         self.__process_q_timed()
 
-- 
2.43.0


From 30d42e5f160f3a31b932dfe6862c89d30b5af0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:32 +0000
Subject: [PATCH 04/41] fix: process timed skills in time order regardless of
 insertion order

---
 .../timeline_builders/rotation_builder.py        | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
index 82f6519..4f5e7ac 100644
--- a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
+++ b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
@@ -1,5 +1,4 @@
 import copy
-import heapq
 import math
 
 from ama_xiv_combat_sim.simulator.calcs.damage_class import DamageClass
@@ -466,6 +465,10 @@ class RotationBuilder:
                 targets,
             )
 
+    def __get_sorted_q_timed(self):
+        # Chronological order; skills pressed at the same time are ordered by name.
+        return sorted(copy.deepcopy(self._q_timed), key=lambda x: (x[0], x[1].name))
+
     def __process_q_timed(self):
         se_tracker = StatusEffectTracker(self.__status_effect_priority)
         job_resource_tracker = JobResourceTracker(
@@ -475,10 +478,8 @@ class RotationBuilder:
             self._skill_library.get_all_combo_breakers(self.__stats.job_class)
         )
 
-        q = copy.deepcopy(self._q_timed)
-        q.sort(key=lambda x: x[0])
-        while len(q) > 0:
-            (curr_t, skill, skill_modifier, job_class, targets) = heapq.heappop(q)
+        q = self.__get_sorted_q_timed()
+        for curr_t, skill, skill_modifier, job_class, targets in q:
             self.__q_button_press_timing.append(
                 [
                     curr_t,
@@ -835,7 +836,7 @@ class RotationBuilder:
         ), job_resource_tracker.compile_job_resources(curr_t, skill)
 
     def get_no_auto_periods(self):
-        q = copy.deepcopy(self._q_timed)
+        q = self.__get_sorted_q_timed()
         cast_periods = []
         se_tracker = StatusEffectTracker(self.__status_effect_priority)
         c_tracker = ChannelingTracker()
@@ -846,8 +847,7 @@ class RotationBuilder:
             self._skill_library.get_all_combo_breakers(self.__stats.job_class)
         )
 
-        while len(q) > 0:
-            (t, skill, skill_modifier, _, _) = heapq.heappop(q)
+        for t, skill, skill_modifier, _, _ in q:
             se_tracker.expire_status_effects(t)
             c_tracker.process_channeling(t, skill, skill_modifier)
             curr_buffs_and_skill_modifier = se_tracker.compile_buffs(t, skill)
-- 
2.43.0


From 879de7d7701564b7a0702378bac50d5d35f022de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:39 +0000
Subject: [PATCH 05/41] fix: drop trailing dot ticks when the last event is at
 time 0

---
 .../simulator/timeline_builders/rotation_builder.py           | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
index 4f5e7ac..27c1682 100644
--- a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
+++ b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
@@ -386,7 +386,9 @@ class RotationBuilder:
                     for application_time in range(
                         dot_start_time, dot_end_time, GameConsts.DOT_TICK_INTERVAL
                     ):
-                        if (last_event_time) and (application_time > last_event_time):
+                        if (last_event_time is not None) and (
+                            application_time > last_event_time
+                        ):
                             continue
                         priority = Utils.transform_time_to_prio(
                             parent_snapshot_time
-- 
2.43.0


From 9dca55eb0f0806e027151c8d6f999528972e6420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:47 +0000
Subject: [PATCH 06/41] fix: do not crash on auto attacks for a rotation
 without damage

---
 .../simulator/timeline_builders/rotation_builder.py           | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
index 27c1682..4b6cb86 100644
--- a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
+++ b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
@@ -925,6 +925,10 @@ class RotationBuilder:
                 res.append(seq[i])
             return res
 
+        # Autos start with the first damage instance, so without one there are no autos.
+        if self._q_snapshot_and_applications.get_first_damage_time() is None:
+            return
+
         timestamps_and_main_target = copy.deepcopy(self.__timestamps_and_main_target)
         timestamps_and_main_target.sort(key=lambda x: x[0])
         timestamps_and_main_target = shorten_sequence(timestamps_and_main_target)
-- 
2.43.0


From 1a073eceb49b7f7af65bc5facfdfb0a1622c8ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:54 +0000
Subject: [PATCH 07/41] fix: keep the millisecond of timed skills

---
 .../simulator/timeline_builders/rotation_builder.py             | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
index 4b6cb86..bd17f42 100644
--- a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
+++ b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
@@ -171,7 +171,7 @@ class RotationBuilder:
         skill = self._skill_library.get_skill(skill_name, job_class)
         if skill_modifier is None:
             skill_modifier = self.get_default_skill_modifier(skill, job_class)            
-        self._q_timed.append((int(1000 * t), skill, skill_modifier, job_class, targets))
+        self._q_timed.append((round(1000 * t), skill, skill_modifier, job_class, targets))
 
     @staticmethod
     def __follow_up_is_dot(follow_up_skill):
-- 
2.43.0


From 01c089a4794a6861ba6e19831a07916ad358a714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:02 +0000
Subject: [PATCH 08/41] fix: do not lose a millisecond of the weapon delay to
 floating point

---
 .../simulator/timeline_builders/rotation_builder.py             | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
index bd17f42..565f71c 100644
--- a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
+++ b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
@@ -933,7 +933,7 @@ class RotationBuilder:
         timestamps_and_main_target.sort(key=lambda x: x[0])
         timestamps_and_main_target = shorten_sequence(timestamps_and_main_target)
                 
-        weapon_delay = int(1000 * self.__stats.weapon_delay)  # convert to ms
+        weapon_delay = round(1000 * self.__stats.weapon_delay)  # convert to ms
 
         if self._skill_library.has_skill("Shot", self.__stats.job_class):
             auto_skill = self._skill_library.get_skill("Shot", self.__stats.job_class)
-- 
2.43.0


From 731e63e962ad02bc34564ead62160f0b61da4036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:11 +0000
Subject: [PATCH 09/41] fix: keep downtime window ends exact in milliseconds

---
 .../simulator/timeline_builders/rotation_builder.py          | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
index 565f71c..888b9b1 100644
--- a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
+++ b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
@@ -80,8 +80,9 @@ class RotationBuilder:
         # convert to ms
         for i, downtime_window in enumerate(downtime_windows):
             downtime_window = list(downtime_window)
-            downtime_window[0] *= 1000
-            downtime_window[1] *= 1000
+            # round, so that no floating point error moves the ends of the window
+            downtime_window[0] = round(1000 * downtime_window[0], 6)
+            downtime_window[1] = round(1000 * downtime_window[1], 6)
             if len(downtime_window) < 3:
                 downtime_window.append(None)
 
-- 
2.43.0


From 065b11d859391500b53a2e6c6deced25d3465de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:01 +0000
Subject: [PATCH 10/41] fix: process the hits of a multi-target skill in the
 order they land

---
 .../simulator/timeline_builders/damage_builder.py      | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ama_xiv_combat_sim/simulator/timeline_builders/damage_builder.py b/ama_xiv_combat_sim/simulator/timeline_builders/damage_builder.py
index 60fc805..17f7931 100644
--- a/ama_xiv_combat_sim/simulator/timeline_builders/damage_builder.py
+++ b/ama_xiv_combat_sim/simulator/timeline_builders/damage_builder.py
@@ -138,11 +138,6 @@ class DamageBuilder:
                 priority_modifier = (
                     Utils.transform_time_to_prio(event_times.primary) - priority
                 )
-                new_priority = (
-                    Utils.transform_time_to_prio(event_times.secondary)
-                    + priority_modifier
-                )
-
                 job_conditional_was_processed = False
                 if not job_conditional_processed and skill.job_resources_snapshot:
                     job_resource_conditional = (
@@ -195,6 +190,11 @@ class DamageBuilder:
                         skill_modifier_to_use.add_to_condition(
                             skill_modifier_from_debuffs
                         )
+                    # later targets are hit later, so order them by their own time
+                    new_priority = (
+                        Utils.transform_time_to_prio(application_time)
+                        + priority_modifier
+                    )
                     q_snapshot_and_applications.add(
                         new_priority,
                         application_time,
-- 
2.43.0


From adc5d7ff2668d79a9e98fb8a28e935e8d1883169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:08 +0000
Subject: [PATCH 11/41] fix: expire job resources refreshed at time 0, and
 ignore later resource events

---
 .../simulator/trackers/job_resource_tracker.py             | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ama_xiv_combat_sim/simulator/trackers/job_resource_tracker.py b/ama_xiv_combat_sim/simulator/trackers/job_resource_tracker.py
index a47145d..9421d45 100644
--- a/ama_xiv_combat_sim/simulator/trackers/job_resource_tracker.py
+++ b/ama_xiv_combat_sim/simulator/trackers/job_resource_tracker.py
@@ -60,6 +60,9 @@ class JobResourceTracker:
             for start_time, end_time, resource_spec in self.__resources[
                 job_resource_name
             ]:
+                # events are sorted by start time, and cannot have an effect before it
+                if curr_t < start_time:
+                    break
 
                 if last_refresh_time is None:
                     last_refresh_time = start_time
@@ -72,7 +75,7 @@ class JobResourceTracker:
                 if resource_spec.refreshes_duration_of_last_gained:
                     last_refresh_time = start_time
 
-                if curr_t < start_time or curr_t > end_time:
+                if curr_t > end_time:
                     continue
 
                 total_resource += resource_spec.change
@@ -80,7 +83,7 @@ class JobResourceTracker:
                 total_resource = max(0, total_resource)
 
             if (
-                last_refresh_time
+                last_refresh_time is not None
                 and last_refresh_time + job_resource_config.expiry_from_last_gain
                 < curr_t
             ):
-- 
2.43.0


From f7729647744b2f64857e3fa4207948646bd86e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:16 +0000
Subject: [PATCH 12/41] fix: do not carry effects, combos and resources over to
 the next rotation of a DamageBuilder

---
 .../simulator/timeline_builders/damage_builder.py          | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ama_xiv_combat_sim/simulator/timeline_builders/damage_builder.py b/ama_xiv_combat_sim/simulator/timeline_builders/damage_builder.py
index 17f7931..8aa7645 100644
--- a/ama_xiv_combat_sim/simulator/timeline_builders/damage_builder.py
+++ b/ama_xiv_combat_sim/simulator/timeline_builders/damage_builder.py
@@ -24,9 +24,12 @@ class DamageBuilder:
         self.__status_effect_priority = skill_library.get_status_effect_priority(
             stats.job_class
         )
+        self.__reset_trackers()
+
+    def __reset_trackers(self):
         self.se = StatusEffectTracker(self.__status_effect_priority)
         self.job_resource_tracker = JobResourceTracker(
-            self.__skill_library.get_all_resource_settings(stats.job_class)
+            self.__skill_library.get_all_resource_settings(self.__stats.job_class)
         )
         self.combo_tracker = ComboTracker(
             self.__skill_library.get_all_combo_breakers(self.__stats.job_class)
@@ -41,6 +44,8 @@ class DamageBuilder:
     def get_damage_instances(
         self, q_snapshot_and_applications: SnapshotAndApplicationEvents
     ):
+        # Do not carry over anything from previously processed rotations.
+        self.__reset_trackers()
         q = []  # (current_time, skill, skill_modifier, (buffs, debuffs), job_resources)
         while not q_snapshot_and_applications.is_empty():
             [
-- 
2.43.0


From b75ad7b14150f895ccf62b35323bc218d62dfc2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:23 +0000
Subject: [PATCH 13/41] fix: do not compare status effects when damage
 instances coincide

---
 .../simulator/timeline_builders/damage_builder.py             | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/ama_xiv_combat_sim/simulator/timeline_builders/damage_builder.py b/ama_xiv_combat_sim/simulator/timeline_builders/damage_builder.py
index 8aa7645..f9145df 100644
--- a/ama_xiv_combat_sim/simulator/timeline_builders/damage_builder.py
+++ b/ama_xiv_combat_sim/simulator/timeline_builders/damage_builder.py
@@ -1,5 +1,4 @@
 import copy
-import heapq
 
 from ama_xiv_combat_sim.simulator.game_data.game_consts import GameConsts
 from ama_xiv_combat_sim.simulator.timeline_builders.snapshot_and_application_events import (
@@ -122,8 +121,7 @@ class DamageBuilder:
                         )
 
                     if skill.get_damage_spec(skill_modifier_to_use) is not None:
-                        heapq.heappush(
-                            q,
+                        q.append(
                             (
                                 application_time,
                                 skill,
-- 
2.43.0


From 4eab41a9b1ec4cd0b467735810ff13e6eb6e041a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:31 +0000
Subject: [PATCH 14/41] fix: never crit or direct hit at a rate of 0

---
 ama_xiv_combat_sim/simulator/trackers/damage_tracker.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ama_xiv_combat_sim/simulator/trackers/damage_tracker.py b/ama_xiv_combat_sim/simulator/trackers/damage_tracker.py
index 8ce6891..2d9d824 100644
--- a/ama_xiv_combat_sim/simulator/trackers/damage_tracker.py
+++ b/ama_xiv_combat_sim/simulator/trackers/damage_tracker.py
@@ -89,7 +89,7 @@ class DamageTracker:
                 + base_damage_range * np.random.rand(num_damage_instances, num_samples)
             )
         )
-        crit_status = crit_rate >= np.random.rand(num_damage_instances, num_samples)
+        crit_status = crit_rate > np.random.rand(num_damage_instances, num_samples)
         total_damage += np.floor(
             np.multiply(
                 total_damage,
@@ -99,7 +99,7 @@ class DamageTracker:
                 ),
             )
         )
-        dh_status = dh_rate >= np.random.rand(num_damage_instances, num_samples)        
+        dh_status = dh_rate > np.random.rand(num_damage_instances, num_samples)        
         total_damage += np.floor(
             np.multiply(
                 total_damage,
-- 
2.43.0


From 5dd57054c7769d416c08d59d5a9f4f0e593b06f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:38 +0000
Subject: [PATCH 15/41] fix: support rotations with more than 5000 damage
 instances

---
 .../simulator/trackers/damage_tracker.py      | 20 +++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/ama_xiv_combat_sim/simulator/trackers/damage_tracker.py b/ama_xiv_combat_sim/simulator/trackers/damage_tracker.py
index 2d9d824..367de7e 100644
--- a/ama_xiv_combat_sim/simulator/trackers/damage_tracker.py
+++ b/ama_xiv_combat_sim/simulator/trackers/damage_tracker.py
@@ -22,6 +22,24 @@ class DamageTracker:
         # for debugging
         self.base_damage = np.zeros((5000, 1))
 
+    def __grow(self):
+        # double the number of damage instances that can be tracked
+        for name in (
+            "base_damage",
+            "crit_rate",
+            "crit_bonus",
+            "dh_rate",
+            "trait_damage_mult",
+            "damage_mult",
+            "time",
+            "potency",
+        ):
+            arr = getattr(self, name)
+            setattr(self, name, np.concatenate((arr, np.zeros_like(arr)), axis=0))
+        for name in ("skill_modifier_condition", "status_effects", "damage_classes"):
+            lst = getattr(self, name)
+            lst.extend([""] * len(lst))
+
     def add_damage(
         self,
         base_damage,
@@ -40,6 +58,8 @@ class DamageTracker:
             raise RuntimeError(
                 "DamageTracker is finalized. Cannot add damage instances."
             )
+        if self.it == len(self.time):
+            self.__grow()
         self.base_damage[self.it] = base_damage
         self.crit_rate[self.it] = crit_rate
         self.crit_bonus[self.it] = crit_bonus
-- 
2.43.0


From c9df43d7b973a40d1ccbc0c4d1389698c8f7869a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:46 +0000
Subject: [PATCH 16/41] fix: apply the aoe dropoff to the 10th target

---
 ama_xiv_combat_sim/simulator/skills/skill.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ama_xiv_combat_sim/simulator/skills/skill.py b/ama_xiv_combat_sim/simulator/skills/skill.py
index bd8aa12..9bd31c1 100644
--- a/ama_xiv_combat_sim/simulator/skills/skill.py
+++ b/ama_xiv_combat_sim/simulator/skills/skill.py
@@ -58,7 +58,7 @@ class Skill:
             damage_spec = {SimConsts.DEFAULT_CONDITION: damage_spec}
         keys = tuple(damage_spec.keys())
         for key in keys:
-            for target_num in range(2, 10):  # max of 10 targets
+            for target_num in range(2, 11):  # max of 10 targets
                 if len(key) > 0:
                     new_key = f"{key}, Target {target_num}"
                 else:
-- 
2.43.0


From 08db4aa16a8819b3203572afb3a56fbf3efb00a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:54 +0000
Subject: [PATCH 17/41] fix: consider all follow ups when computing
 has_buff/has_debuff/has_party_*

---
 ama_xiv_combat_sim/simulator/skills/skill.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ama_xiv_combat_sim/simulator/skills/skill.py b/ama_xiv_combat_sim/simulator/skills/skill.py
index 9bd31c1..ac379c5 100644
--- a/ama_xiv_combat_sim/simulator/skills/skill.py
+++ b/ama_xiv_combat_sim/simulator/skills/skill.py
@@ -106,7 +106,7 @@ class Skill:
                 for follow_up in self.follow_up_skills:
                     if getattr(follow_up.skill, spec_to_use) is not None:
                         res = True
-                    break
+                        break
             elif isinstance(self.follow_up_skills, dict):
                 for _, follow_ups in self.follow_up_skills.items():
                     for follow_up in follow_ups:
@@ -144,7 +144,7 @@ class Skill:
                                 break
                     elif sp is not None and sp.is_party_effect:
                         res = True
-                    break
+                        break
             elif isinstance(self.follow_up_skills, dict):
                 for _, follow_ups in self.follow_up_skills.items():
                     for follow_up in follow_ups:
-- 
2.43.0


From bec01b132b31e95e13c3bd7d3e3a7cfd35f9f1f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:02 +0000
Subject: [PATCH 18/41] fix: apply the buff of a multi-target skill once

---
 .../simulator/timeline_builders/damage_builder.py    | 12 +++++++++++-
 .../simulator/trackers/status_effect_tracker.py      |  9 +++++++--
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/ama_xiv_combat_sim/simulator/timeline_builders/damage_builder.py b/ama_xiv_combat_sim/simulator/timeline_builders/damage_builder.py
index f9145df..87c14c3 100644
--- a/ama_xiv_combat_sim/simulator/timeline_builders/damage_builder.py
+++ b/ama_xiv_combat_sim/simulator/timeline_builders/damage_builder.py
@@ -45,6 +45,7 @@ class DamageBuilder:
     ):
         # Do not carry over anything from previously processed rotations.
         self.__reset_trackers()
+        event_ids_with_buffs_applied = set()
         q = []  # (current_time, skill, skill_modifier, (buffs, debuffs), job_resources)
         while not q_snapshot_and_applications.is_empty():
             [
@@ -214,7 +215,16 @@ class DamageBuilder:
 
             # by default, we apply buffs as the last step of any skill application
             if is_application_time:
-                self.se.add_to_status_effects(curr_time, skill, skill_modifier, targets)
+                # A skill hitting multiple targets has one application event per target,
+                # but its buffs are only applied once.
+                self.se.add_to_status_effects(
+                    curr_time,
+                    skill,
+                    skill_modifier,
+                    targets,
+                    apply_buffs=event_id not in event_ids_with_buffs_applied,
+                )
+                event_ids_with_buffs_applied.add(event_id)
 
         q.sort(key=lambda x: x[0])
         return q
diff --git a/ama_xiv_combat_sim/simulator/trackers/status_effect_tracker.py b/ama_xiv_combat_sim/simulator/trackers/status_effect_tracker.py
index b8738b1..c7a3def 100644
--- a/ama_xiv_combat_sim/simulator/trackers/status_effect_tracker.py
+++ b/ama_xiv_combat_sim/simulator/trackers/status_effect_tracker.py
@@ -106,9 +106,14 @@ class StatusEffectTracker:
             )
 
     def add_to_status_effects(
-        self, t, skill, skill_modifier, targets=(SimConsts.DEFAULT_TARGET,)
+        self,
+        t,
+        skill,
+        skill_modifier,
+        targets=(SimConsts.DEFAULT_TARGET,),
+        apply_buffs=True,
     ):
-        buff_spec = skill.get_buff_spec(skill_modifier)
+        buff_spec = skill.get_buff_spec(skill_modifier) if apply_buffs else None
         debuff_spec = skill.get_debuff_spec(skill_modifier)
 
         if buff_spec is not None:
-- 
2.43.0


From e684018d3b3ec3378a3d01c67d0360dab6bc64ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:10 +0000
Subject: [PATCH 19/41] fix: make the default skill library (6.55) one that
 exists (level 90)

---
 ama_xiv_combat_sim/simulator/skills/create_skill_library.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ama_xiv_combat_sim/simulator/skills/create_skill_library.py b/ama_xiv_combat_sim/simulator/skills/create_skill_library.py
index 920f973..7d10864 100644
--- a/ama_xiv_combat_sim/simulator/skills/create_skill_library.py
+++ b/ama_xiv_combat_sim/simulator/skills/create_skill_library.py
@@ -19,7 +19,7 @@ import ama_xiv_combat_sim.simulator.game_data.generic_skills.add_generic_skills_
 from ama_xiv_combat_sim.simulator.skills.skill_library import SkillLibrary
 
 
-def create_skill_library(version="6.55", level=100):
+def create_skill_library(version="6.55", level=90):
     skill_library = SkillLibrary(version, level)
     skill_library = add_tank_skills_to_skill_library(skill_library)
     skill_library = add_healer_skills_to_skill_library(skill_library)
-- 
2.43.0


From df3a8ae47f9f4987ec2e23084d85037e5db220c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:22 +0000
Subject: [PATCH 20/41] fix: do not lose a millisecond of cast and recast times
 to floating point

---
 ama_xiv_combat_sim/simulator/calcs/stat_fns.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ama_xiv_combat_sim/simulator/calcs/stat_fns.py b/ama_xiv_combat_sim/simulator/calcs/stat_fns.py
index fa12894..2b1d510 100644
--- a/ama_xiv_combat_sim/simulator/calcs/stat_fns.py
+++ b/ama_xiv_combat_sim/simulator/calcs/stat_fns.py
@@ -11,8 +11,8 @@ class StatFns:
 
         tmp = np.ceil(speed_const * (level_sub - speed_stat) / level_div)
         tmp2 = t_ms * (1000 + tmp) / 10000
-        tmp3 = np.floor(tmp2) / 100
-        return int(1000 * tmp3)
+        # tmp2 is in units of 10ms
+        return 10 * int(np.floor(tmp2))
 
     @staticmethod
     def get_crit_stats(crit_stat, version, level=90):
-- 
2.43.0


From 57504bf6abee43788e09d29498a047d7a180109e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:31 +0000
Subject: [PATCH 21/41] fix: find the LB damage among other conditions, and
 keep its decimals

---
 ama_xiv_combat_sim/kill_time_estimator/kill_time_estimator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ama_xiv_combat_sim/kill_time_estimator/kill_time_estimator.py b/ama_xiv_combat_sim/kill_time_estimator/kill_time_estimator.py
index acfb42e..c920306 100644
--- a/ama_xiv_combat_sim/kill_time_estimator/kill_time_estimator.py
+++ b/ama_xiv_combat_sim/kill_time_estimator/kill_time_estimator.py
@@ -14,8 +14,8 @@ class KillTimeEstimator():
 
   @staticmethod
   def get_lb_damage(condition, num_samples):
-    res_mean = re.search(r"^{} (\d+)".format(SimConsts.LB_MEAN_DAMAGE), condition)
-    res_exact = re.search(r"^{} (\d+)".format(SimConsts.LB_EXACT_DAMAGE), condition)
+    res_mean = re.search(r"(?:^|,)\s*{} (\d+(?:\.\d+)?)".format(SimConsts.LB_MEAN_DAMAGE), condition)
+    res_exact = re.search(r"(?:^|,)\s*{} (\d+(?:\.\d+)?)".format(SimConsts.LB_EXACT_DAMAGE), condition)
 
     if res_mean is None and res_exact is None:
       raise RuntimeError('LB conditional must be "Mean Damage: number", or "Exact Damage: number". Instead, got: {}'.format(condition))
-- 
2.43.0


From c0e42d61b1beb0643bd748ef1d3403177a611291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:40 +0000
Subject: [PATCH 22/41] fix: add party skills with a modifier once in example
 rotations

---
 ama_xiv_combat_sim/example_rotations/example_rotation_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ama_xiv_combat_sim/example_rotations/example_rotation_utils.py b/ama_xiv_combat_sim/example_rotations/example_rotation_utils.py
index ddc847c..c80cd54 100644
--- a/ama_xiv_combat_sim/example_rotations/example_rotation_utils.py
+++ b/ama_xiv_combat_sim/example_rotations/example_rotation_utils.py
@@ -26,7 +26,8 @@ class ExampleRotationUtils:
                 rb.add(
                     t, skill_name, skill_modifier=skill_modifier, job_class=job_class
                 )
-            rb.add(t, skill_name, job_class=job_class)
+            else:
+                rb.add(t, skill_name, job_class=job_class)
 
         for sk in skills:
             rb.add_next(sk)
-- 
2.43.0


From 404ffd5e03979410bcdc95498d50cd25b9fc754c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:47 +0000
Subject: [PATCH 23/41] fix: use the level of the example rotation for its
 stats

---
 ama_xiv_combat_sim/example_rotations/specific_rotations.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ama_xiv_combat_sim/example_rotations/specific_rotations.py b/ama_xiv_combat_sim/example_rotations/specific_rotations.py
index 6de4cf3..01e6894 100644
--- a/ama_xiv_combat_sim/example_rotations/specific_rotations.py
+++ b/ama_xiv_combat_sim/example_rotations/specific_rotations.py
@@ -62,6 +62,7 @@ class SpecificRotations:
             ),
             job_class=job_class,
             version=self.version,
+            level=self.level,
         )
         return stats
 
-- 
2.43.0


From 470aa22eb48d67ceb43048b6dd929393916caf40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:57 +0000
Subject: [PATCH 24/41] fix: use the conditions of speed effects, and the
 auto's allow/deny lists, for auto attack delays

---
 .../simulator/timeline_builders/rotation_builder.py       | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
index 888b9b1..d3ffccb 100644
--- a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
+++ b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
@@ -810,7 +810,7 @@ class RotationBuilder:
                 if event_times.secondary is not None
                 else event_times.primary
             )
-            res.append((application_time, skill))
+            res.append((application_time, skill, skill_modifier))
         res.sort(key=lambda x: x[0])
         return res
 
@@ -825,10 +825,10 @@ class RotationBuilder:
             self._skill_library.get_all_resource_settings(self.__stats.job_class)
         )
 
-        for t, skill in applicable_status_effect_events:
+        for t, se_skill, se_skill_modifier in applicable_status_effect_events:
             se_tracker.expire_status_effects(t)
-            se_tracker.add_to_status_effects(t, skill, skill_modifier, targets)
-            job_resource_tracker.add_resource(t, skill, skill_modifier)
+            se_tracker.add_to_status_effects(t, se_skill, se_skill_modifier, targets)
+            job_resource_tracker.add_resource(t, se_skill, se_skill_modifier)
 
         se_tracker.expire_status_effects(curr_t)
         curr_buffs_and_skill_modifier = se_tracker.compile_buffs(curr_t, skill)
-- 
2.43.0


From 718ad17d51e87a12cc62611239adab6cef6a0cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:00 +0000
Subject: [PATCH 25/41] fix: pause auto attacks for the actual casts of timed
 skills, not for ones made instant by a follow up

---
 .../timeline_builders/rotation_builder.py     | 54 ++++---------------
 1 file changed, 9 insertions(+), 45 deletions(-)

diff --git a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
index d3ffccb..937ea76 100644
--- a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
+++ b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
@@ -56,6 +56,7 @@ class RotationBuilder:
         self._q_sequence = []  # (skill, skill_modifier, job_class)
         self._q_dot_skills = {}  # this is a map
         self.__q_button_press_timing = []
+        self.__timed_casts = []  # (time, skill, skill_modifier, cast_time)
         self._q_snapshot_and_applications = SnapshotAndApplicationEvents()
         self.__enable_autos = enable_autos
         self.__ignore_trailing_dots = ignore_trailing_dots
@@ -525,6 +526,10 @@ class RotationBuilder:
                 print(str(v))
 
             self.__timestamps_and_main_target.append((curr_t, targets[0]))
+            cast_time = self.__get_cast_time(
+                skill.get_timing_spec(skill_modifier), skill_modifier, curr_buffs
+            )
+            self.__timed_casts.append((curr_t, skill, skill_modifier, cast_time))
             self.__process_skill(
                 curr_t,
                 skill,
@@ -762,6 +767,7 @@ class RotationBuilder:
         self._q_snapshot_and_applications = SnapshotAndApplicationEvents()
         self.__q_button_press_timing.clear()
         self._q_dot_skills.clear()
+        self.__timed_casts.clear()
         self.__timestamps_and_main_target.clear()
         self.__process_q_sequence()
         self.__process_q_timed()
@@ -838,56 +844,14 @@ class RotationBuilder:
             curr_debuffs_and_skill_modifier,
         ), job_resource_tracker.compile_job_resources(curr_t, skill)
 
+    # Only valid once the timed skills have been processed.
     def get_no_auto_periods(self):
-        q = self.__get_sorted_q_timed()
-        cast_periods = []
-        se_tracker = StatusEffectTracker(self.__status_effect_priority)
         c_tracker = ChannelingTracker()
-        job_resource_tracker = JobResourceTracker(
-            self._skill_library.get_all_resource_settings(self.__stats.job_class)
-        )
-        combo_tracker = ComboTracker(
-            self._skill_library.get_all_combo_breakers(self.__stats.job_class)
-        )
-
-        for t, skill, skill_modifier, _, _ in q:
-            se_tracker.expire_status_effects(t)
+        cast_periods = []
+        for t, skill, skill_modifier, cast_time in self.__timed_casts:
             c_tracker.process_channeling(t, skill, skill_modifier)
-            curr_buffs_and_skill_modifier = se_tracker.compile_buffs(t, skill)
-            curr_debuffs_and_skill_modifier = se_tracker.compile_debuffs(t, skill)
-
-            curr_buffs, skill_modifier_from_buffs = (
-                curr_buffs_and_skill_modifier[0],
-                curr_buffs_and_skill_modifier[1],
-            )
-            _, skill_modifier_from_debuffs = (
-                curr_debuffs_and_skill_modifier[0],
-                curr_debuffs_and_skill_modifier[1],
-            )
-            job_resource_conditional = job_resource_tracker.compile_job_resources(
-                t, skill
-            )
-
-            skill_modifier = copy.deepcopy(skill_modifier)
-            skill_modifier.add_to_condition(skill_modifier_from_buffs)
-            skill_modifier.add_to_condition(skill_modifier_from_debuffs)
-            skill_modifier.add_to_condition(job_resource_conditional)
-
-            combo_conditional = combo_tracker.compile_and_update_combo(
-                t, skill, skill_modifier
-            )
-            skill_modifier.add_to_condition(combo_conditional)
-
-            cast_time = self.__get_cast_time(
-                skill.get_timing_spec(skill_modifier), skill_modifier, curr_buffs
-            )
             if cast_time > 0:
                 cast_periods.append((t, t + cast_time))
-            # assume target does not affect speed....dangerous....
-            se_tracker.add_to_status_effects(
-                t, skill, skill_modifier, targets=(self.__default_target,)
-            )
-            job_resource_tracker.add_resource(t, skill, skill_modifier)
         c_tracker.finalize()
         non_auto_periods = list(c_tracker.get_channeling_windows())
         non_auto_periods.extend(cast_periods)
-- 
2.43.0


From c67e6eacb15be3681801562e4a1f45bed4646cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:11 +0000
Subject: [PATCH 26/41] fix: do not pause auto attacks for casts and channels
 of other players

---
 .../simulator/timeline_builders/rotation_builder.py           | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
index 937ea76..27a0a37 100644
--- a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
+++ b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
@@ -529,7 +529,9 @@ class RotationBuilder:
             cast_time = self.__get_cast_time(
                 skill.get_timing_spec(skill_modifier), skill_modifier, curr_buffs
             )
-            self.__timed_casts.append((curr_t, skill, skill_modifier, cast_time))
+            # casts and channels of other players do not pause our auto attacks
+            if job_class == self.__stats.job_class:
+                self.__timed_casts.append((curr_t, skill, skill_modifier, cast_time))
             self.__process_skill(
                 curr_t,
                 skill,
-- 
2.43.0


From 2062fa522cb19dbed50f50c24a994452d9d317df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:52 +0000
Subject: [PATCH 27/41] fix: stop using a speed effect for auto attack delays
 once another effect ends or replaces it

---
 .../simulator/timeline_builders/rotation_builder.py | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
index 27a0a37..2af77da 100644
--- a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
+++ b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
@@ -800,17 +800,8 @@ class RotationBuilder:
             buff_spec = skill.get_buff_spec(skill_modifier)
             debuff_spec = skill.get_debuff_spec(skill_modifier)
 
-            buff_spec_has_speed = buff_spec is not None and (
-                buff_spec.auto_attack_delay_reduction > 0
-                or buff_spec.haste_time_reduction > 0
-                or buff_spec.flat_cast_time_reduction > 0
-            )
-            debuff_spec_has_speed = debuff_spec is not None and (
-                debuff_spec.auto_attack_delay_reduction > 0
-                or debuff_spec.haste_time_reduction > 0
-                or debuff_spec.flat_cast_time_reduction > 0
-            )
-            if not buff_spec_has_speed and not debuff_spec_has_speed:
+            # effects without speed may still end, replace or take priority over ones with
+            if buff_spec is None and debuff_spec is None:
                 continue
             event_times = event.event_times
             application_time = (
-- 
2.43.0


From 9f5b00ffb3d709a80fdf95878fe8041eacaeb441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:47 +0000
Subject: [PATCH 28/41] fix: let death break combos that select follow ups

---
 .../simulator/timeline_builders/rotation_builder.py      | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
index 2af77da..cd24709 100644
--- a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
+++ b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
@@ -238,6 +238,7 @@ class RotationBuilder:
         parent_application_time,
         se_tracker,
         job_resource_tracker,
+        combo_tracker,
         targets,
     ):
         skill = follow_up_skill.skill
@@ -275,6 +276,7 @@ class RotationBuilder:
             application_time, skill, SkillModifier(), targets
         )
         job_resource_tracker.add_resource(application_time, skill, SkillModifier())
+        combo_tracker.compile_and_update_combo(application_time, skill, SkillModifier())
 
     def _process_follow_up_skills(
         self,
@@ -283,6 +285,7 @@ class RotationBuilder:
         parent_application_time,
         se_tracker,
         job_resource_tracker,
+        combo_tracker,
         targets,
     ):
         for i, follow_up_skill in enumerate(follow_up_skills):
@@ -304,6 +307,7 @@ class RotationBuilder:
                     parent_application_time,
                     se_tracker,
                     job_resource_tracker,
+                    combo_tracker,
                     targets,
                 )
 
@@ -417,6 +421,7 @@ class RotationBuilder:
         skill_modifier,
         se_tracker,
         job_resource_tracker,
+        combo_tracker,
         curr_buffs,
         targets,
     ):
@@ -466,6 +471,7 @@ class RotationBuilder:
                 application_time,
                 se_tracker,
                 job_resource_tracker,
+                combo_tracker,
                 targets,
             )
 
@@ -538,6 +544,7 @@ class RotationBuilder:
                 skill_modifier,
                 se_tracker,
                 job_resource_tracker,
+                combo_tracker,
                 curr_buffs,
                 targets,
             )
@@ -611,6 +618,7 @@ class RotationBuilder:
                     skill_modifier,
                     se_tracker,
                     job_resource_tracker,
+                    combo_tracker,
                     curr_buffs,
                     targets,
                 )
@@ -657,6 +665,7 @@ class RotationBuilder:
                     skill_modifier,
                     se_tracker,
                     job_resource_tracker,
+                    combo_tracker,
                     curr_buffs,
                     targets,
                 )
-- 
2.43.0


From a10b3370abd4975ec44d04d5489ac33aed5bc9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:16 +0000
Subject: [PATCH 29/41] fix: postpone auto attacks by downtime windows on the
 shifted timeline

---
 .../simulator/timeline_builders/rotation_builder.py  | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
index cd24709..eaba22b 100644
--- a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
+++ b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
@@ -869,8 +869,12 @@ class RotationBuilder:
                 return r[1]
         return snapshot_time
 
-    def __get_next_auto_time(self, t, no_auto_periods, auto_target):        
-        t = self.forward_to_next_non_downtime_time(t, auto_target)
+    # timeline_start is the time which becomes 0 once the timeline has been shifted.
+    # Downtime windows are relative to it.
+    def __get_next_auto_time(self, t, no_auto_periods, auto_target, timeline_start):
+        t = timeline_start + self.forward_to_next_non_downtime_time(
+            t - timeline_start, auto_target
+        )
         intersecting_no_auto_periods = list(
             filter(lambda x: (x[0] <= t) and (x[1] >= t), no_auto_periods)
         )
@@ -918,6 +922,8 @@ class RotationBuilder:
         )  # autos do not have cast times, so snapshot time should be immediate
         application_time = snapshot_time + auto_skill.timing_spec.application_delay
 
+        timeline_start = snapshot_time if self.__fight_start_time is None else 0
+
         auto_target_ind = 0
         while application_time < last_event_time:
             while (
@@ -963,7 +969,7 @@ class RotationBuilder:
             )
             no_auto_periods = self.get_no_auto_periods()
             snapshot_time = self.__get_next_auto_time(
-                snapshot_time, no_auto_periods, auto_target
+                snapshot_time, no_auto_periods, auto_target, timeline_start
             )
             application_time = snapshot_time + auto_skill.timing_spec.application_delay
 
-- 
2.43.0


From 9659710f16b3e77756ce6e5e03f67fecf838073d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:02 +0000
Subject: [PATCH 30/41] fix: do not lose 10 ms of hasted times to floating
 point

---
 ama_xiv_combat_sim/simulator/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ama_xiv_combat_sim/simulator/utils.py b/ama_xiv_combat_sim/simulator/utils.py
index 4a7139b..1e095a2 100644
--- a/ama_xiv_combat_sim/simulator/utils.py
+++ b/ama_xiv_combat_sim/simulator/utils.py
@@ -34,7 +34,8 @@ class Utils:
     @staticmethod
     def truncate_to_digit(x, digit_to_round_to):
         modifier = math.pow(10, digit_to_round_to - 1)
-        return int(modifier * np.floor(x / modifier))
+        # allow some tolerance for floating point precision
+        return int(modifier * np.floor(x / modifier + 1e-9))
 
     @staticmethod
     def canonicalize_condition(condition):
-- 
2.43.0


From 4e64b2a9d8109ef59ef5170f88eeb97c0379b52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:33 +0000
Subject: [PATCH 31/41] fix: print button press timings in the format that
 CSVUtils reads

---
 .../simulator/timeline_builders/rotation_builder.py       | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
index eaba22b..36e98b8 100644
--- a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
+++ b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
@@ -1,5 +1,7 @@
 import copy
+import csv
 import math
+import sys
 
 from ama_xiv_combat_sim.simulator.calcs.damage_class import DamageClass
 from ama_xiv_combat_sim.simulator.calcs.stat_fns import StatFns
@@ -982,6 +984,8 @@ class RotationBuilder:
                 'You must call "get_skill_timing() before calling this function, in order to compute when buttons are pressed.'
             )
             return
-        print("Time, skill_name, job_class, skill_conditional")
+        # This format can be read by CSVUtils.
+        writer = csv.writer(sys.stdout, lineterminator="\n")
+        writer.writerow(("Time", "skill_name", "job_class", "skill_conditional"))
         for tmp in self.__q_button_press_timing:
-            print(f"{tmp[0] / 1000}, {tmp[1]}, {tmp[2]}, {tmp[3]}")
+            writer.writerow((tmp[0] / 1000, tmp[1], tmp[2], tmp[3]))
-- 
2.43.0


From a8f7567a40ca92ca23b3e76c1bfbf552a98ee7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:56 +0000
Subject: [PATCH 32/41] fix: support channeling specs that depend on conditions

---
 ama_xiv_combat_sim/simulator/skills/skill.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ama_xiv_combat_sim/simulator/skills/skill.py b/ama_xiv_combat_sim/simulator/skills/skill.py
index ac379c5..95d0d28 100644
--- a/ama_xiv_combat_sim/simulator/skills/skill.py
+++ b/ama_xiv_combat_sim/simulator/skills/skill.py
@@ -208,6 +208,10 @@ class Skill:
             object.__setattr__(
                 self, "debuff_spec", self.__canonicalize_dict(self.debuff_spec)
             )
+        if isinstance(self.channeling_spec, dict):
+            object.__setattr__(
+                self, "channeling_spec", self.__canonicalize_dict(self.channeling_spec)
+            )
         if isinstance(self.follow_up_skills, dict):
             object.__setattr__(
                 self,
-- 
2.43.0


From c3cebc94f4b05b1f1419343a474135468774e97f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:41 +0000
Subject: [PATCH 33/41] fix: report the last snapshot of rotations whose damage
 all snapshots before time 0

---
 .../rotation_analysis/rotation_analysis_utils.py             | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/ama_xiv_combat_sim/rotation_analysis/rotation_analysis_utils.py b/ama_xiv_combat_sim/rotation_analysis/rotation_analysis_utils.py
index 062ab08..7abe156 100644
--- a/ama_xiv_combat_sim/rotation_analysis/rotation_analysis_utils.py
+++ b/ama_xiv_combat_sim/rotation_analysis/rotation_analysis_utils.py
@@ -20,10 +20,7 @@ class RotationAnalysisUtils:
 
     @staticmethod
     def get_dps_at_intervals(per_skill_damage, interval_in_s):
-        max_t = -1
-        for sk in per_skill_damage:
-            if sk.snapshot_time > max_t:
-                max_t = sk.snapshot_time
+        max_t = max((sk.snapshot_time for sk in per_skill_damage), default=-1)
 
         res = {'snapshot_time': [],     
                'total_snapshotted_damage': []}
-- 
2.43.0


From add2e355cc3ad5991c868d9ce92f55d622d60ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:41 +0000
Subject: [PATCH 34/41] fix: wait for the cast of skills that are off the
 global cooldown before the next button

---
 .../simulator/timeline_builders/rotation_builder.py          | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
index 36e98b8..177827e 100644
--- a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
+++ b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
@@ -671,7 +671,10 @@ class RotationBuilder:
                     curr_buffs,
                     targets,
                 )
-                curr_t += timing_spec.animation_lock
+                cast_time = self.__get_cast_time(
+                    timing_spec, skill_modifier, curr_buffs
+                )
+                curr_t += cast_time + timing_spec.animation_lock
 
     def shift_timelines_for_first_damage_instance(self):
         res = SnapshotAndApplicationEvents()
-- 
2.43.0


From 7ecf1e560a39dca5f5cc59c294d92720eaadb2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:30 +0000
Subject: [PATCH 35/41] fix: simulate rotations without any damage

---
 ama_xiv_combat_sim/simulator/damage_simulator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ama_xiv_combat_sim/simulator/damage_simulator.py b/ama_xiv_combat_sim/simulator/damage_simulator.py
index b066f37..aec0d72 100644
--- a/ama_xiv_combat_sim/simulator/damage_simulator.py
+++ b/ama_xiv_combat_sim/simulator/damage_simulator.py
@@ -203,6 +203,8 @@ class DamageSimulator:
         
         #damage_ranges[i]: (string to identify crit/dh status, low damage, high damage, probability)
         damage_ranges = self.__damage_tracker.get_damage_ranges_and_probabilities()
+        if len(damage_ranges) == 0:
+            return [], []
 
         all_probs = np.asarray(
             list(get_all_probs(damage_ranges[i]) for i in range(0, len(damage_ranges)))
-- 
2.43.0


From 1f137e0406ed7646354f760bb3361bd8647575e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:41 +0000
Subject: [PATCH 36/41] fix: import numeric looking targets and conditions as
 text

---
 .../simulator/rotation_import_utils/csv_utils.py             | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ama_xiv_combat_sim/simulator/rotation_import_utils/csv_utils.py b/ama_xiv_combat_sim/simulator/rotation_import_utils/csv_utils.py
index 484e00a..69e3485 100644
--- a/ama_xiv_combat_sim/simulator/rotation_import_utils/csv_utils.py
+++ b/ama_xiv_combat_sim/simulator/rotation_import_utils/csv_utils.py
@@ -16,7 +16,8 @@ class CSVUtils:
         res = []
 
         try:
-            df = pd.read_csv(filename, keep_default_na=False)
+            # read text as is, so that eg, targets named "1" and "2" do not become numbers
+            df = pd.read_csv(filename, keep_default_na=False, dtype=str)
             
             #canonicalize column names
             df=df.rename(str.lower, axis='columns')
@@ -27,7 +28,7 @@ class CSVUtils:
             return res
 
         for i in range(0, len(df)):
-            t = df["time"][i]
+            t = float(df["time"][i])
             skill_name = df["skill_name"][i]
             job_class = None if df["job_class"][i] == "" else df["job_class"][i]
             skill_conditional = df["skill_conditional"][i]
-- 
2.43.0


From 89da165924da51068ad7f35072297d4e9d0375b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:53 +0000
Subject: [PATCH 37/41] fix: do not alter the damage specs a skill with falloff
 is created from

---
 ama_xiv_combat_sim/simulator/skills/skill.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ama_xiv_combat_sim/simulator/skills/skill.py b/ama_xiv_combat_sim/simulator/skills/skill.py
index 95d0d28..805097a 100644
--- a/ama_xiv_combat_sim/simulator/skills/skill.py
+++ b/ama_xiv_combat_sim/simulator/skills/skill.py
@@ -190,6 +190,9 @@ class Skill:
         ), "status_effect_denylist must be encoded as a tuple for immutability. Did you encode it as a single string by accident, when it should be a tuple of length 1?"
 
         if self.aoe_dropoff is not None:
+            if isinstance(self.damage_spec, dict):
+                # leave the caller's dict untouched, it may be used for other skills too
+                object.__setattr__(self, "damage_spec", dict(self.damage_spec))
             self.__process_aoe_dropoff(self.damage_spec, self.aoe_dropoff)
         if isinstance(self.damage_spec, dict):
             object.__setattr__(
-- 
2.43.0


From 08e6762ae446af068c49b4623c14b28c3d26a293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:54 +0000
Subject: [PATCH 38/41] fix: count hits that snapshot exactly at the given
 time, for any time in seconds

---
 .../rotation_analysis/rotation_analysis_utils.py               | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ama_xiv_combat_sim/rotation_analysis/rotation_analysis_utils.py b/ama_xiv_combat_sim/rotation_analysis/rotation_analysis_utils.py
index 7abe156..e1804c8 100644
--- a/ama_xiv_combat_sim/rotation_analysis/rotation_analysis_utils.py
+++ b/ama_xiv_combat_sim/rotation_analysis/rotation_analysis_utils.py
@@ -11,7 +11,8 @@ class RotationAnalysisUtils:
 
     @staticmethod
     def get_all_damage_snapshots_before_timestamp(per_skill_damage, timestamp_in_s):
-        timestamp = 1000 * timestamp_in_s
+        # avoid losing hits at exactly this time to floating point precision
+        timestamp = round(1000 * timestamp_in_s, 3)
         res = 0
         for sk in per_skill_damage:
             if sk.snapshot_time <= timestamp:
-- 
2.43.0


From 0384467f21ed8653719935dd7c7d4b367e005039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:31:59 +0000
Subject: [PATCH 39/41] fix: follow ups whose effect is None in every condition
 do not count as buffs or debuffs

---
 ama_xiv_combat_sim/simulator/skills/skill.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ama_xiv_combat_sim/simulator/skills/skill.py b/ama_xiv_combat_sim/simulator/skills/skill.py
index 805097a..c8955e1 100644
--- a/ama_xiv_combat_sim/simulator/skills/skill.py
+++ b/ama_xiv_combat_sim/simulator/skills/skill.py
@@ -104,14 +104,20 @@ class Skill:
             # check if there is a party effect on any followup
             if isinstance(self.follow_up_skills, tuple):
                 for follow_up in self.follow_up_skills:
-                    if getattr(follow_up.skill, spec_to_use) is not None:
+                    sp = getattr(follow_up.skill, spec_to_use)
+                    if isinstance(sp, dict):
+                        res = res or any(v is not None for v in sp.values())
+                    elif sp is not None:
                         res = True
                         break
             elif isinstance(self.follow_up_skills, dict):
                 for _, follow_ups in self.follow_up_skills.items():
                     for follow_up in follow_ups:
 
-                        if getattr(follow_up.skill, spec_to_use) is not None:
+                        sp = getattr(follow_up.skill, spec_to_use)
+                        if isinstance(sp, dict):
+                            res = res or any(v is not None for v in sp.values())
+                        elif sp is not None:
                             res = True
                             break
             object.__setattr__(self, field_to_use, res)
-- 
2.43.0


From c102e1a82b9d53dec3a26b70a708c8cf0d565a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:11 +0000
Subject: [PATCH 40/41] fix: align damage-over-time ticks to the exact
 server-tick millisecond

---
 .../simulator/timeline_builders/rotation_builder.py           | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
index 177827e..a4d3f93 100644
--- a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
+++ b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
@@ -379,7 +379,9 @@ class RotationBuilder:
                     else:
                         shave_off = (
                             _dot_start_time
-                            - 1000 * self.__snap_dots_to_server_tick_starting_at
+                            - round(
+                                1000 * self.__snap_dots_to_server_tick_starting_at, 6
+                            )
                         ) % GameConsts.DOT_TICK_INTERVAL
                         if (
                             shave_off <= 1e-6
-- 
2.43.0


From 63ee41996e2ff64e69a1f13ef06ac85f91b3e4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:14:35 +0000
Subject: [PATCH 41/41] fix: postpone autos past downtime windows that overlap
 or adjoin

---
 .../simulator/timeline_builders/rotation_builder.py        | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
index a4d3f93..7499b8e 100644
--- a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
+++ b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
@@ -869,11 +869,14 @@ class RotationBuilder:
 
     # This is only called during a downtime window.
     def forward_to_next_non_downtime_time(self, snapshot_time, auto_target):
-        for r in self.__get_downtime_windows(auto_target):
+        # Sorted, so that windows which overlap or adjoin are left together.
+        for r in sorted(
+            self.__get_downtime_windows(auto_target), key=lambda x: (x[0], x[1])
+        ):
             if r[0] <= snapshot_time < r[1] and (
                 r[2] is None or r[2] == DamageClass.AUTO
             ):
-                return r[1]
+                snapshot_time = r[1]
         return snapshot_time
 
     # timeline_start is the time which becomes 0 once the timeline has been shifted.
-- 
2.43.0

