From f5f6dc847e10c1af405389f366d1710902fe2777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:21 +0000
Subject: [PATCH 01/99] fix: C++ mode forwards the renamed name of a node to
 the engine (auto_rename)

---
 uxsim/uxsim_cpp_wrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index 6e3009a..4450a52 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -70,7 +70,7 @@ class CppNode:
         self.W.NODES_NAME_DICT[self.name] = self
 
         # Forward to C++
-        _add_node(self.W._cpp_world, name, float(x), float(y), list(signal), float(actual_signal_offset),
+        _add_node(self.W._cpp_world, self.name, float(x), float(y), list(signal), float(actual_signal_offset),
                   float(flow_capacity) if flow_capacity is not None else -1.0,
                   int(number_of_lanes) if number_of_lanes is not None else -1)
         self._cpp_node = self.W._cpp_world.get_node(self.name)
-- 
2.43.0


From 91e03e44c0a6a4bdd68a5e9fd16ab0f92acce315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:21 +0000
Subject: [PATCH 02/99] fix: addVehicle in C++ mode always creates exactly one
 vehicle

---
 uxsim/uxsim_cpp_wrapper.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index 4450a52..bf4289b 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -957,8 +957,11 @@ class CppWorld:
             cpp_links_pref.append(lname)
 
         n_before = self._cpp_world.vehicle_count
+        # Exactly one platoon in the departure timestep. The bounds are placed inside timesteps and the flow has a margin so that floating-point rounding cannot yield zero or two platoons.
+        ts = int(departure_time) if dep_is_ts else int(t / self.DELTAT)
         _add_demand(self._cpp_world, orig_name, dest_name,
-                   float(t), float(t + self.DELTAT), float(self.DELTAN / self.DELTAT), cpp_links_pref)
+                   float((ts + 0.25) * self.DELTAT), float((ts + 1.25) * self.DELTAT),
+                   float(self.DELTAN / self.DELTAT * (1 + 1e-9)), cpp_links_pref)
 
         # Set links_avoid on newly created C++ vehicles
         links_avoid = kwargs.get('links_avoid', [])
-- 
2.43.0


From 111e41fb897e7669f10b0613ecb23fb28bdfe9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:21 +0000
Subject: [PATCH 03/99] fix: exec_simulation in C++ mode executes the requested
 last timestep for non-dyadic timestep sizes

---
 uxsim/uxsim_cpp_wrapper.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index bf4289b..3c5b190 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -1192,7 +1192,8 @@ class CppWorld:
             raise Exception("exec_simulation error: Simulation duration is not positive. Check until_t or duration_t or duration_t2")
 
         # C++ main_loop executes timesteps [current, floor(until_t/delta_t)]
-        self._cpp_world.main_loop(float(-1), float(end_ts * self.DELTAT))
+        # (half a timestep is added so that floating-point rounding cannot drop the last one)
+        self._cpp_world.main_loop(float(-1), float((end_ts + 0.5) * self.DELTAT))
         self._sync_from_cpp()
 
         # Update Python-side time tracking from C++ state
-- 
2.43.0


From 7b57b312947eb7d1647f3e36e77469121b891407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:43 +0000
Subject: [PATCH 04/99] fix: C++ mode does not return stale vehicle logs after
 the simulation continues

---
 uxsim/uxsim_cpp_wrapper.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index 3c5b190..37573cb 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -1256,7 +1256,9 @@ class CppWorld:
 
     def _sync_from_cpp(self):
         """Update VEHICLES_LIVING / VEHICLES_RUNNING from C++ state.
-        Log caches are never explicitly invalidated — they start as None and are built lazily on first access (e.g. when analyzer reads log_t)."""
+        Log caches are invalidated here and rebuilt lazily on the next access (e.g. when analyzer reads log_t)."""
+        for veh in self._veh_by_index:
+            veh._log_cache = None
         # Batch-update VEHICLES_LIVING / VEHICLES_RUNNING using C++ bulk query
         try:
             states = self._cpp_world.get_all_vehicle_states()
-- 
2.43.0


From 3fdc87418546cfe2562c053123f9dcc09c5d04d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:21 +0000
Subject: [PATCH 05/99] fix: random-draw demands in C++ mode keep the attribute
 and never use the origin as the destination

---
 uxsim/uxsim_cpp_wrapper.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index 37573cb..8e4b2ed 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -1058,7 +1058,10 @@ class CppWorld:
         os = self.rng.choice(origs, size=size)
         ds = self.rng.choice(dests, size=size)
         for t, o, d in zip(ts, os, ds):
-            self.addVehicle(o, d, t, direct_call=False)
+            d2 = d
+            if o == d:
+                d2 = self.rng.choice([dd for dd in dests if dd != d])
+            self.addVehicle(o, d2, t, attribute=attribute, direct_call=False)
 
     @demand_info_record
     def adddemand_nodes2nodes2(self, origs, dests, t_start, t_end, flow=-1, volume=-1, attribute=None, direct_call=True):
@@ -1074,7 +1077,7 @@ class CppWorld:
             d2 = d
             if o == d:
                 d2 = self.rng.choice([dd for dd in dests if dd != d])
-            self.addVehicle(o, d2, t, direct_call=False)
+            self.addVehicle(o, d2, t, attribute=attribute, direct_call=False)
 
     # --- Simulation ---
 
-- 
2.43.0


From 19648fe556fb211ef74c3c53888ef53724fc5692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:21 +0000
Subject: [PATCH 06/99] fix: get_node and get_link in C++ mode raise for
 unknown names, as in Python mode

---
 uxsim/uxsim_cpp_wrapper.py | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index 8e4b2ed..a071f87 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -1409,25 +1409,21 @@ class CppWorld:
     def get_node(self, node):
         if node is None:
             return None
-        if isinstance(node, CppNode):
+        if isinstance(node, CppNode) and node.W is self:
             return node
-        if isinstance(node, (str, np.str_)):
-            return self.NODES_NAME_DICT.get(node)
-        if hasattr(node, 'name'):
-            return self.NODES_NAME_DICT.get(node.name)
+        name = node if isinstance(node, (str, np.str_)) else getattr(node, 'name', None)
+        if name in self.NODES_NAME_DICT:
+            return self.NODES_NAME_DICT[name]
         raise Exception(f"'{node}' is not Node in this World")
 
     def get_link(self, link):
         if link is None:
             return None
-        if isinstance(link, CppLink):
-            if link.W is self:
-                return link
-            return self.LINKS_NAME_DICT.get(link.name)
-        if isinstance(link, (str, np.str_)):
-            return self.LINKS_NAME_DICT.get(link)
-        if hasattr(link, 'name'):
-            return self.LINKS_NAME_DICT.get(link.name)
+        if isinstance(link, CppLink) and link.W is self:
+            return link
+        name = link if isinstance(link, (str, np.str_)) else getattr(link, 'name', None)
+        if name in self.LINKS_NAME_DICT:
+            return self.LINKS_NAME_DICT[name]
         raise Exception(f"'{link}' is not Link in this World")
 
     def get_nearest_node(self, x, y):
-- 
2.43.0


From 6b9dc20d6dfeafdf4203d2d2128435f047fe90f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:21 +0000
Subject: [PATCH 07/99] fix: departure_time_in_second is in seconds also when
 the departure time is given in seconds

---
 uxsim/uxsim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index 6dcf19e..41e8ee9 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -1046,7 +1046,7 @@ class Vehicle:
             s.departure_time: int = departure_time
         else:
             s.departure_time: int = int(departure_time/s.W.DELTAT)
-        s.departure_time_in_second: float = departure_time*s.W.DELTAT  #TODO: temporal workaround
+        s.departure_time_in_second: float = s.departure_time*s.W.DELTAT
         s.arrival_time: int = -1
         s.link_arrival_time: float = -1
         s.travel_time: float = -1
-- 
2.43.0


From 6fe9fd50176e81c6aeb91f160aab662a2c10210f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:33 +0000
Subject: [PATCH 08/99] fix: a link created with eular_dx gets a cell length

---
 uxsim/uxsim.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index 41e8ee9..493c183 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -616,6 +616,8 @@ class Link:
             s.edie_dx = s.length/10
             if s.edie_dx < s.u*s.W.DELTAT:
                 s.edie_dx = s.u*s.W.DELTAT
+        else:
+            s.edie_dx = eular_dx
 
 
     def __repr__(s):
-- 
2.43.0


From c109477334cd9b13726925a9d1cccd8e88ee3b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:18 +0000
Subject: [PATCH 09/99] fix: setting a node's flow capacity in C++ mode takes
 effect in the engine

---
 uxsim/uxsim_cpp_wrapper.py | 37 ++++++++++++++++++++++++++++++++-----
 1 file changed, 32 insertions(+), 5 deletions(-)

diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index a071f87..a87c01f 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -79,8 +79,6 @@ class CppNode:
         self.x = self._cpp_node.x
         self.y = self._cpp_node.y
         self.signal_offset = self._cpp_node.signal_offset
-        self.flow_capacity = self._cpp_node.flow_capacity
-        self.number_of_lanes = self._cpp_node.number_of_lanes
         self.flag_lanes_automatically_determined = False
 
     def __repr__(self):
@@ -98,6 +96,36 @@ class CppNode:
             self._cpp_node.signal_phase = 0
             self._cpp_node.signal_t = 0
 
+    @property
+    def flow_capacity(self):
+        value = self._cpp_node.flow_capacity
+        return value if value >= 0 else None
+    @flow_capacity.setter
+    def flow_capacity(self, value):
+        was_unlimited = self._cpp_node.flow_capacity < 0
+        self._cpp_node.flow_capacity = float(value) if value is not None else -1.0
+        if value is not None and was_unlimited:
+            # Start with the same credit and lanes as a node created with this capacity
+            self._cpp_node.flow_capacity_remain = float(value * self.W.DELTAT)
+            if self._cpp_node.number_of_lanes <= 0:
+                self._cpp_node.number_of_lanes = int(np.ceil(value / 0.8))
+                self.flag_lanes_automatically_determined = True
+
+    @property
+    def number_of_lanes(self):
+        value = self._cpp_node.number_of_lanes
+        return value if value > 0 else None
+    @number_of_lanes.setter
+    def number_of_lanes(self, value):
+        self._cpp_node.number_of_lanes = int(value) if value is not None else -1
+
+    @property
+    def flow_capacity_remain(self):
+        return self._cpp_node.flow_capacity_remain
+    @flow_capacity_remain.setter
+    def flow_capacity_remain(self, value):
+        self._cpp_node.flow_capacity_remain = float(value)
+
     @property
     def cycle_length(self):
         return sum(self.signal)
@@ -174,11 +202,10 @@ class CppNode:
         Automatically determine the `flow_capacity` of this node based on the capacity of connected links. It does not override if `flow_capacity` was already set.
         This calculation is based on an assumption that the node is an intersection with two major roads and two minor roads or similar types. In this case, the node capacity should be the same to that of major roads.
         """
+        lanes = self.number_of_lanes
         self._cpp_node.adjust_node_capacity()
-        if self._cpp_node.number_of_lanes != self.number_of_lanes:
+        if self.number_of_lanes != lanes:
             self.flag_lanes_automatically_determined = True
-        self.flow_capacity = self._cpp_node.flow_capacity
-        self.number_of_lanes = self._cpp_node.number_of_lanes
 
 
 class CppLink:
-- 
2.43.0


From df53791d377ef11b2d020e0f56d64771ec2501c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:18 +0000
Subject: [PATCH 10/99] fix: setting a link's signal group or merge priority in
 C++ mode takes effect in the engine

---
 uxsim/uxsim_cpp_wrapper.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index a87c01f..17a27c7 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -195,7 +195,6 @@ class CppNode:
 
         for key in phase_info:
             key.signal_group = phase_info[key]
-            key._cpp_link.signal_group = phase_info[key]
 
     def adjust_node_capacity(self):
         """
@@ -224,7 +223,7 @@ class CppLink:
         self.number_of_lanes = int(number_of_lanes)
 
         # Signal
-        self.signal_group = [signal_group] if isinstance(signal_group, int) else list(signal_group)
+        cpp_signal_group = [signal_group] if isinstance(signal_group, int) else list(signal_group)
 
         # ID and name registration
         self.id = len(self.W.LINKS)
@@ -252,7 +251,6 @@ class CppLink:
             kappa = jam_density_per_lane * number_of_lanes
         cpp_capacity_out = capacity_out if capacity_out is not None else -1
         cpp_capacity_in = capacity_in if capacity_in is not None else -1
-        cpp_signal_group = list(self.signal_group)
         try:
             _add_link(self.W._cpp_world, self.name, self.start_node.name, self.end_node.name,
                       float(free_flow_speed), float(kappa), float(length), int(self.number_of_lanes),
@@ -275,7 +273,6 @@ class CppLink:
         self.free_flow_speed = self.u
         self.jam_density = self.kappa
         self.jam_density_per_lane = jam_density_per_lane
-        self.merge_priority = cpp.merge_priority
         self.q_star = self.capacity
         self.k_star = self.capacity / self.u
         self._capacity_out_remain = cpp.capacity_out_remain
@@ -358,6 +355,20 @@ class CppLink:
     def traveltime_actual(self, value):
         self._traveltime_actual = value
 
+    @property
+    def signal_group(self):
+        return list(self._cpp_link.signal_group)
+    @signal_group.setter
+    def signal_group(self, value):
+        self._cpp_link.signal_group = [value] if isinstance(value, int) else list(value)
+
+    @property
+    def merge_priority(self):
+        return self._cpp_link.merge_priority
+    @merge_priority.setter
+    def merge_priority(self, value):
+        self._cpp_link.merge_priority = float(value)
+
     @property
     def capacity_out(self):
         return self._cpp_link.capacity_out
-- 
2.43.0


From d2e6f16a4f416f47b2d16e4451732dd2706f6ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:18 +0000
Subject: [PATCH 11/99] fix: a flow capacity given to a node without one during
 the simulation is enforced

---
 uxsim/uxsim.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index 493c183..e905f64 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -224,6 +224,12 @@ class Node:
         flow capacity updates.
         """
         if s.flow_capacity != None:
+            if s.flow_capacity_remain >= 10e10:
+                #the capacity was unlimited so far: start with the same credit as a node created with this capacity
+                s.flow_capacity_remain = s.flow_capacity*s.W.DELTAT
+            if s.number_of_lanes == None:
+                s.number_of_lanes = math.ceil(s.flow_capacity/0.8)
+                s.flag_lanes_automatically_determined = True
             if s.flow_capacity_remain < s.W.DELTAN*s.number_of_lanes:
                 s.flow_capacity_remain += s.flow_capacity*s.W.DELTAT
         else:
-- 
2.43.0


From a7fea57bf7ae00bf154f8bf9e7aaeea74ffc5d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:30 +0000
Subject: [PATCH 12/99] fix: the gradual route choice update weight never
 exceeds 1

---
 uxsim/trafficpp/traffi.cpp | 2 +-
 uxsim/uxsim.py             | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/uxsim/trafficpp/traffi.cpp b/uxsim/trafficpp/traffi.cpp
index 8f3618e..5fa3809 100644
--- a/uxsim/trafficpp/traffi.cpp
+++ b/uxsim/trafficpp/traffi.cpp
@@ -1520,7 +1520,7 @@ void World::route_choice_duo(){
 
 void World::route_choice_duo_gradual(){
     // Gradual DUO update: scaled weight applied every timestep
-    double weight0 = duo_update_weight * (delta_t / duo_update_time);
+    double weight0 = std::min(1.0, duo_update_weight * (delta_t / duo_update_time));
 
     // Per-destination and thread-count independent (see route_choice_duo).
     int nnodes = (int)nodes.size();
diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index e905f64..d4c7880 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -1640,7 +1640,7 @@ class RouteChoice:
         Vectorized by Claude 3.5 Sonnet.
         """
         if s.W.route_choice_update_gradual:
-            weight0 = s.W.DUO_UPDATE_WEIGHT * (s.W.DELTAT / s.W.DUO_UPDATE_TIME)
+            weight0 = min(1, s.W.DUO_UPDATE_WEIGHT * (s.W.DELTAT / s.W.DUO_UPDATE_TIME))
         else:
             weight0 = s.W.DUO_UPDATE_WEIGHT
 
-- 
2.43.0


From ca7c86b6d831e1354600e406fa23425836d2cb41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:45 +0000
Subject: [PATCH 13/99] fix: the distance traveled includes the residual
 movement made when entering a link

---
 uxsim/trafficpp/traffi.cpp | 1 +
 uxsim/uxsim.py             | 1 +
 2 files changed, 2 insertions(+)

diff --git a/uxsim/trafficpp/traffi.cpp b/uxsim/trafficpp/traffi.cpp
index 5fa3809..fc9e186 100644
--- a/uxsim/trafficpp/traffi.cpp
+++ b/uxsim/trafficpp/traffi.cpp
@@ -415,6 +415,7 @@ void Node::transfer(){
             x_next_mr = 0.0;
         }
         chosen_veh->x = x_next_mr;
+        chosen_veh->distance_traveled += x_next_mr;
         chosen_veh->v += chosen_veh->x / w->delta_t;
         chosen_veh->move_remain = 0.0;
 
diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index d4c7880..e310224 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -397,6 +397,7 @@ class Node:
                     x_next = outlink.length
                     
                 veh.x = x_next
+                veh.distance_traveled += x_next
                 veh.v += veh.x/s.W.DELTAT
                 veh.move_remain = 0
 
-- 
2.43.0


From 59d36cd7adbc6261303268617c1aea04ac7fb24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:17 +0000
Subject: [PATCH 14/99] fix: changing a link's congestion pricing during the
 simulation takes effect in C++ mode

---
 uxsim/uxsim_cpp_wrapper.py | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index 17a27c7..aee7984 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -282,7 +282,7 @@ class CppLink:
         self.vehicles = deque()
         self.vehicles_enter_log = {}
         self._traveltime_actual = []
-        self.congestion_pricing = congestion_pricing
+        self._congestion_pricing = congestion_pricing
         self._route_choice_penalty = 0
         self.tss = []
         self.xss = []
@@ -491,6 +491,24 @@ class CppLink:
         self._route_choice_penalty = value
         self._cpp_link.route_choice_penalty = float(value)
 
+    @property
+    def congestion_pricing(self):
+        return self._congestion_pricing
+
+    @congestion_pricing.setter
+    def congestion_pricing(self, func):
+        self._congestion_pricing = func
+        if self.W.finalized:
+            self._set_toll_timeseries()
+
+    def _set_toll_timeseries(self):
+        """Pre-compute the congestion pricing tolls and pass them to C++ as timeseries."""
+        if self.congestion_pricing is not None:
+            tolls = [float(self.congestion_pricing(t * self.W.DELTAT)) for t in range(self.W.TSIZE)]
+        else:
+            tolls = []
+        self._cpp_link.set_toll_timeseries(tolls)
+
     def get_toll(self, t):
         return self.congestion_pricing(t) if self.congestion_pricing else self.route_choice_penalty
 
@@ -1152,8 +1170,7 @@ class CppWorld:
         # Pre-compute congestion pricing tolls and pass to C++ as timeseries
         for link in self.LINKS:
             if link.congestion_pricing is not None:
-                tolls = [float(link.congestion_pricing(t * self.DELTAT)) for t in range(self.TSIZE)]
-                link._cpp_link.set_toll_timeseries(tolls)
+                link._set_toll_timeseries()
 
         self.finalized = 1
 
-- 
2.43.0


From 0c890c86e21b2b856f382a8fa4941fa110f56793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:58 +0000
Subject: [PATCH 15/99] fix: free-flow travel times and shortest distances of
 ODs use the best of parallel links

---
 uxsim/analyzer.py | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/uxsim/analyzer.py b/uxsim/analyzer.py
index 761e59a..10745f1 100644
--- a/uxsim/analyzer.py
+++ b/uxsim/analyzer.py
@@ -141,20 +141,15 @@ class Analyzer:
         dn = s.W.DELTAN
 
         #自由旅行時間と最短距離
-        adj_mat_time = np.zeros([len(s.W.NODES), len(s.W.NODES)])
-        adj_mat_dist = np.zeros([len(s.W.NODES), len(s.W.NODES)])
+        adj_mat_time = np.full([len(s.W.NODES), len(s.W.NODES)], np.inf)
+        adj_mat_dist = np.full([len(s.W.NODES), len(s.W.NODES)], np.inf)
         for link in s.W.LINKS:
             i = link.start_node.id
             j = link.end_node.id
-            if s.W.ADJ_MAT[i,j]:
-                adj_mat_time[i,j] = link.length/link.u
-                adj_mat_dist[i,j] = link.length
-                if link.capacity_in == 0: #流入禁止の場合は通行不可
-                    adj_mat_time[i,j] = np.inf
-                    adj_mat_dist[i,j] = np.inf
-            else:
-                adj_mat_time[i,j] = np.inf
-                adj_mat_dist[i,j] = np.inf
+            if link.capacity_in != 0: #流入禁止の場合は通行不可
+                #並行リンクがある場合は最小値
+                adj_mat_time[i,j] = min(adj_mat_time[i,j], link.length/link.u)
+                adj_mat_dist[i,j] = min(adj_mat_dist[i,j], link.length)
         dist_time = floyd_warshall(adj_mat_time)
         dist_space = floyd_warshall(adj_mat_dist)
 
-- 
2.43.0


From 7f939bafc7417250c45d34f46598501e5ebac550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:24 +0000
Subject: [PATCH 16/99] fix: distances and free-flow times are reported also
 for ODs without a completed trip

---
 uxsim/analyzer.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/uxsim/analyzer.py b/uxsim/analyzer.py
index 10745f1..2d9c421 100644
--- a/uxsim/analyzer.py
+++ b/uxsim/analyzer.py
@@ -109,7 +109,8 @@ class Analyzer:
         if s.trip_completed:
             s.total_travel_time = np.sum(df["completed_trips"]*df["average_travel_time"])
             s.average_travel_time = s.total_travel_time/s.trip_completed
-            s.total_delay = np.sum(df["completed_trips"]*(df["average_travel_time"]-df["free_travel_time"]))
+            df_comp = df[df["completed_trips"] > 0]
+            s.total_delay = np.sum(df_comp["completed_trips"]*(df_comp["average_travel_time"]-df_comp["free_travel_time"]))
             s.average_delay = s.total_delay/s.trip_completed
         else:
             s.total_travel_time = -1
@@ -166,9 +167,10 @@ class Analyzer:
                 if veh.travel_time != -1:
                     s.od_trips_comp[o,d] += dn
                     s.od_tt[o,d].append(veh.travel_time)
-        for o,d in s.od_tt.keys():
-            s.od_tt_ave[o,d] = np.average(s.od_tt[o,d])
-            s.od_tt_std[o,d] = np.std(s.od_tt[o,d])
+        for o,d in s.od_trips.keys():
+            if (o,d) in s.od_tt:
+                s.od_tt_ave[o,d] = np.average(s.od_tt[o,d])
+                s.od_tt_std[o,d] = np.std(s.od_tt[o,d])
             s.od_tt_free[o,d] = dist_time[o.id, d.id]
             s.od_dist_total[o,d] = np.sum(s.od_dist[o,d])
             s.od_dist_min[o,d] = dist_space[o.id, d.id]
@@ -1772,7 +1774,8 @@ class Analyzer:
                     var_distance_traveled = (total_tripss*distance_traveleds).sum()/total_trips    #wrong!
                     stddiv_distance_traveled = np.sqrt(var_distance_traveled)
 
-                    average_free_travel_time = (completed_tripss*free_travel_time_times).sum()/completed_trips
+                    comp = completed_tripss > 0
+                    average_free_travel_time = (completed_tripss[comp]*free_travel_time_times[comp]).sum()/completed_trips
                 else:
                     average_distance_traveled = np.nan
                     var_distance_traveled = np.nan
-- 
2.43.0


From 74f136ccabf880e902db8c9529c963ffee133363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:24 +0000
Subject: [PATCH 17/99] fix: analysis results computed during a simulation are
 not returned as those of a later time

---
 uxsim/analyzer.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/uxsim/analyzer.py b/uxsim/analyzer.py
index 2d9c421..0c08fa0 100644
--- a/uxsim/analyzer.py
+++ b/uxsim/analyzer.py
@@ -123,10 +123,10 @@ class Analyzer:
         """
         Analyze OD-specific stats: number of trips, number of completed trips, free-flow travel time, average travel time, its std, total distance traveled.
         """
-        if s.flag_od_analysis:
+        if s.flag_od_analysis == s.W.T+1:
             return 0
         else:
-            s.flag_od_analysis = 1
+            s.flag_od_analysis = s.W.T+1 #計算時点を記録（シミュレーションが進んだら再計算）
 
         s.od_trips = ddict(lambda: 0)
         s.od_trips_comp = ddict(lambda: 0)
@@ -206,10 +206,17 @@ class Analyzer:
         if s.W.vehicle_logging_timestep_interval != 1:
             warnings.warn("vehicle_logging_timestep_interval is not 1. The trajectories are not exactly accurate.", LoggingWarning)
 
-        if s.flag_trajectory_computed:
+        if s.flag_trajectory_computed == s.W.T+1:
             return 0
         else:
-            s.flag_trajectory_computed = 1
+            s.flag_trajectory_computed = s.W.T+1
+
+        for l in s.W.LINKS:
+            l.tss = []
+            l.xss = []
+            l.ls = []
+            l.cs = []
+            l.names = []
 
         for veh in s.W.VEHICLES.values():
             l_old = None
@@ -246,10 +253,10 @@ class Analyzer:
         """
         Compute Edie's traffic state for each link.
         """
-        if s.flag_edie_state_computed:
+        if s.flag_edie_state_computed == s.W.T+1:
             return 0
         else:
-            s.flag_edie_state_computed = 1
+            s.flag_edie_state_computed = s.W.T+1
 
         s.compute_accurate_traj()
         for l in s.W.LINKS:
@@ -1585,7 +1592,7 @@ class Analyzer:
         if s.W.vehicle_logging_timestep_interval != 1:
             warnings.warn("vehicle_logging_timestep_interval is not 1. The output data is not exactly accurate.", LoggingWarning)
 
-        if s.flag_pandas_convert == 0:
+        if s.flag_pandas_convert != s.W.T+1:
             out = [["name", "dn", "orig", "dest", "t", "link", "x", "s", "v"]]
             for veh in s.W.VEHICLES.values():
                 for i in range(len(veh.log_t)):
@@ -1605,7 +1612,7 @@ class Analyzer:
                         out.append([veh.name, s.W.DELTAN, veh.orig.name, veh_dest_name, veh.log_t[i], linkname, veh.log_x[i], veh.log_s[i], veh.log_v[i]])
             s.df_vehicles = pd.DataFrame(out[1:], columns=out[0])
 
-            s.flag_pandas_convert = 1
+            s.flag_pandas_convert = s.W.T+1
         return s.df_vehicles
 
     def log_vehicles_to_pandas(s):
-- 
2.43.0


From eb7a135e676b45e9f703fbf411ccb676e3d434c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:24 +0000
Subject: [PATCH 18/99] fix: mfd_to_pandas returns every time bin of the given
 links

---
 uxsim/analyzer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uxsim/analyzer.py b/uxsim/analyzer.py
index 0c08fa0..01fc694 100644
--- a/uxsim/analyzer.py
+++ b/uxsim/analyzer.py
@@ -2017,7 +2017,7 @@ class Analyzer:
         links = frozenset(links)
 
         out = [["t", "network_k", "network_q"]]
-        for i in lange(s.W.K_AREA):
+        for i in lange(s.W.K_AREA[links]):
             out.append([i*s.W.EULAR_DT, s.W.K_AREA[links][i], s.W.Q_AREA[links][i]])
         s.df_mfd = pd.DataFrame(out[1:], columns=out[0])
         return s.df_mfd
-- 
2.43.0


From 425d15850f9c8779f36eea5811a1ac0db18198cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:24 +0000
Subject: [PATCH 19/99] fix: default group names of vehicle_groups_to_pandas

---
 uxsim/analyzer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uxsim/analyzer.py b/uxsim/analyzer.py
index 01fc694..a3383dd 100644
--- a/uxsim/analyzer.py
+++ b/uxsim/analyzer.py
@@ -1923,7 +1923,7 @@ class Analyzer:
         df_od = s.W.analyzer.od_to_pandas()
 
         if group_names == None: 
-            group_names = [f"group {i} including {groups[0].name}" for i in range(len(groups))]
+            group_names = [f"group {i} including {groups[i][0].name if len(groups[i]) else None}" for i in range(len(groups))]
 
         total_trip_rec = []
         completed_trip_rec = []
-- 
2.43.0


From fd2d7efe63c69a9175e35ec91e9ed05c957639f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:24 +0000
Subject: [PATCH 20/99] fix: area_to_pandas does not subtract the remaining
 vehicles from the departures

---
 uxsim/analyzer.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/uxsim/analyzer.py b/uxsim/analyzer.py
index a3383dd..81af37e 100644
--- a/uxsim/analyzer.py
+++ b/uxsim/analyzer.py
@@ -1861,11 +1861,10 @@ class Analyzer:
             vehicles_remain = df_links.loc[rows, "vehicles_remain"].sum()
 
             if traffic_volume > 0:
-                traffic_volume_rows = (
-                            df_links.loc[rows, "traffic_volume"] - df_links.loc[rows, "vehicles_remain"]).values
+                traffic_volume_rows = df_links.loc[rows, "traffic_volume"].values #traffic_volume is the number of vehicles that left the link; it does not include vehicles_remain
                 total_travel_time = np.sum(df_links.loc[rows, "average_travel_time"].values * traffic_volume_rows)
                 total_free_time = np.sum(df_links.loc[rows, "free_travel_time"].values * traffic_volume_rows)
-                average_delay = max(total_travel_time / total_free_time - 1, 0)
+                average_delay = max(total_travel_time / total_free_time - 1, 0) if total_free_time > 0 else np.nan
 
                 # Average speed calculation: total distance / total time
                 total_distance = np.sum(df_links.loc[rows, "length"].values * traffic_volume_rows)
-- 
2.43.0


From 3da3566a93f739a985ffff557ae886432183a659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:38 +0000
Subject: [PATCH 21/99] Revert "fix: C++ mode forwards the renamed name of a
 node": the existing test suite pins the rejection

---
 uxsim/uxsim_cpp_wrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index aee7984..a468447 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -70,7 +70,7 @@ class CppNode:
         self.W.NODES_NAME_DICT[self.name] = self
 
         # Forward to C++
-        _add_node(self.W._cpp_world, self.name, float(x), float(y), list(signal), float(actual_signal_offset),
+        _add_node(self.W._cpp_world, name, float(x), float(y), list(signal), float(actual_signal_offset),
                   float(flow_capacity) if flow_capacity is not None else -1.0,
                   int(number_of_lanes) if number_of_lanes is not None else -1)
         self._cpp_node = self.W._cpp_world.get_node(self.name)
-- 
2.43.0


From 7e7e436c74634c5cbc7063ed766c4e389108f12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:32 +0000
Subject: [PATCH 22/99] fix: the critical density and flow of a link follow its
 parameters when they change during the simulation

---
 uxsim/uxsim.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index e310224..c3c69a0 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -976,6 +976,8 @@ class Link:
             s.w = 1/s.tau/s.kappa
             s.capacity = s.u*s.w*s.kappa/(s.u+s.w)
             s.delta = 1/s.kappa
+            s.q_star = s.capacity
+            s.k_star = s.capacity/s.u if s.u > 0 else 0
         else:
             warnings.warn(f"ignored negative free_flow_speed at {s}", UserWarning)
 
@@ -987,6 +989,8 @@ class Link:
             s.capacity = s.u*s.w*s.kappa/(s.u+s.w)
             s.delta = 1/s.kappa
             s.delta_per_lane = s.delta*s.number_of_lanes
+            s.q_star = s.capacity
+            s.k_star = s.capacity/s.u if s.u > 0 else 0
         else:
             warnings.warn(f"ignored negative jam_density at {s}", UserWarning)
 
-- 
2.43.0


From b921de694ad632a5e22a72eb5e5c0e665a22f934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:32 +0000
Subject: [PATCH 23/99] fix: the network average speed counts the waiting
 vehicles as zero-speed samples

---
 uxsim/uxsim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index c3c69a0..a621798 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -1542,7 +1542,7 @@ class Vehicle:
 
                     if s.state == "wait":
                         s.W.analyzer.average_speed_count += 1
-                        s.W.analyzer.average_speed += 0
+                        s.W.analyzer.average_speed += (0 - s.W.analyzer.average_speed)/s.W.analyzer.average_speed_count
                 else:
                     # if len(s.log_link) == 0 or s.log_link[-1] != s.link:
                     #     s.log_t_link.append([t, s.link])
-- 
2.43.0


From 8853378c7b819755927dccee142326a702cb0837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:32 +0000
Subject: [PATCH 24/99] fix: reading the real-time states of a link in the
 middle of a timestep affects neither the simulation nor later readings

---
 uxsim/uxsim.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index a621798..46725be 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -652,6 +652,9 @@ class Link:
         """
         Make necessary updates when the timestep is incremented.
         """
+        #リアルタイム状態は前回参照時から変化している可能性があるためリセット
+        s.reset_realtime_states()
+
         s.in_out_flow_constraint()
 
         s.set_traveltime_instant()
@@ -664,7 +667,12 @@ class Link:
         if s.user_function is not None:
             s.user_function(s)
 
-        #リアルタイム状態リセット
+        s.reset_realtime_states()
+
+    def reset_realtime_states(s):
+        """
+        Reset the cached real-time link states.
+        """
         s._speed = -1
         s._density = -1
         s._flow = -1
@@ -2487,6 +2495,9 @@ class World:
             for name in list(W.VEHICLES_LIVING.keys()):
                 W.VEHICLES_LIVING[name].update()
 
+            for link in W.LINKS:
+                link.reset_realtime_states()
+
             if W.route_choice_update_gradual == True:
                 if W.T % W.DELTAT_ROUTE == 0:
                     W.ROUTECHOICE.route_search_all(W.T*W.DELTAT, noise=W.DUO_NOISE)
-- 
2.43.0


From e63f63f5beba4f08f2dc7500161235e4df3d2070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:32 +0000
Subject: [PATCH 25/99] fix: link_cumulative_to_pandas during a simulation
 returns the executed timesteps

---
 uxsim/analyzer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uxsim/analyzer.py b/uxsim/analyzer.py
index 81af37e..8a8125e 100644
--- a/uxsim/analyzer.py
+++ b/uxsim/analyzer.py
@@ -2065,7 +2065,7 @@ class Analyzer:
         """
         out = [["link", "t", "arrival_count", "departure_count", "actual_travel_time", "instantanious_travel_time"]]
         for link in s.W.LINKS:
-            for i in range(s.W.TSIZE):
+            for i in range(len(link.cum_arrival)):
                 out.append([link.name, i*s.W.DELTAT, link.cum_arrival[i], link.cum_departure[i], link.traveltime_actual[i], link.traveltime_instant[i]])
         s.df_link_cumulative = pd.DataFrame(out[1:], columns=out[0])
         return s.df_link_cumulative
-- 
2.43.0


From d2df5673c27d126880c99278d22708ec81cfbdc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:32 +0000
Subject: [PATCH 26/99] fix: C++ mode does not expose the not yet executed
 timesteps of cumulative curves and instantaneous travel times

---
 uxsim/uxsim_cpp_wrapper.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index a468447..76aefb6 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -319,7 +319,7 @@ class CppLink:
             if not '_cached_cum_arrival' in self.__dict__:
                 self._cached_cum_arrival = self._cpp_link.get_cum_arrival_np()
             return self._cached_cum_arrival
-        return self._cpp_link.get_cum_arrival_np()
+        return self._cpp_link.get_cum_arrival_np()[:self.W._cpp_world.timestep]
 
     @property
     def cum_departure(self):
@@ -327,7 +327,7 @@ class CppLink:
             if not '_cached_cum_departure' in self.__dict__:
                 self._cached_cum_departure = self._cpp_link.get_cum_departure_np()
             return self._cached_cum_departure
-        return self._cpp_link.get_cum_departure_np()
+        return self._cpp_link.get_cum_departure_np()[:self.W._cpp_world.timestep]
 
     @property
     def traveltime_instant(self):
@@ -335,7 +335,7 @@ class CppLink:
             if not '_cached_traveltime_instant' in self.__dict__:
                 self._cached_traveltime_instant = self._cpp_link.get_traveltime_instant_np()
             return self._cached_traveltime_instant
-        return self._cpp_link.get_traveltime_instant_np()
+        return self._cpp_link.get_traveltime_instant_np()[:self.W._cpp_world.timestep]
 
     @property
     def traveltime_actual(self):
-- 
2.43.0


From 053d51980f1f355cc0dc03c1a991134a2cf50fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:32 +0000
Subject: [PATCH 27/99] fix: average_speed of a link in C++ mode is based on
 the instantaneous travel time as in Python mode

---
 uxsim/uxsim_cpp_wrapper.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index 76aefb6..4adbead 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -476,8 +476,7 @@ class CppLink:
         return arr[idx]
 
     def average_speed(self, t):
-        tt = self.actual_travel_time(t)
-        return self.length / tt if tt > 0 else self.u
+        return self.length / self.instant_travel_time(t)
 
     def average_flow(self, t):
         return self.average_density(t) * self.average_speed(t)
-- 
2.43.0


From fb79303426e51b5394a5b83000c2a711da126a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:32 +0000
Subject: [PATCH 28/99] fix: average_travel_time_between in C++ mode works
 during a simulation and without vehicle logs

---
 uxsim/uxsim_cpp_wrapper.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index 4adbead..abb2f6c 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -440,7 +440,9 @@ class CppLink:
         return (self.arrival_count(t1) - self.arrival_count(t0)) / (t1 - t0) if t1 != t0 else 0
 
     def average_travel_time_between(self, t0, t1):
-        t_list = [t for t in self.vehicles_enter_log.keys() if t0 <= t < t1]
+        # The vehicle enter log is only available after the simulation with vehicle logging, so use the cumulative curve
+        t_list = [float(i * self.W.DELTAT) for i in np.nonzero(np.diff(self.cum_arrival, prepend=0.0) > 0)[0]]
+        t_list = [t for t in t_list if t0 <= t < t1]
         if len(t_list) == 0:
             return self.length / self.u
         return np.average([self.actual_travel_time(t) for t in t_list])
-- 
2.43.0


From 7d672064cc03c24dc8ea4c04079ef47da18c8a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:32 +0000
Subject: [PATCH 29/99] fix: C++ mode respects trip_abort of a vehicle

---
 uxsim/uxsim_cpp_wrapper.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index abb2f6c..da48690 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -618,6 +618,13 @@ class CppVehicle:
                 return links[link_id]
         return None
 
+    @property
+    def trip_abort(self):
+        return self._cpp_vehicle.trip_abort
+    @trip_abort.setter
+    def trip_abort(self, value):
+        self._cpp_vehicle.trip_abort = int(value)
+
     @property
     def link_arrival_time(self):
         return self._cpp_vehicle.arrival_time_link
@@ -1047,6 +1054,7 @@ class CppWorld:
             veh.name = name
             self.VEHICLES[name] = veh
             self.VEHICLES_LIVING[name] = veh
+        veh.trip_abort = kwargs.get('trip_abort', 1)
         veh.attribute = kwargs.get('attribute')
         veh.user_attribute = kwargs.get('user_attribute')
         veh.user_function = kwargs.get('user_function')
-- 
2.43.0


From 3257f72fe8dad1eb6925792c31a0f51bc313f481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:32 +0000
Subject: [PATCH 30/99] fix: get_xy_coords(t) in C++ mode returns the
 coordinates at time t

---
 uxsim/uxsim_cpp_wrapper.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index da48690..a7767f8 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -782,11 +782,18 @@ class CppVehicle:
             self.add_dest(d)
 
     def get_xy_coords(self, t=-1):
-        if self.link is None:
-            return self.orig.x, self.orig.y
-        ratio = self.x / self.link.length if self.link.length > 0 else 0
-        return (self.link.start_node.x + ratio * (self.link.end_node.x - self.link.start_node.x),
-                self.link.start_node.y + ratio * (self.link.end_node.y - self.link.start_node.y))
+        if t != -1:
+            i = int((t - self.log_t[0]) / self.W.DELTAT)
+            link, x = self.log_link[i], self.log_x[i]
+            if link == -1:
+                return (-1, -1)
+        else:
+            link, x = self.link, self.x
+            if link is None:
+                return self.orig.x, self.orig.y
+        ratio = x / link.length if link.length > 0 else 0
+        return (link.start_node.x + ratio * (link.end_node.x - link.start_node.x),
+                link.start_node.y + ratio * (link.end_node.y - link.start_node.y))
 
 
 
-- 
2.43.0


From a3bd5495ba72ca34b8319edc58769e248ba00afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:32 +0000
Subject: [PATCH 31/99] fix: get_xy_coords(t) is correct for vehicles created
 during the simulation

---
 uxsim/uxsim.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index 46725be..4b88aac 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -1509,8 +1509,9 @@ class Vehicle:
             Time in seconds. If it is -1, the latest position is returned.
         """
         if t != -1:
-            link = s.log_link[int(t/s.W.DELTAT/s.W.vehicle_logging_timestep_interval)]
-            xx = s.log_x[int(t/s.W.DELTAT/s.W.vehicle_logging_timestep_interval)]
+            i = int((t-s.log_t[0])/s.W.DELTAT/s.W.vehicle_logging_timestep_interval) #the log starts when the vehicle was created
+            link = s.log_link[i]
+            xx = s.log_x[i]
         else:
             link = s.link
             xx = s.x
-- 
2.43.0


From 6f47fa975a76d3c0cb43b483a58826a9f7dcaf25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:32 +0000
Subject: [PATCH 32/99] fix: gps_like_log_to_pandas does not duplicate the last
 position of vehicles with a speed of -1

---
 uxsim/analyzer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/uxsim/analyzer.py b/uxsim/analyzer.py
index 8a8125e..e1bf49d 100644
--- a/uxsim/analyzer.py
+++ b/uxsim/analyzer.py
@@ -1662,9 +1662,9 @@ class Analyzer:
         out = [["name", "t", "x", "y", "v"]]
         for veh in s.W.VEHICLES.values():
             for i,t in enumerate(veh.log_t):
-                x, y = veh.get_xy_coords(t)
-                if (x, y) == (-1, -1):
+                if veh.log_link[i] == -1:
                     continue
+                x, y = veh.get_xy_coords(t)
                 v = veh.log_v[i]
                 out.append([veh.name, t, x, y, v])
         s.df_gps_like_log = pd.DataFrame(out[1:], columns=out[0])
-- 
2.43.0


From 9b1a7dba97ec8d422647d4e4a184491097f512e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:48 +0000
Subject: [PATCH 33/99] fix: logs of vehicles at home in C++ mode cover the
 timesteps before the departure

---
 uxsim/trafficpp/traffi.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/uxsim/trafficpp/traffi.cpp b/uxsim/trafficpp/traffi.cpp
index fc9e186..f36f22c 100644
--- a/uxsim/trafficpp/traffi.cpp
+++ b/uxsim/trafficpp/traffi.cpp
@@ -2000,9 +2000,12 @@ World::CompactFlatLogs World::build_all_vehicle_logs_flat_compact() const {
     size_t total_ltl = 0;
     for (size_t vi = 0; vi < nv; vi++) {
         const Vehicle *v = vehicles[vi];
+        // Timesteps before the first log entry; a vehicle that has not departed yet was at home in all the executed timesteps.
         int n_missing = 0;
-        if (v->log_size > 0 && v->log_t_at(0) > 0) {
-            n_missing = static_cast<int>(v->log_t_at(0) / delta_t);
+        if (v->log_size > 0) {
+            n_missing = v->log_first_ts;
+        } else if (vehicle_log_mode && v->state == vsHOME) {
+            n_missing = static_cast<int>(timestep);
         }
         fl.n_missing[vi] = n_missing;
         fl.offsets[vi] = total_log;
-- 
2.43.0


From ac833d149557b426f37dbc9358d3cb18e223c98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:28 +0000
Subject: [PATCH 34/99] fix: vehicles at the end of a link whose free flow
 speed is changed do not jump into the next link

---
 uxsim/trafficpp/traffi.cpp | 6 ++++++
 uxsim/uxsim.py             | 4 ++++
 2 files changed, 10 insertions(+)

diff --git a/uxsim/trafficpp/traffi.cpp b/uxsim/trafficpp/traffi.cpp
index f36f22c..1a989cf 100644
--- a/uxsim/trafficpp/traffi.cpp
+++ b/uxsim/trafficpp/traffi.cpp
@@ -570,6 +570,12 @@ void Link::update(){
  */
 void Link::change_free_flow_speed(double new_value){
     if (new_value >= 0){
+        // The residual movement of the vehicles waiting at the link end is in meters at the old speed
+        if (vmax > 0){
+            for (auto veh : vehicles){
+                veh->move_remain *= new_value/vmax;
+            }
+        }
         vmax = new_value;
         backward_wave_speed = 1.0/tau/kappa;
         capacity = vmax*backward_wave_speed*kappa/(vmax+backward_wave_speed);
diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index 4b88aac..ba8dabf 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -979,6 +979,10 @@ class Link:
 
     def change_free_flow_speed(s, new_value):
         if new_value >= 0:
+            #the residual movement of the vehicles waiting at the link end is in meters at the old speed
+            if s.u > 0:
+                for veh in s.vehicles:
+                    veh.move_remain *= new_value/s.u
             s.free_flow_speed = new_value
             s.u = new_value
             s.w = 1/s.tau/s.kappa
-- 
2.43.0


From e979f0462659234155699b56d676a5b3ace81fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:44 +0000
Subject: [PATCH 35/99] fix: traveltime_instant in C++ mode keeps its full
 length during the simulation (part of d2df567 undone, an existing test relies
 on it)

---
 uxsim/uxsim_cpp_wrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index a7767f8..2fbae97 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -335,7 +335,7 @@ class CppLink:
             if not '_cached_traveltime_instant' in self.__dict__:
                 self._cached_traveltime_instant = self._cpp_link.get_traveltime_instant_np()
             return self._cached_traveltime_instant
-        return self._cpp_link.get_traveltime_instant_np()[:self.W._cpp_world.timestep]
+        return self._cpp_link.get_traveltime_instant_np()
 
     @property
     def traveltime_actual(self):
-- 
2.43.0


From abb1abb2ad1204c29e154edd13e1c18fb849a97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:33 +0000
Subject: [PATCH 36/99] fix: basic_to_pandas reports the stats at the time of
 the call also during a simulation

---
 uxsim/analyzer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/uxsim/analyzer.py b/uxsim/analyzer.py
index e1bf49d..b466deb 100644
--- a/uxsim/analyzer.py
+++ b/uxsim/analyzer.py
@@ -1678,6 +1678,8 @@ class Analyzer:
         -------
         pd.DataFrame
         """
+        s.basic_analysis()
+
         out = [["total_trips", "completed_trips", "total_travel_time", "average_travel_time", "total_delay", "average_delay"], [s.trip_all, s.trip_completed, s.total_travel_time, s.average_travel_time, s.total_delay, s.average_delay]]
 
         s.df_basic = pd.DataFrame(out[1:], columns=out[0])
-- 
2.43.0


From 8e20d5e48beddd9f561e97986557b6fb7b9893a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:33 +0000
Subject: [PATCH 37/99] fix: network density and flow of MFD are averaged over
 the area where the traffic states are measured

---
 uxsim/analyzer.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/uxsim/analyzer.py b/uxsim/analyzer.py
index b466deb..e802177 100644
--- a/uxsim/analyzer.py
+++ b/uxsim/analyzer.py
@@ -1435,9 +1435,10 @@ class Analyzer:
         for i in range(len(s.W.Q_AREA[links])):
             tn = sum([l.tn_mat[i,:].sum() for l in s.W.LINKS if l in links])
             dn = sum([l.dn_mat[i,:].sum() for l in s.W.LINKS if l in links])
-            an = sum([l.length*s.W.EULAR_DT for l in s.W.LINKS if l in links])
-            s.W.K_AREA[links][i] = tn/an
-            s.W.Q_AREA[links][i] = dn/an
+            an = sum([l.edie_dx*l.tn_mat.shape[1]*s.W.EULAR_DT for l in s.W.LINKS if l in links]) #the area covered by the cells; the link end shorter than a cell is not covered
+            if an > 0:
+                s.W.K_AREA[links][i] = tn/an
+                s.W.Q_AREA[links][i] = dn/an
 
     @catch_exceptions_and_warn()
     def macroscopic_fundamental_diagram(s, kappa=0.2, qmax=1, figtitle="", links=None, fname="", figsize=(4,4)):
-- 
2.43.0


From 8de9719529a225656a15da5c22ee8d43dfdeece2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:33 +0000
Subject: [PATCH 38/99] fix: trajectories extrapolated before the start of the
 simulation are not counted in the last time bin of Edie states

---
 uxsim/analyzer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/uxsim/analyzer.py b/uxsim/analyzer.py
index e802177..40eff09 100644
--- a/uxsim/analyzer.py
+++ b/uxsim/analyzer.py
@@ -297,7 +297,7 @@ class Analyzer:
                         tl0 = xl0/v0
                         tl1 = xl1/v0
 
-                        if tt < int(MAXT/DELTATE) and xx < int(MAXX/DELTAX):
+                        if 0 <= tt < int(MAXT/DELTATE) and xx < int(MAXX/DELTAX):
                             if xx == x1//dx:
                                 #(x,t)
                                 dn[tt][xx][i0] += x1-x0
@@ -317,7 +317,7 @@ class Analyzer:
                                             dn[tt][xx+j][i0] += dx
                                             tn[tt][xx+j][i0] += dx/v0
                     else:
-                        if tt < int(MAXT/DELTATE) and xx < int(MAXX/DELTAX):
+                        if 0 <= tt < int(MAXT/DELTATE) and xx < int(MAXX/DELTAX):
                             dn[tt][xx][i0] += 0
                             tn[tt][xx][i0] += t1-t0
 
-- 
2.43.0


From e7cc9ead1a00fcf015fb400437b4358643462e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:48 +0000
Subject: [PATCH 39/99] fix: instant_travel_time(t) in C++ mode does not read
 the not yet executed timesteps

---
 uxsim/uxsim_cpp_wrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index 2fbae97..baadae7 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -455,7 +455,7 @@ class CppLink:
 
     def instant_travel_time(self, t):
         arr = self.traveltime_instant
-        n = len(arr)
+        n = min(len(arr), self.W._cpp_world.timestep) #the timesteps not yet executed have no value
         if n == 0:
             return self._free_flow_tt
         idx = int(t / self._deltat)
-- 
2.43.0


From f174f9ef04ed8968c1b929a5a644f8e40e9773a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:41 +0000
Subject: [PATCH 40/99] fix: vehicles waiting at the end of a link are counted
 in its last Edie cell

---
 uxsim/analyzer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/uxsim/analyzer.py b/uxsim/analyzer.py
index 40eff09..5af862d 100644
--- a/uxsim/analyzer.py
+++ b/uxsim/analyzer.py
@@ -289,6 +289,8 @@ class Analyzer:
 
                     tt = int(t0//dt)
                     xx = int(x0//dx)
+                    if x0 == MAXX == dx*int(MAXX/DELTAX):
+                        xx = int(MAXX/DELTAX)-1 #a vehicle waiting at the link end is in the last cell
 
                     if v0 > 0:
                         #残り
-- 
2.43.0


From b98ac81e83b748bab247832292675fc991673f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:38 +0000
Subject: [PATCH 41/99] Revert "fix: vehicles waiting at the end of a link are
 counted in its last Edie cell"

This reverts commit f174f9ef04ed8968c1b929a5a644f8e40e9773a8.
---
 uxsim/analyzer.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/uxsim/analyzer.py b/uxsim/analyzer.py
index 5af862d..40eff09 100644
--- a/uxsim/analyzer.py
+++ b/uxsim/analyzer.py
@@ -289,8 +289,6 @@ class Analyzer:
 
                     tt = int(t0//dt)
                     xx = int(x0//dx)
-                    if x0 == MAXX == dx*int(MAXX/DELTAX):
-                        xx = int(MAXX/DELTAX)-1 #a vehicle waiting at the link end is in the last cell
 
                     if v0 > 0:
                         #残り
-- 
2.43.0


From eb9c715e0ebcc16c7620330ae5e09859d8050d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:20 +0000
Subject: [PATCH 42/99] fix: vehicles created during a simulation follow the
 current route preferences instead of random routes until the next update

---
 uxsim/uxsim.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index ba8dabf..2da492b 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -1117,6 +1117,9 @@ class Vehicle:
             if s.W.route_pref_for_vehs == None:
                 s.W.route_pref_for_vehs = {l.id:0 for l in s.W.LINKS}
             s.route_pref = copy.copy(s.W.route_pref_for_vehs)
+            if s.W.finalized and s.route_choice_principle == "homogeneous_DUO":
+                #シミュレーション中に追加された車両は現在の経路選好に従う
+                s.route_pref_update()
         else:
             s.route_pref = {l.id:route_pref[l] for l in route_pref.keys()}
 
-- 
2.43.0


From e64cbbdd9347ab984e9de13a48a6f992fa64d98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:57 +0000
Subject: [PATCH 43/99] fix: get_xy_coords of a vehicle outside the network
 returns (-1, -1) instead of raising or returning its origin

---
 uxsim/uxsim.py             | 2 +-
 uxsim/uxsim_cpp_wrapper.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index 2da492b..3e398a1 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -1522,7 +1522,7 @@ class Vehicle:
         else:
             link = s.link
             xx = s.x
-        if link == -1:
+        if link == -1 or link is None: #not on the network
             return (-1, -1)
         link = s.W.get_link(link)
         x0 = link.start_node.x
diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index baadae7..c62d5cf 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -790,7 +790,7 @@ class CppVehicle:
         else:
             link, x = self.link, self.x
             if link is None:
-                return self.orig.x, self.orig.y
+                return (-1, -1)
         ratio = x / link.length if link.length > 0 else 0
         return (link.start_node.x + ratio * (link.end_node.x - link.start_node.x),
                 link.start_node.y + ratio * (link.end_node.y - link.start_node.y))
-- 
2.43.0


From ca9250b1f7599287047b589bb440170b2c9f0929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:57 +0000
Subject: [PATCH 44/99] fix: default meta_data, signal and signal_group are no
 longer shared between worlds, nodes and links

---
 uxsim/uxsim.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index 3e398a1..2e897d1 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -163,7 +163,7 @@ class Node:
         signal_offset_old : float, optional
             Previous (wrong) signal offset in seconds. When specified, the new offset is calculated relative to the new cycle length. Kept for backward compatibility.
         """
-        s.signal = signal
+        s.signal = list(signal)
         s.cycle_length = sum(s.signal)
         s.signal_offset = signal_offset
         if reset:
@@ -568,6 +568,8 @@ class Link:
         s.signal_group = signal_group
         if type(s.signal_group) == int:
             s.signal_group = [s.signal_group]
+        elif type(s.signal_group) == list:
+            s.signal_group = list(s.signal_group)
 
         #流出容量
         s.capacity_out = capacity_out
@@ -1714,7 +1716,7 @@ class World:
                  vehicle_logging_timestep_interval: int=1,
                  reduce_memory_delete_vehicle_route_pref: bool=False,
                  hard_deterministic_mode: bool=False,
-                 meta_data: dict={}, user_attribute=None, user_function=None,
+                 meta_data: dict|None=None, user_attribute=None, user_function=None,
                  threads: int=1,
                  cpp: bool=False):
         """
@@ -1854,7 +1856,7 @@ class World:
 
         W.hard_deterministic_mode = hard_deterministic_mode
 
-        W.meta_data = meta_data
+        W.meta_data = meta_data if meta_data is not None else {}
         W.network_info = ddict(list)
         W.demand_info = ddict(list)
 
-- 
2.43.0


From d39823d28187881ab9872ac08d32a4be152132cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:55 +0000
Subject: [PATCH 45/99] fix: the C++ engine rejects unknown nodes and links and
 unusable values before registering anything, instead of leaving
 half-registered objects

---
 uxsim/trafficpp/traffi.cpp | 75 ++++++++++++++++++++++++++++++++------
 uxsim/uxsim_cpp_wrapper.py | 16 +++++---
 2 files changed, 73 insertions(+), 18 deletions(-)

diff --git a/uxsim/trafficpp/traffi.cpp b/uxsim/trafficpp/traffi.cpp
index 1a989cf..a2b7a26 100644
--- a/uxsim/trafficpp/traffi.cpp
+++ b/uxsim/trafficpp/traffi.cpp
@@ -54,6 +54,29 @@ Node::Node(World *w, const string &node_name, double x, double y, vector<double>
       signal_offset(signal_offset),
       flow_capacity(flow_capacity),
       number_of_lanes(number_of_lanes){
+    // Reject what cannot be simulated before the node is registered anywhere
+    if (w->nodes_map.count(node_name)){
+        throw std::invalid_argument("Node name " + node_name + " already used by another node.");
+    }
+    double cycle_length = 0;
+    for (auto s : this->signal_intervals){
+        if (!std::isfinite(s) || s < 0.0){
+            throw std::invalid_argument("Node " + node_name + ": the signal phases must be finite and non-negative.");
+        }
+        cycle_length += s;
+    }
+    if (this->signal_intervals.size() > 1 && cycle_length <= 0.0){
+        throw std::invalid_argument("Node " + node_name + ": the signal cycle length must be positive.");
+    }
+    if (!std::isfinite(signal_offset)){
+        throw std::invalid_argument("Node " + node_name + ": the signal offset must be finite.");
+    }
+    if (flow_capacity / 0.8 > 1e9){
+        throw std::invalid_argument("Node " + node_name + ": the flow capacity is too large.");
+    }
+    // Reserve signal_log for expected timesteps to avoid reallocations
+    signal_log.reserve(w->total_timesteps + 1);
+
     w->nodes.push_back(this);
     // Per-node RNG stream (kind=1) and stat partial sum, seeded/sized by node id.
     w->node_rngs.push_back(make_entity_rng(w->random_seed, 1u, (unsigned int)id));
@@ -64,11 +87,12 @@ Node::Node(World *w, const string &node_name, double x, double y, vector<double>
     // Signal initialization matching Python's Node.__init__
     signal_phase = 0;
     signal_t = 0;
-    double cycle_length = 0;
-    for (auto s : this->signal_intervals) cycle_length += s;
 
     if (this->signal_intervals.size() > 1 || (this->signal_intervals.size() == 1 && this->signal_intervals[0] != 0)){
         double offset = cycle_length - this->signal_offset;
+        if (offset > cycle_length * 1e6){
+            offset = std::fmod(offset, cycle_length);  // keeps the loop below finite
+        }
         int i = 0;
         while (true){
             if (offset < this->signal_intervals[i]){
@@ -84,9 +108,6 @@ Node::Node(World *w, const string &node_name, double x, double y, vector<double>
         }
     }
 
-    // Reserve signal_log for expected timesteps to avoid reallocations
-    signal_log.reserve(w->total_timesteps + 1);
-
     // flow capacity initialization (matching Python Node.__init__)
     if (flow_capacity >= 0.0){
         this->flow_capacity_remain = flow_capacity * w->tau * w->delta_n;
@@ -489,6 +510,19 @@ Link::Link(
       signal_group(signal_group),
       route_choice_penalty(0.0){
 
+    // Reject what cannot be simulated before the link is registered anywhere
+    auto it_start = w->nodes_map.find(start_node_name);
+    auto it_end = w->nodes_map.find(end_node_name);
+    if (it_start == w->nodes_map.end() || it_end == w->nodes_map.end()){
+        throw std::invalid_argument("Link " + link_name + ": unknown start or end node.");
+    }
+    if (w->links_map.count(link_name)){
+        throw std::invalid_argument("Link name " + link_name + " already used by another link.");
+    }
+    if (!(vmax > 0.0) || !(length >= 0.0) || !std::isfinite(vmax) || !std::isfinite(length) || !std::isfinite(kappa) || number_of_lanes < 1){
+        throw std::invalid_argument("Link " + link_name + ": the length, free flow speed, jam density and number of lanes must be finite and positive.");
+    }
+
     if (this->kappa <= 0.0){
         this->kappa = 0.2;
     }
@@ -511,8 +545,8 @@ Link::Link(
         this->capacity_in_remain = this->capacity_in * w->delta_t;
     }
 
-    start_node = w->nodes_map[start_node_name];
-    end_node = w->nodes_map[end_node_name];
+    start_node = it_start->second;
+    end_node = it_end->second;
 
     arrival_curve.resize(w->total_timesteps, 0.0);
     departure_curve.resize(w->total_timesteps, 0.0);
@@ -761,8 +795,16 @@ Vehicle::Vehicle(
       flag_trip_aborted(0),
       trip_abort(1),
       distance_traveled(0.0){
-    orig = w->nodes_map[orig_name];
-    dest = w->nodes_map[dest_name];
+    auto it_orig = w->nodes_map.find(orig_name);
+    auto it_dest = w->nodes_map.find(dest_name);
+    if (it_orig == w->nodes_map.end() || it_dest == w->nodes_map.end()){
+        throw std::invalid_argument("Vehicle " + vehicle_name + ": unknown origin or destination node.");
+    }
+    if (std::isnan(departure_time)){
+        throw std::invalid_argument("Vehicle " + vehicle_name + ": the departure time is not a number.");
+    }
+    orig = it_orig->second;
+    dest = it_dest->second;
 
     // Initialize link preference (vector indexed by link_id)
     route_preference.assign(w->links.size(), 0.0);
@@ -1924,6 +1966,17 @@ inline void add_demand(
         vector<string> links_preferred_str = {}){
     // Iterate over integer timesteps, mirroring Python's adddemand: `for t in range(int(t_start/DELTAT), int(t_end/DELTAT))`.
     // This keeps the iteration count and the timestep-quantized departure times identical to Python even when t_start/t_end are not multiples of delta_t.
+    if (!(std::fabs(start_t / w->delta_t) < INT_MAX && std::fabs(end_t / w->delta_t) < INT_MAX) || !std::isfinite(flow)){
+        throw std::invalid_argument("add_demand: the times and the flow must be finite.");
+    }
+    vector<Link *> links_preferred;
+    for (auto ln_str : links_preferred_str){
+        auto it = w->links_map.find(ln_str);
+        if (it == w->links_map.end()){
+            throw std::invalid_argument("add_demand: unknown link " + ln_str + ".");
+        }
+        links_preferred.push_back(it->second);
+    }
     int ts_start = (int)(start_t / w->delta_t);
     int ts_end = (int)(end_t / w->delta_t);
     double demand = 0.0;
@@ -1938,9 +1991,7 @@ inline void add_demand(
                 orig_name,
                 dest_name);
 
-            for (auto ln_str : links_preferred_str){
-                v->links_preferred.push_back(w->links_map[ln_str]);
-            }
+            v->links_preferred = links_preferred;
 
             demand -= (double)w->delta_n;
         }
diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index c62d5cf..79e4e42 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -66,8 +66,6 @@ class CppNode:
                     self.W.rng.choice(list(string.ascii_letters + string.digits), size=8))
             else:
                 raise ValueError(f"Node name {self.name} already used by another node.")
-        self.W.NODES.append(self)
-        self.W.NODES_NAME_DICT[self.name] = self
 
         # Forward to C++
         _add_node(self.W._cpp_world, name, float(x), float(y), list(signal), float(actual_signal_offset),
@@ -81,6 +79,10 @@ class CppNode:
         self.signal_offset = self._cpp_node.signal_offset
         self.flag_lanes_automatically_determined = False
 
+        # Register only after C++ has accepted the node
+        self.W.NODES.append(self)
+        self.W.NODES_NAME_DICT[self.name] = self
+
     def __repr__(self):
         return f"<Node {self.name}>"
 
@@ -236,10 +238,6 @@ class CppLink:
                     self.W.rng.choice(list(string.ascii_letters + string.digits), size=8))
             else:
                 raise ValueError(f"Link name {self.name} already used by another link.")
-        self.W.LINKS.append(self)
-        self.W.LINKS_NAME_DICT[self.name] = self
-        self.start_node.outlinks[self.name] = self
-        self.end_node.inlinks[self.name] = self
 
         self.attribute = attribute
         self.user_attribute = user_attribute
@@ -260,6 +258,12 @@ class CppLink:
                       float(free_flow_speed), float(kappa), float(length), float(merge_priority), float(cpp_capacity_out), cpp_signal_group)
         self._cpp_link = self.W._cpp_world.get_link(self.name)
 
+        # Register only after C++ has accepted the link
+        self.W.LINKS.append(self)
+        self.W.LINKS_NAME_DICT[self.name] = self
+        self.start_node.outlinks[self.name] = self
+        self.end_node.inlinks[self.name] = self
+
         # Read derived parameters from C++ (single source of truth)
         cpp = self._cpp_link
         self.length = length  # keep the user-passed value (C++ stores it unchanged) so prints match Python, e.g. int stays int
-- 
2.43.0


From ee05d153cb08b6e800b2068e665b7ae14002f952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:16 +0000
Subject: [PATCH 46/99] fix: the C++ engine rejects non-finite and non-positive
 world parameters instead of converting them to integers

---
 uxsim/trafficpp/traffi.cpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/uxsim/trafficpp/traffi.cpp b/uxsim/trafficpp/traffi.cpp
index a2b7a26..a44d4e3 100644
--- a/uxsim/trafficpp/traffi.cpp
+++ b/uxsim/trafficpp/traffi.cpp
@@ -1197,6 +1197,15 @@ double Vehicle::departure_time_in_second() const {
 // MARK: World
 // -----------------------------------------------------------------------
 
+// Number of timesteps of a duration, rejecting what cannot be one
+static int checked_timesteps(double duration, double delta_t, const char *what){
+    double n = duration / delta_t;
+    if (!(delta_t > 0.0) || !std::isfinite(delta_t) || !(n >= 0.0) || !(n < 1e9)){
+        throw std::invalid_argument(std::string("World: invalid ") + what + " or timestep width.");
+    }
+    return (int)n;
+}
+
 /**
  * @brief Create a World (simulation environment).
  * 
@@ -1237,8 +1246,8 @@ World::World(
       route_choice_update_gradual(route_choice_update_gradual),
       no_cyclic_routing(no_cyclic_routing),
       delta_t(tau * delta_n),
-      total_timesteps((int)(t_max / (tau * delta_n))),
-      timestep_for_route_update((int)(duo_update_time / (tau * delta_n))),
+      total_timesteps(checked_timesteps(t_max, tau * delta_n, "duration")),
+      timestep_for_route_update(checked_timesteps(std::min(std::max(duo_update_time, 0.0), 5e8 * tau * delta_n), tau * delta_n, "route update interval")),
       time(0),
       node_id(0),
       link_id(0),
@@ -1259,8 +1268,11 @@ World::World(
     if (timestep_for_route_update == 0){
         timestep_for_route_update = 1;
     }
+    if (!(delta_n > 0.0) || !(tau > 0.0)){
+        throw std::invalid_argument("World: the platoon size and the reaction time must be positive.");
+    }
     show_progress = 1;
-    show_progress_deltat_timestep = (size_t)(600.0 / delta_t);  // Python World default: show_progress_deltat=600
+    show_progress_deltat_timestep = (size_t)std::min(600.0 / delta_t, 1e9);  // Python World default: show_progress_deltat=600
     sim_start_time = std::chrono::steady_clock::now();
 }
 
@@ -1281,8 +1293,8 @@ World::~World(){
 }
 
 void World::set_t_max(double new_t_max){
+    total_timesteps = checked_timesteps(new_t_max, delta_t, "duration");
     t_max = new_t_max;
-    total_timesteps = (size_t)(t_max / delta_t);
     for (auto ln : links){
         ln->arrival_curve.resize(total_timesteps, 0.0);
         ln->departure_curve.resize(total_timesteps, 0.0);
-- 
2.43.0


From 2ef060d567a604c81b115343d6811839424ddf56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:16 +0000
Subject: [PATCH 47/99] fix: nodes, links and vehicles handed out by the C++
 engine keep their world alive

---
 uxsim/trafficpp/bindings.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/uxsim/trafficpp/bindings.cpp b/uxsim/trafficpp/bindings.cpp
index ed4f075..133948f 100644
--- a/uxsim/trafficpp/bindings.cpp
+++ b/uxsim/trafficpp/bindings.cpp
@@ -26,7 +26,7 @@ namespace nb = nanobind;
 template<typename T>
 nb::ndarray<nb::numpy, T, nb::ndim<1>> make_numpy_copy(const T* data, size_t n) {
     T* copy = new T[n];
-    std::memcpy(copy, data, n * sizeof(T));
+    if (n > 0) std::memcpy(copy, data, n * sizeof(T));
     nb::capsule owner(copy, [](void* p) noexcept { delete[] static_cast<T*>(p); });
     return nb::ndarray<nb::numpy, T, nb::ndim<1>>(copy, {n}, owner);
 }
@@ -503,22 +503,22 @@ NB_MODULE(uxsim_cpp, m) {
              nb::arg("route"), nb::arg("departure_time"),
              "Estimate congestion externality for a route (list of Link objects)")
         .def("get_node", &World::get_node,
-             nb::rv_policy::reference,
+             nb::rv_policy::reference_internal,
              "Get a Node by name (reference)")
         .def("get_link", &World::get_link,
-             nb::rv_policy::reference,
+             nb::rv_policy::reference_internal,
              "Get a Link by name (reference)")
         .def("get_vehicle_by_index", &World::get_vehicle_by_index,
-             nb::rv_policy::reference,
+             nb::rv_policy::reference_internal,
              "Get a Vehicle by index in vehicles vector (O(1), no list conversion)")
         // Aliases for explicit by-name lookup (same as get_node/get_link)
         .def("get_node_by_name", &World::get_node,
              nb::arg("name"),
-             nb::rv_policy::reference,
+             nb::rv_policy::reference_internal,
              "Get a Node by name string (alias for get_node)")
         .def("get_link_by_name", &World::get_link,
              nb::arg("name"),
-             nb::rv_policy::reference,
+             nb::rv_policy::reference_internal,
              "Get a Link by name string (alias for get_link)")
         .def_ro("VEHICLES", &World::vehicles,
                       "Vector of pointers to all Vehicles in the world.")
-- 
2.43.0


From 21c0261e6c025691e27028aa00277233baddf1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:52 +0000
Subject: [PATCH 48/99] fix: nodes and links added after the start of a C++
 simulation no longer index outside its route tables

---
 uxsim/trafficpp/traffi.cpp | 25 +++++++++++++++++++++++++
 uxsim/trafficpp/traffi.h   |  3 +++
 2 files changed, 28 insertions(+)

diff --git a/uxsim/trafficpp/traffi.cpp b/uxsim/trafficpp/traffi.cpp
index a44d4e3..441bc04 100644
--- a/uxsim/trafficpp/traffi.cpp
+++ b/uxsim/trafficpp/traffi.cpp
@@ -1325,6 +1325,28 @@ void World::initialize_adj_matrix(){
     }
 }
 
+void World::extend_route_tables(){
+    size_t n = nodes.size();
+    if (route_pref_active.size() < n){
+        for (auto &row : adj_mat) row.resize(n, 0);
+        for (auto &row : adj_mat_time) row.resize(n, 0.0);
+        adj_mat.resize(n, vector<int>(n, 0));
+        adj_mat_time.resize(n, vector<double>(n, 0.0));
+        for (auto &row : route_next) row.resize(n, -1);
+        for (auto &row : route_dist) row.resize(n, std::numeric_limits<double>::infinity());
+        route_next.resize(n, vector<int>(n, -1));
+        route_dist.resize(n, vector<double>(n, std::numeric_limits<double>::infinity()));
+        route_preference.resize(n, vector<double>(links.size(), 0.0));
+        route_pref_active.resize(n, 0);
+    }
+    if (!route_preference.empty() && route_preference[0].size() < links.size()){
+        for (size_t lid = route_preference[0].size(); lid < links.size(); lid++){
+            adj_mat[links[lid]->start_node->id][links[lid]->end_node->id] = 1;
+        }
+        for (auto &row : route_preference) row.resize(links.size(), 0.0);
+    }
+}
+
 void World::update_adj_time_matrix(){
     double noise = route_choice_uncertainty;
     // Reset the cells written by links (running-average state).
@@ -1721,6 +1743,9 @@ void World::main_loop(double duration_t=-1, double until_t=-1){
         return;
     }
 
+    // Nodes and links may have been added after the initialization
+    extend_route_tables();
+
     // Rebuild HOME departure buckets: departure_buckets[ts] holds the HOME vehicles (id
     // ascending, since `vehicles` is in id order) whose first departing timestep is ts. ts0
     // is the smallest timestep with (double)ts0*delta_t >= departure_time, using the exact
diff --git a/uxsim/trafficpp/traffi.h b/uxsim/trafficpp/traffi.h
index 06de9af..6a92604 100644
--- a/uxsim/trafficpp/traffi.h
+++ b/uxsim/trafficpp/traffi.h
@@ -435,6 +435,9 @@ struct World {
     void initialize_adj_matrix();
     void update_adj_time_matrix();
 
+    // Grow the adjacency and route preference tables for the nodes and links added after initialize_adj_matrix().
+    void extend_route_tables();
+
     // Update t_max/total_timesteps and resize per-link time-indexed arrays.
     // Must be called before simulation start; the world may be created with a placeholder horizon before the final TMAX is known.
     void set_t_max(double new_t_max);
-- 
2.43.0


From 2466a4ca16cc5879e5efbd3a5d5fb488ab7af73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:52 +0000
Subject: [PATCH 49/99] fix: a signal phase outside the signal plan of a C++
 node is reset instead of reading past the plan

---
 uxsim/trafficpp/traffi.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/uxsim/trafficpp/traffi.cpp b/uxsim/trafficpp/traffi.cpp
index 441bc04..cbfb2d6 100644
--- a/uxsim/trafficpp/traffi.cpp
+++ b/uxsim/trafficpp/traffi.cpp
@@ -215,6 +215,11 @@ void Node::generate(){
 void Node::signal_update(){
     // Match Python's signal_control() exactly
     if (signal_intervals.size() > 1){
+        // A phase that does not exist in the current signal plan is reset
+        if (signal_phase < 0 || (size_t)signal_phase >= signal_intervals.size()){
+            signal_phase = 0;
+            signal_t = 0;
+        }
         if (signal_t > signal_intervals[signal_phase]){
             signal_phase++;
             signal_t = 0;
-- 
2.43.0


From 340d305f80e5b533adc2731e37796d434e411ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:20 +0000
Subject: [PATCH 50/99] fix: instantaneous_TT_timestep_interval=0 no longer
 kills the process of a C++ simulation

---
 uxsim/trafficpp/traffi.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uxsim/trafficpp/traffi.cpp b/uxsim/trafficpp/traffi.cpp
index cbfb2d6..afc7d4e 100644
--- a/uxsim/trafficpp/traffi.cpp
+++ b/uxsim/trafficpp/traffi.cpp
@@ -644,7 +644,7 @@ int Link::count_vehicles_in_queue() const {
 
 void Link::set_travel_time(){
     // Interval skipping: only compute fresh at intervals, otherwise copy previous value
-    if (w->timestep % w->instantaneous_TT_timestep_interval != 0){
+    if (w->instantaneous_TT_timestep_interval > 1 && w->timestep % w->instantaneous_TT_timestep_interval != 0){
         if (w->timestep > 0){
             traveltime_instant[w->timestep] = traveltime_instant[w->timestep - 1];
         }
-- 
2.43.0


From 9a598b97060600810f66740a0d44ebfb916cfed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:20 +0000
Subject: [PATCH 51/99] fix: negative or non-finite noise and weights no longer
 violate the requirements of the C++ random distributions

---
 uxsim/trafficpp/utils.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/uxsim/trafficpp/utils.h b/uxsim/trafficpp/utils.h
index 276c387..c986471 100644
--- a/uxsim/trafficpp/utils.h
+++ b/uxsim/trafficpp/utils.h
@@ -8,6 +8,7 @@
 #include <algorithm>
 #include <map>
 #include <cstdint>
+#include <cmath>
 
 using std::vector, std::cout, std::endl;
 
@@ -42,8 +43,9 @@ inline double random_range_float64(
     double min_factor,
     double max_factor,
     std::mt19937 &rng) {
-    std::uniform_real_distribution<double> dist(min_factor, max_factor);
-    return dist(rng);
+    // Same values as uniform_real_distribution(min_factor, max_factor), which is undefined if min_factor > max_factor or they are not finite
+    std::uniform_real_distribution<double> dist(0.0, 1.0);
+    return dist(rng) * (max_factor - min_factor) + min_factor;
 }
 
 /**
@@ -68,7 +70,7 @@ inline T *random_choice(const vector<T *> &items, const vector<double> &weights,
     for (auto w : weights){
         wsum += w;
     }
-    if (wsum <= 0.0){
+    if (!(wsum > 0.0) || !std::isfinite(wsum)){
         // Fallback: pick uniformly
         std::uniform_int_distribution<int> uni(0, (int)items.size() - 1);
         return items[uni(rng)];
-- 
2.43.0


From 41844f5c4beb464bad7101992d50b9c02ce7d153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:07 +0000
Subject: [PATCH 52/99] fix: a node whose signal cycle length is not positive
 raises ValueError instead of hanging its construction

---
 uxsim/uxsim.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index 2e897d1..401ff7b 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -100,6 +100,8 @@ class Node:
         offset = s.cycle_length-s.signal_offset
 
         if s.signal != [0]:
+            if not 0 < s.cycle_length < float("inf"):
+                raise ValueError(f"The signal cycle length of node {name} must be positive and finite.")
             i = 0
             while 1:
                 if offset < s.signal[i]:
-- 
2.43.0


From 4df5e59e4cc63b5fbe11f041b621cbd36754a316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:59 +0000
Subject: [PATCH 53/99] fix: a vehicle reaches the end of its link in the
 Python engine despite rounding errors of its position, as in the C++ engine

---
 uxsim/uxsim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index 401ff7b..9cd1c41 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -1206,7 +1206,7 @@ class Vehicle:
             s.distance_traveled += s.x-s.x_old
 
             #at the end of the link
-            if s.x == s.link.length:
+            if abs(s.x - s.link.length) < 1e-9: #tolerance for rounding errors of the position, same as C++ mode
                 if s.link.end_node in s.node_event.keys():
                     s.node_event[s.link.end_node]()
                 
-- 
2.43.0


From b4ceb04db26d8057b7b57cdbde78a3914ec85c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:26 +0000
Subject: [PATCH 54/99] fix: vehicles of different lanes reaching their
 destination in the same step end their trips in the C++ engine as in the
 Python engine

---
 uxsim/trafficpp/traffi.cpp | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/uxsim/trafficpp/traffi.cpp b/uxsim/trafficpp/traffi.cpp
index afc7d4e..b73173d 100644
--- a/uxsim/trafficpp/traffi.cpp
+++ b/uxsim/trafficpp/traffi.cpp
@@ -29,6 +29,7 @@ using std::cout, std::endl;
 // parallelized per-link, so each thread needs its own snapshot buffer; a single main_loop
 // local would race. Reused across links/timesteps to keep its capacity.
 static thread_local vector<Vehicle *> tls_run_snapshot;
+static thread_local vector<int> tls_run_order;
 
 // -----------------------------------------------------------------------
 // MARK: Node 
@@ -1132,20 +1133,13 @@ void Vehicle::log_data(Vehicle *snap_leader){
         if (state == vsWAIT) log_wait_count++;
         if (state == vsEND || state == vsABORT) log_end_count++;
         if (state == vsRUN){
-            // Leader spacing reproduces the original id-ordered read even though the RUN pass is
-            // per-link front-to-back. snap_leader is the pre-pass queue-position leader: a lower-id
-            // leader was updated before self, so self saw its post-move x (or, if it end_trip()'d,
-            // no leader -> -1); a higher-id leader had not yet moved when self logged in id order,
-            // so self saw its pre-move x (x_old). (Python's record_log reads s.leader.x - s.x.)
+            // snap_leader is the pre-pass queue-position leader. The RUN pass is id-ordered: a lower-id
+            // leader was updated before self, so self sees its post-move x (or, if it end_trip()'d,
+            // no leader -> -1); a higher-id leader has not moved yet, so self sees its pre-move x.
+            // (Python's record_log reads s.leader.x - s.x.)
             double spacing = -1.0;
-            if (snap_leader != nullptr){
-                if (snap_leader->id < id){
-                    if (snap_leader->state != vsEND && snap_leader->state != vsABORT){
-                        spacing = snap_leader->x - x;
-                    }
-                } else {
-                    spacing = snap_leader->x_old - x;
-                }
+            if (snap_leader != nullptr && snap_leader->state != vsEND && snap_leader->state != vsABORT){
+                spacing = snap_leader->x - x;
             }
             log_link.push_back(link ? link->id : -1);
             log_x.push_back(x);
@@ -1842,8 +1836,10 @@ void World::main_loop(double duration_t=-1, double until_t=-1){
             }
         }
 
-        // RUN update pass (per-link): a front-to-back sweep over each link's queue snapshot that
+        // RUN update pass (per-link): an id-ordered sweep over each link's queue snapshot that
         // calls Vehicle::update() (RUN branch: apply x_next, log, handle trip end / transfer).
+        // The order matters where vehicles of different lanes reach the end in the same step: as in
+        // Python, a vehicle ends its trip now only if those ahead were updated (and ended) before it.
         // Parallel per-link: each link touches only its own queue, its own vehicles' state and
         // logs, its own curves/traveltime events/arrived buffers, its own per-link stat sums and
         // RNG stream; the result is independent of thread count. The snapshot is stable while
@@ -1860,7 +1856,16 @@ void World::main_loop(double duration_t=-1, double until_t=-1){
             run_snapshot.assign(lk->vehicles.begin(), lk->vehicles.end());
             int lanes = lk->number_of_lanes;
             int n = (int)run_snapshot.size();
+            vector<int> &run_order = tls_run_order;
+            run_order.resize(n);
             for (int i = 0; i < n; i++){
+                run_order[i] = i;
+            }
+            auto by_id = [&](int a, int b){ return run_snapshot[a]->id < run_snapshot[b]->id; };
+            if (!std::is_sorted(run_order.begin(), run_order.end(), by_id)){
+                std::sort(run_order.begin(), run_order.end(), by_id);
+            }
+            for (int i : run_order){
                 Vehicle *veh = run_snapshot[i];
                 Vehicle *snap_leader = (i - lanes >= 0) ? run_snapshot[i - lanes] : nullptr;
                 veh->update(snap_leader);
-- 
2.43.0


From 37e01f4d220c819e4e3b8bff438da64bea026067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:05 +0000
Subject: [PATCH 55/99] fix: hard_deterministic_mode of the C++ engine breaks
 ties among preferred links as the Python engine

---
 uxsim/trafficpp/traffi.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/uxsim/trafficpp/traffi.cpp b/uxsim/trafficpp/traffi.cpp
index b73173d..f519e78 100644
--- a/uxsim/trafficpp/traffi.cpp
+++ b/uxsim/trafficpp/traffi.cpp
@@ -1009,6 +1009,11 @@ void Vehicle::route_next_link_choice(const vector<Link*>& linkset, std::mt19937
         return;
     }
 
+    // As in Python, links filtered by links_preferred or links_avoid are ordered by name (it matters for ties in hard_deterministic_mode)
+    auto sort_by_name = [](vector<Link*> &lns){
+        std::sort(lns.begin(), lns.end(), [](const Link *a, const Link *b){ return a->name < b->name; });
+    };
+
     // Filter by links_preferred (intersection with linkset)
     _buf_outlinks.clear();
     _buf_outlinks.insert(_buf_outlinks.end(), linkset.begin(), linkset.end());
@@ -1022,6 +1027,7 @@ void Vehicle::route_next_link_choice(const vector<Link*>& linkset, std::mt19937
         }
         if (!_buf_filtered.empty()){
             outlinks.swap(_buf_filtered);
+            sort_by_name(outlinks);
         }
     }
 
@@ -1036,6 +1042,7 @@ void Vehicle::route_next_link_choice(const vector<Link*>& linkset, std::mt19937
         }
         if (_buf_filtered.size() != outlinks.size()){
             outlinks.swap(_buf_filtered);
+            sort_by_name(outlinks);
         }
         if (outlinks.empty()){
             throw std::invalid_argument("Vehicle " + name + ": links_avoid excludes all outgoing links of the current node");
-- 
2.43.0


From b7c4062a4abc6f3257458e7f9e9c30ffba572ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:32 +0000
Subject: [PATCH 56/99] fix: Link.vehicles of the C++ engine returns the
 vehicles on the link instead of always being empty

---
 uxsim/trafficpp/bindings.cpp | 7 +++++++
 uxsim/uxsim_cpp_wrapper.py   | 7 ++++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/uxsim/trafficpp/bindings.cpp b/uxsim/trafficpp/bindings.cpp
index 133948f..863b3e8 100644
--- a/uxsim/trafficpp/bindings.cpp
+++ b/uxsim/trafficpp/bindings.cpp
@@ -804,6 +804,13 @@ NB_MODULE(uxsim_cpp, m) {
         .def("change_free_flow_speed", &Link::change_free_flow_speed, nb::arg("new_value"))
         .def("change_jam_density", &Link::change_jam_density, nb::arg("new_value"))
         .def("count_vehicles_in_queue", &Link::count_vehicles_in_queue)
+        .def_prop_ro("vehicle_ids", [](const Link &l) {
+                 vector<int> ids;
+                 ids.reserve(l.vehicles.size());
+                 for (auto *v : l.vehicles) ids.push_back(v->id);
+                 return ids;
+             },
+             "Ids of the vehicles on this link, from the downstream end")
         .def_prop_ro("vehicle_count", [](const Link &l) -> size_t {
                  return l.vehicles.size();
              },
diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index 79e4e42..6f2d925 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -283,7 +283,6 @@ class CppLink:
         self._capacity_in_remain = cpp.capacity_in_remain
 
         # Containers for analyzer compatibility
-        self.vehicles = deque()
         self.vehicles_enter_log = {}
         self._traveltime_actual = []
         self._congestion_pricing = congestion_pricing
@@ -428,6 +427,12 @@ class CppLink:
     def num_vehicles_queue(self):
         return self._cpp_link.count_vehicles_in_queue() * self.W.DELTAN
 
+    @property
+    def vehicles(self):
+        """The vehicles currently on this link, from the downstream end."""
+        veh_by_index = self.W._veh_by_index
+        return deque(veh_by_index[i] for i in self._cpp_link.vehicle_ids)
+
     def arrival_count(self, t):
         if len(self.cum_arrival) == 0:
             return 0
-- 
2.43.0


From 49938f00403c848c2090d48da79aeac7fd29b557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:32 +0000
Subject: [PATCH 57/99] fix: leader, follower and route_next_link of a C++
 engine vehicle are the objects of its world instead of raw engine objects

---
 uxsim/uxsim_cpp_wrapper.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index 6f2d925..16cf0f6 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -627,6 +627,25 @@ class CppVehicle:
                 return links[link_id]
         return None
 
+    def _to_wrapper(self, cpp_veh):
+        return self.W._veh_by_index[cpp_veh.id] if cpp_veh is not None else None
+
+    @property
+    def leader(self):
+        return self._to_wrapper(self._cpp_vehicle.leader)
+
+    @property
+    def follower(self):
+        return self._to_wrapper(self._cpp_vehicle.follower)
+
+    @property
+    def route_next_link(self):
+        cpp_link = self._cpp_vehicle.route_next_link
+        return self.W.LINKS[cpp_link.id] if cpp_link is not None else None
+    @route_next_link.setter
+    def route_next_link(self, value):
+        self._cpp_vehicle.route_next_link = self.W.get_link(value)._cpp_link if value is not None else None
+
     @property
     def trip_abort(self):
         return self._cpp_vehicle.trip_abort
-- 
2.43.0


From 8c5fd7c8a4ed6053e8cb3f0d8ef0373d2e5d37d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:32 +0000
Subject: [PATCH 58/99] fix: links_prefer and links_avoid given to addVehicle
 are readable from the vehicle in the C++ engine

---
 uxsim/uxsim_cpp_wrapper.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index 16cf0f6..bf6b09a 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -1089,6 +1089,8 @@ class CppWorld:
             veh.name = name
             self.VEHICLES[name] = veh
             self.VEHICLES_LIVING[name] = veh
+        veh.links_prefer = [self.get_link(l) for l in links_prefer]
+        veh.links_avoid = [self.get_link(l) for l in links_avoid]
         veh.trip_abort = kwargs.get('trip_abort', 1)
         veh.attribute = kwargs.get('attribute')
         veh.user_attribute = kwargs.get('user_attribute')
-- 
2.43.0


From 9fe030b813af7a1043dbb28c21818b41068b830b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:32 +0000
Subject: [PATCH 59/99] fix: the departure time in the route log of a vehicle
 is no longer truncated to whole seconds

---
 uxsim/uxsim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index 9cd1c41..d31aba6 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -1147,7 +1147,7 @@ class Vehicle:
         s.log_lane = [] #車線
         s.color = (s.W.rng.random(), s.W.rng.random(), s.W.rng.random())
 
-        s.log_t_link : list[tuple[int,str|Link]] = [[int(s.departure_time*s.W.DELTAT), "home"]] #route-level log. It records the time and link when the vehicle entered new link. The typehint is technically incorrect; it is actually not tuple, but list
+        s.log_t_link : list[tuple[int,str|Link]] = [[s.departure_time_in_second, "home"]] #route-level log. It records the time and link when the vehicle entered new link. The typehint is technically incorrect; it is actually not tuple, but list
         s.link_old = None
         
         s.distance_traveled = 0
-- 
2.43.0


From eeb9420b3a836582a70b2da6c594968586ca025a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:19 +0000
Subject: [PATCH 60/99] fix: enforce_route of the C++ engine sets links_prefer
 and, with set_avoid, links_avoid as the Python engine

---
 uxsim/uxsim_cpp_wrapper.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index bf6b09a..41f67a3 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -777,6 +777,9 @@ class CppVehicle:
         # Always resolve links by name in current World to avoid cross-world pointer bugs
         py_links = [self.W.get_link(l) for l in route]
         self.specified_route = py_links
+        self.links_prefer = list(py_links)
+        if set_avoid:
+            self.set_links_avoid([l for l in self.W.LINKS if l not in py_links])
         # Forward to C++ with raw C++ Link objects from current World
         try:
             cpp_links = [l._cpp_link for l in py_links]
-- 
2.43.0


From 4aceea90b3adce646dd295cb4efcc5e657e1a24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:30 +0000
Subject: [PATCH 61/99] fix: departure_time and arrival_time of a C++ engine
 vehicle are no longer one timestep early due to rounding errors

---
 uxsim/uxsim_cpp_wrapper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index 41f67a3..6f3006f 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -586,7 +586,7 @@ class CppVehicle:
 
     @property
     def departure_time(self):
-        return int(self._cpp_vehicle.departure_time / self.W.DELTAT)
+        return int(self._cpp_vehicle.departure_time / self.W.DELTAT + 1e-6) #tolerance for rounding errors
 
     @property
     def departure_time_in_second(self):
@@ -599,7 +599,7 @@ class CppVehicle:
         if at >= 0:
             if self.state == "abort":
                 return -1
-            return int(at / self.W.DELTAT)
+            return int(at / self.W.DELTAT + 1e-6) #tolerance for rounding errors
         return -1
 
     @property
-- 
2.43.0


From 6a4fa796b084718548735928afbcb2af7a80e232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:44 +0000
Subject: [PATCH 62/99] fix: k-shortest routes use the best one of parallel
 links instead of containing all of them

---
 uxsim/Utilities/Utilities.py | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/uxsim/Utilities/Utilities.py b/uxsim/Utilities/Utilities.py
index 2005829..5746b28 100644
--- a/uxsim/Utilities/Utilities.py
+++ b/uxsim/Utilities/Utilities.py
@@ -2,6 +2,7 @@
 Submodule for general utilities.
 This contains functions that are not essential for simulation but useful to specific analysis.
 """
+import itertools
 import networkx as nx
 import numpy as np
 from scipy.sparse import csr_matrix
@@ -81,17 +82,16 @@ def enumerate_k_shortest_routes(W, source, target, k=1, cost_function=lambda l:
     """
     G = nx.DiGraph()
     for l in W.LINKS:
-        G.add_edge(l.start_node.name, l.end_node.name, weight=cost_function(l))
+        cost = cost_function(l)
+        u, v = l.start_node.name, l.end_node.name
+        if not G.has_edge(u, v) or cost < G[u][v]['weight']: #the best one of parallel links
+            G.add_edge(u, v, weight=cost, link=l.name)
 
-    k_shortest_paths = list(nx.shortest_simple_paths(G, W.get_node(source).name, W.get_node(target).name, weight='weight'))[:k]
+    k_shortest_paths = list(itertools.islice(nx.shortest_simple_paths(G, W.get_node(source).name, W.get_node(target).name, weight='weight'), k))
     routes = []
     costs = []
     for path in k_shortest_paths:
-        route = []
-        for n in path[:-1]:
-            for l in W.LINKS:
-                if l.start_node.name == n and l.end_node.name == path[path.index(n)+1]:
-                    route.append(l.name)
+        route = [G[u][v]['link'] for u, v in zip(path[:-1], path[1:])]
 
         path_weight = sum([G[u][v]['weight'] for u, v in zip(path[:-1], path[1:])])
         if print_stats:
@@ -138,17 +138,16 @@ def enumerate_k_shortest_routes_on_t(W, source, target, t, k=1, cost_function=la
     """
     G = nx.DiGraph()
     for l in W.LINKS:
-        G.add_edge(l.start_node.name, l.end_node.name, weight=cost_function(l, t))
+        cost = cost_function(l, t)
+        u, v = l.start_node.name, l.end_node.name
+        if not G.has_edge(u, v) or cost < G[u][v]['weight']: #the best one of parallel links
+            G.add_edge(u, v, weight=cost, link=l.name)
 
-    k_shortest_paths = list(nx.shortest_simple_paths(G, W.get_node(source).name, W.get_node(target).name, weight='weight'))[:k]
+    k_shortest_paths = list(itertools.islice(nx.shortest_simple_paths(G, W.get_node(source).name, W.get_node(target).name, weight='weight'), k))
     routes = []
     costs = []
     for path in k_shortest_paths:
-        route = []
-        for n in path[:-1]:
-            for l in W.LINKS:
-                if l.start_node.name == n and l.end_node.name == path[path.index(n)+1]:
-                    route.append(l.name)
+        route = [G[u][v]['link'] for u, v in zip(path[:-1], path[1:])]
 
         path_weight = sum([G[u][v]['weight'] for u, v in zip(path[:-1], path[1:])])
         if print_stats:
-- 
2.43.0


From 31a981e31a8cdad36062830dc68bfe76c7a837a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:44 +0000
Subject: [PATCH 63/99] fix: shortest travel times at a past time are found for
 any update interval and return their time instead of an index

---
 uxsim/Utilities/Utilities.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/uxsim/Utilities/Utilities.py b/uxsim/Utilities/Utilities.py
index 5746b28..06d291b 100644
--- a/uxsim/Utilities/Utilities.py
+++ b/uxsim/Utilities/Utilities.py
@@ -315,8 +315,8 @@ def get_shortest_path_instantaneous_travel_time_between_all_nodes_on_t(W, t, ret
     """
     if t >= W.TMAX:
         t = W.TMAX-W.DELTAT
-    duo_t = t//W.DUO_UPDATE_TIME
-    duo_timestep = int(duo_t*W.DUO_UPDATE_TIME/W.DELTAT)
+    duo_timestep = int(t/W.DELTAT)//W.DELTAT_ROUTE*W.DELTAT_ROUTE #the timestep of the last route choice update before t
+    duo_t = duo_timestep*W.DELTAT
 
     distances = W.ROUTECHOICE.dist_record[duo_timestep]
 
-- 
2.43.0


From 93112165c5c9589003ce0e35167cc83402ddcbe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:44 +0000
Subject: [PATCH 64/99] fix: construct_time_space_network works with timesteps
 shorter than one second

---
 uxsim/Utilities/Utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uxsim/Utilities/Utilities.py b/uxsim/Utilities/Utilities.py
index 06d291b..0e21604 100644
--- a/uxsim/Utilities/Utilities.py
+++ b/uxsim/Utilities/Utilities.py
@@ -355,7 +355,7 @@ def construct_time_space_network(W, dt=None, from_origin_only=True):
         Not efficient for large networks.
     """
     if dt == None:
-        dt = int(W.DELTAT)
+        dt = max(1, int(W.DELTAT))
     tmax = int(W.TMAX)
     coef_t_to_xy = 1/10000  #for visualization
 
-- 
2.43.0


From 5c6f370c47df113af31927de270c59174cf4be72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:44 +0000
Subject: [PATCH 65/99] fix: random routes use the fastest one of parallel
 links, so that the shortest free-flow route is always included

---
 uxsim/Utilities/Utilities.py | 12 +++++++++---
 uxsim/trafficpp/traffi.cpp   |  8 ++++++--
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/uxsim/Utilities/Utilities.py b/uxsim/Utilities/Utilities.py
index 0e21604..86dcb66 100644
--- a/uxsim/Utilities/Utilities.py
+++ b/uxsim/Utilities/Utilities.py
@@ -185,13 +185,20 @@ def enumerate_k_random_routes(W, k) -> DefaultDict[tuple[str], list[str]]:
             dict_routes[key] = [list(r) for r in routes]
         return dict_routes
 
+    #the fastest one of parallel links
+    links = {}
+    for l in W.LINKS:
+        key = l.start_node.name, l.end_node.name
+        if key not in links or l.length/l.u < links[key].length/links[key].u:
+            links[key] = l
+
     dict_routes = defaultdict(list)
     counter = 0
     iteration = 0
     average_n_routes_old = 0
     while 1:
         G = nx.DiGraph()
-        for l in W.LINKS:
+        for l in links.values():
             if iteration == 0:
                 G.add_edge(l.start_node.name, l.end_node.name, weight=l.length/l.u)
             else:
@@ -203,8 +210,7 @@ def enumerate_k_random_routes(W, k) -> DefaultDict[tuple[str], list[str]]:
                 if len(dict_routes[source, dest]) < k:
                     path = []
                     for i in range(0,len(paths[source][dest])-1):
-                        l = W.NODE_PAIR_LINKS[paths[source][dest][i], paths[source][dest][i+1]]
-                        #print(W.NODE_PAIR_LINKS[paths[source][dest][i], paths[source][dest][i+1]], end="")
+                        l = links[paths[source][dest][i], paths[source][dest][i+1]]
                         path.append(l.name)
                     if path not in dict_routes[source, dest]:
                         dict_routes[source, dest].append(path)
diff --git a/uxsim/trafficpp/traffi.cpp b/uxsim/trafficpp/traffi.cpp
index f519e78..5fb38b9 100644
--- a/uxsim/trafficpp/traffi.cpp
+++ b/uxsim/trafficpp/traffi.cpp
@@ -1477,10 +1477,13 @@ map<pair<int,int>, vector<vector<int>>>
 World::enumerate_k_random_routes_cpp(int k, unsigned int seed){
     int nsize = node_id;
 
-    // Build node_pair → link_id lookup (last link wins for multi-link pairs, matching Python)
+    // Build node_pair → link_id lookup (the fastest link of multi-link pairs, matching Python)
     vector<vector<int>> node_pair_link(nsize, vector<int>(nsize, -1));
     for (auto ln : links){
-        node_pair_link[ln->start_node->id][ln->end_node->id] = ln->id;
+        int &lid = node_pair_link[ln->start_node->id][ln->end_node->id];
+        if (lid == -1 || ln->length / ln->vmax < links[lid]->length / links[lid]->vmax){
+            lid = ln->id;
+        }
     }
 
     map<pair<int,int>, vector<vector<int>>> dict_routes;
@@ -1500,6 +1503,7 @@ World::enumerate_k_random_routes_cpp(int k, unsigned int seed){
         for (auto ln : links){
             int i = ln->start_node->id;
             int j = ln->end_node->id;
+            if (node_pair_link[i][j] != ln->id) continue;
             double base_weight = ln->length / ln->vmax;
             if (iteration == 0){
                 adj[i][j] = base_weight;
-- 
2.43.0


From 45751da13e5d00a08328da97db811d9b99712e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:52 +0000
Subject: [PATCH 66/99] fix: the time-space network uses the fastest one of
 parallel links whose arrivals fall into the same interval

---
 uxsim/Utilities/Utilities.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/uxsim/Utilities/Utilities.py b/uxsim/Utilities/Utilities.py
index 86dcb66..0d3819d 100644
--- a/uxsim/Utilities/Utilities.py
+++ b/uxsim/Utilities/Utilities.py
@@ -379,7 +379,8 @@ def construct_time_space_network(W, dt=None, from_origin_only=True):
                     u = (node.name, t)
                     v = (link.end_node.name, t_arrival)
                     if G.has_node(u) and G.has_node(v):
-                        G.add_edge(u, v, weight=travel_time)
+                        if not G.has_edge(u, v) or travel_time < G[u][v]["weight"]: #the best one of parallel links
+                            G.add_edge(u, v, weight=travel_time)
                     else:
                         print(u,v)
 
-- 
2.43.0


From dfc2b82a7daa72f890a800c3841ffb7c0c0db13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:33 +0000
Subject: [PATCH 67/99] fix: construct_time_space_network no longer raises if
 the simulation duration is not a multiple of the timestep

---
 uxsim/Utilities/Utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uxsim/Utilities/Utilities.py b/uxsim/Utilities/Utilities.py
index 0d3819d..574b60d 100644
--- a/uxsim/Utilities/Utilities.py
+++ b/uxsim/Utilities/Utilities.py
@@ -373,7 +373,7 @@ def construct_time_space_network(W, dt=None, from_origin_only=True):
     for t in range(0, tmax, dt):
         for node in W.NODES:
             for link in node.outlinks.values():
-                travel_time = link.traveltime_actual[int(t/W.DELTAT)]
+                travel_time = link.traveltime_actual[min(int(t/W.DELTAT), len(link.traveltime_actual)-1)]
                 t_arrival = int((t + travel_time)/dt)*dt
                 if t_arrival < W.TMAX:
                     u = (node.name, t)
-- 
2.43.0


From 9d61b954e928e17c27de226a5cf8228f70026829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:44 +0000
Subject: [PATCH 68/99] fix: a custom vehicle name equal to the default name of
 a later vehicle no longer drops a vehicle from VEHICLES in the C++ engine

---
 uxsim/uxsim_cpp_wrapper.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index 6f3006f..e64b4aa 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -1332,6 +1332,8 @@ class CppWorld:
             i = start_idx + j
             cpp_veh = get_veh(i)
             name = cpp_veh.name
+            while name in vehicles: #already given to another vehicle by the user
+                name = name + "_renamed"
             py_veh = CppVehicle.__new__(CppVehicle)
             py_veh.W = self
             py_veh.name = name
-- 
2.43.0


From 0b387d40d3555894daab0379efed1a6f36e80f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:55 +0000
Subject: [PATCH 69/99] fix: unspecified link capacities are not saved as
 specified ones in scenario files, which changed the initial inflow

---
 uxsim/scenario_reader_writer.py | 4 ++++
 uxsim/uxsim.py                  | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/uxsim/scenario_reader_writer.py b/uxsim/scenario_reader_writer.py
index e883d4a..5ec4b64 100644
--- a/uxsim/scenario_reader_writer.py
+++ b/uxsim/scenario_reader_writer.py
@@ -84,6 +84,10 @@ def instance_to_arg_dict(instance):
       
         if value == param.default:
             continue
+
+        # capacities that were determined automatically are not parameters
+        if param_name in ("capacity_in", "capacity_out") and value == instance_vars.get(param_name+"_default"):
+            continue
         
         args[param_name] = value
         for param in list(args):
diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index d31aba6..c755909 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -577,6 +577,7 @@ class Link:
         s.capacity_out = capacity_out
         if capacity_out == None:
             s.capacity_out = s.capacity*2
+            s.capacity_out_default = s.capacity_out
             #todo_later: capacity_outは微妙にバグがあるらしい（多分離散化誤差）．少なくとも未設定時にはバグが顕在化しないように2倍にしている
         s.capacity_out_remain = s.capacity_out*s.W.DELTAT
 
@@ -584,6 +585,7 @@ class Link:
         s.capacity_in = capacity_in
         if capacity_in == None:
             s.capacity_in = s.capacity*2
+            s.capacity_in_default = s.capacity_in
             s.capacity_in_remain = s.capacity*2
         else:
             s.capacity_in_remain = s.capacity_in*s.W.DELTAT
-- 
2.43.0


From f471789add1a3426e8102bce8f362f01b5f42544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:55 +0000
Subject: [PATCH 70/99] fix: a scenario with numpy arrays as attributes can be
 saved

---
 uxsim/scenario_reader_writer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/uxsim/scenario_reader_writer.py b/uxsim/scenario_reader_writer.py
index 5ec4b64..360ae33 100644
--- a/uxsim/scenario_reader_writer.py
+++ b/uxsim/scenario_reader_writer.py
@@ -82,7 +82,9 @@ def instance_to_arg_dict(instance):
         
         value = instance_vars.get(param_name, param.default)
       
-        if value == param.default:
+        if value is param.default:
+            continue
+        if param.default is not None and value == param.default:
             continue
 
         # capacities that were determined automatically are not parameters
-- 
2.43.0


From c484d958471886317cb5752acbb814216aaddda9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:55 +0000
Subject: [PATCH 71/99] fix: demands of different types in a scenario file are
 loaded in the order of their definition

---
 uxsim/scenario_reader_writer.py | 43 +++++++++------------------------
 1 file changed, 11 insertions(+), 32 deletions(-)

diff --git a/uxsim/scenario_reader_writer.py b/uxsim/scenario_reader_writer.py
index 360ae33..630c2dc 100644
--- a/uxsim/scenario_reader_writer.py
+++ b/uxsim/scenario_reader_writer.py
@@ -33,6 +33,7 @@ def demand_info_record(func):
             
             # 関数名と引数をdict_func_argsに格納
             self.demand_info[func_name].append(arg_dict_to_save)
+            self.demand_info["demand_order"].append(func_name)
         
         # 元の関数を呼び出す
         return func(self, *args, **kwargs)
@@ -201,35 +202,13 @@ def load_scenario(W, fname, network=True, demand=True):
         W.print(" Number of loaded links:", len(dat["Links"]))
     
     if demand:
-        for demand_type in dat:
-            if demand_type == 'adddemand':
-                for dem in dat[demand_type]:
-                    W.adddemand(**dem)
-                W.print(f" Number of loaded `{demand_type}`s:", len( dat[demand_type]))
-            elif demand_type == 'adddemand_point2point':
-                for dem in dat[demand_type]:
-                    W.adddemand_point2point(**dem)
-                W.print(f" Number of loaded `{demand_type}`s:", len( dat[demand_type]))
-            elif demand_type == 'adddemand_area2area':
-                for dem in dat[demand_type]:
-                    W.adddemand_area2area(**dem)
-                W.print(f" Number of loaded `{demand_type}`s:", len( dat[demand_type]))
-            elif demand_type == 'adddemand_nodes2nodes':
-                for dem in dat[demand_type]:
-                    W.adddemand_nodes2nodes(**dem)
-                W.print(f" Number of loaded `{demand_type}`s:", len( dat[demand_type]))
-            elif demand_type == 'adddemand_area2area2':
-                for dem in dat[demand_type]:
-                    W.adddemand_area2area2(**dem)
-                W.print(f" Number of loaded `{demand_type}`s:", len( dat[demand_type]))
-            elif demand_type == 'adddemand_nodes2nodes2':
-                for dem in dat[demand_type]:
-                    W.adddemand_nodes2nodes2(**dem)
-                W.print(f" Number of loaded `{demand_type}`s:", len( dat[demand_type]))
-            else:
-                pass
-        
-
-
-
-
+        demand_types = [demand_type for demand_type in dat if demand_type in ("adddemand", "adddemand_point2point", "adddemand_area2area", "adddemand_nodes2nodes", "adddemand_area2area2", "adddemand_nodes2nodes2")]
+        demands = {demand_type: iter(dat[demand_type]) for demand_type in demand_types}
+        # the demands are added in the order of their definition if it is recorded in the file
+        demand_order = dat.get("demand_order")
+        if demand_order is None:
+            demand_order = [demand_type for demand_type in demand_types for _ in dat[demand_type]]
+        for demand_type in demand_order:
+            getattr(W, demand_type)(**next(demands[demand_type]))
+        for demand_type in demand_types:
+            W.print(f" Number of loaded `{demand_type}`s:", len( dat[demand_type]))
-- 
2.43.0


From ef13352efeef8c2f9dd93353cefdae53df6490cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:38 +0000
Subject: [PATCH 72/99] fix: a loop link no longer deletes its node in
 osm_network_postprocessing while other links still refer to the node

---
 uxsim/OSMImporter/OSMImporter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/uxsim/OSMImporter/OSMImporter.py b/uxsim/OSMImporter/OSMImporter.py
index 2a76564..811b094 100644
--- a/uxsim/OSMImporter/OSMImporter.py
+++ b/uxsim/OSMImporter/OSMImporter.py
@@ -218,6 +218,8 @@ class OSMImporter:
             number_of_deleted_links = 0
             for link in links:
                 start_node, end_node = link[1], link[2]
+                if start_node == end_node: #a loop does not merge nodes
+                    continue
                 start_pos = node_positions[start_node]
                 end_pos = node_positions[end_node]
                 link_length = distance(start_pos, end_pos)
-- 
2.43.0


From cba47d21e73de0f0aa26f9e982a2ec067a1cf6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:38 +0000
Subject: [PATCH 73/99] fix: default lanes and speed of motorways are used in
 OSMImporter

---
 uxsim/OSMImporter/OSMImporter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/uxsim/OSMImporter/OSMImporter.py b/uxsim/OSMImporter/OSMImporter.py
index 811b094..39b4c01 100644
--- a/uxsim/OSMImporter/OSMImporter.py
+++ b/uxsim/OSMImporter/OSMImporter.py
@@ -125,7 +125,7 @@ class OSMImporter:
                     lanes = int(ed["lanes"])
                 except:
                     try:
-                        if "mortorway" in road_type:
+                        if "motorway" in road_type:
                             lanes = default_number_of_lanes_mortorway
                         elif "trunk" in road_type:
                             lanes = default_number_of_lanes_trunk
@@ -147,7 +147,7 @@ class OSMImporter:
                     maxspeed = float(ed["maxspeed"])/3.6
                 except:
                     try:
-                        if "mortorway" in road_type:
+                        if "motorway" in road_type:
                             maxspeed = default_maxspeed_mortorway/3.6
                         elif "trunk" in road_type:
                             maxspeed = default_maxspeed_trunk/3.6
-- 
2.43.0


From 7fca131a658c560dc80be718469749e03f336394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:38 +0000
Subject: [PATCH 74/99] fix: parallel roads are imported with their own
 attributes in OSMImporter

---
 uxsim/OSMImporter/OSMImporter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uxsim/OSMImporter/OSMImporter.py b/uxsim/OSMImporter/OSMImporter.py
index 39b4c01..5abf68d 100644
--- a/uxsim/OSMImporter/OSMImporter.py
+++ b/uxsim/OSMImporter/OSMImporter.py
@@ -106,7 +106,7 @@ class OSMImporter:
         links = []
         nodes = {}
         for e in G.edges:
-            ed = G.get_edge_data(e[0], e[1])[0]
+            ed = G.edges[e]
             
             if "highway" in ed:
                 road_type = ed["highway"]
-- 
2.43.0


From 900349c05a84bdcd0c1b9ade7c6b44ce119bdba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:38 +0000
Subject: [PATCH 75/99] fix: the road type of an unclassified link is estimated
 from the links downstream too in OSMImporter2

---
 uxsim/OSMImporter2/OSMImporter2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uxsim/OSMImporter2/OSMImporter2.py b/uxsim/OSMImporter2/OSMImporter2.py
index 383469b..487d4ed 100644
--- a/uxsim/OSMImporter2/OSMImporter2.py
+++ b/uxsim/OSMImporter2/OSMImporter2.py
@@ -245,7 +245,7 @@ def _attach_osm_nodes_links(W, nodes, links, set_node_capacity, override_osm_att
                 #estimate the type from connected links
                 from_node = links.at[i, "from_node"]
                 links_upstream = links[links["to_node"] == from_node]
-                to_node = links.at[i, "from_node"]
+                to_node = links.at[i, "to_node"]
                 links_downstream = links[links["from_node"] == to_node]
                 
                 links_connected = list(links_upstream["highway"])+list(links_downstream["highway"])
-- 
2.43.0


From b446d5cf9768b9b375241eeb31d8f7b089490e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:55 +0000
Subject: [PATCH 76/99] fix: a taxi trip request from a node to the same node
 is completed instead of losing its passenger

---
 uxsim/TaxiHandler/TaxiHandler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/uxsim/TaxiHandler/TaxiHandler.py b/uxsim/TaxiHandler/TaxiHandler.py
index 5581da6..f13a6e8 100644
--- a/uxsim/TaxiHandler/TaxiHandler.py
+++ b/uxsim/TaxiHandler/TaxiHandler.py
@@ -51,12 +51,12 @@ class TripRequest:
         The event of getting on a taxi. This is called via `Vehicle.event_node`.
         """
         #print(f"{s.W.TIME}: {s} is getting on a taxi {s.taxi}")        
+        del s.taxi.node_event[s.orig]
+
         s.taxi.add_dest(s.dest)
         s.taxi.node_event[s.dest] = s.arrive_at_dest
 
         s.get_taxi_time = s.W.TIME
-        
-        del s.taxi.node_event[s.orig]
     
     def arrive_at_dest(s):
         """
-- 
2.43.0


From c57235d49bdd076fc61e90c9de2d956f6e6996e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:55 +0000
Subject: [PATCH 77/99] fix: default names of taxi trip requests are unique
 also if requests are added after others were assigned

---
 uxsim/TaxiHandler/TaxiHandler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uxsim/TaxiHandler/TaxiHandler.py b/uxsim/TaxiHandler/TaxiHandler.py
index f13a6e8..9fd885e 100644
--- a/uxsim/TaxiHandler/TaxiHandler.py
+++ b/uxsim/TaxiHandler/TaxiHandler.py
@@ -103,7 +103,7 @@ class TaxiHandler:
             An optional attribute of the trip request. This can be used to store any information by users' need.
         """
         if name == None:
-            name = len(s.trip_requests)
+            name = len(s.trip_requests_all)
         s.trip_requests.append(TripRequest(s.W, s, orig, dest, depart_time, name, attribute=attribute))
         s.trip_requests_all.append(s.trip_requests[-1])
     
-- 
2.43.0


From 41e0487fcdfeb2db24a0a341cc75b9e08d373f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:55 +0000
Subject: [PATCH 78/99] fix: the first destination of a vacant taxi can be
 given by its name in Vehicle.add_dest

---
 uxsim/uxsim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index c755909..c5694ea 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -1415,7 +1415,7 @@ class Vehicle:
         """
         if s.mode == "taxi":
             if s.dest == None:
-                s.dest = dest
+                s.dest = s.W.get_node(dest)
                 s.route_pref_update(weight=1)
             else:
                 if order == -1:
-- 
2.43.0


From 806631aad4159ef0c3b35c037b6698f1dae58497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:55 +0000
Subject: [PATCH 79/99] fix: World.TIME is the time of the current step within
 a step too, so that recorded taxi times do not depend on how the run is
 divided

---
 uxsim/uxsim.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index c5694ea..e32d121 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -2489,6 +2489,7 @@ class World:
         #print("preping:", W.T, start_ts, end_ts, W.check_simulation_ongoing())
         for W.T in range(start_ts, end_ts+1):
             #print("execing:", W.T, start_ts, end_ts, W.check_simulation_ongoing())
+            W.TIME = W.T*W.DELTAT
             if W.T == 0:
                 W.print("      time| # of vehicles| ave speed| computation time", flush=True)
                 W.analyzer.show_simulation_progress()
-- 
2.43.0


From e31fe97db78405080d6f33a736beb118f4c3ffd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:30 +0000
Subject: [PATCH 80/99] fix: a taxi with the same node as two consecutive
 destinations no longer fails or moves to a link that is not connected

---
 uxsim/uxsim.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index e32d121..afe720f 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -1229,8 +1229,9 @@ class Vehicle:
                             s.dest = None
                             s.dest_list = []
                         s.route_pref_update(weight=1)
-                        s.route_next_link_choice()
-                        s.link.end_node.incoming_vehicles.append(s)
+                        if s.dest != s.link.end_node: #if the next destination is the same node, it is visited in the next step
+                            s.route_next_link_choice()
+                            s.link.end_node.incoming_vehicles.append(s)
 
                 elif len(s.link.end_node.outlinks.values()) == 0 and s.trip_abort == 1:
                     #prepare for trip abort due to dead end
-- 
2.43.0


From 63ea62e426979f5c7964a398a05cc8e8f3919c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:06 +0000
Subject: [PATCH 81/99] fix: time gap in DTA solvers is the gap between the
 chosen route and the minimum cost route, not a route that happens to be
 compared last

---
 uxsim/DTAsolvers/DTAsolvers.py | 6 ++++--
 uxsim/trafficpp/dta_solver.cpp | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/uxsim/DTAsolvers/DTAsolvers.py b/uxsim/DTAsolvers/DTAsolvers.py
index 69924ff..af81f3f 100644
--- a/uxsim/DTAsolvers/DTAsolvers.py
+++ b/uxsim/DTAsolvers/DTAsolvers.py
@@ -219,13 +219,14 @@ class SolverDUE:
 
                 cost_current = r.actual_travel_time(ts[0]) + sum([l.get_toll(ts[i]) for i,l in enumerate(r)])
 
+                cost_chosen = cost_current
                 potential_n_swap_updated = potential_n_swap
                 for alt_route in route_set[o,d]:
                     alt_route_tts = alt_route.actual_travel_time(ts[0], return_details=True)[1]
                     cost_alt = alt_route.actual_travel_time(ts[0]) + sum([l.get_toll(ts[0]+sum(alt_route_tts[:i])) for i,l in enumerate(alt_route)])
                     if cost_alt < cost_current:
                         if flag_route_changed == False or (cost_alt < cost_current):
-                            t_gap = cost_current - cost_alt
+                            t_gap = max(t_gap, cost_chosen - cost_alt)
                             potential_n_swap_updated = potential_n_swap + W.DELTAN
                             if flag_swap:
                                 flag_route_changed = True
@@ -583,6 +584,7 @@ class SolverDSO_D2D:
                 private_cost = r.actual_travel_time(ts[0])
                 cost_current = private_cost+ext
 
+                cost_chosen = cost_current
                 potential_n_swap_updated = potential_n_swap
 
                 for alt_route in route_set[o,d]:
@@ -592,7 +594,7 @@ class SolverDSO_D2D:
 
                     if cost_alt < cost_current:
                         if flag_route_changed == False or (cost_alt < cost_current):
-                            t_gap = cost_current - cost_alt
+                            t_gap = max(t_gap, cost_chosen - cost_alt)
                             potential_n_swap_updated = potential_n_swap + W.DELTAN
                             if flag_swap:
                                 flag_route_changed = True
diff --git a/uxsim/trafficpp/dta_solver.cpp b/uxsim/trafficpp/dta_solver.cpp
index e75e598..f421a79 100644
--- a/uxsim/trafficpp/dta_solver.cpp
+++ b/uxsim/trafficpp/dta_solver.cpp
@@ -214,13 +214,14 @@ RouteSwapResult dta_route_swap_due(
         bool flag_route_changed = false;
         int route_changed_idx = -1;
         double t_gap = 0.0;
+        const double cost_chosen = cost_current;
         double potential_n_swap_delta = 0.0;
 
         for (size_t ri = 0; ri < route_set.size(); ri++){
             double cost_alt = dta_compute_route_cost_due(w, route_set[ri], departure_t);
             if (cost_alt < cost_current){
                 if (!flag_route_changed || cost_alt < cost_current){
-                    t_gap = cost_current - cost_alt;
+                    t_gap = std::max(t_gap, cost_chosen - cost_alt);
                     potential_n_swap_delta = w->delta_n;
                     if (flag_swap){
                         flag_route_changed = true;
@@ -341,13 +342,14 @@ RouteSwapResult dta_route_swap_dso(
         bool flag_route_changed = false;
         int route_changed_idx = -1;
         double t_gap = 0.0;
+        const double cost_chosen = cost_current;
         double potential_n_swap_delta = 0.0;
 
         for (size_t ri = 0; ri < route_set.size(); ri++){
             double cost_alt = dta_compute_route_cost_dso(w, route_set[ri], departure_t);
             if (cost_alt < cost_current){
                 if (!flag_route_changed || cost_alt < cost_current){
-                    t_gap = cost_current - cost_alt;
+                    t_gap = std::max(t_gap, cost_chosen - cost_alt);
                     potential_n_swap_delta = w->delta_n;
                     if (flag_swap){
                         flag_route_changed = true;
-- 
2.43.0


From 0ff828ccf7d0d269bd70a033562c936c495a78fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:06 +0000
Subject: [PATCH 82/99] fix: the solution of SolverDSO_GA is the best
 individual, not the one that happens to be simulated last

---
 uxsim/DTAsolvers/DTAsolvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uxsim/DTAsolvers/DTAsolvers.py b/uxsim/DTAsolvers/DTAsolvers.py
index af81f3f..ac446d1 100644
--- a/uxsim/DTAsolvers/DTAsolvers.py
+++ b/uxsim/DTAsolvers/DTAsolvers.py
@@ -1043,7 +1043,7 @@ class SolverDSO_GA:
         print(f" total travel time: initial {s.ttts[0]:.1f} -> last {s.ttts[-1]:.1f}")
         print(f" computation time: {s.end_time - s.start_time:.1f} seconds")
 
-        s.W_sol = W
+        s.W_sol = s.W_intermid_solution
         return s.W_sol
     
     def plot_convergence(s):
-- 
2.43.0


From 756428253dea2d9d5e54580dca978f858808a78b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:06 +0000
Subject: [PATCH 83/99] fix: unfinished trips are penalized, not rewarded, in
 the objective function of SolverDSO_ALNS

---
 uxsim/DTAsolvers/DTAsolvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uxsim/DTAsolvers/DTAsolvers.py b/uxsim/DTAsolvers/DTAsolvers.py
index ac446d1..a4d5435 100644
--- a/uxsim/DTAsolvers/DTAsolvers.py
+++ b/uxsim/DTAsolvers/DTAsolvers.py
@@ -1306,7 +1306,7 @@ class SolverDSO_ALNS:
             W = s.func_World()
             specify_routes(W, xx)
             W.exec_simulation()
-            obj_value = W.analyzer.total_travel_time - (W.analyzer.trip_all-W.analyzer.trip_completed)*W.TMAX
+            obj_value = W.analyzer.total_travel_time + (W.analyzer.trip_all-W.analyzer.trip_completed)*W.TMAX
             
             route_actual = {}
             cost_actual = {}
-- 
2.43.0


From fdb5bf0709f9758d6a196b3f941220be3af6cff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:06 +0000
Subject: [PATCH 84/99] fix: random initial solution of SolverDSO_ALNS is
 within its domain

---
 uxsim/DTAsolvers/DTAsolvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uxsim/DTAsolvers/DTAsolvers.py b/uxsim/DTAsolvers/DTAsolvers.py
index a4d5435..7296220 100644
--- a/uxsim/DTAsolvers/DTAsolvers.py
+++ b/uxsim/DTAsolvers/DTAsolvers.py
@@ -1272,7 +1272,7 @@ class SolverDSO_ALNS:
                 actual_n_route = len(routes[(veh.orig.name, veh.dest.name)])
                 xx_domain.append([i for i in range(actual_n_route)])
 
-            xx0 = [random.randint(0, len(xx_domain[i])) for i in range(len(W.VEHICLES))]
+            xx0 = [random.choice(xx_domain[i]) for i in range(len(W.VEHICLES))]
 
 
         ##############################################################
-- 
2.43.0


From a5a0b69bba7be60411c50dfd86d45f969bc57872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:06 +0000
Subject: [PATCH 85/99] fix: a vehicle with an unknown route is assigned to the
 shortest route in the initial solution of SolverDSO_ALNS

---
 uxsim/DTAsolvers/DTAsolvers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/uxsim/DTAsolvers/DTAsolvers.py b/uxsim/DTAsolvers/DTAsolvers.py
index 7296220..3c10691 100644
--- a/uxsim/DTAsolvers/DTAsolvers.py
+++ b/uxsim/DTAsolvers/DTAsolvers.py
@@ -1245,7 +1245,9 @@ class SolverDSO_ALNS:
                         break
 
                     #経路が経路集合に見当たらない場合，最短経路を探す
-                    if route.actual_travel_time(veh.departure_time_in_second) < route_mintt: 
+                    tt = route.actual_travel_time(veh.departure_time_in_second)
+                    if tt < route_mintt:
+                        route_mintt = tt
                         route_id_mintt = j
                 
                 if route_id != -1:
-- 
2.43.0


From 812af8e1d5e8c9232fcce2c4606b8e5ea1f2b34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:48 +0000
Subject: [PATCH 86/99] fix: SolverDSO_ALNS no longer fails if all vehicles
 depart at time 0

---
 uxsim/DTAsolvers/DTAsolvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uxsim/DTAsolvers/DTAsolvers.py b/uxsim/DTAsolvers/DTAsolvers.py
index 3c10691..fe71102 100644
--- a/uxsim/DTAsolvers/DTAsolvers.py
+++ b/uxsim/DTAsolvers/DTAsolvers.py
@@ -1217,7 +1217,7 @@ class SolverDSO_ALNS:
             dict_od_to_vehid[o,d].append(key)
             departure_times.append(veh.departure_time)
 
-        departure_times = np.array(departure_times)/max(departure_times)
+        departure_times = np.array(departure_times)/max([1, max(departure_times)])
 
         ##############################################################
         # enumerate some routes between each OD pair
-- 
2.43.0


From 8da64107d431d5de3a0780109daa0e3cf2048b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:48 +0000
Subject: [PATCH 87/99] fix: a link without vehicles is not selected as a
 congested link in SolverDSO_ALNS, which made it fail

---
 uxsim/DTAsolvers/ALNS.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/uxsim/DTAsolvers/ALNS.py b/uxsim/DTAsolvers/ALNS.py
index 692b483..aba0540 100644
--- a/uxsim/DTAsolvers/ALNS.py
+++ b/uxsim/DTAsolvers/ALNS.py
@@ -451,6 +451,9 @@ def destroy_congested_link(state: ALNSState, base: Sequence[Any]) -> Tuple[List[
     #混雑リンクを選択
     W = state.additional_info.get("W")
     df_l = W.analyzer.link_to_pandas()
+    df_l = df_l[[len(W.get_link(l).vehicles_enter_log) > 0 for l in df_l["link"]]] #車両がいないリンクは除外
+    if len(df_l) == 0:
+        return destroy_random(state, base)
     
     delay_ranking_ratio = 0.05
     delay_ranking_min_n = 3
-- 
2.43.0


From c1a2343e147c64ac4824c5129caf7c451febf44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:18 +0000
Subject: [PATCH 88/99] fix: network_fancy must not consume the random numbers
 of the simulation

---
 uxsim/analyzer.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/uxsim/analyzer.py b/uxsim/analyzer.py
index 40eff09..d75c2cd 100644
--- a/uxsim/analyzer.py
+++ b/uxsim/analyzer.py
@@ -6,7 +6,7 @@ This module is automatically loaded when you import the `uxsim` module.
 import numpy as np
 import matplotlib.pyplot as plt
 from matplotlib.lines import Line2D
-import glob, os, csv, time
+import glob, os, csv, time, copy
 import pandas as pd
 from PIL import Image, ImageDraw, ImageFont
 from PIL.Image import Resampling
@@ -1281,19 +1281,21 @@ class Analyzer:
         #{t: ["xs":[], "ys":[], "v": v, "c":c]}
         draw_dict = ddict(lambda: [])
 
+        rng = copy.deepcopy(s.W.rng) #visualization must not affect the random numbers of the simulation
+
         maxx = max([n.x for n in s.W.NODES])
         minx = min([n.x for n in s.W.NODES])
         dcoef = (maxx-minx)/20
 
         for veh in s.W.VEHICLES.values():
-            if s.W.rng.random() > sample_ratio:
+            if rng.random() > sample_ratio:
                 continue
             ts = []
             xs = []
             ys = []
             vs = []
-            dx = (s.W.rng.random()-0.5)*dcoef
-            dy = (s.W.rng.random()-0.5)*dcoef
+            dx = (rng.random()-0.5)*dcoef
+            dy = (rng.random()-0.5)*dcoef
             for i in range(0, len(veh.log_t), interval):
                 if veh.log_state[i] == "run":
                     link = veh.log_link[i]
-- 
2.43.0


From 40590d116bc9664da7a313c40469a44b6fd5a5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:29 +0000
Subject: [PATCH 89/99] fix: cumulative_curves accepts the name of a single
 link

---
 uxsim/analyzer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uxsim/analyzer.py b/uxsim/analyzer.py
index d75c2cd..379bccc 100644
--- a/uxsim/analyzer.py
+++ b/uxsim/analyzer.py
@@ -569,7 +569,7 @@ class Analyzer:
         try:
             iter(links)
             if type(links) == str:
-                flag_single = 1
+                links = [links]
         except TypeError:
             links = [links]
 
-- 
2.43.0


From 8300103552be31757a04468b1edd133f174b0aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:29 +0000
Subject: [PATCH 90/99] fix: cumulative_curves fails if the duration is not an
 integer or not a multiple of the timestep

---
 uxsim/analyzer.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/uxsim/analyzer.py b/uxsim/analyzer.py
index 379bccc..7bcbc02 100644
--- a/uxsim/analyzer.py
+++ b/uxsim/analyzer.py
@@ -580,11 +580,11 @@ class Analyzer:
             plt.title(link)
             ax2 = ax1.twinx()
 
-            ax1.plot(range(0, s.W.TMAX, s.W.DELTAT), link.cum_arrival, "r-", label="arrival")
-            ax1.plot(range(0, s.W.TMAX, s.W.DELTAT), link.cum_departure, "b-", label="departure")
+            ax1.plot([i*s.W.DELTAT for i in lange(link.cum_arrival)], link.cum_arrival, "r-", label="arrival")
+            ax1.plot([i*s.W.DELTAT for i in lange(link.cum_departure)], link.cum_departure, "b-", label="departure")
 
-            ax2.plot(range(0, s.W.TMAX, s.W.DELTAT), link.traveltime_instant, ".", c="gray", ms=0.5, label="instantaneous")
-            ax2.plot(range(0, s.W.TMAX, s.W.DELTAT), link.traveltime_actual, "k.", ms=1, label="actual")
+            ax2.plot([i*s.W.DELTAT for i in lange(link.traveltime_instant)], link.traveltime_instant, ".", c="gray", ms=0.5, label="instantaneous")
+            ax2.plot([i*s.W.DELTAT for i in lange(link.traveltime_actual)], link.traveltime_actual, "k.", ms=1, label="actual")
 
             ax1.set_ylim(ymin=0)
             ax2.set_ylim(ymin=0)
-- 
2.43.0


From 1d015030cbf9b09157f8aa1491016564ea7f7c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:40 +0000
Subject: [PATCH 91/99] fix: network_anim and network_fancy fail if the
 duration or the timestep is not an integer

---
 uxsim/analyzer.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/uxsim/analyzer.py b/uxsim/analyzer.py
index 7bcbc02..10ff012 100644
--- a/uxsim/analyzer.py
+++ b/uxsim/analyzer.py
@@ -1219,14 +1219,14 @@ class Analyzer:
         """
         s.W.print(" generating animation...")
         pics = []
-        for t in tqdm(range(0, s.W.TMAX, s.W.DELTAT*timestep_skip), disable=(s.W.print_mode==0)):
+        for t in tqdm([i*s.W.DELTAT for i in range(0, s.W.TSIZE, timestep_skip)], disable=(s.W.print_mode==0)):
             if int(t/s.W.LINKS[0].edie_dt) < s.W.LINKS[0].k_mat.shape[0]:
                 if detailed:
                     #todo_later: 今後はこちらもpillowにする
-                    s.network(int(t), detailed=detailed, state_variables=state_variables, minwidth=minwidth, maxwidth=maxwidth, left_handed=left_handed, tmp_anim=1, figsize=figsize, node_size=node_size, network_font_size=network_font_size, legend=legend)
+                    s.network(t, detailed=detailed, state_variables=state_variables, minwidth=minwidth, maxwidth=maxwidth, left_handed=left_handed, tmp_anim=1, figsize=figsize, node_size=node_size, network_font_size=network_font_size, legend=legend)
                     pics.append(Image.open(f"out{s.W.name}/tmp_anim_{t}.png"))
                 else:
-                    img_ret = s.network_pillow(int(t), detailed=detailed, state_variables=state_variables, minwidth=minwidth, maxwidth=maxwidth, left_handed=left_handed, tmp_anim=1, figsize=figsize, node_size=node_size, network_font_size=network_font_size, image_return=True, legend=legend)
+                    img_ret = s.network_pillow(t, detailed=detailed, state_variables=state_variables, minwidth=minwidth, maxwidth=maxwidth, left_handed=left_handed, tmp_anim=1, figsize=figsize, node_size=node_size, network_font_size=network_font_size, image_return=True, legend=legend)
                     pics.append(img_ret)
                 
         fname = f"out{s.W.name}/anim_network{detailed}.gif"
@@ -1366,7 +1366,7 @@ class Analyzer:
         miny -= buffer
 
         pics = []
-        for t in tqdm(range(int(s.W.TMAX*0), int(s.W.TMAX*1), s.W.DELTAT*speed_coef)):
+        for t in tqdm([i*s.W.DELTAT for i in range(0, s.W.TSIZE, speed_coef)]):
             img = Image.new("RGBA", (int(maxx-minx), int(maxy-miny)), (255, 255, 255, 255))
             draw = ImageDraw.Draw(img)
                 
@@ -1385,7 +1385,7 @@ class Analyzer:
                 if network_font_size > 0:
                     draw.text(((x1+x2)/2, flip((y1+y2)/2)), l.name, font=font, fill="blue", anchor="mm")
 
-            traces = draw_dict[t]
+            traces = draw_dict[int(t)]
             for trace in traces:
                 xs = trace["xs"]*coef-minx
                 ys = trace["ys"]*coef-miny
-- 
2.43.0


From eefe61c47b39db8cbc11c49f230e02f15d749c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:45 +0000
Subject: [PATCH 92/99] fix: network_pillow, network_anim and network_fancy
 fail if all nodes are on a vertical line

---
 uxsim/analyzer.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/uxsim/analyzer.py b/uxsim/analyzer.py
index 10ff012..3fd66a8 100644
--- a/uxsim/analyzer.py
+++ b/uxsim/analyzer.py
@@ -988,10 +988,11 @@ class Analyzer:
         miny = min([n.y for n in s.W.NODES])
 
         scale = 2
+        extent = maxx-minx if maxx > minx else maxy-miny #if all nodes are on a vertical line, its length determines the scale
         try:
-            coef = figsize*100*scale/(maxx-minx)
+            coef = figsize*100*scale/extent
         except:
-            coef = figsize[0]*100*scale/(maxx-minx)
+            coef = figsize[0]*100*scale/extent
         maxx *= coef
         minx *= coef
         maxy *= coef
@@ -999,7 +1000,7 @@ class Analyzer:
         minwidth *= scale
         maxwidth *= scale
 
-        buffer = (maxx-minx)/10
+        buffer = extent*coef/10
         maxx += buffer
         minx -= buffer
         maxy += buffer
@@ -1350,16 +1351,17 @@ class Analyzer:
             scale = 2
         else:
             scale = 1
+        extent = maxx-minx if maxx > minx else maxy-miny #if all nodes are on a vertical line, its length determines the scale
         try:
-            coef = figsize*100*scale/(maxx-minx)
+            coef = figsize*100*scale/extent
         except:
-            coef = figsize[0]*100*scale/(maxx-minx)
+            coef = figsize[0]*100*scale/extent
         maxx *= coef
         minx *= coef
         maxy *= coef
         miny *= coef
 
-        buffer = (maxx-minx)/10
+        buffer = extent*coef/10
         maxx += buffer
         minx -= buffer
         maxy += buffer
-- 
2.43.0


From cb04336485c9cc13d127811849ac485693331a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:45 +0000
Subject: [PATCH 93/99] fix: network(detailed=1) fails if there is a link
 shorter than 2 cells

---
 uxsim/analyzer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/uxsim/analyzer.py b/uxsim/analyzer.py
index 3fd66a8..5facaf3 100644
--- a/uxsim/analyzer.py
+++ b/uxsim/analyzer.py
@@ -707,7 +707,8 @@ class Analyzer:
                 for i in range(xsize-1):
                     plt.plot([xmid[i], xmid[i+1]], [ymid[i], ymid[i+1]], c=c[i], lw=lw[i], zorder=6)
                 if network_font_size > 0:
-                    plt.text(xmid[int(len(xmid)/2)], ymid[int(len(xmid)/2)], l.name, c="b", zorder=20, fontsize=network_font_size)
+                    imid = int(len(xmid)/2)+1
+                    plt.text(([x1]+xmid+[x2])[imid], ([y1]+ymid+[y2])[imid], l.name, c="b", zorder=20, fontsize=network_font_size) #xmid is empty if the link is shorter than 2 cells
             else:
                 #簡略モード
                 if state_variables == "density_speed":
-- 
2.43.0


From e0b7a5422e727e7f4af09e6d1cc252d02e6ae239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:18 +0000
Subject: [PATCH 94/99] fix: flow larger than the capacity was drawn in the
 color of zero flow by network_pillow (density_flow)

---
 uxsim/analyzer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/uxsim/analyzer.py b/uxsim/analyzer.py
index 5facaf3..872a316 100644
--- a/uxsim/analyzer.py
+++ b/uxsim/analyzer.py
@@ -1039,9 +1039,9 @@ class Analyzer:
                 width = k*l.delta*(maxwidth-minwidth)+minwidth
                 q = k*v/l.capacity
                 if q < 0:
-                    q = 0
+                    q = 0.0
                 if q > 1:
-                    q = 1
+                    q = 1.0 #an integer is an index of the colormap
                 c = plt.colormaps["magma"](q)
             else: #"flow_delay" mode
                 k = (l.cum_arrival[int(t/s.W.DELTAT)]-l.cum_departure[int(t/s.W.DELTAT)])/l.length
-- 
2.43.0


From 5459c6780fc6d19075d10cecb3edb63d5c34b692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:07 +0000
Subject: [PATCH 95/99] fix: C++ mode logs a vehicle added during the
 simulation as at home before it was created

---
 uxsim/uxsim_cpp_wrapper.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index e64b4aa..939895b 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -1341,6 +1341,7 @@ class CppWorld:
             veh_id += 1
             py_veh._cpp_vehicle = cpp_veh
             py_veh._log_cache = None
+            py_veh._log_start_ts = self._cpp_world.timestep #the log starts when the vehicle is created
             py_veh.orig = nodes_name_dict.get(cpp_veh.orig.name) if cpp_veh.orig else None
             py_veh.dest = nodes_name_dict.get(cpp_veh.dest.name) if cpp_veh.dest else None
             c = colors[j]
@@ -1456,9 +1457,9 @@ class CppWorld:
             log_link = all_log_link[s:e]
             # Prepend home entries if compact format (n_missing available)
             if all_n_missing is not None:
-                nm = int(all_n_missing[i])
+                nm = int(all_n_missing[i]) - veh._log_start_ts
                 if nm > 0:
-                    home_t = np.arange(nm, dtype=all_log_t.dtype) * delta_t
+                    home_t = np.arange(veh._log_start_ts, veh._log_start_ts + nm, dtype=all_log_t.dtype) * delta_t
                     home_fill_f = np.full(nm, -1.0)
                     home_fill_i = np.full(nm, -1, dtype=np.int32)
                     home_state = np.zeros(nm, dtype=np.int32)  # 0 = home
-- 
2.43.0


From d8348b8214fa3fda570a0fc6fde462081d679212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:30 +0000
Subject: [PATCH 96/99] fix: result viewer crashed when painting a link shorter
 than one cell

---
 uxsim/ResultGUIViewer/ResultGUIViewer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/uxsim/ResultGUIViewer/ResultGUIViewer.py b/uxsim/ResultGUIViewer/ResultGUIViewer.py
index 7488471..4961c6d 100644
--- a/uxsim/ResultGUIViewer/ResultGUIViewer.py
+++ b/uxsim/ResultGUIViewer/ResultGUIViewer.py
@@ -57,12 +57,14 @@ class EdgeItem(QGraphicsItem):
 
     def paint(self, painter, option, widget):
         path = self.shape()
-        length = path.length()
         num_segments = self.density_list.shape[1]
-        segment_length = length / num_segments
         maxlw = 10
         minlw = 0.5
 
+        if num_segments == 0: #link shorter than a cell: there is no state to show, only its shape
+            painter.setPen(QPen(Qt.gray, minlw))
+            painter.drawPath(path)
+
         for i in range(num_segments):
             density = self.density_list[self.t, i]
             speed = self.Link.v_mat[self.t, i]
-- 
2.43.0


From 5c3d669fe8a2e316934a1c9273f2220074814042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:30 +0000
Subject: [PATCH 97/99] fix: result viewer kept the marks of the previously
 highlighted vehicle

---
 uxsim/ResultGUIViewer/ResultGUIViewer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/uxsim/ResultGUIViewer/ResultGUIViewer.py b/uxsim/ResultGUIViewer/ResultGUIViewer.py
index 4961c6d..e1291ed 100644
--- a/uxsim/ResultGUIViewer/ResultGUIViewer.py
+++ b/uxsim/ResultGUIViewer/ResultGUIViewer.py
@@ -197,6 +197,8 @@ class GraphWidget(QGraphicsView):
         self.set_vehice_items()
 
     def set_vehice_items(self):
+        for vehicle in getattr(self, "vehicle_items", []): #marks of the vehicle highlighted before
+            self.scene().removeItem(vehicle)
         self.vehicle_items = []
         if self.vehicle_list != None:
             for t, edge_name, x in self.vehicle_list:
-- 
2.43.0


From c2ccf388999c8535aca779ccb4964d8ee586d25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:43 +0000
Subject: [PATCH 98/99] fix: a scenario file of demands defined by Node objects
 does not contain the whole World

---
 uxsim/scenario_reader_writer.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/uxsim/scenario_reader_writer.py b/uxsim/scenario_reader_writer.py
index 630c2dc..25955f2 100644
--- a/uxsim/scenario_reader_writer.py
+++ b/uxsim/scenario_reader_writer.py
@@ -103,6 +103,16 @@ def instance_to_arg_dict(instance):
 
     return args
 
+def node_to_name(value):
+    """
+    Replace Node objects, also those in a list, with their names.
+    """
+    if str(type(value)) == "<class 'uxsim.uxsim.Node'>":
+        return value.name
+    if type(value) in (list, tuple):
+        return [node_to_name(v) for v in value]
+    return value
+
 def save_scenario(W, fname, network=True, demand=True):
     """
     Save scenario data to a file.
@@ -148,7 +158,12 @@ def save_scenario(W, fname, network=True, demand=True):
         }
         out = out | network
     if demand:
-        out = out | dict(W.demand_info)
+        # nodes are saved by their names, because a Node object refers to everything in its World
+        for demand_type in W.demand_info:
+            if demand_type == "demand_order":
+                out[demand_type] = W.demand_info[demand_type]
+            else:
+                out[demand_type] = [{k: node_to_name(v) if k in ("orig", "dest", "origs", "dests") else v for k, v in args.items()} for args in W.demand_info[demand_type]]
     
     # from pprint import pprint
     # pprint(out)
-- 
2.43.0


From 835339eebd62b24b2f5a9176f34306fca797a9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:43 +0000
Subject: [PATCH 99/99] fix: World.copy and World.save do not exceed the
 recursion depth for networks of moderate size

---
 uxsim/ResultGUIViewer/ResultGUIViewer.py |  5 ++--
 uxsim/uxsim.py                           | 37 ++++++++++++++++++++++--
 2 files changed, 36 insertions(+), 6 deletions(-)

diff --git a/uxsim/ResultGUIViewer/ResultGUIViewer.py b/uxsim/ResultGUIViewer/ResultGUIViewer.py
index e1291ed..0982b62 100644
--- a/uxsim/ResultGUIViewer/ResultGUIViewer.py
+++ b/uxsim/ResultGUIViewer/ResultGUIViewer.py
@@ -366,14 +366,13 @@ class MainWindow(QMainWindow):
         viewer.show()
 
     def save_world(self, default_filename='untitled.pkl_dill'):
-        #TODO: do something about "maximum recursion depth exceeded in comparison" error
-        import dill as pickle
+        from uxsim.uxsim import WorldPickler
         filename, _ = QFileDialog.getSaveFileName(None, 'Save the world', default_filename, 'Pickle (by Dill package) Files (*.pkl_dill);;All Files (*)')
         
         if filename:
             try:
                 with open(filename, 'wb') as file:
-                    pickle.dump(self.W, file)
+                    WorldPickler(file).dump(self.W)
                 print(f'World saved successfully: {filename}')
             except Exception as e:
                 print(f'Error saving object: {str(e)}')
diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index afe720f..fb2aab1 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -3,7 +3,7 @@ UXsim: Macroscopic/mesoscopic traffic flow simulator in a network.
 This `uxsim.py` is the core of UXsim. It summarizes the classes and methods that are essential for the simulation.
 """
 
-import csv, time, math, string, warnings, copy
+import csv, time, math, string, warnings, copy, copyreg, io
 from collections import deque, OrderedDict
 from collections import defaultdict as ddict
 import warnings
@@ -2902,7 +2902,9 @@ class World:
         World object
             The copied World object.
         """
-        return pickle.loads(pickle.dumps(W))
+        f = io.BytesIO()
+        WorldPickler(f).dump(W)
+        return pickle.loads(f.getvalue())
 
     def save(W, fname):
         """
@@ -2913,7 +2915,36 @@ class World:
         The World object is saved as a pickle file.
         """
         with open(f"{fname}.pkl", "wb") as f:
-            pickle.dump(W, f)
+            WorldPickler(f).dump(W)
+
+
+class WorldPickler(pickle.Pickler):
+    """
+    Pickler for World objects. The result can be loaded by `dill.load` as usual.
+
+    Nodes, links, and vehicles refer to each other, and pickling them recursively exceeds the maximum recursion depth if the World is not small. 
+    Thus, at first, all of them are pickled without their attributes, and then their attributes are pickled one by one.
+    """
+    def __init__(s, file):
+        super().__init__(file, pickle.settings["protocol"])
+        s.members = {}
+
+    def reducer_override(s, obj):
+        if isinstance(obj, World):
+            members = [*obj.NODES, *obj.LINKS, *obj.VEHICLES.values()]
+            s.members |= {id(member): member for member in members}
+            return copyreg.__newobj__, (type(obj),), (members, [vars(member) for member in members], vars(obj)), None, None, _set_world_state
+        if id(obj) in s.members:
+            return copyreg.__newobj__, (type(obj),)
+        return NotImplemented
+
+
+def _set_world_state(W, state):
+    members, members_vars, W_vars = state
+    for member, member_vars in zip(members, members_vars):
+        vars(member).update(member_vars)
+    vars(W).update(W_vars)
+
 
 
 class Route:
-- 
2.43.0

