From 847c6c42e8f6a99abe50ba27b83f394eccce026b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:50 +0000
Subject: [PATCH 01/10] fix: keep a route's fixed vehicle cost when pickling

---
 pyvrp/cpp/Route.cpp    | 2 ++
 pyvrp/cpp/Route.h      | 1 +
 pyvrp/cpp/bindings.cpp | 8 +++++---
 3 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/pyvrp/cpp/Route.cpp b/pyvrp/cpp/Route.cpp
index 3414351..baf67ea 100644
--- a/pyvrp/cpp/Route.cpp
+++ b/pyvrp/cpp/Route.cpp
@@ -475,6 +475,7 @@ Route::Route(Schedule schedule,
              Duration startTime,
              Duration releaseTime,
              Duration slack,
+             Cost fixedVehicleCost,
              Cost prizes,
              size_t vehicleType,
              size_t numShipments)
@@ -494,6 +495,7 @@ Route::Route(Schedule schedule,
       startTime_(startTime),
       releaseTime_(releaseTime),
       slack_(slack),
+      fixedVehicleCost_(fixedVehicleCost),
       prizes_(prizes),
       vehicleType_(vehicleType),
       numShipments_(numShipments)
diff --git a/pyvrp/cpp/Route.h b/pyvrp/cpp/Route.h
index ea29650..8e1e4d9 100644
--- a/pyvrp/cpp/Route.h
+++ b/pyvrp/cpp/Route.h
@@ -333,6 +333,7 @@ public:
           Duration startTime,
           Duration releaseTime,
           Duration slack,
+          Cost fixedVehicleCost,
           Cost prizes,
           size_t vehicleType,
           size_t numShipments);
diff --git a/pyvrp/cpp/bindings.cpp b/pyvrp/cpp/bindings.cpp
index 6c2042d..f11cbc9 100644
--- a/pyvrp/cpp/bindings.cpp
+++ b/pyvrp/cpp/bindings.cpp
@@ -974,6 +974,7 @@ PYBIND11_MODULE(_pyvrp, m)
                                       route.startTime(),
                                       route.releaseTime(),
                                       route.slack(),
+                                      route.fixedVehicleCost(),
                                       route.prizes(),
                                       route.vehicleType(),
                                       route.numShipments());
@@ -998,9 +999,10 @@ PYBIND11_MODULE(_pyvrp, m)
                     t[13].cast<pyvrp::Duration>(),          // start time
                     t[14].cast<pyvrp::Duration>(),          // release time
                     t[15].cast<pyvrp::Duration>(),          // slack
-                    t[16].cast<pyvrp::Cost>(),              // prizes
-                    t[17].cast<size_t>(),                   // vehicle type
-                    t[18].cast<size_t>());                  // num shipments
+                    t[16].cast<pyvrp::Cost>(),              // fixed veh cost
+                    t[17].cast<pyvrp::Cost>(),              // prizes
+                    t[18].cast<size_t>(),                   // vehicle type
+                    t[19].cast<size_t>());                  // num shipments
 
                 return route;
             }))
-- 
2.43.0


From b9f274d4d82ff929c681861c9b84353d957f25f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:50 +0000
Subject: [PATCH 02/10] fix: keep a solution's unplanned activities when
 pickling

---
 pyvrp/cpp/Solution.cpp | 6 ++++--
 pyvrp/cpp/Solution.h   | 3 ++-
 pyvrp/cpp/bindings.cpp | 7 +++++--
 3 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/pyvrp/cpp/Solution.cpp b/pyvrp/cpp/Solution.cpp
index 940b416..5838e20 100644
--- a/pyvrp/cpp/Solution.cpp
+++ b/pyvrp/cpp/Solution.cpp
@@ -381,7 +381,8 @@ Solution::Solution(size_t numClients,
                    Cost prizes,
                    Cost uncollectedPrizes,
                    Duration timeWarp,
-                   Routes routes)
+                   Routes routes,
+                   Unplanned unplanned)
     : numClients_(numClients),
       numShipments_(numShipments),
       numMissingClients_(numMissingClients),
@@ -398,7 +399,8 @@ Solution::Solution(size_t numClients,
       prizes_(prizes),
       uncollectedPrizes_(uncollectedPrizes),
       timeWarp_(timeWarp),
-      routes_(std::move(routes))
+      routes_(std::move(routes)),
+      unplanned_(std::move(unplanned))
 {
 }
 
diff --git a/pyvrp/cpp/Solution.h b/pyvrp/cpp/Solution.h
index e05ce6f..ff26f46 100644
--- a/pyvrp/cpp/Solution.h
+++ b/pyvrp/cpp/Solution.h
@@ -280,7 +280,8 @@ public:
              Cost prizes,
              Cost uncollectedPrizes,
              Duration timeWarp,
-             Routes routes);
+             Routes routes,
+             Unplanned unplanned);
 };
 
 template <>  // specialisation for pyvrp::Solution
diff --git a/pyvrp/cpp/bindings.cpp b/pyvrp/cpp/bindings.cpp
index f11cbc9..e71d5cb 100644
--- a/pyvrp/cpp/bindings.cpp
+++ b/pyvrp/cpp/bindings.cpp
@@ -1133,10 +1133,12 @@ PYBIND11_MODULE(_pyvrp, m)
                                       sol.prizes(),
                                       sol.uncollectedPrizes(),
                                       sol.timeWarp(),
-                                      sol.routes());
+                                      sol.routes(),
+                                      sol.unplanned());
             },
             [](py::tuple t) {  // __setstate__
                 using Routes = std::vector<Route>;
+                using Unplanned = std::vector<Activity>;
 
                 Solution sol(
                     t[0].cast<size_t>(),            // num clients
@@ -1155,7 +1157,8 @@ PYBIND11_MODULE(_pyvrp, m)
                     t[13].cast<pyvrp::Cost>(),               // prizes
                     t[14].cast<pyvrp::Cost>(),               // uncollected
                     t[15].cast<pyvrp::Duration>(),           // time warp
-                    t[16].cast<Routes>());                   // routes
+                    t[16].cast<Routes>(),                    // routes
+                    t[17].cast<Unplanned>());                // unplanned
 
                 return sol;
             }))
-- 
2.43.0


From f9bf0d521e4d7056823ffef4811bcdfad007cf67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:43 +0000
Subject: [PATCH 03/10] fix: leave a search route unchanged when a reload depot
 is rejected

Inserting a reload depot beyond the vehicle's maximum number of trips first
added the depot to the route's owned depots and only then threw, so that the
route reported one trip and depot too many, and rejected all further inserts.
---
 pyvrp/cpp/search/Route.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyvrp/cpp/search/Route.cpp b/pyvrp/cpp/search/Route.cpp
index a5e992e..057d8e0 100644
--- a/pyvrp/cpp/search/Route.cpp
+++ b/pyvrp/cpp/search/Route.cpp
@@ -95,6 +95,10 @@ void Route::insert(size_t idx, Node *node)
     {
     case Activity::ActivityType::DEPOT:  // insert copy into owned memory
     {
+        if (numTrips() >= maxTrips())  // check before we modify the route
+            throw std::invalid_argument(
+                "Vehicle cannot perform this many trips.");
+
         if (depots_.size() == depots_.capacity())  // then we reallocate and
         {                                          // must update references
             depots_.reserve(depots_.size() + 1);
@@ -110,9 +114,6 @@ void Route::insert(size_t idx, Node *node)
         break;
     }
 
-    if (numTrips() > maxTrips())
-        throw std::invalid_argument("Vehicle cannot perform this many trips.");
-
     nodes.insert(nodes.begin() + idx, node);
     node->assign(this, idx, nodes[idx - 1]->trip());
 
-- 
2.43.0


From 6419c7161da02870693fe0ce6fec55d230a24733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:34 +0000
Subject: [PATCH 04/10] fix: measure net duration consistently when a trip's
 release time binds

DurationSegment::timeWarp() subtracted all time warp from the duration before
applying the maximum duration, except that due to the release time of the
current trip. Which trip is current depends on the direction in which trips
are concatenated, so the search predicted a different time warp for multi-trip
routes than the routes report once the move is applied.
---
 pyvrp/cpp/DurationSegment.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyvrp/cpp/DurationSegment.h b/pyvrp/cpp/DurationSegment.h
index 8853bdf..36ea0ff 100644
--- a/pyvrp/cpp/DurationSegment.h
+++ b/pyvrp/cpp/DurationSegment.h
@@ -271,14 +271,14 @@ Duration DurationSegment::duration() const
 
 Duration DurationSegment::timeWarp(Duration maxDuration) const
 {
-    auto const timeWarp = cumTimeWarp_ + timeWarp_;
+    // Includes additional time warp from having to wait until release time.
+    auto const timeWarp = cumTimeWarp_ + timeWarp_
+                          + std::max<Duration>(releaseTime_ - startLate_, 0);
     auto const netDuration = duration() - timeWarp;
 
+    // Max duration constraint applies only to net route duration, subtracting
+    // existing time warp. Use ternary to avoid underflow.
     return timeWarp
-           // Additional time warp from having to wait until release time.
-           + std::max<Duration>(releaseTime_ - startLate_, 0)
-           // Max duration constraint applies only to net route duration,
-           // subtracting existing time warp. Use ternary to avoid underflow.
            + (netDuration > maxDuration ? netDuration - maxDuration : 0);
 }
 
-- 
2.43.0


From 80e317f49c41350b9c5350ac35f0641f6864f974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:44 +0000
Subject: [PATCH 05/10] fix: start reloaded trips within the depot's time
 window in search routes

The search route applied a reload depot's time window on arrival, before
waiting for the next trip's release time, and only pyvrp::Route applied it
(correctly) when the next trip starts. When the release time is after the
depot closes the two disagreed, and proposals were evaluated inexactly.
---
 pyvrp/cpp/search/DepotSegment.h |  2 +-
 pyvrp/cpp/search/Route.cpp      | 22 ++++++++++++----------
 pyvrp/cpp/search/Route.h        |  6 +++---
 3 files changed, 16 insertions(+), 14 deletions(-)

diff --git a/pyvrp/cpp/search/DepotSegment.h b/pyvrp/cpp/search/DepotSegment.h
index 2a407d8..aab0d71 100644
--- a/pyvrp/cpp/search/DepotSegment.h
+++ b/pyvrp/cpp/search/DepotSegment.h
@@ -49,7 +49,7 @@ public:
 
     pyvrp::DurationSegment duration([[maybe_unused]] size_t profile) const
     {
-        return {depot_, 0};  // service is handled while evaluating proposal
+        return {};  // time window and service are handled by the proposal
     }
 
     pyvrp::LoadSegment load([[maybe_unused]] size_t dimension) const
diff --git a/pyvrp/cpp/search/Route.cpp b/pyvrp/cpp/search/Route.cpp
index 057d8e0..8613b29 100644
--- a/pyvrp/cpp/search/Route.cpp
+++ b/pyvrp/cpp/search/Route.cpp
@@ -263,7 +263,9 @@ void Route::update()
         switch (node->type())
         {
         case Activity::ActivityType::DEPOT:
-            durAt[idx] = {data.depot(node->idx()), 0};
+            // The depot's time window and service apply when starting the next
+            // trip, after waiting for its release time: see below.
+            durAt[idx] = {};
             break;
 
         case Activity::ActivityType::CLIENT:
@@ -293,10 +295,11 @@ void Route::update()
 
         if (nodes[prev]->isReloadDepot())
         {
-            // Then we need to first account for depot service before we merge
-            // with the idx segment.
+            // Then we need to first account for depot service, within the
+            // depot's time window, before we merge with the idx segment.
             auto const &depot = data.depot(nodes[prev]->idx());
-            before = DurationSegment::merge(before, {depot.serviceDuration});
+            DurationSegment const depotDS = {depot, depot.serviceDuration};
+            before = DurationSegment::merge(before, depotDS);
         }
 
         auto const edgeDur = durations(locations[prev], locations[idx]);
@@ -312,18 +315,17 @@ void Route::update()
                          ? durAfter[next].finaliseFront()
                          : durAfter[next];
 
+        auto at = durAt[idx];
         if (nodes[idx]->isReloadDepot())
         {
-            // This is not entirely correct logically, since we now do service
-            // at idx after already travelling to next, but that's OK since
-            // we're essentially using the trick of adding service to the
-            // outgoing edge.
+            // The next trip starts here, so we need to account for service,
+            // within the depot's time window, before travelling to next.
             auto const &depot = data.depot(nodes[idx]->idx());
-            after = DurationSegment::merge({depot.serviceDuration}, after);
+            at = {depot, depot.serviceDuration};
         }
 
         auto const edgeDur = durations(locations[idx], locations[next]);
-        durAfter[idx] = DurationSegment::merge(edgeDur, durAt[idx], after);
+        durAfter[idx] = DurationSegment::merge(edgeDur, at, after);
     }
 
     // Load.
diff --git a/pyvrp/cpp/search/Route.h b/pyvrp/cpp/search/Route.h
index 058d654..f5bf76c 100644
--- a/pyvrp/cpp/search/Route.h
+++ b/pyvrp/cpp/search/Route.h
@@ -924,10 +924,10 @@ DurationSegment Route::SegmentBetween::duration(size_t profile) const
     auto const &mat = route_.data.durationMatrix(profile);
     auto segment = route_.durAt[start];
 
-    if (size() != 1 && route_[start]->isReloadDepot())  // first need to add the
-    {                                                   // start depot's service
+    if (size() != 1 && route_[start]->isReloadDepot())  // then a trip starts
+    {                                                   // here, with service
         auto const &depot = route_.data.depot(route_[start]->idx());
-        segment = DurationSegment::merge(segment, {depot.serviceDuration});
+        segment = {depot, depot.serviceDuration};
     }
 
     for (size_t step = start; step != end; ++step)
-- 
2.43.0


From 2a1f5cc14db6c293d25fefe3fa7886101b87d100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:31 +0000
Subject: [PATCH 06/10] fix: count vehicles without truncating to 32 bits

---
 pyvrp/cpp/ProblemData.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvrp/cpp/ProblemData.cpp b/pyvrp/cpp/ProblemData.cpp
index 66a3035..ce489ff 100644
--- a/pyvrp/cpp/ProblemData.cpp
+++ b/pyvrp/cpp/ProblemData.cpp
@@ -305,7 +305,7 @@ ProblemData::ProblemData(std::vector<Location> locations,
       shipments_(std::move(shipments)),
       numVehicles_(std::accumulate(vehicleTypes_.begin(),
                                    vehicleTypes_.end(),
-                                   0,
+                                   size_t{0},
                                    [](auto sum, VehicleType const &type)
                                    { return sum + type.numAvailable; })),
       numLoadDimensions_(
-- 
2.43.0


From 30c17e8f3067937b5cae9e5be9ddc8e91357622e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:52 +0000
Subject: [PATCH 07/10] fix: adding clients to a model made from data no longer
 changes that data

---
 pyvrp/Model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyvrp/Model.py b/pyvrp/Model.py
index d2323f0..2c6a6f6 100644
--- a/pyvrp/Model.py
+++ b/pyvrp/Model.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+from copy import deepcopy
 from typing import TYPE_CHECKING, Sequence
 from warnings import warn
 
@@ -207,7 +208,7 @@ class Model:
         self._locations = locs
         self._clients = data.clients()
         self._depots = data.depots()
-        self._groups = data.groups()
+        self._groups = deepcopy(data.groups())  # since groups are mutable
         self._shipments = data.shipments()
         self._profiles = profiles
         self._vehicle_types = data.vehicle_types()
-- 
2.43.0


From ec0a40dc7d88dffce09db3a456044503dfaedc1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:37 +0000
Subject: [PATCH 08/10] fix: never try to minimise a fleet to zero vehicles

---
 pyvrp/minimise_fleet.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyvrp/minimise_fleet.py b/pyvrp/minimise_fleet.py
index 143a84e..9494ad1 100644
--- a/pyvrp/minimise_fleet.py
+++ b/pyvrp/minimise_fleet.py
@@ -82,7 +82,8 @@ def minimise_fleet(
         if best.num_routes() < data.num_vehicles:
             # Then we can make a bigger jump because more than one vehicle of
             # the feasible fleet was unused.
-            feas_fleet = fleet.replace(num_available=best.num_routes())
+            num_routes = max(best.num_routes(), 1)  # at least one vehicle
+            feas_fleet = fleet.replace(num_available=num_routes)
 
     return feas_fleet
 
@@ -95,8 +96,9 @@ def _lower_bound(data: ProblemData) -> int:
     # details.
 
     # Computes a bound based on packing delivery or pickup demands in the given
-    # vehicles over all load dimensions. The strongest bound is returned.
-    bound = 0
+    # vehicles over all load dimensions. The strongest bound is returned. Any
+    # fleet must have at least one vehicle.
+    bound = 1
     for dim in range(data.num_load_dimensions):
         delivery = sum(c.delivery[dim] for c in data.clients())
         pickup = sum(c.pickup[dim] for c in data.clients())
-- 
2.43.0


From 160a8d5a02a721dbc6c0cd64cca24616d77010b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:40 +0000
Subject: [PATCH 09/10] fix: reject penalty bounds that are not a number

---
 pyvrp/PenaltyManager.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyvrp/PenaltyManager.py b/pyvrp/PenaltyManager.py
index 8987eea..f557d3c 100644
--- a/pyvrp/PenaltyManager.py
+++ b/pyvrp/PenaltyManager.py
@@ -104,10 +104,10 @@ class PenaltyParams:
         if not (0.0 <= self.feas_tolerance <= 1.0):
             raise ValueError("Expected feas_tolerance in [0, 1].")
 
-        if self.min_penalty < 0:
+        if not self.min_penalty >= 0:
             raise ValueError("Expected min_penalty >= 0.")
 
-        if self.max_penalty < self.min_penalty:
+        if not self.max_penalty >= self.min_penalty:
             raise ValueError("Expected max_penalty >= min_penalty.")
 
     def midpoint_penalties(
-- 
2.43.0


From 40e2acd7f5a97a3a563e53df5688b223a5038f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:00 +0000
Subject: [PATCH 10/10] fix: reject routes with a vehicle type that does not
 exist

---
 pyvrp/cpp/Route.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pyvrp/cpp/Route.cpp b/pyvrp/cpp/Route.cpp
index baf67ea..078c737 100644
--- a/pyvrp/cpp/Route.cpp
+++ b/pyvrp/cpp/Route.cpp
@@ -52,6 +52,13 @@ Duration Route::ScheduledActivity::timeWarp() const { return timeWarp_; }
 void Route::validate(ProblemData const &data,
                      Activities const &activities) const
 {
+    if (vehicleType_ >= data.numVehicleTypes())
+    {
+        std::ostringstream msg;
+        msg << "Vehicle type " << vehicleType_ << " is not understood.";
+        throw std::invalid_argument(msg.str());
+    }
+
     auto const &vehData = data.vehicleType(vehicleType_);
 
     size_t numTrips = 1;
-- 
2.43.0

