From 8e06f827350e01cc0e6a43cbb3aa241db6833769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:42 +0000
Subject: [PATCH 01/18] fix: preserve fixed vehicle cost when (un)pickling a
 Route

---
 pyvrp/cpp/Route.cpp    | 4 +++-
 pyvrp/cpp/Route.h      | 3 ++-
 pyvrp/cpp/bindings.cpp | 6 ++++--
 3 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/pyvrp/cpp/Route.cpp b/pyvrp/cpp/Route.cpp
index 3414351..8c8d8d2 100644
--- a/pyvrp/cpp/Route.cpp
+++ b/pyvrp/cpp/Route.cpp
@@ -477,7 +477,8 @@ Route::Route(Schedule schedule,
              Duration slack,
              Cost prizes,
              size_t vehicleType,
-             size_t numShipments)
+             size_t numShipments,
+             Cost fixedVehicleCost)
     : schedule_(std::move(schedule)),
       distance_(distance),
       distanceCost_(distanceCost),
@@ -494,6 +495,7 @@ Route::Route(Schedule schedule,
       startTime_(startTime),
       releaseTime_(releaseTime),
       slack_(slack),
+      fixedVehicleCost_(fixedVehicleCost),
       prizes_(prizes),
       vehicleType_(vehicleType),
       numShipments_(numShipments)
diff --git a/pyvrp/cpp/Route.h b/pyvrp/cpp/Route.h
index ea29650..b7cc1ef 100644
--- a/pyvrp/cpp/Route.h
+++ b/pyvrp/cpp/Route.h
@@ -335,7 +335,8 @@ public:
           Duration slack,
           Cost prizes,
           size_t vehicleType,
-          size_t numShipments);
+          size_t numShipments,
+          Cost fixedVehicleCost);
 };
 
 template <>  // specialisation for pyvrp::Route
diff --git a/pyvrp/cpp/bindings.cpp b/pyvrp/cpp/bindings.cpp
index 6c2042d..1cfcd59 100644
--- a/pyvrp/cpp/bindings.cpp
+++ b/pyvrp/cpp/bindings.cpp
@@ -976,7 +976,8 @@ PYBIND11_MODULE(_pyvrp, m)
                                       route.slack(),
                                       route.prizes(),
                                       route.vehicleType(),
-                                      route.numShipments());
+                                      route.numShipments(),
+                                      route.fixedVehicleCost());
             },
             [](py::tuple t) {  // __setstate__
                 using Schedule = std::vector<Route::ScheduledActivity>;
@@ -1000,7 +1001,8 @@ PYBIND11_MODULE(_pyvrp, m)
                     t[15].cast<pyvrp::Duration>(),          // slack
                     t[16].cast<pyvrp::Cost>(),              // prizes
                     t[17].cast<size_t>(),                   // vehicle type
-                    t[18].cast<size_t>());                  // num shipments
+                    t[18].cast<size_t>(),                   // num shipments
+                    t[19].cast<pyvrp::Cost>());             // fixed veh cost
 
                 return route;
             }))
-- 
2.43.0


From aabc721ab74ba5c56ce22f73c794c5c8f75cfde6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:59 +0000
Subject: [PATCH 02/18] fix: preserve unplanned activities when (un)pickling a
 Solution

---
 pyvrp/cpp/Solution.cpp | 6 ++++--
 pyvrp/cpp/Solution.h   | 3 ++-
 pyvrp/cpp/bindings.cpp | 6 ++++--
 3 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/pyvrp/cpp/Solution.cpp b/pyvrp/cpp/Solution.cpp
index 940b416..5838e20 100644
--- a/pyvrp/cpp/Solution.cpp
+++ b/pyvrp/cpp/Solution.cpp
@@ -381,7 +381,8 @@ Solution::Solution(size_t numClients,
                    Cost prizes,
                    Cost uncollectedPrizes,
                    Duration timeWarp,
-                   Routes routes)
+                   Routes routes,
+                   Unplanned unplanned)
     : numClients_(numClients),
       numShipments_(numShipments),
       numMissingClients_(numMissingClients),
@@ -398,7 +399,8 @@ Solution::Solution(size_t numClients,
       prizes_(prizes),
       uncollectedPrizes_(uncollectedPrizes),
       timeWarp_(timeWarp),
-      routes_(std::move(routes))
+      routes_(std::move(routes)),
+      unplanned_(std::move(unplanned))
 {
 }
 
diff --git a/pyvrp/cpp/Solution.h b/pyvrp/cpp/Solution.h
index e05ce6f..ff26f46 100644
--- a/pyvrp/cpp/Solution.h
+++ b/pyvrp/cpp/Solution.h
@@ -280,7 +280,8 @@ public:
              Cost prizes,
              Cost uncollectedPrizes,
              Duration timeWarp,
-             Routes routes);
+             Routes routes,
+             Unplanned unplanned);
 };
 
 template <>  // specialisation for pyvrp::Solution
diff --git a/pyvrp/cpp/bindings.cpp b/pyvrp/cpp/bindings.cpp
index 1cfcd59..a840b9b 100644
--- a/pyvrp/cpp/bindings.cpp
+++ b/pyvrp/cpp/bindings.cpp
@@ -1133,7 +1133,8 @@ PYBIND11_MODULE(_pyvrp, m)
                                       sol.prizes(),
                                       sol.uncollectedPrizes(),
                                       sol.timeWarp(),
-                                      sol.routes());
+                                      sol.routes(),
+                                      sol.unplanned());
             },
             [](py::tuple t) {  // __setstate__
                 using Routes = std::vector<Route>;
@@ -1155,7 +1156,8 @@ PYBIND11_MODULE(_pyvrp, m)
                     t[13].cast<pyvrp::Cost>(),               // prizes
                     t[14].cast<pyvrp::Cost>(),               // uncollected
                     t[15].cast<pyvrp::Duration>(),           // time warp
-                    t[16].cast<Routes>());                   // routes
+                    t[16].cast<Routes>(),                    // routes
+                    t[17].cast<std::vector<Activity>>());    // unplanned
 
                 return sol;
             }))
-- 
2.43.0


From 92540acaa0436d412cd68fb5392622ed0c462132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:02 +0000
Subject: [PATCH 03/18] fix: do not count release time warp towards the maximum
 route duration

---
 pyvrp/cpp/DurationSegment.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyvrp/cpp/DurationSegment.h b/pyvrp/cpp/DurationSegment.h
index 8853bdf..5013420 100644
--- a/pyvrp/cpp/DurationSegment.h
+++ b/pyvrp/cpp/DurationSegment.h
@@ -271,12 +271,13 @@ Duration DurationSegment::duration() const
 
 Duration DurationSegment::timeWarp(Duration maxDuration) const
 {
-    auto const timeWarp = cumTimeWarp_ + timeWarp_;
+    auto const timeWarp
+        = cumTimeWarp_ + timeWarp_
+          // Additional time warp from having to wait until release time.
+          + std::max<Duration>(releaseTime_ - startLate_, 0);
     auto const netDuration = duration() - timeWarp;
 
     return timeWarp
-           // Additional time warp from having to wait until release time.
-           + std::max<Duration>(releaseTime_ - startLate_, 0)
            // Max duration constraint applies only to net route duration,
            // subtracting existing time warp. Use ternary to avoid underflow.
            + (netDuration > maxDuration ? netDuration - maxDuration : 0);
-- 
2.43.0


From 97795bf191ea24b3d4a8035fd7fab9e8b395e9ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:25 +0000
Subject: [PATCH 04/18] fix: leave search route unchanged when a reload depot
 cannot be inserted

---
 pyvrp/cpp/search/Route.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyvrp/cpp/search/Route.cpp b/pyvrp/cpp/search/Route.cpp
index a5e992e..86b0f8e 100644
--- a/pyvrp/cpp/search/Route.cpp
+++ b/pyvrp/cpp/search/Route.cpp
@@ -95,6 +95,11 @@ void Route::insert(size_t idx, Node *node)
     {
     case Activity::ActivityType::DEPOT:  // insert copy into owned memory
     {
+        // Check before modifying anything, since each depot adds a trip.
+        if (numTrips() >= maxTrips())
+            throw std::invalid_argument(
+                "Vehicle cannot perform this many trips.");
+
         if (depots_.size() == depots_.capacity())  // then we reallocate and
         {                                          // must update references
             depots_.reserve(depots_.size() + 1);
@@ -110,9 +115,6 @@ void Route::insert(size_t idx, Node *node)
         break;
     }
 
-    if (numTrips() > maxTrips())
-        throw std::invalid_argument("Vehicle cannot perform this many trips.");
-
     nodes.insert(nodes.begin() + idx, node);
     node->assign(this, idx, nodes[idx - 1]->trip());
 
-- 
2.43.0


From 1d2d2bab073c71ff713529a81886ae3ebf577503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:42 +0000
Subject: [PATCH 05/18] fix: clear promising marks also when perturbing with
 zero strength

---
 pyvrp/cpp/search/PerturbationManager.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyvrp/cpp/search/PerturbationManager.cpp b/pyvrp/cpp/search/PerturbationManager.cpp
index b90b9f6..a551102 100644
--- a/pyvrp/cpp/search/PerturbationManager.cpp
+++ b/pyvrp/cpp/search/PerturbationManager.cpp
@@ -40,13 +40,13 @@ void PerturbationManager::perturb(Solution &solution,
                                   SearchSpace &searchSpace,
                                   CostEvaluator const &costEvaluator) const
 {
-    if (numPerturbations_ == 0)  // nothing to do
-        return;
-
     // Clear the set of promising nodes. Perturbation determines the initial
     // set of promising nodes for further (local search) improvement.
     searchSpace.unmarkAllPromising();
 
+    if (numPerturbations_ == 0)  // nothing to do
+        return;
+
     auto const insert = [&](Route::Node *node)  // insert and mark promising
     {
         assert(node->isClient() || node->isPickup());
-- 
2.43.0


From 9483c5d060a4efad6d6d4dc4f6eda9aad170f972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:31 +0000
Subject: [PATCH 06/18] fix: keep client groups and routes alive while
 iterating over them

---
 pyvrp/cpp/bindings.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyvrp/cpp/bindings.cpp b/pyvrp/cpp/bindings.cpp
index a840b9b..2bbfc15 100644
--- a/pyvrp/cpp/bindings.cpp
+++ b/pyvrp/cpp/bindings.cpp
@@ -477,6 +477,7 @@ PYBIND11_MODULE(_pyvrp, m)
             "__iter__",
             [](ClientGroup const &group)
             { return py::make_iterator(group.begin(), group.end()); },
+            py::keep_alive<0, 1>(),  // keep group alive while iterating
             py::return_value_policy::reference_internal)
         .def(
             "__str__",
@@ -944,6 +945,7 @@ PYBIND11_MODULE(_pyvrp, m)
             "__iter__",
             [](Route const &route)
             { return py::make_iterator(route.begin(), route.end()); },
+            py::keep_alive<0, 1>(),  // keep route alive while iterating
             py::return_value_policy::reference_internal)
         .def(
             "__getitem__",
-- 
2.43.0


From 84a9a5fa8806b02ca349e3165b9fb0063676c09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:31 +0000
Subject: [PATCH 07/18] fix: do not let client groups obtained from problem
 data modify that data

---
 pyvrp/cpp/bindings.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyvrp/cpp/bindings.cpp b/pyvrp/cpp/bindings.cpp
index 2bbfc15..54b7e79 100644
--- a/pyvrp/cpp/bindings.cpp
+++ b/pyvrp/cpp/bindings.cpp
@@ -699,7 +699,7 @@ PYBIND11_MODULE(_pyvrp, m)
              DOC(pyvrp, ProblemData, depots))
         .def("groups",
              &ProblemData::groups,
-             py::return_value_policy::reference_internal,
+             py::return_value_policy::copy,  // client groups are mutable
              DOC(pyvrp, ProblemData, groups))
         .def("shipments",
              &ProblemData::shipments,
@@ -756,7 +756,7 @@ PYBIND11_MODULE(_pyvrp, m)
         .def("group",
              &ProblemData::group,
              py::arg("group"),
-             py::return_value_policy::reference_internal,
+             py::return_value_policy::copy,  // client groups are mutable
              DOC(pyvrp, ProblemData, group))
         .def(
             "shipment",
-- 
2.43.0


From ed8eca2094bf968925a1b427befdecbd54fd5d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:38 +0000
Subject: [PATCH 08/18] fix: include uncollected prizes in Solution equality,
 as its hash does

Two solutions with the same routes, of instances that differ in prizes only,
compared equal but had different hashes.
---
 pyvrp/cpp/Solution.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyvrp/cpp/Solution.cpp b/pyvrp/cpp/Solution.cpp
index 5838e20..8a391a6 100644
--- a/pyvrp/cpp/Solution.cpp
+++ b/pyvrp/cpp/Solution.cpp
@@ -139,6 +139,7 @@ bool Solution::operator==(Solution const &other) const
                               && distanceCost_ == other.distanceCost_
                               && durationCost_ == other.durationCost_
                               && timeWarp_ == other.timeWarp_
+                              && uncollectedPrizes_ == other.uncollectedPrizes_
                               && numClients_ == other.numClients_
                               && numShipments_ == other.numShipments_;
     // clang-format on
-- 
2.43.0


From 6910cfd5b9a55d104ec219c77bb65ceb03ae65b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:46:44 +0000
Subject: [PATCH 09/18] fix: evaluate reload depot time windows together with
 the next trip's release time

Search routes restricted the arrival at a reload depot to its time window
before taking the release time of the next trip into account, whereas a
Route's schedule applies both together when the next trip starts. Move
evaluations were thus off when a trip is released after its depot closes.
---
 pyvrp/cpp/search/DepotSegment.h |  2 +-
 pyvrp/cpp/search/Route.cpp      | 21 +++++++++++----------
 pyvrp/cpp/search/Route.h        |  6 +++---
 3 files changed, 15 insertions(+), 14 deletions(-)

diff --git a/pyvrp/cpp/search/DepotSegment.h b/pyvrp/cpp/search/DepotSegment.h
index 2a407d8..4258aa7 100644
--- a/pyvrp/cpp/search/DepotSegment.h
+++ b/pyvrp/cpp/search/DepotSegment.h
@@ -49,7 +49,7 @@ public:
 
     pyvrp::DurationSegment duration([[maybe_unused]] size_t profile) const
     {
-        return {depot_, 0};  // service is handled while evaluating proposal
+        return {};  // depot is handled while evaluating proposal
     }
 
     pyvrp::LoadSegment load([[maybe_unused]] size_t dimension) const
diff --git a/pyvrp/cpp/search/Route.cpp b/pyvrp/cpp/search/Route.cpp
index 86b0f8e..1919bad 100644
--- a/pyvrp/cpp/search/Route.cpp
+++ b/pyvrp/cpp/search/Route.cpp
@@ -264,7 +264,10 @@ void Route::update()
         switch (node->type())
         {
         case Activity::ActivityType::DEPOT:
-            durAt[idx] = {data.depot(node->idx()), 0};
+            // Arrival at the depot is not restricted. Its time window applies
+            // when we start the next trip, together with that trip's release
+            // time, and is handled there.
+            durAt[idx] = {};
             break;
 
         case Activity::ActivityType::CLIENT:
@@ -294,10 +297,11 @@ void Route::update()
 
         if (nodes[prev]->isReloadDepot())
         {
-            // Then we need to first account for depot service before we merge
-            // with the idx segment.
+            // Then we need to first account for the depot's time window and
+            // service before we merge with the idx segment.
             auto const &depot = data.depot(nodes[prev]->idx());
-            before = DurationSegment::merge(before, {depot.serviceDuration});
+            before = DurationSegment::merge(before,
+                                            {depot, depot.serviceDuration});
         }
 
         auto const edgeDur = durations(locations[prev], locations[idx]);
@@ -313,18 +317,15 @@ void Route::update()
                          ? durAfter[next].finaliseFront()
                          : durAfter[next];
 
+        auto at = durAt[idx];
         if (nodes[idx]->isReloadDepot())
         {
-            // This is not entirely correct logically, since we now do service
-            // at idx after already travelling to next, but that's OK since
-            // we're essentially using the trick of adding service to the
-            // outgoing edge.
             auto const &depot = data.depot(nodes[idx]->idx());
-            after = DurationSegment::merge({depot.serviceDuration}, after);
+            at = {depot, depot.serviceDuration};
         }
 
         auto const edgeDur = durations(locations[idx], locations[next]);
-        durAfter[idx] = DurationSegment::merge(edgeDur, durAt[idx], after);
+        durAfter[idx] = DurationSegment::merge(edgeDur, at, after);
     }
 
     // Load.
diff --git a/pyvrp/cpp/search/Route.h b/pyvrp/cpp/search/Route.h
index 058d654..8a95456 100644
--- a/pyvrp/cpp/search/Route.h
+++ b/pyvrp/cpp/search/Route.h
@@ -924,10 +924,10 @@ DurationSegment Route::SegmentBetween::duration(size_t profile) const
     auto const &mat = route_.data.durationMatrix(profile);
     auto segment = route_.durAt[start];
 
-    if (size() != 1 && route_[start]->isReloadDepot())  // first need to add the
-    {                                                   // start depot's service
+    if (size() != 1 && route_[start]->isReloadDepot())  // then need to add the
+    {  // start depot's time window and service
         auto const &depot = route_.data.depot(route_[start]->idx());
-        segment = DurationSegment::merge(segment, {depot.serviceDuration});
+        segment = {depot, depot.serviceDuration};
     }
 
     for (size_t step = start; step != end; ++step)
-- 
2.43.0


From ee901df9cbd7ce06f08148fdc2769eb5569add6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:21:43 +0000
Subject: [PATCH 10/18] fix: read shipment delivery locations also when there
 are multiple depots

The paired indices in the PICKUP_AND_DELIVERY section are one-based indices
into all locations, irrespective of the number of depots.
---
 pyvrp/read.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pyvrp/read.py b/pyvrp/read.py
index e11bea3..32217f1 100644
--- a/pyvrp/read.py
+++ b/pyvrp/read.py
@@ -574,7 +574,6 @@ class _ProblemDataBuilder:
         return [ClientGroup(group) for group in groups]
 
     def _shipments(self) -> list[Shipment]:
-        num_depots = self.parser.num_depots
         data = self.parser.shipments()
 
         shipments = []
@@ -582,11 +581,11 @@ class _ProblemDataBuilder:
             *_, pick_idx, deliv_idx = pickup_data
 
             if pick_idx == 0 and deliv_idx > 0:  # parse PD pair
-                delivery_data = data[deliv_idx - num_depots]
+                delivery_data = data[deliv_idx - 1]  # zero-indexed
                 shipments.append(
                     Shipment(
                         pickup_location=idx,
-                        delivery_location=deliv_idx - num_depots,
+                        delivery_location=deliv_idx - 1,
                         pickup_tw_early=pickup_data[1],
                         pickup_tw_late=pickup_data[2],
                         pickup_service_duration=pickup_data[3],
-- 
2.43.0


From df8e02e2d5e83a392ba5e4bfd34050689be80ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:21:43 +0000
Subject: [PATCH 11/18] fix: read shipments also when their section contains
 non-integral values

---
 pyvrp/read.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyvrp/read.py b/pyvrp/read.py
index 32217f1..083a78b 100644
--- a/pyvrp/read.py
+++ b/pyvrp/read.py
@@ -578,7 +578,8 @@ class _ProblemDataBuilder:
 
         shipments = []
         for idx, pickup_data in enumerate(data):
-            *_, pick_idx, deliv_idx = pickup_data
+            # The whole section is parsed as floats if any value is.
+            pick_idx, deliv_idx = map(int, pickup_data[-2:])
 
             if pick_idx == 0 and deliv_idx > 0:  # parse PD pair
                 delivery_data = data[deliv_idx - 1]  # zero-indexed
@@ -593,7 +594,7 @@ class _ProblemDataBuilder:
                         delivery_tw_late=delivery_data[2],
                         delivery_service_duration=delivery_data[3],
                         amount=[pickup_data[0]],
-                        name=f"{delivery_data[-2]} -> {deliv_idx}",
+                        name=f"{int(delivery_data[-2])} -> {deliv_idx}",
                     )
                 )
 
-- 
2.43.0


From 7c525aba02fb4cec9ae35e862258523239970644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:26:37 +0000
Subject: [PATCH 12/18] fix: do not reduce the fleet below a single vehicle

Fleet minimisation raised a ValueError when demand does not already imply that
at least one vehicle is needed, e.g. on all instances without demand.
---
 pyvrp/minimise_fleet.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyvrp/minimise_fleet.py b/pyvrp/minimise_fleet.py
index 143a84e..1ec4dc6 100644
--- a/pyvrp/minimise_fleet.py
+++ b/pyvrp/minimise_fleet.py
@@ -82,7 +82,8 @@ def minimise_fleet(
         if best.num_routes() < data.num_vehicles:
             # Then we can make a bigger jump because more than one vehicle of
             # the feasible fleet was unused.
-            feas_fleet = fleet.replace(num_available=best.num_routes())
+            num_available = max(best.num_routes(), lower_bound)
+            feas_fleet = fleet.replace(num_available=num_available)
 
     return feas_fleet
 
@@ -95,8 +96,9 @@ def _lower_bound(data: ProblemData) -> int:
     # details.
 
     # Computes a bound based on packing delivery or pickup demands in the given
-    # vehicles over all load dimensions. The strongest bound is returned.
-    bound = 0
+    # vehicles over all load dimensions. The strongest bound is returned. At
+    # least one vehicle must always be available.
+    bound = 1
     for dim in range(data.num_load_dimensions):
         delivery = sum(c.delivery[dim] for c in data.clients())
         pickup = sum(c.pickup[dim] for c in data.clients())
-- 
2.43.0


From c97b846b851b5ba1047947d9c1990ce414074522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:45:07 +0000
Subject: [PATCH 13/18] fix: do not share the default perturbation manager
 between local searches

---
 pyvrp/search/LocalSearch.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyvrp/search/LocalSearch.py b/pyvrp/search/LocalSearch.py
index 8aa7e5a..f312387 100644
--- a/pyvrp/search/LocalSearch.py
+++ b/pyvrp/search/LocalSearch.py
@@ -31,6 +31,7 @@ class LocalSearch:
         granular neighbourhood.
     perturbation_manager
         Perturbation manager that handles perturbation during each invocation.
+        If not provided, a default will be used.
     """
 
     def __init__(
@@ -38,8 +39,12 @@ class LocalSearch:
         data: ProblemData,
         rng: RandomNumberGenerator,
         neighbours: dict[Activity, list[Activity]],
-        perturbation_manager: PerturbationManager = PerturbationManager(),
+        perturbation_manager: PerturbationManager | None = None,
     ):
+        if perturbation_manager is None:
+            # Not a default argument, since that'd be shared by all searches.
+            perturbation_manager = PerturbationManager()
+
         self._ls = _LocalSearch(data, neighbours, perturbation_manager)
         self._rng = rng
 
-- 
2.43.0


From 2de7782aeda43187b36cf2ef75b66c5aa8a89721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:48 +0000
Subject: [PATCH 14/18] fix: keep a search route alive while iterating over it

---
 pyvrp/cpp/search/bindings.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyvrp/cpp/search/bindings.cpp b/pyvrp/cpp/search/bindings.cpp
index a87d4d8..4422a9b 100644
--- a/pyvrp/cpp/search/bindings.cpp
+++ b/pyvrp/cpp/search/bindings.cpp
@@ -685,6 +685,7 @@ PYBIND11_MODULE(_search, m)
             "__iter__",
             [](Route const &route)
             { return py::make_iterator(route.begin(), route.end()); },
+            py::keep_alive<0, 1>(),  // keep route alive while iterating
             py::return_value_policy::reference_internal)
         .def("__len__", &Route::size)
         .def("__str__",
-- 
2.43.0


From f673c831530251d01ae71e6745dca0add41bc879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:18 +0000
Subject: [PATCH 15/18] fix: track load on board per trip in
 plot_route_schedule

The load was initialised with all deliveries of the route, also those of
later trips, and ignored the vehicle's initial load.
---
 pyvrp/plotting/plot_route_schedule.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/pyvrp/plotting/plot_route_schedule.py b/pyvrp/plotting/plot_route_schedule.py
index fabb732..6c33faa 100644
--- a/pyvrp/plotting/plot_route_schedule.py
+++ b/pyvrp/plotting/plot_route_schedule.py
@@ -55,9 +55,17 @@ def plot_route_schedule(
     serv_time = 0
     dist = 0
 
-    load = 0
+    # Load on board at the start of each trip: everything that is delivered to
+    # clients on that trip, and any initial load for the first one.
+    trip_loads = [0] * route.num_trips()
     if track_load:
-        load = route.delivery()[load_dimension]
+        trip_loads[0] += vehicle_type.initial_load[load_dimension]
+        for activity in route:
+            if activity.is_client():
+                client = data.client(activity.idx)
+                trip_loads[activity.trip] += client.delivery[load_dimension]
+
+    load = trip_loads[0]
 
     # Traces and objects used for plotting
     trace_time = []
@@ -81,6 +89,9 @@ def plot_route_schedule(
             case ActivityType.DEPOT:
                 stop = data.depot(activity.idx)  # type: ignore
 
+                if 0 < activity.trip < route.num_trips():  # is a reload
+                    load_diff = trip_loads[activity.trip] - load
+
             case ActivityType.CLIENT:
                 client = data.client(activity.idx)
                 stop = client  # type: ignore
-- 
2.43.0


From 2f19fe3c72d6324e8bab7afd67d213c2e6ee4d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:18 +0000
Subject: [PATCH 16/18] fix: plot the runtime trend line at its own iterations

The trend line was drawn starting at zero rather than at the first
iteration, so that it was shifted by one.
---
 pyvrp/plotting/plot_runtimes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvrp/plotting/plot_runtimes.py b/pyvrp/plotting/plot_runtimes.py
index d572ef1..73acdbc 100644
--- a/pyvrp/plotting/plot_runtimes.py
+++ b/pyvrp/plotting/plot_runtimes.py
@@ -23,7 +23,7 @@ def plot_runtimes(result: Result, ax: plt.Axes | None = None):
 
     if result.num_iterations > 1:  # need data to plot a trendline
         b, c = np.polyfit(x, result.stats.runtimes, 1)
-        ax.plot(b * x + c)
+        ax.plot(x, b * x + c)
 
     ax.set_xlim(left=0)
 
-- 
2.43.0


From d217e35663a976eee80094f69e0f97efd543e29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:18 +0000
Subject: [PATCH 17/18] fix: plot_time_windows when there are no clients

The empty array of time windows was one-dimensional, which raised an
IndexError.
---
 pyvrp/plotting/plot_time_windows.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyvrp/plotting/plot_time_windows.py b/pyvrp/plotting/plot_time_windows.py
index 7ec4bb9..19489b5 100644
--- a/pyvrp/plotting/plot_time_windows.py
+++ b/pyvrp/plotting/plot_time_windows.py
@@ -24,7 +24,8 @@ def plot_time_windows(
     if not ax:
         _, ax = plt.subplots()
 
-    tw = np.array([[c.tw_early, c.tw_late] for c in data.clients()])
+    tw = np.array([[c.tw_early, c.tw_late] for c in data.clients()], dtype=int)
+    tw = tw.reshape(-1, 2)  # also when there are no clients
 
     # Lexicographic sort so for equal start we get shorter TW first
     tw = tw[np.lexsort((tw[:, 1], tw[:, 0]))]
-- 
2.43.0


From 931e5d4e77a9f3fc587bca01e9443af4f9d1ca3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:18 +0000
Subject: [PATCH 18/18] fix: do not truncate penalties when initial values and
 bounds are integers

The penalties were then stored in an integer array, and every update was
rounded down. Small penalties could thus never increase.
---
 pyvrp/PenaltyManager.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyvrp/PenaltyManager.py b/pyvrp/PenaltyManager.py
index 8987eea..1d8ac58 100644
--- a/pyvrp/PenaltyManager.py
+++ b/pyvrp/PenaltyManager.py
@@ -161,6 +161,7 @@ class PenaltyManager:
             initial_penalties[0] + list(initial_penalties[1:]),
             params.min_penalty,
             params.max_penalty,
+            dtype=float,  # also when all of these are integers
         )
 
         # For each penalty dimension, track the recent violations and the
-- 
2.43.0

