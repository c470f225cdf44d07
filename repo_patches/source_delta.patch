From edd6a3c6e555d57e82f6c994032f63057b968229 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 16:29:40 +0000
Subject: [PATCH 01/26] fix: keep the later departure when boarding candidates
 at an access stop are less than the minimum waiting time apart

---
 .../src/reverse_calculation.cpp                   | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/connection_scan_algorithm/src/reverse_calculation.cpp b/connection_scan_algorithm/src/reverse_calculation.cpp
index 8a1d20c..b9acc95 100644
--- a/connection_scan_algorithm/src/reverse_calculation.cpp
+++ b/connection_scan_algorithm/src/reverse_calculation.cpp
@@ -11,7 +11,16 @@
 
 namespace TrRouting
 {
-    
+
+  // Whether boarding at candidate lets the traveller reach the stop later than boarding at current, considering the
+  // minimum waiting time of each of them
+  static bool isBetterBoarding(const Connection &current, const Connection &candidate, const CommonParameters &parameters)
+  {
+    const int currentTime   = current.getDepartureTime()   - current.getMinWaitingTimeOrDefault(parameters.getMinWaitingTimeSeconds());
+    const int candidateTime = candidate.getDepartureTime() - candidate.getMinWaitingTimeOrDefault(parameters.getMinWaitingTimeSeconds());
+    return currentTime < candidateTime;
+  }
+
   std::optional<std::tuple<int, std::reference_wrapper<const Node>>> Calculator::reverseCalculation(RouteParameters &parameters,
                                                                                                     std::unordered_map<Node::uid_t, JourneyStep> & reverseAccessJourneysSteps)
   {
@@ -149,7 +158,7 @@ namespace TrRouting
                      //TODO Really not sure this is equivalent
                      reverseAccessJourneysSteps.count(transferableNode.node.uid) == 0
                      || 
-                     reverseAccessJourneysSteps.at(transferableNode.node.uid).getFinalEnterConnection().value().get().getDepartureTime() <= connectionDepartureTime - connectionMinWaitingTimeSeconds
+                     isBetterBoarding(reverseAccessJourneysSteps.at(transferableNode.node.uid).getFinalEnterConnection().value().get(), *connection, parameters)
                     )
                   )
                   {                    
@@ -346,7 +355,7 @@ namespace TrRouting
                      //TODO Really not sure this is equivalent
                      reverseAccessJourneysSteps.count(transferableNode.node.uid) == 0
                      ||
-                     reverseAccessJourneysSteps.at(transferableNode.node.uid).getFinalEnterConnection().value().get().getDepartureTime() <= connectionDepartureTime - connectionMinWaitingTimeSeconds
+                     isBetterBoarding(reverseAccessJourneysSteps.at(transferableNode.node.uid).getFinalEnterConnection().value().get(), *connection, parameters)
                     )
                   )
                   {
-- 
2.43.0


From db6f88fc9f746c37491622ed29a5cda22142662c Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 16:30:47 +0000
Subject: [PATCH 02/26] fix: apply the requested minimum waiting time to
 arrival accessibility node times

---
 connection_scan_algorithm/src/reverse_journey.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/connection_scan_algorithm/src/reverse_journey.cpp b/connection_scan_algorithm/src/reverse_journey.cpp
index 218a32f..7fe744c 100644
--- a/connection_scan_algorithm/src/reverse_journey.cpp
+++ b/connection_scan_algorithm/src/reverse_journey.cpp
@@ -322,9 +322,9 @@ namespace TrRouting
       }
 
       if (reverseAccessJourneysSteps.at(resultingNode.uid).getFinalEnterConnection().has_value()) {
-        //TODO Should check taht MinWaiting is not -1 or use OrDefault(0)
         //TODO Could move this operation into a function of class Connection
-        int departureTimeD = reverseAccessJourneysSteps.at(resultingNode.uid).getFinalEnterConnection().value().get().getDepartureTime() - reverseAccessJourneysSteps.at(resultingNode.uid).getFinalEnterConnection().value().get().getMinWaitingTime();
+        const Connection & enterConnection = reverseAccessJourneysSteps.at(resultingNode.uid).getFinalEnterConnection().value().get();
+        int departureTimeD = enterConnection.getDepartureTime() - enterConnection.getMinWaitingTimeOrDefault(parameters.getMinWaitingTimeSeconds());
         if (arrivalTimeSeconds - departureTimeD <=  parameters.getMaxTotalTravelTimeSeconds()) {
           reachableNodesCount++;
 
-- 
2.43.0


From 2eb4165cb229fa096d4a372a89af4554652d2743 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 16:31:10 +0000
Subject: [PATCH 03/26] fix: transfer walking distance starts at 0, not -1

---
 connection_scan_algorithm/src/reverse_journey.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/connection_scan_algorithm/src/reverse_journey.cpp b/connection_scan_algorithm/src/reverse_journey.cpp
index 7fe744c..5282ccc 100644
--- a/connection_scan_algorithm/src/reverse_journey.cpp
+++ b/connection_scan_algorithm/src/reverse_journey.cpp
@@ -31,7 +31,7 @@ namespace TrRouting
     int totalTransferWaitingTime { 0}; int inVehicleTime          {-1};
     int totalDistance            { 0}; int distance               {-1};
     int inVehicleDistance        {-1}; int totalInVehicleDistance { 0}; int totalWalkingDistance { 0};
-    int totalTransferDistance    {-1}; int accessDistance         { 0}; int egressDistance       { 0};
+    int totalTransferDistance    { 0}; int accessDistance         { 0}; int egressDistance       { 0};
     int accessWalkingTime      {-1};
     int transferTime             {-1}; int egressWalkingTime      {-1};
     int waitingTime              {-1}; int accessWaitingTime      {-1};
-- 
2.43.0


From a8dfdf04fb04661e54e87ce50b2f048ad5f5d6b8 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 16:31:33 +0000
Subject: [PATCH 04/26] fix: a connection that may not be boarded (or alighted)
 is not a service from the origin (or to the destination)

---
 .../src/forward_calculation.cpp                      | 12 ++++++++++--
 .../src/reverse_calculation.cpp                      | 12 ++++++++++--
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/connection_scan_algorithm/src/forward_calculation.cpp b/connection_scan_algorithm/src/forward_calculation.cpp
index 2251bc8..675c1f7 100644
--- a/connection_scan_algorithm/src/forward_calculation.cpp
+++ b/connection_scan_algorithm/src/forward_calculation.cpp
@@ -155,7 +155,11 @@ namespace TrRouting
                 footpathIndex++;
               }
             }
-            reachableConnectionsCount++;
+            // only connections of trips that can be boarded (directly or earlier on the trip) give access to a service
+            if (currentTripQueryOverlay.enterConnection.has_value())
+            {
+              reachableConnectionsCount++;
+            }
           }
         }
       }
@@ -331,7 +335,11 @@ namespace TrRouting
                 footpathIndex++;
               }
             }
-            reachableConnectionsCount++;
+            // only connections of trips that can be boarded (directly or earlier on the trip) give access to a service
+            if (currentTripQueryOverlay.enterConnection.has_value())
+            {
+              reachableConnectionsCount++;
+            }
           }
         }
       }
diff --git a/connection_scan_algorithm/src/reverse_calculation.cpp b/connection_scan_algorithm/src/reverse_calculation.cpp
index b9acc95..4b0f7cb 100644
--- a/connection_scan_algorithm/src/reverse_calculation.cpp
+++ b/connection_scan_algorithm/src/reverse_calculation.cpp
@@ -185,7 +185,11 @@ namespace TrRouting
                 footpathIndex++;
               }
             }
-            reachableConnectionsCount++;
+            // only connections of trips that can be alighted (directly or later on the trip) give access to a service
+            if (currentTripQueryOverlay.exitConnection.has_value())
+            {
+              reachableConnectionsCount++;
+            }
           }
         }
       }
@@ -382,7 +386,11 @@ namespace TrRouting
                 footpathIndex++;
               }
             }
-            reachableConnectionsCount++;
+            // only connections of trips that can be alighted (directly or later on the trip) give access to a service
+            if (currentTripQueryOverlay.exitConnection.has_value())
+            {
+              reachableConnectionsCount++;
+            }
           }
         }
       }
-- 
2.43.0


From 3478c496755d9b33d0d7d88a1f3a4452ba55037d Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 16:33:45 +0000
Subject: [PATCH 05/26] fix: equal reverse labels must not replace each other,
 they can form a cycle that never ends

---
 connection_scan_algorithm/src/reverse_calculation.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/connection_scan_algorithm/src/reverse_calculation.cpp b/connection_scan_algorithm/src/reverse_calculation.cpp
index 4b0f7cb..589f263 100644
--- a/connection_scan_algorithm/src/reverse_calculation.cpp
+++ b/connection_scan_algorithm/src/reverse_calculation.cpp
@@ -144,7 +144,7 @@ namespace TrRouting
 
                 if (footpathTravelTime <= parameters.getMaxTransferWalkingTravelTimeSeconds())
                 {                  
-                  if (connectionDepartureTime - footpathTravelTime - connectionMinWaitingTimeSeconds >= nodesReverseTentativeTime.at(transferableNode.node.uid))
+                  if (connectionDepartureTime - footpathTravelTime - connectionMinWaitingTimeSeconds > nodesReverseTentativeTime.at(transferableNode.node.uid))
                   {
                     footpathDistance = nodeDeparture.reverseTransferableNodes.at(footpathIndex).distance;
                     nodesReverseTentativeTime[transferableNode.node.uid] = connectionDepartureTime - footpathTravelTime - connectionMinWaitingTimeSeconds;
@@ -345,7 +345,7 @@ namespace TrRouting
 
                 if (footpathTravelTime <= parameters.getMaxTransferWalkingTravelTimeSeconds())
                 {
-                  if (connectionDepartureTime - footpathTravelTime - connectionMinWaitingTimeSeconds >= nodesReverseTentativeTime.at(transferableNode.node.uid))
+                  if (connectionDepartureTime - footpathTravelTime - connectionMinWaitingTimeSeconds > nodesReverseTentativeTime.at(transferableNode.node.uid))
                   {
                     footpathDistance = nodeDeparture.reverseTransferableNodes.at(footpathIndex).distance;
                     nodesReverseTentativeTime[transferableNode.node.uid] = connectionDepartureTime - footpathTravelTime - connectionMinWaitingTimeSeconds;
-- 
2.43.0


From 5fbb16718460ac0b582730a74f32b70b14e2805f Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 16:34:40 +0000
Subject: [PATCH 06/26] fix: the reverse pass honours max_first_waiting_time
 even when it is below the minimum waiting time

---
 connection_scan_algorithm/src/reverse_calculation.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/connection_scan_algorithm/src/reverse_calculation.cpp b/connection_scan_algorithm/src/reverse_calculation.cpp
index 589f263..d7cdfe1 100644
--- a/connection_scan_algorithm/src/reverse_calculation.cpp
+++ b/connection_scan_algorithm/src/reverse_calculation.cpp
@@ -172,7 +172,7 @@ namespace TrRouting
                       if (
                         departureTimeSeconds == -1
                         ||
-                        parameters.getMaxFirstWaitingTimeSeconds() < connectionMinWaitingTimeSeconds
+                        parameters.getMaxFirstWaitingTimeSeconds() <= 0
                         ||
                         connectionDepartureTime - departureTimeSeconds - nodeDepartureInNodesAccessIte->second.time <= parameters.getMaxFirstWaitingTimeSeconds()
                       )
@@ -373,7 +373,7 @@ namespace TrRouting
                       if (
                         departureTimeSeconds == -1
                         ||
-                        parameters.getMaxFirstWaitingTimeSeconds() < connectionMinWaitingTimeSeconds
+                        parameters.getMaxFirstWaitingTimeSeconds() <= 0
                         ||
                         connectionDepartureTime - departureTimeSeconds - nodeDepartureInNodesAccessIte->second.time <= parameters.getMaxFirstWaitingTimeSeconds()
                       )
-- 
2.43.0


From 9afdac1ed66ac02b4e76fca2676ebb5fa7ce4eaf Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 16:37:19 +0000
Subject: [PATCH 07/26] fix: journey clean-up keeps legs and transfer walks
 consistent

---
 .../src/optimize_journey.cpp                  | 32 ++++++++++++-------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/connection_scan_algorithm/src/optimize_journey.cpp b/connection_scan_algorithm/src/optimize_journey.cpp
index ff60bc9..002301e 100644
--- a/connection_scan_algorithm/src/optimize_journey.cpp
+++ b/connection_scan_algorithm/src/optimize_journey.cpp
@@ -8,7 +8,15 @@
 
 namespace TrRouting
 {
-  
+
+  // Make journey step `to` directly follow step `from`, when both now meet at the same node: drop the steps in between
+  // and the walk after step `from`
+  static void joinJourneySteps(std::deque<JourneyStep> &journey, int from, int to)
+  {
+    journey[from].setTransferTimeDistance(0, 0);
+    journey.erase(journey.begin() + from + 1, journey.begin() + to);
+  }
+
   std::string Calculator::optimizeCasesToString(const std::vector<int> optimizeCases) {
 
     std::string optimizeCasesStr = "";
@@ -209,15 +217,10 @@ namespace TrRouting
             else
             {
               usedOptimizationCases.push_back(1);
-              if (toJourneyStepIdx - fromJourneyStepIdx == 1)
-              {
-                journey.erase(journey.begin() + toJourneyStepIdx);
-              }
-              else if (toJourneyStepIdx - fromJourneyStepIdx > 1) // could not split correctly...
-              {
-                journey.erase(journey.begin() + fromJourneyStepIdx + 1, journey.begin() + toJourneyStepIdx);
-              }
+              // The journey now continues from where the superfluous lines ended, with the walk that followed them
               journey[fromJourneyStepIdx].setFinalExitConnection(connection);
+              journey[fromJourneyStepIdx].copyTransferTimeDistance(journey[toJourneyStepIdx]);
+              journey.erase(journey.begin() + fromJourneyStepIdx + 1, journey.begin() + toJourneyStepIdx + 1);
 
               break;
             }
@@ -246,7 +249,7 @@ namespace TrRouting
             {
               usedOptimizationCases.push_back(2);
               journey[toJourneyStepIdx].setFinalEnterConnection(connection);
-              journey[toJourneyStepIdx].setTransferTimeDistance(0,0);
+              joinJourneySteps(journey, fromJourneyStepIdx, toJourneyStepIdx);
               break;
             }
           }
@@ -275,7 +278,7 @@ namespace TrRouting
             {
               usedOptimizationCases.push_back(3);
               journey[fromJourneyStepIdx].setFinalExitConnection(connection);
-              journey[toJourneyStepIdx].setTransferTimeDistance(0,0);
+              joinJourneySteps(journey, fromJourneyStepIdx, toJourneyStepIdx);
               break;
             }
           }
@@ -293,6 +296,7 @@ namespace TrRouting
         int departureJourneyStepSequenceEndIdx   = journey[toJourneyStepIdx].getFinalExitConnection().value().get().getSequenceInTrip() - 1;
 
         std::optional<std::reference_wrapper<const Connection>> exitConnection;
+        bool segmentWasCut {false};
 
         {
           for(size_t sequenceIdx = arrivalJourneyStepTrip.reverseConnections.size() - 1 - arrivalJourneyStepSequenceEndIdx; sequenceIdx <= arrivalJourneyStepTrip.reverseConnections.size() - 1 - arrivalJourneyStepSequenceStartIdx; ++sequenceIdx)
@@ -321,6 +325,7 @@ namespace TrRouting
                 usedOptimizationCases.push_back(4);
                 journey[fromJourneyStepIdx].setFinalExitConnection(exitConnection.value());
                 journey[toJourneyStepIdx].setFinalEnterConnection(connection);
+                segmentWasCut = true;
               }
               else
               {
@@ -329,6 +334,11 @@ namespace TrRouting
               }
             }
           }
+
+          if (segmentWasCut)
+          {
+            joinJourneySteps(journey, fromJourneyStepIdx, toJourneyStepIdx);
+          }
         }
 
       }
-- 
2.43.0


From a85515c36e0407e7a2fc345bc0eea2b167d8fe68 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 16:56:48 +0000
Subject: [PATCH 08/26] fix: a request in the 33rd hour must not read past the
 end of the hour index

---
 src/connection_set.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/connection_set.cpp b/src/connection_set.cpp
index 13c04b5..6e6aa0b 100644
--- a/src/connection_set.cpp
+++ b/src/connection_set.cpp
@@ -10,7 +10,7 @@ namespace TrRouting {
 
   std::vector<std::reference_wrapper<const Connection>>::const_iterator ConnectionSet::getForwardConnectionsBeginAtDepartureHour(int hour) const
   {
-    if (hour > CONNECTION_ITERATOR_CACHE_END_HOUR || hour  < CONNECTION_ITERATOR_CACHE_BEGIN_HOUR) {
+    if (hour >= CONNECTION_ITERATOR_CACHE_END_HOUR || hour  < CONNECTION_ITERATOR_CACHE_BEGIN_HOUR) {
       return forwardConnections.cend();
     }
 
@@ -40,7 +40,7 @@ namespace TrRouting {
          ite++) {
       // We can have a gap of multiple hours between 2 connections, so the current iterator
       // can be valid for multiple hour slots
-      while ((*ite).get().getDepartureTime() >= currentHour * 3600) {
+      while (currentHour < CONNECTION_ITERATOR_CACHE_END_HOUR && (*ite).get().getDepartureTime() >= currentHour * 3600) {
         forwardConnectionsBeginIteratorCache.push_back(ite);
         currentHour++;
       }
-- 
2.43.0


From 90e3929a7e7a7c0106fb416bcd244405f4de28db Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 17:03:08 +0000
Subject: [PATCH 09/26] fix: minimum waiting times beyond the range of a short
 are honoured

---
 .../src/forward_calculation.cpp                    |  4 ++--
 .../src/reverse_calculation.cpp                    |  8 ++++----
 include/connection.hpp                             | 14 +++++++++-----
 3 files changed, 15 insertions(+), 11 deletions(-)

diff --git a/connection_scan_algorithm/src/forward_calculation.cpp b/connection_scan_algorithm/src/forward_calculation.cpp
index 675c1f7..5ccd7cd 100644
--- a/connection_scan_algorithm/src/forward_calculation.cpp
+++ b/connection_scan_algorithm/src/forward_calculation.cpp
@@ -18,7 +18,7 @@ namespace TrRouting
     int   nodeDepartureTentativeTime      {MAX_INT};
     int   connectionDepartureTime         {-1};
     int   connectionArrivalTime           {-1};
-    short connectionMinWaitingTimeSeconds {-1};
+    int   connectionMinWaitingTimeSeconds {-1};
     //long long   footpathsRangeStart       {-1};
     //long long   footpathsRangeEnd         {-1};
     int   footpathIndex                   {-1};
@@ -213,7 +213,7 @@ namespace TrRouting
     int   nodeDepartureTentativeTime      {MAX_INT};
     int   connectionDepartureTime         {-1};
     int   connectionArrivalTime           {-1};
-    short connectionMinWaitingTimeSeconds {-1};
+    int   connectionMinWaitingTimeSeconds {-1};
     //long long   footpathsRangeStart       {-1};
     //long long   footpathsRangeEnd         {-1};
     int   footpathIndex                   {-1};
diff --git a/connection_scan_algorithm/src/reverse_calculation.cpp b/connection_scan_algorithm/src/reverse_calculation.cpp
index d7cdfe1..bcb26fe 100644
--- a/connection_scan_algorithm/src/reverse_calculation.cpp
+++ b/connection_scan_algorithm/src/reverse_calculation.cpp
@@ -28,8 +28,8 @@ namespace TrRouting
     std::optional<std::reference_wrapper<const Connection>> tripExitConnection;
     int  connectionDepartureTime          {-1};
     int  connectionArrivalTime            {-1};
-    short connectionMinWaitingTimeSeconds {-1};
-    short journeyConnectionMinWaitingTimeSeconds {-1};
+    int   connectionMinWaitingTimeSeconds {-1};
+    int   journeyConnectionMinWaitingTimeSeconds {-1};
     //long long  footpathsRangeStart        {-1};
     //long long  footpathsRangeEnd          {-1};
     int  footpathIndex                    {-1};
@@ -241,8 +241,8 @@ namespace TrRouting
     std::optional<std::reference_wrapper<const Connection>> tripExitConnection;
     int  connectionDepartureTime          {-1};
     int  connectionArrivalTime            {-1};
-    short connectionMinWaitingTimeSeconds {-1};
-    short journeyConnectionMinWaitingTimeSeconds {-1};
+    int   connectionMinWaitingTimeSeconds {-1};
+    int   journeyConnectionMinWaitingTimeSeconds {-1};
     //long long  footpathsRangeStart        {-1};
     //long long  footpathsRangeEnd          {-1};
     int  footpathIndex                    {-1};
diff --git a/include/connection.hpp b/include/connection.hpp
index 1c6adde..a642247 100644
--- a/include/connection.hpp
+++ b/include/connection.hpp
@@ -1,6 +1,8 @@
 #ifndef TR_CONNECTION
 #define TR_CONNECTION
 
+#include <algorithm>
+
 namespace TrRouting
 {
   class Node;
@@ -18,7 +20,7 @@ namespace TrRouting
                bool _canUnboard,
                int _sequenceInTrip,
                bool _canTransferSameLine,
-               short _minWaitingTimeSeconds) :
+               int _minWaitingTimeSeconds) :
       departureNode(_departureNode),
       arrivalNode(_arrivalNode),
       departureTimeSeconds(_departureTimeSeconds),
@@ -41,16 +43,18 @@ namespace TrRouting
     bool canUnboard() const {return canUnboardValue;}
     int getSequenceInTrip() const {return sequenceInTrip;}
     bool canTransferSameLine() const {return canTransferSameLineValue;}
-    short getMinWaitingTime() const {return minWaitingTimeSeconds;}
-    short getMinWaitingTimeOrDefault(short defaultMinWaitingTime) const {
+    int getMinWaitingTime() const {return minWaitingTimeSeconds;}
+    int getMinWaitingTimeOrDefault(int defaultMinWaitingTime) const {
       if (minWaitingTimeSeconds >= 0) {
         return minWaitingTimeSeconds;
       } else {
-        return defaultMinWaitingTime;
+        // The waiting time is added to and subtracted from times of day, stay far from the integer limits
+        return std::min(defaultMinWaitingTime, MAX_MIN_WAITING_TIME_SECONDS);
       }
     }
 
   private:
+    static constexpr int MAX_MIN_WAITING_TIME_SECONDS {1 << 30};
     const Node & departureNode;
     const Node & arrivalNode;
     int departureTimeSeconds;
@@ -60,7 +64,7 @@ namespace TrRouting
     bool canUnboardValue;
     int sequenceInTrip;
     bool canTransferSameLineValue;
-    short minWaitingTimeSeconds; // (-1 to inherit from parameters)
+    int minWaitingTimeSeconds; // (-1 to inherit from parameters)
   };
 
 }
-- 
2.43.0


From b1a1ffb35924c4e132b321430f6c4b61d1ca743c Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 17:13:48 +0000
Subject: [PATCH 10/26] Verification points in the per-scenario connection
 cache (TRROUTING_VERIF)

---
 src/transit_data.cpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/transit_data.cpp b/src/transit_data.cpp
index 587bc16..fdca4fb 100644
--- a/src/transit_data.cpp
+++ b/src/transit_data.cpp
@@ -18,6 +18,11 @@
 #include "connection_set.hpp"
 
 
+#ifdef TRROUTING_VERIF
+// Supplied by the verification build, see getConnectionsForScenario
+void trrouting_verif_point(const char *point);
+#endif
+
 namespace TrRouting {
 
   TransitData::TransitData(DataFetcher& fetcher, bool cacheAllScenarios) :
@@ -345,8 +350,14 @@ namespace TrRouting {
   std::shared_ptr<ConnectionSet> TransitData::getConnectionsForScenario(const Scenario & scenario) const {
     std::optional<std::shared_ptr<ConnectionSet>> optCurrentCache = scenarioConnectionCache->get(scenario.uuid);
     if (optCurrentCache.has_value()) {
+#ifdef TRROUTING_VERIF
+      trrouting_verif_point("hit");
+#endif
       return optCurrentCache.value();
     }
+#ifdef TRROUTING_VERIF
+    trrouting_verif_point("miss");
+#endif
 
     spdlog::debug("Computing connection cache for scenario {}...", boost::uuids::to_string(scenario.uuid));
     // Create the cache for scenario
@@ -466,7 +477,13 @@ namespace TrRouting {
     }
 
     std::shared_ptr<ConnectionSet> currentCache = std::make_shared<ConnectionSet>(cachedTrips, scenarioForwardConnections, scenarioReverseConnections);
+#ifdef TRROUTING_VERIF
+    trrouting_verif_point("publish");
+#endif
     scenarioConnectionCache->set(scenario.uuid, currentCache);
+#ifdef TRROUTING_VERIF
+    trrouting_verif_point("published");
+#endif
     return currentCache;
     
   }
-- 
2.43.0


From e436c0199a2d92f1ed4f1d8f42238a0fd52e7392 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 17:14:59 +0000
Subject: [PATCH 11/26] fix: request counters are shared by the server threads,
 make them atomic

---
 .../src/transit_routing_http_server.cpp                    | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/connection_scan_algorithm/src/transit_routing_http_server.cpp b/connection_scan_algorithm/src/transit_routing_http_server.cpp
index 67cc566..9f55a0c 100644
--- a/connection_scan_algorithm/src/transit_routing_http_server.cpp
+++ b/connection_scan_algorithm/src/transit_routing_http_server.cpp
@@ -4,6 +4,7 @@
 //Added for the json-example
 #define BOOST_SPIRIT_THREADSAFE
 
+#include <atomic>
 #include <vector>
 #include <algorithm>
 #include <string>
@@ -301,7 +302,7 @@ int main(int argc, char** argv) {
   // TODO Copy-pasted and adapted from /route/v1/transit. There's still a lot of common code. Application code should be extracted to common functions outside the web server
   server.resource["^/v2/route[/]?$"]["GET"]=[&server, &dataStatus, &transitData, &geoFilter](std::shared_ptr<HttpServer::Response> serverResponse, std::shared_ptr<HttpServer::Request> request) {
     // Have a global id to match the requests in the logs
-    static int routeRequestId = 0;
+    static std::atomic<int> routeRequestId {0};
     std::string response = getFastErrorResponse(dataStatus);
 
     if (!response.empty()) {
@@ -371,7 +372,7 @@ int main(int argc, char** argv) {
   // TODO Copy pasted from v2/route. There's a lot in common, it should be extracted to common class, just the response parser is different
   server.resource["^/v2/summary[/]?$"]["GET"]=[&server, &dataStatus, &transitData, &geoFilter](std::shared_ptr<HttpServer::Response> serverResponse, std::shared_ptr<HttpServer::Request> request) {
     // Have a global id to match the requests in the logs
-    static int summaryRequestId = 0;
+    static std::atomic<int> summaryRequestId {0};
 
     std::string response = getFastErrorResponse(dataStatus);
 
@@ -442,7 +443,7 @@ int main(int argc, char** argv) {
   // TODO Copy-pasted and adapted from /route/v1/transit. There's still a lot of common code. Application code should be extracted to common functions outside the web server
   server.resource["^/v2/accessibility[/]?$"]["GET"]=[&server, &dataStatus, &transitData, &geoFilter](std::shared_ptr<HttpServer::Response> serverResponse, std::shared_ptr<HttpServer::Request> request) {
     // Have a global id to match the requests in the logs
-    static int accessibilityRequestId = 0;
+    static std::atomic<int> accessibilityRequestId {0};
 
     std::string response = getFastErrorResponse(dataStatus);
 
-- 
2.43.0


From 465b095dc0a9b5e7eeae02536f844a04d1b5fbe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:03 +0000
Subject: [PATCH 12/26] fix: a cache refresh forgets the connection sets of the
 old data and recomputes the data status

---
 .../src/transit_routing_http_server.cpp          |  5 ++++-
 include/connection_cache.hpp                     |  4 ++++
 src/connection_cache.cpp                         | 11 +++++++++++
 src/transit_data.cpp                             | 16 ++++++++++------
 4 files changed, 29 insertions(+), 7 deletions(-)

diff --git a/connection_scan_algorithm/src/transit_routing_http_server.cpp b/connection_scan_algorithm/src/transit_routing_http_server.cpp
index 9f55a0c..86887ab 100644
--- a/connection_scan_algorithm/src/transit_routing_http_server.cpp
+++ b/connection_scan_algorithm/src/transit_routing_http_server.cpp
@@ -144,7 +144,7 @@ int main(int argc, char** argv) {
   server.config.thread_pool_size = programOptions.numberOfThreads;
 
   // updateCache:
-  server.resource["^/updateCache[/]?$"]["GET"]=[&server, &transitData](std::shared_ptr<HttpServer::Response> serverResponse, std::shared_ptr<HttpServer::Request> request) {
+  server.resource["^/updateCache[/]?$"]["GET"]=[&server, &dataStatus, &transitData](std::shared_ptr<HttpServer::Response> serverResponse, std::shared_ptr<HttpServer::Request> request) {
 
     std::string              response {""};
     std::vector<std::string> parametersWithValues;
@@ -260,6 +260,9 @@ int main(int argc, char** argv) {
       }
     }
 
+    // The data may have become available, or unavailable
+    dataStatus = transitData.getDataStatus();
+
     //TODO do this only if we had at least one correct name
     //Reinit some data after the update
     // TODO Just the schedules???
diff --git a/include/connection_cache.hpp b/include/connection_cache.hpp
index 5ed4e2d..56e4331 100644
--- a/include/connection_cache.hpp
+++ b/include/connection_cache.hpp
@@ -28,6 +28,8 @@ class ScenarioConnectionCache {
     
     virtual std::optional<std::shared_ptr<ConnectionSet>> get(boost::uuids::uuid uuid) const = 0;
     virtual void set(boost::uuids::uuid uuid, std::shared_ptr<ConnectionSet> cache) = 0;
+    /** Forget every connection set, because the data they were computed from is changing */
+    virtual void clear() = 0;
 };
 
 /**
@@ -45,6 +47,7 @@ class ScenarioConnectionCacheOne : public ScenarioConnectionCache {
 
     virtual std::optional<std::shared_ptr<ConnectionSet>> get(boost::uuids::uuid uuid) const;
     virtual void set(boost::uuids::uuid uuid, std::shared_ptr<ConnectionSet> cache);
+    virtual void clear();
 
   private:
   mutable std::shared_mutex mutex; //Reader/Writer locking
@@ -68,6 +71,7 @@ class ScenarioConnectionCacheAll : public ScenarioConnectionCache {
 
     virtual std::optional<std::shared_ptr<ConnectionSet>> get(boost::uuids::uuid uuid) const;
     virtual void set(boost::uuids::uuid uuid, std::shared_ptr<ConnectionSet> cache);
+    virtual void clear();
 
   private:
     mutable std::shared_mutex mutex; //Reader/Writer locking
diff --git a/src/connection_cache.cpp b/src/connection_cache.cpp
index 87c9959..ffb48ed 100644
--- a/src/connection_cache.cpp
+++ b/src/connection_cache.cpp
@@ -22,6 +22,12 @@ namespace TrRouting {
     lastConnection = cache;
   }
 
+  void ScenarioConnectionCacheOne::clear() {
+    std::unique_lock lock(mutex); //Exclusive lock when writing
+    lastUuid = std::nullopt;
+    lastConnection.reset();
+  }
+
   // ScenarioConnectionCacheAll
   std::optional<std::shared_ptr<ConnectionSet>> ScenarioConnectionCacheAll::get(boost::uuids::uuid uuid) const {
     std::shared_lock lock(mutex); //Sharing lock when reading
@@ -39,4 +45,9 @@ namespace TrRouting {
     std::unique_lock lock(mutex); //Exclusive lock when writing
     connectionSets[uuid] = cache;
   }
+
+  void ScenarioConnectionCacheAll::clear() {
+    std::unique_lock lock(mutex); //Exclusive lock when writing
+    connectionSets.clear();
+  }
 }
diff --git a/src/transit_data.cpp b/src/transit_data.cpp
index fdca4fb..a0e5930 100644
--- a/src/transit_data.cpp
+++ b/src/transit_data.cpp
@@ -28,12 +28,6 @@ namespace TrRouting {
   TransitData::TransitData(DataFetcher& fetcher, bool cacheAllScenarios) :
     dataFetcher(fetcher)
   {
-    DataStatus loadStatus = loadAllData();
-    if (loadStatus != DataStatus::READY) {
-      //TODO For now, don't throw on error because Transit server expect to get the dataStatus
-      //throw std::exception("Incomplete transit data");
-      spdlog::error("TransitData loading had error, object will not be valid");
-    }
     if (cacheAllScenarios) {
       scenarioConnectionCache = new ScenarioConnectionCacheAll();
       spdlog::info("Will cache all connectionSets");
@@ -41,6 +35,12 @@ namespace TrRouting {
       scenarioConnectionCache = new ScenarioConnectionCacheOne();
       spdlog::info("Will cache one connectionSet");
     }
+    DataStatus loadStatus = loadAllData();
+    if (loadStatus != DataStatus::READY) {
+      //TODO For now, don't throw on error because Transit server expect to get the dataStatus
+      //throw std::exception("Incomplete transit data");
+      spdlog::error("TransitData loading had error, object will not be valid");
+    }
   }
 
   TransitData::~TransitData() {
@@ -132,11 +132,15 @@ namespace TrRouting {
 
   int TransitData::updateScenarios(std::string customPath)
   {
+    // The cached connection sets were filtered with the previous definition of the scenarios
+    scenarioConnectionCache->clear();
     return dataFetcher.getScenarios(scenarios, getServices(), getLines(), getAgencies(), getNodes(), getModes(), customPath);
   }
 
   int TransitData::updateSchedules(std::string customPath)
   {
+    // The cached connection sets refer to the trips and connections which will be replaced
+    scenarioConnectionCache->clear();
     int ret =  dataFetcher.getSchedules(
       trips,
       getLines(),
-- 
2.43.0


From 67538874a3629e1d9471383c2868f3d71d62415d Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 18:13:42 +0000
Subject: [PATCH 13/26] fix: reject a walking table that does not have one
 entry per requested stop

A table with more entries than requested was read past the end of the list of
stops, one with fewer entries was silently used as if it were complete.
---
 src/osrmgeofilter.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/osrmgeofilter.cpp b/src/osrmgeofilter.cpp
index 6b95f1c..126fcc6 100644
--- a/src/osrmgeofilter.cpp
+++ b/src/osrmgeofilter.cpp
@@ -90,6 +90,14 @@ namespace TrRouting {
     {
       int numberOfDurations = responseJson["durations"][0].size();
       int numberOfDistances = responseJson["distances"][0].size();
+      int numberOfExpectedEntries = birdDistanceAccessibleNodeIndexes.size() + 1; // the point itself, then each node
+
+      if (numberOfDurations != numberOfExpectedEntries || numberOfDistances != numberOfExpectedEntries)
+      {
+        spdlog::error("Error in OSRM data: expected {} entries, got {} durations and {} distances", numberOfExpectedEntries, numberOfDurations, numberOfDistances);
+        //TODO See above TODO about handling the errors
+        return accessibleNodesFootpaths;
+      }
 
       if (numberOfDurations > 0 && numberOfDistances > 0)
       {
-- 
2.43.0


From b481df75b2077c35afc2e02a2cdfb2f1d5688097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:58 +0000
Subject: [PATCH 14/26] fix: name the missing or invalid place in accessibility
 errors

---
 connection_scan_algorithm/src/transit_routing_http_server.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/connection_scan_algorithm/src/transit_routing_http_server.cpp b/connection_scan_algorithm/src/transit_routing_http_server.cpp
index 86887ab..0d1ff05 100644
--- a/connection_scan_algorithm/src/transit_routing_http_server.cpp
+++ b/connection_scan_algorithm/src/transit_routing_http_server.cpp
@@ -93,8 +93,10 @@ std::string getResponseCode(ParameterException::Type type)
     case ParameterException::Type::MISSING_ORIGIN: return "MISSING_PARAM_ORIGIN";
     case ParameterException::Type::MISSING_DESTINATION: return "MISSING_PARAM_DESTINATION";
     case ParameterException::Type::MISSING_TIME_OF_TRIP: return "MISSING_PARAM_TIME_OF_TRIP";
+    case ParameterException::Type::MISSING_PLACE: return "MISSING_PARAM_PLACE";
     case ParameterException::Type::INVALID_ORIGIN: return "INVALID_ORIGIN";
     case ParameterException::Type::INVALID_DESTINATION: return "INVALID_DESTINATION";
+    case ParameterException::Type::INVALID_PLACE: return "INVALID_PLACE";
     case ParameterException::Type::INVALID_NUMERICAL_DATA: return "INVALID_NUMERICAL_DATA";
     default: return "PARAM_ERROR_UNKNOWN";
   }
-- 
2.43.0


From 3b8a40df9b938bbbee30de3a33ad39f7652b4991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:58 +0000
Subject: [PATCH 15/26] fix: a malformed scenario_id is reported as a missing
 scenario

---
 .../src/parameters/common_parameters.cpp              | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/connection_scan_algorithm/src/parameters/common_parameters.cpp b/connection_scan_algorithm/src/parameters/common_parameters.cpp
index 7723ea8..8d66d35 100644
--- a/connection_scan_algorithm/src/parameters/common_parameters.cpp
+++ b/connection_scan_algorithm/src/parameters/common_parameters.cpp
@@ -105,7 +105,16 @@ namespace TrRouting
       // scenario:
       else if (parameterWithValue.first == "scenario_id")
       {
-        boost::uuids::uuid scenarioUuid  = uuidGenerator(parameterWithValue.second);
+        boost::uuids::uuid scenarioUuid;
+        try
+        {
+          scenarioUuid = uuidGenerator(parameterWithValue.second);
+        }
+        catch (const std::exception &)
+        {
+          // Not a valid identifier, so it does not identify any scenario
+          throw ParameterException(ParameterException::Type::MISSING_SCENARIO);
+        }
 
         auto scenarioIte = scenarios.find(scenarioUuid);
         if (scenarioIte != scenarios.end())
-- 
2.43.0


From d83fde26c05d15043c25e17dec06cafb0993da4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:12 +0000
Subject: [PATCH 16/26] fix: reject numbers and coordinates followed by
 garbage, and non-finite coordinates

---
 .../parameters/accessibility_parameters.cpp   |  2 +-
 .../src/parameters/common_parameters.cpp      | 20 ++++++++++++++++++-
 .../src/parameters/route_parameters.cpp       |  4 ++--
 include/parameters.hpp                        | 11 ++++++++++
 4 files changed, 33 insertions(+), 4 deletions(-)

diff --git a/connection_scan_algorithm/src/parameters/accessibility_parameters.cpp b/connection_scan_algorithm/src/parameters/accessibility_parameters.cpp
index c1a9c30..8ebf21c 100644
--- a/connection_scan_algorithm/src/parameters/accessibility_parameters.cpp
+++ b/connection_scan_algorithm/src/parameters/accessibility_parameters.cpp
@@ -60,7 +60,7 @@ namespace TrRouting
           {
             throw ParameterException(ParameterException::Type::INVALID_PLACE);
           }
-          place = Point(std::stod(latitudeLongitudeVector[1]), std::stod(latitudeLongitudeVector[0]));
+          place = Point(getCoordinateValue(latitudeLongitudeVector[1]), getCoordinateValue(latitudeLongitudeVector[0]));
         }
         catch (...)
         {
diff --git a/connection_scan_algorithm/src/parameters/common_parameters.cpp b/connection_scan_algorithm/src/parameters/common_parameters.cpp
index 8d66d35..66a60f7 100644
--- a/connection_scan_algorithm/src/parameters/common_parameters.cpp
+++ b/connection_scan_algorithm/src/parameters/common_parameters.cpp
@@ -1,3 +1,4 @@
+#include <cmath>
 #include <boost/uuid/string_generator.hpp>
 #include <boost/algorithm/string.hpp>
 
@@ -56,7 +57,14 @@ namespace TrRouting
   int CommonParameters::getIntegerValue(std::string strValue) {
     try
     {
-      return std::stoi(strValue);
+      size_t parsedLength = 0;
+      int value = std::stoi(strValue, &parsedLength);
+      if (parsedLength != strValue.size())
+      {
+        // There is something after the number
+        throw ParameterException(ParameterException::Type::INVALID_NUMERICAL_DATA);
+      }
+      return value;
     }
     catch (...)
     {
@@ -65,6 +73,16 @@ namespace TrRouting
     }
   }
 
+  double CommonParameters::getCoordinateValue(std::string strValue) {
+    size_t parsedLength = 0;
+    double value = std::stod(strValue, &parsedLength);
+    if (parsedLength != strValue.size() || !std::isfinite(value))
+    {
+      throw std::invalid_argument("not a coordinate: " + strValue);
+    }
+    return value;
+  }
+
   CommonParameters CommonParameters::createCommonParameter(std::vector<std::pair<std::string, std::string>> &parameters, const std::map<boost::uuids::uuid, Scenario> &scenarios)
   {
     boost::uuids::string_generator uuidGenerator;
diff --git a/connection_scan_algorithm/src/parameters/route_parameters.cpp b/connection_scan_algorithm/src/parameters/route_parameters.cpp
index 0120005..9b0415d 100644
--- a/connection_scan_algorithm/src/parameters/route_parameters.cpp
+++ b/connection_scan_algorithm/src/parameters/route_parameters.cpp
@@ -79,7 +79,7 @@ namespace TrRouting
           {
             throw ParameterException(ParameterException::Type::INVALID_ORIGIN);
           }
-          origin = Point(std::stod(latitudeLongitudeVector[1]), std::stod(latitudeLongitudeVector[0]));
+          origin = Point(getCoordinateValue(latitudeLongitudeVector[1]), getCoordinateValue(latitudeLongitudeVector[0]));
         }
         catch (...)
         {
@@ -95,7 +95,7 @@ namespace TrRouting
           {
             throw ParameterException(ParameterException::Type::INVALID_DESTINATION);
           }
-          destination = Point(std::stod(latitudeLongitudeVector[1]), std::stod(latitudeLongitudeVector[0]));
+          destination = Point(getCoordinateValue(latitudeLongitudeVector[1]), getCoordinateValue(latitudeLongitudeVector[0]));
         }
         catch (...)
         {
diff --git a/include/parameters.hpp b/include/parameters.hpp
index 2b741e0..4bef649 100644
--- a/include/parameters.hpp
+++ b/include/parameters.hpp
@@ -152,6 +152,17 @@ namespace TrRouting
        * @return int The converted integer
        */
       static int getIntegerValue(std::string strValue);
+
+      /**
+       * @brief Helper function to get a coordinate from a string. The whole
+       * string must be a finite number, otherwise a standard exception is
+       * thrown, that the caller should convert to the proper
+       * ParameterException type for the parameter being parsed.
+       *
+       * @param strValue Coordinate string value
+       * @return double The converted coordinate
+       */
+      static double getCoordinateValue(std::string strValue);
   };
 
   class RouteParameters : public CommonParameters {
-- 
2.43.0


From 25c9c943bb6ed3c987a2de2a0411388b4dbd181f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:57 +0000
Subject: [PATCH 17/26] fix: /updateCache values may contain an equals sign

---
 .../src/transit_routing_http_server.cpp          | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/connection_scan_algorithm/src/transit_routing_http_server.cpp b/connection_scan_algorithm/src/transit_routing_http_server.cpp
index 0d1ff05..2db6d49 100644
--- a/connection_scan_algorithm/src/transit_routing_http_server.cpp
+++ b/connection_scan_algorithm/src/transit_routing_http_server.cpp
@@ -149,9 +149,7 @@ int main(int argc, char** argv) {
   server.resource["^/updateCache[/]?$"]["GET"]=[&server, &dataStatus, &transitData](std::shared_ptr<HttpServer::Response> serverResponse, std::shared_ptr<HttpServer::Request> request) {
 
     std::string              response {""};
-    std::vector<std::string> parametersWithValues;
-    std::vector<std::string> parameterWithValueVector;
-    std::string              queryString;
+    std::vector<std::pair<std::string, std::string>> parametersWithValues;
     std::string              customCacheDirectoryPath {""};
     std::string              cacheNamesStr {""};
     std::vector<std::string> cacheNames;
@@ -161,26 +159,24 @@ int main(int argc, char** argv) {
     auto queryFields = request->parse_query_string();
     for(auto &field : queryFields)
     {
-      parametersWithValues.push_back(field.first + "=" + field.second);
+      parametersWithValues.push_back(std::make_pair(field.first, field.second));
     }
 
     for(auto & parameterWithValue : parametersWithValues)
     {
-      boost::split(parameterWithValueVector, parameterWithValue, boost::is_any_of("="));
-
-      if (parameterWithValueVector[0] == "names" || parameterWithValueVector[0] == "caches" || parameterWithValueVector[0] == "cache_names" || parameterWithValueVector[0] == "name" || parameterWithValueVector[0] == "cache" || parameterWithValueVector[0] == "cache_name")
+      if (parameterWithValue.first == "names" || parameterWithValue.first == "caches" || parameterWithValue.first == "cache_names" || parameterWithValue.first == "name" || parameterWithValue.first == "cache" || parameterWithValue.first == "cache_name")
       {
 
-        boost::split(cacheNamesVector, parameterWithValueVector[1], boost::is_any_of(","));
+        boost::split(cacheNamesVector, parameterWithValue.second, boost::is_any_of(","));
         for(std::string cacheName : cacheNamesVector)
         {
           cacheNames.push_back(cacheName);
         }
         continue;
       }
-      if (parameterWithValueVector[0] == "path" || parameterWithValueVector[0] == "custom_path" || parameterWithValueVector[0] == "custom_cache_path")
+      if (parameterWithValue.first == "path" || parameterWithValue.first == "custom_path" || parameterWithValue.first == "custom_cache_path")
       {
-        customCacheDirectoryPath = parameterWithValueVector[1];
+        customCacheDirectoryPath = parameterWithValue.second;
         continue;
       }
     }
-- 
2.43.0


From 7c3aa5ee61be4257a8b91d129dbb8bc5f79d848a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:57 +0000
Subject: [PATCH 18/26] fix: /updateCache answers an error without a known
 cache name and names only known ones

---
 .../src/transit_routing_http_server.cpp                   | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/connection_scan_algorithm/src/transit_routing_http_server.cpp b/connection_scan_algorithm/src/transit_routing_http_server.cpp
index 2db6d49..4b62fc2 100644
--- a/connection_scan_algorithm/src/transit_routing_http_server.cpp
+++ b/connection_scan_algorithm/src/transit_routing_http_server.cpp
@@ -181,10 +181,10 @@ int main(int argc, char** argv) {
       }
     }
 
-    bool correctCacheName {false};
     //TODO Merge this and the preparations.cpp code
     for(std::string cacheName : cacheNames)
     {
+      bool correctCacheName {false};
       if (cacheName == "data_sources" || cacheName == "all")
       {
         correctCacheName = true;
@@ -250,7 +250,6 @@ int main(int argc, char** argv) {
         transitData.updateSchedules(customCacheDirectoryPath);
       }
 
-      //TODO This is incorrect if we have multiple name and the second one is wrong, correctCacheName is always true
       if (correctCacheName)
       {
         cacheNamesStr += cacheName;
@@ -261,10 +260,7 @@ int main(int argc, char** argv) {
     // The data may have become available, or unavailable
     dataStatus = transitData.getDataStatus();
 
-    //TODO do this only if we had at least one correct name
-    //Reinit some data after the update
-    // TODO Just the schedules???
-    if (cacheNames.size() > 0)
+    if (!cacheNamesStr.empty())
     {
       // Remove last ","
       cacheNamesStr.pop_back();
-- 
2.43.0


From 97b3247c7d96d1eb87f8ba2301f63fc35fabf519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:57 +0000
Subject: [PATCH 19/26] fix: escape the custom path in the answer of
 /updateCache

---
 connection_scan_algorithm/src/transit_routing_http_server.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/connection_scan_algorithm/src/transit_routing_http_server.cpp b/connection_scan_algorithm/src/transit_routing_http_server.cpp
index 4b62fc2..3bec340 100644
--- a/connection_scan_algorithm/src/transit_routing_http_server.cpp
+++ b/connection_scan_algorithm/src/transit_routing_http_server.cpp
@@ -264,7 +264,7 @@ int main(int argc, char** argv) {
     {
       // Remove last ","
       cacheNamesStr.pop_back();
-      response = "{\"status\": \"success\", \"cache_names\": \"" + cacheNamesStr + "\", \"custom_cache_path\": \"" + customCacheDirectoryPath + "\"}";
+      response = "{\"status\": \"success\", \"cache_names\": \"" + cacheNamesStr + "\", \"custom_cache_path\": " + nlohmann::json(customCacheDirectoryPath).dump(-1, ' ', false, nlohmann::json::error_handler_t::replace) + "}";
     }
     else
     {
-- 
2.43.0


From be8cb1add5f047d2315d9bf9e2abb4ee7177fc19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:04 +0000
Subject: [PATCH 20/26] fix: refreshing a cache also refreshes the caches which
 refer to its objects

---
 .../src/transit_routing_http_server.cpp       | 24 ++++++++++---------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/connection_scan_algorithm/src/transit_routing_http_server.cpp b/connection_scan_algorithm/src/transit_routing_http_server.cpp
index 3bec340..89b7f67 100644
--- a/connection_scan_algorithm/src/transit_routing_http_server.cpp
+++ b/connection_scan_algorithm/src/transit_routing_http_server.cpp
@@ -185,6 +185,13 @@ int main(int argc, char** argv) {
     for(std::string cacheName : cacheNames)
     {
       bool correctCacheName {false};
+      // Objects refer to objects of other caches: refreshing a cache also
+      // refreshes those that refer to it, in the order of their dependencies
+      if (cacheName == "nodes" || cacheName == "all")
+      {
+        correctCacheName = true;
+        transitData.updateNodes(customCacheDirectoryPath);
+      }
       if (cacheName == "data_sources" || cacheName == "all")
       {
         correctCacheName = true;
@@ -197,12 +204,12 @@ int main(int argc, char** argv) {
         transitData.updateHouseholds(customCacheDirectoryPath);
       }
       */
-      if (cacheName == "persons" || cacheName == "all")
+      if (cacheName == "persons" || cacheName == "data_sources" || cacheName == "all")
       {
         correctCacheName = true;
         transitData.updatePersons(customCacheDirectoryPath);
       }
-      if (cacheName == "od_trips" || cacheName == "all")
+      if (cacheName == "od_trips" || cacheName == "data_sources" || cacheName == "persons" || cacheName == "nodes" || cacheName == "all")
       {
         correctCacheName = true;
         transitData.updateOdTrips(customCacheDirectoryPath);
@@ -224,27 +231,22 @@ int main(int argc, char** argv) {
         correctCacheName = true;
         transitData.updateServices(customCacheDirectoryPath);
       }
-      if (cacheName == "nodes" || cacheName == "all")
-      {
-        correctCacheName = true;
-        transitData.updateNodes(customCacheDirectoryPath);
-      }
-      if (cacheName == "lines" || cacheName == "all")
+      if (cacheName == "lines" || cacheName == "agencies" || cacheName == "all")
       {
         correctCacheName = true;
         transitData.updateLines(customCacheDirectoryPath);
       }
-      if (cacheName == "paths" || cacheName == "all")
+      if (cacheName == "paths" || cacheName == "agencies" || cacheName == "lines" || cacheName == "nodes" || cacheName == "all")
       {
         correctCacheName = true;
         transitData.updatePaths(customCacheDirectoryPath);
       }
-      if (cacheName == "scenarios" || cacheName == "all")
+      if (cacheName == "scenarios" || cacheName == "agencies" || cacheName == "services" || cacheName == "lines" || cacheName == "nodes" || cacheName == "all")
       {
         correctCacheName = true;
         transitData.updateScenarios(customCacheDirectoryPath);
       }
-      if (cacheName == "schedules" || cacheName == "all")
+      if (cacheName == "schedules" || cacheName == "agencies" || cacheName == "services" || cacheName == "lines" || cacheName == "paths" || cacheName == "nodes" || cacheName == "all")
       {
         correctCacheName = true;
         transitData.updateSchedules(customCacheDirectoryPath);
-- 
2.43.0


From b28eb8081cc3305b3d41c845b15583536105bc6e Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:45:29 +0000
Subject: [PATCH 21/26] fix: a line file with unknown services or paths, bad
 identifiers or mismatched stop times must not end the server

---
 src/trips_and_connections_cache_fetcher.cpp | 48 +++++++++++++++++----
 1 file changed, 40 insertions(+), 8 deletions(-)

diff --git a/src/trips_and_connections_cache_fetcher.cpp b/src/trips_and_connections_cache_fetcher.cpp
index b1dfb94..b35c32c 100644
--- a/src/trips_and_connections_cache_fetcher.cpp
+++ b/src/trips_and_connections_cache_fetcher.cpp
@@ -63,7 +63,13 @@ namespace TrRouting
         for (const auto & schedule : schedules)
         {
           std::string serviceUuidStr = schedule.getServiceUuid();
-          auto & service  = services.at(uuidGenerator(serviceUuidStr));
+          const auto serviceIte = services.find(uuidGenerator(serviceUuidStr));
+          if (serviceIte == services.end())
+          {
+            spdlog::error("Unknown service {} in line cache file {}, ignoring its trips", serviceUuidStr, cacheFilePath);
+            continue;
+          }
+          const Service & service = serviceIte->second;
 
           const auto periods {schedule.getPeriods()};
           for (const auto & period : periods)
@@ -75,8 +81,35 @@ namespace TrRouting
               pathUuidStr  = capnpTrip.getPathUuid();
               tripUuid     = uuidGenerator(tripUuidStr);
               pathUuid     = uuidGenerator(pathUuidStr);
-              Path &path = paths.at(pathUuid);
-              
+              const auto pathIte = paths.find(pathUuid);
+              if (pathIte == paths.end())
+              {
+                spdlog::error("Unknown path {} for trip {} in line cache file {}, ignoring trip", pathUuidStr, tripUuidStr, cacheFilePath);
+                continue;
+              }
+              Path &path = pathIte->second;
+
+              nodeTimesCount             = capnpTrip.getNodeArrivalTimesSeconds().size();
+              auto arrivalTimesSeconds   = capnpTrip.getNodeArrivalTimesSeconds();
+              auto departureTimesSeconds = capnpTrip.getNodeDepartureTimesSeconds();
+              auto canBoards             = capnpTrip.getNodesCanBoard();
+              auto canUnboards           = capnpTrip.getNodesCanUnboard();
+              // Each node time must match a node of the path and have all its data
+              if (nodeTimesCount < 2
+                  || nodeTimesCount > path.nodesRef.size()
+                  || departureTimesSeconds.size() < nodeTimesCount - 1
+                  || canBoards.size() < nodeTimesCount - 1
+                  || canUnboards.size() < nodeTimesCount)
+              {
+                spdlog::error("Invalid node times for trip {} in line cache file {}, ignoring trip", tripUuidStr, cacheFilePath);
+                continue;
+              }
+              if (trips.count(tripUuid) != 0)
+              {
+                spdlog::error("Duplicate trip {} in line cache file {}, ignoring trip", tripUuidStr, cacheFilePath);
+                continue;
+              }
+
               trips.emplace(tripUuid, Trip(tripUuid,
                                            line.agency,
                                            line,
@@ -92,11 +125,6 @@ namespace TrRouting
               // TODO This should probably be done in the Trip constructor (setting the back reference)
               path.tripsRef.push_back(trip);
 
-              nodeTimesCount             = capnpTrip.getNodeArrivalTimesSeconds().size();
-              auto arrivalTimesSeconds   = capnpTrip.getNodeArrivalTimesSeconds();
-              auto departureTimesSeconds = capnpTrip.getNodeDepartureTimesSeconds();
-              auto canBoards             = capnpTrip.getNodesCanBoard();
-              auto canUnboards           = capnpTrip.getNodesCanUnboard();
               trip.connectionDepartureTimes.resize(nodeTimesCount);
               // nodeTimesCount - 1, since we process node pairs, we have to stop and the second from last
               for (unsigned long nodeTimeI = 0; nodeTimeI < nodeTimesCount - 1; nodeTimeI++)
@@ -131,6 +159,10 @@ namespace TrRouting
         // TODO Do something about faulty cache files?
         spdlog::error("-- Error reading line cache file -- {}: {}", cacheFilePath, e.getDescription().cStr());
       }
+      catch (const std::exception& e)
+      {
+        spdlog::error("-- Error reading line cache file -- {}: {}", cacheFilePath, e.what());
+      }
 
       close(fd);
     }
-- 
2.43.0


From 7223670e9fb2ddfbd5aeb4e250e305b38f9e2e69 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 20:11:09 +0000
Subject: [PATCH 22/26] fix: a stop file with bad identifiers or mismatched
 lists must not end the server

---
 src/nodes_cache_fetcher.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/nodes_cache_fetcher.cpp b/src/nodes_cache_fetcher.cpp
index a5cd220..d42bad7 100644
--- a/src/nodes_cache_fetcher.cpp
+++ b/src/nodes_cache_fetcher.cpp
@@ -130,6 +130,14 @@ namespace TrRouting
         std::vector<NodeTimeDistance> transferableNodes;
         std::vector<NodeTimeDistance> reverseTransferableNodes;
 
+        if (capnpT.getTransferableNodesTravelTimes().size() < transferableNodesCount ||
+            capnpT.getTransferableNodesDistances().size() < transferableNodesCount)
+        {
+          spdlog::error("-- Error reading node cache file -- {}: some transferable nodes have no travel time or distance", nodeCacheFileNamePath);
+          close(fd);
+          return -EBADMSG;
+        }
+
         for (unsigned int j = 0; j < transferableNodesCount; j++)
         {
           std::string nodeUuidStr {capnpT.getTransferableNodesUuids()[j]};
@@ -168,6 +176,12 @@ namespace TrRouting
         close(fd);
         return -EBADMSG;
       }
+      catch (const std::exception& e)
+      {
+        spdlog::error("-- Error reading node cache file -- {}: {}", nodeCacheFileNamePath, e.what());
+        close(fd);
+        return -EBADMSG;
+      }
       close(fd);
     }
 
-- 
2.43.0


From 7414a50f193453bf5b1e6f4268bb707d80f876b6 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 20:11:30 +0000
Subject: [PATCH 23/26] fix: od trips whose stop lists do not fit must not be
 read beyond the end of the lists

---
 src/od_trips_cache_fetcher.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/od_trips_cache_fetcher.cpp b/src/od_trips_cache_fetcher.cpp
index e907b24..8018976 100644
--- a/src/od_trips_cache_fetcher.cpp
+++ b/src/od_trips_cache_fetcher.cpp
@@ -153,6 +153,10 @@ namespace TrRouting
 
             const unsigned int originNodesCount {capnpT.getOriginNodesUuids().size()};
             std::vector<NodeTimeDistance> originNodes;
+            if (capnpT.getOriginNodesTravelTimes().size() < originNodesCount || capnpT.getOriginNodesDistances().size() < originNodesCount)
+            {
+              throw std::range_error("Some origin nodes of an odTrip have no travel time or distance");
+            }
             for (unsigned int j = 0; j < originNodesCount; j++)
             {
               std::string nodeUuid {capnpT.getOriginNodesUuids()[j]};
@@ -163,6 +167,10 @@ namespace TrRouting
 
             const unsigned int destinationNodesCount {capnpT.getDestinationNodesUuids().size()};
             std::vector<NodeTimeDistance> destinationNodes;
+            if (capnpT.getDestinationNodesTravelTimes().size() < destinationNodesCount || capnpT.getDestinationNodesDistances().size() < destinationNodesCount)
+            {
+              throw std::range_error("Some destination nodes of an odTrip have no travel time or distance");
+            }
             for (unsigned int j = 0; j < destinationNodesCount; j++)
             {
               std::string nodeUuid {capnpT.getDestinationNodesUuids()[j]};
-- 
2.43.0


From a1848f0c68ae7dac71427ebfc464611c664ab1e1 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 20:16:16 +0000
Subject: [PATCH 24/26] fix: names which are not valid UTF-8 must not turn
 answers into parameter errors

---
 .../src/transit_routing_http_server.cpp                | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/connection_scan_algorithm/src/transit_routing_http_server.cpp b/connection_scan_algorithm/src/transit_routing_http_server.cpp
index 89b7f67..c856100 100644
--- a/connection_scan_algorithm/src/transit_routing_http_server.cpp
+++ b/connection_scan_algorithm/src/transit_routing_http_server.cpp
@@ -328,13 +328,13 @@ int main(int argc, char** argv) {
         if (queryParams.isWithAlternatives())
         {
           TrRouting::AlternativesResult alternativeResult = calculator.alternativesRouting(queryParams);
-          response = ResultToV2Response::resultToJsonString(alternativeResult, queryParams).dump(2);
+          response = ResultToV2Response::resultToJsonString(alternativeResult, queryParams).dump(2, ' ', false, nlohmann::json::error_handler_t::replace);
         }
         else
         {
           std::unique_ptr<TrRouting::SingleCalculationResult> routingResult = calculator.calculateSingle(queryParams);
           if (routingResult.get() != nullptr) {
-            response = ResultToV2Response::resultToJsonString(*routingResult.get(), queryParams).dump(2);
+            response = ResultToV2Response::resultToJsonString(*routingResult.get(), queryParams).dump(2, ' ', false, nlohmann::json::error_handler_t::replace);
           }
         }
 
@@ -400,13 +400,13 @@ int main(int argc, char** argv) {
         if (queryParams.isWithAlternatives())
         {
           TrRouting::AlternativesResult alternativeResult = calculator.alternativesRouting(queryParams);
-          response = ResultToV2SummaryResponse::resultToJsonString(alternativeResult, queryParams).dump(2);
+          response = ResultToV2SummaryResponse::resultToJsonString(alternativeResult, queryParams).dump(2, ' ', false, nlohmann::json::error_handler_t::replace);
         }
         else
         {
           std::unique_ptr<TrRouting::SingleCalculationResult> routingResult = calculator.calculateSingle(queryParams);
           if (routingResult.get() != nullptr) {
-            response = ResultToV2SummaryResponse::resultToJsonString(*routingResult.get(), queryParams).dump(2);
+            response = ResultToV2SummaryResponse::resultToJsonString(*routingResult.get(), queryParams).dump(2, ' ', false, nlohmann::json::error_handler_t::replace);
           }
         }
 
@@ -470,7 +470,7 @@ int main(int argc, char** argv) {
       try {
         std::unique_ptr<AllNodesResult> accessibilityResult = calculator.calculateAllNodes(queryParams);
         if (accessibilityResult.get() != nullptr) {
-          response = ResultToV2AccessibilityResponse::resultToJsonString(*accessibilityResult.get(), queryParams).dump(2);
+          response = ResultToV2AccessibilityResponse::resultToJsonString(*accessibilityResult.get(), queryParams).dump(2, ' ', false, nlohmann::json::error_handler_t::replace);
         }
 
         spdlog::info("-- accessibility request complete -- {}", currentRequestId);
-- 
2.43.0


From 434df7998a6546c36937e08646eba4524c7c147b Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 20:23:16 +0000
Subject: [PATCH 25/26] fix: trips whose times decrease or are out of range
 must not make calculations run forever

---
 src/trips_and_connections_cache_fetcher.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/trips_and_connections_cache_fetcher.cpp b/src/trips_and_connections_cache_fetcher.cpp
index b35c32c..2f35d2d 100644
--- a/src/trips_and_connections_cache_fetcher.cpp
+++ b/src/trips_and_connections_cache_fetcher.cpp
@@ -2,6 +2,7 @@
 #ifndef TR_TRIPS_AND_CONNECTIONS_CACHE_FETCHER
 #define TR_TRIPS_AND_CONNECTIONS_CACHE_FETCHER
 
+#include <limits>
 #include <string>
 #include <vector>
 #include <errno.h>
@@ -104,6 +105,21 @@ namespace TrRouting
                 spdlog::error("Invalid node times for trip {} in line cache file {}, ignoring trip", tripUuidStr, cacheFilePath);
                 continue;
               }
+              // Times go forward along the trip, and times computed from them must fit in an integer
+              bool validTimes = true;
+              int previousTime = 0;
+              for (unsigned long nodeTimeI = 0; validTimes && nodeTimeI < nodeTimesCount - 1; nodeTimeI++)
+              {
+                validTimes = departureTimesSeconds[nodeTimeI] >= previousTime
+                  && arrivalTimesSeconds[nodeTimeI + 1] >= departureTimesSeconds[nodeTimeI]
+                  && arrivalTimesSeconds[nodeTimeI + 1] <= std::numeric_limits<int>::max() / 2;
+                previousTime = arrivalTimesSeconds[nodeTimeI + 1];
+              }
+              if (!validTimes)
+              {
+                spdlog::error("Decreasing or out of range times for trip {} in line cache file {}, ignoring trip", tripUuidStr, cacheFilePath);
+                continue;
+              }
               if (trips.count(tripUuid) != 0)
               {
                 spdlog::error("Duplicate trip {} in line cache file {}, ignoring trip", tripUuidStr, cacheFilePath);
-- 
2.43.0


From 3e1427dd9b853757a472c2104a5b13cd300005da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:40 +0000
Subject: [PATCH 26/26] fix: alternatives must not generate all combinations of
 the lines of a long route

The combinations of the lines of a found route were all generated before the
first of them was calculated: their number doubles with each line, and a route
of some thirty rides exhausted the memory, while at most maxAlternatives of
them are ever calculated.
---
 connection_scan_algorithm/src/alternatives_routing.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/connection_scan_algorithm/src/alternatives_routing.cpp b/connection_scan_algorithm/src/alternatives_routing.cpp
index 9b03b60..23d0f46 100644
--- a/connection_scan_algorithm/src/alternatives_routing.cpp
+++ b/connection_scan_algorithm/src/alternatives_routing.cpp
@@ -167,8 +167,9 @@ namespace TrRouting
 
     spdlog::debug("fastest line ids: {}", LinesToString(foundLines));
 
-    // Generate combination of group of 1 line, then 2 lines up to the total amount of lines
-    for (size_t k = 1; k <= foundLines.size(); k++)
+    // Generate combination of group of 1 line, then 2 lines up to the total amount of lines.
+    // No more than maxAlternatives of them will be calculated and their number doubles with each line, so do not generate all of them
+    for (size_t k = 1; k <= foundLines.size() && allCombinations.size() < (size_t)maxAlternatives; k++)
     {
       Combinations<std::reference_wrapper<const Line>> combinations(foundLines, k);
 
@@ -221,7 +222,7 @@ namespace TrRouting
             lastFoundedAtNum = alternativesCalculatedCount;
             alreadyFoundLines[foundLines] = true;
             foundLinesTravelTimeSeconds[foundLines] = alternativeCalcResult.totalTravelTime;
-            for (size_t k = 1; k <= foundLines.size(); k++)
+            for (size_t k = 1; k <= foundLines.size() && allCombinations.size() < (size_t)maxAlternatives; k++)
             {
               Combinations<std::reference_wrapper<const Line>> combinations(foundLines, k);
               for (auto newCombination : combinations)
-- 
2.43.0

