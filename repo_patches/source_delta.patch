From b87e50d88989234747893563f62c986b0df63f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:39 +0000
Subject: [PATCH 01/48] fix: pivot in InvertMatrix3, relative angles were wrong
 on banked roads heading exactly north or south

---
 .../Modules/CommonMini/CommonMini.cpp           | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/EnvironmentSimulator/Modules/CommonMini/CommonMini.cpp b/EnvironmentSimulator/Modules/CommonMini/CommonMini.cpp
index 9ee53e6..2b4dc1e 100644
--- a/EnvironmentSimulator/Modules/CommonMini/CommonMini.cpp
+++ b/EnvironmentSimulator/Modules/CommonMini/CommonMini.cpp
@@ -1785,6 +1785,23 @@ int InvertMatrix3(const double m[3][3], double mi[3][3])
     // Applying Gauss-Jordan elimination
     for (int i = 0; i < 3; i++)
     {
+        // Avoid dividing by a (nearly) zero pivot, it would ruin the precision. Swap in the row with the largest element.
+        if (fabs(augmented_matrix[i][i]) < SMALL_NUMBER)
+        {
+            int pivot_row = i;
+            for (int k = i + 1; k < 3; k++)
+            {
+                if (fabs(augmented_matrix[k][i]) > fabs(augmented_matrix[pivot_row][i]))
+                {
+                    pivot_row = k;
+                }
+            }
+            for (int j = 0; j < 2 * 3; j++)
+            {
+                std::swap(augmented_matrix[i][j], augmented_matrix[pivot_row][j]);
+            }
+        }
+
         // Make the diagonal element 1
         double pivot = augmented_matrix[i][i];
         if (pivot == 0)
-- 
2.43.0


From 729c4a8b38e41a5c1570642c1606daef1c2c7900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:42 +0000
Subject: [PATCH 02/48] fix: poly3 geometry froze along its last interval, up
 to 10 m, since the walk along it stopped one sample short

---
 EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
index 23ceb30..0153a4e 100644
--- a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
+++ b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
@@ -1072,7 +1072,7 @@ void Poly3::EvaluateDSLocal(double ds, double& u, double& v) const
     else if (ds > SMALL_NUMBER)
     {
         double distTmp = 0;
-        for (double uTmp = 0; uTmp < length_; uTmp += steplen)
+        for (double uTmp = 0; uTmp < length_ + steplen; uTmp += steplen)  // include the sample beyond the end, for the last interval
         {
             double vTmp  = poly3_.Evaluate(uTmp);
             double delta = sqrt((uTmp - u) * (uTmp - u) + (vTmp - v) * (vTmp - v));
-- 
2.43.0


From e2e9cde1adb963874fdcf306fc5a3b324ba11545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:48 +0000
Subject: [PATCH 03/48] fix: a step past the road end that skips lane sections
 left the lane, its id was not mapped to the last section

---
 .../Modules/RoadManager/RoadManager.cpp           | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
index 0153a4e..8554ef9 100644
--- a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
+++ b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
@@ -10401,9 +10401,7 @@ Position::ReturnCode Position::MoveAlongS(double            ds,
     {
         if (s_ + ds_road > GetOpenDrive()->GetRoadByIdx(track_idx_)->GetLength())
         {
-            // beyond end of road, ensure last lane section
-            lane_section_idx_ = road->GetNumberOfLaneSections() - 1;
-
+            // beyond end of road
             // Calculate remaining s-value once we moved to the connected road
             ds_road = s_ + ds_road - GetOpenDrive()->GetRoadByIdx(track_idx_)->GetLength();
             link    = GetOpenDrive()->GetRoadByIdx(track_idx_)->GetLink(SUCCESSOR);
@@ -10413,9 +10411,7 @@ Position::ReturnCode Position::MoveAlongS(double            ds,
         }
         else if (s_ + ds_road < 0)
         {
-            // beyond start of road, ensure first lane section
-            lane_section_idx_ = 0;
-
+            // beyond start of road
             // Calculate remaining s-value once we moved to the connected road
             ds_road = s_ + ds_road;
             link    = GetOpenDrive()->GetRoadByIdx(track_idx_)->GetLink(PREDECESSOR);
@@ -10430,6 +10426,13 @@ Position::ReturnCode Position::MoveAlongS(double            ds,
 
         if (!done)
         {
+            // follow the lane to the last or first lane section, lane IDs can differ between sections
+            LaneInfo li;
+            road->GetLaneInfoByS(s_stop, lane_section_idx_, lane_id_, li, snapToLaneTypes_);
+            lane_section_idx_ = li.lane_section_idx_;
+            lane_id_          = li.lane_id_;
+            lane_idx_         = road->GetLaneSectionByIdx(lane_section_idx_)->GetLaneIdxById(lane_id_);
+
             // If link is OK then move to the start- or endpoint of the connected road, depending on contact point
             if (link == nullptr || link->GetElementId() == ID_UNDEFINED ||
                 static_cast<int>((ret_val = MoveToConnectingRoad(link, contact_point_type, junctionSelectorAngle))) < 0)
-- 
2.43.0


From b0409f211360067f0207f633966993aa90a0c232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:15 +0000
Subject: [PATCH 04/48] fix: GetConnectedLaneIdAtS walked one lane section too
 far, returning a lane ID of a neighbour section

---
 .../Modules/RoadManager/RoadManager.cpp                | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
index 8554ef9..bb253ae 100644
--- a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
+++ b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
@@ -3147,26 +3147,24 @@ int Road::GetConnectedLaneIdAtS(int lane_id, double s_start, double s_target) co
         LaneSection* lsec = GetLaneSectionByIdx(lsec_idx);
         if (lsec != nullptr)
         {
-            int    lane_id_tmp = lane_id;
-            double s           = s_start;
+            int lane_id_tmp = lane_id;
             if (s_target > s_start - SMALL_NUMBER)
             {
-                for (unsigned int j = lsec_idx; lane_id_tmp != 0 && j < GetNumberOfLaneSections() - 1 && s < s_target; j++)
+                // follow the lane until the section containing the target
+                for (unsigned int j = lsec_idx; lane_id_tmp != 0 && j + 1 < GetNumberOfLaneSections() && GetLaneSectionByIdx(j + 1)->GetS() < s_target; j++)
                 {
                     // find connecting lane id
                     lsec        = GetLaneSectionByIdx(j);
                     lane_id_tmp = lsec->GetConnectingLaneId(lane_id_tmp, LinkType::SUCCESSOR);
-                    s           = lsec->GetS();
                 }
             }
             else
             {
-                for (unsigned int j = lsec_idx; lane_id_tmp != 0 && j > 0 && s > s_target; j--)
+                for (unsigned int j = lsec_idx; lane_id_tmp != 0 && j > 0 && GetLaneSectionByIdx(j)->GetS() > s_target; j--)
                 {
                     // find connecting lane id
                     lsec        = GetLaneSectionByIdx(j);
                     lane_id_tmp = lsec->GetConnectingLaneId(lane_id_tmp, LinkType::PREDECESSOR);
-                    s           = lsec->GetS();
                 }
             }
             connected_lane_id = lane_id_tmp;
-- 
2.43.0


From 6d60b70a61f3af20e61d63b032d42de8ed4df083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:15 +0000
Subject: [PATCH 05/48] fix: road path forward search started from the lane ID
 mapped to the road start

---
 EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
index bb253ae..22f62ff 100644
--- a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
+++ b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
@@ -6160,11 +6160,11 @@ int RoadPath::Calculate(double& dist, bool bothDirections, double maxDist)
 
             if (contact_point == ContactPointType::CONTACT_POINT_END)
             {
-                pivotLaneId = pivotRoad->GetConnectedLaneIdAtS(pivotLaneId, startPos_->GetS(), -1.0);
+                pivotLaneId = pivotRoad->GetConnectedLaneIdAtS(startPos_->GetLaneId(), startPos_->GetS(), -1.0);
             }
             else if (contact_point == ContactPointType::CONTACT_POINT_START)
             {
-                pivotLaneId = pivotRoad->GetConnectedLaneIdAtS(pivotLaneId, startPos_->GetS(), 0);
+                pivotLaneId = pivotRoad->GetConnectedLaneIdAtS(startPos_->GetLaneId(), startPos_->GetS(), 0);
             }
             else
             {
-- 
2.43.0


From fc6df4284560b029ebad34c2efdfba0bcf575d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:15 +0000
Subject: [PATCH 06/48] fix: Delta assumed the end where the path leaves the
 last road to be the end where it enters the target road, and mapped the lane
 twice

---
 .../Modules/RoadManager/RoadManager.cpp       | 33 +++++++------------
 1 file changed, 11 insertions(+), 22 deletions(-)

diff --git a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
index 22f62ff..151876e 100644
--- a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
+++ b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
@@ -11728,31 +11728,20 @@ bool Position::Delta(Position* pos_b, PositionDiff& diff, bool bothDirections, d
 
         if (last_node != nullptr)
         {
-            // Find out corresponding lane ID of connected route up to pos B
-            if (last_node->contactPoint == ContactPointType::CONTACT_POINT_START)
+            // Find out in what end of the road of pos B the path arrives
+            ContactPointType entry = last_node->link->GetContactPointType();
+            if (last_node->link->GetElementType() == RoadLink::ElementType::ELEMENT_TYPE_JUNCTION)
             {
-                // move to end of the last road in the path leading to the road of pos B
-                adjustedLaneIdA = last_node->fromRoad->GetConnectedLaneIdAtS(last_node->fromLaneId, -1.0, 0.0);
-                // find out the connecting lane at beginning of road of pos B
-                adjustedLaneIdA = last_node->fromRoad->GetConnectingLaneId(last_node->link, adjustedLaneIdA, pos_b->GetTrackId());
-                // move to the s location of pos B to find out the lane ID there (possibly another lane section)
-                adjustedLaneIdA = road_B->GetConnectedLaneIdAtS(adjustedLaneIdA, 0.0, pos_b->GetS());
-
-                // Check relative heading
-                pos_a_forward = true;  // We come in at the start of the road, so we are aligned with the road direction
+                last_node->fromRoad->IsDirectlyConnected(road_B, last_node->link->GetType(), &entry);
             }
-            else
-            {
-                // move to start of the last road in the path leading to the road of pos B
-                adjustedLaneIdA = last_node->fromRoad->GetConnectedLaneIdAtS(last_node->fromLaneId, 0.0, -1.0);
-                // find out the connecting lane at start of road of pos B
-                adjustedLaneIdA = last_node->fromRoad->GetConnectingLaneId(last_node->link, adjustedLaneIdA, pos_b->GetTrackId());
-                // move to the s location of pos B to find out the lane ID there (possibly another lane section)
-                adjustedLaneIdA = road_B->GetConnectedLaneIdAtS(adjustedLaneIdA, -1.0, pos_b->GetS());
 
-                // Check relative heading
-                pos_a_forward = false;  // We come in at the end of the road, so we are aligned against the road direction
-            }
+            // Find out corresponding lane ID of connected route up to pos B, starting from the lane connecting to the road of pos B
+            adjustedLaneIdA = last_node->fromRoad->GetConnectingLaneId(last_node->link, last_node->fromLaneId, pos_b->GetTrackId());
+            // move to the s location of pos B to find out the lane ID there (possibly another lane section)
+            adjustedLaneIdA = road_B->GetConnectedLaneIdAtS(adjustedLaneIdA, entry == ContactPointType::CONTACT_POINT_START ? 0.0 : -1.0, pos_b->GetS());
+
+            // Check relative heading, aligned with the road direction if arriving at the start of the road
+            pos_a_forward = entry == ContactPointType::CONTACT_POINT_START;
         }
         // If the relative direction of the two positions is the same, we are driving in the same direction unless the detected path is reversed, then
         // we have to invert the dDirection
-- 
2.43.0


From 1a47eaf58e5274f97a1465a33291d57ddecde88c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:15 +0000
Subject: [PATCH 07/48] fix: sign of distance to another road was inverted for
 a position facing against driving direction

---
 EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
index 151876e..d95258a 100644
--- a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
+++ b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
@@ -6363,12 +6363,6 @@ int RoadPath::Calculate(double& dist, bool bothDirections, double maxDist)
 
     dist = direction_ * tmpDist;
 
-    // Also take intial heading of the start position into consideration for the sign of the distance
-    if (startPos_->GetHRelativeDrivingDirection() > M_PI_2 && startPos_->GetHRelativeDrivingDirection() < 3 * M_PI_2)
-    {
-        dist *= -1;
-    }
-
     return found ? 0 : -1;
 }
 
-- 
2.43.0


From 57977a2cd1adfdc5feba67d984ad71e75613719e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:15 +0000
Subject: [PATCH 08/48] fix: Delta compared lane IDs of different lane sections
 on the same road

---
 .../Modules/RoadManager/RoadManager.cpp               | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
index d95258a..860fab8 100644
--- a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
+++ b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
@@ -11720,7 +11720,16 @@ bool Position::Delta(Position* pos_b, PositionDiff& diff, bool bothDirections, d
         bool pos_a_forward = (IsAngleForward(GetHRelative()));
         bool pos_b_forward = (IsAngleForward(pos_b->GetHRelative()));
 
-        if (last_node != nullptr)
+        if (last_node == nullptr)
+        {
+            // Same road, find out corresponding lane ID at pos B (possibly another lane section)
+            int connectedLaneId = road_B->GetConnectedLaneIdAtS(adjustedLaneIdA, GetS(), pos_b->GetS());
+            if (connectedLaneId != 0)
+            {
+                adjustedLaneIdA = connectedLaneId;
+            }
+        }
+        else
         {
             // Find out in what end of the road of pos B the path arrives
             ContactPointType entry = last_node->link->GetContactPointType();
-- 
2.43.0


From 450d67decff6429de67ebefe1a154efd0be79f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:29 +0000
Subject: [PATCH 09/48] fix: undefined time headway or time to collision counts
 as not fulfilled for rule all

An entity without defined value was skipped without ending the evaluation, so
that only the last of the triggering entities decided.
---
 .../ScenarioEngine/OSCTypeDefs/OSCCondition.cpp  | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp
index 66d483a..0502c58 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp
@@ -769,11 +769,11 @@ bool TrigByTimeHeadway::CheckCondition(double sim_time)
             {
                 triggered_by_entities_.push_back(trigObj);
             }
+        }
 
-            if (EvalDone(result, triggering_entity_rule_))
-            {
-                break;
-            }
+        if (EvalDone(result, triggering_entity_rule_))
+        {
+            break;
         }
     }
 
@@ -847,11 +847,11 @@ bool TrigByTimeToCollision::CheckCondition(double sim_time)
             {
                 triggered_by_entities_.push_back(trigObj);
             }
+        }
 
-            if (EvalDone(result, triggering_entity_rule_))
-            {
-                break;
-            }
+        if (EvalDone(result, triggering_entity_rule_))
+        {
+            break;
         }
     }
 
-- 
2.43.0


From fb83a7c0d1103cee6076bb092da1c801509a51f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:29 +0000
Subject: [PATCH 10/48] fix: evaluate entity conditions for each triggering
 entity on its own

Reach position, collision, end of road, stand still and off road carried the
result or duration of one triggering entity over to the next, so that rule all
was fulfilled although only the first entity fulfilled it.
---
 .../Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp     | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp
index 0502c58..11e56f4 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp
@@ -881,6 +881,7 @@ bool TrigByReachPosition::CheckCondition(double sim_time)
 
     for (size_t i = 0; i < triggering_entities_.entity_.size(); i++)
     {
+        result          = false;
         Object* trigObj = triggering_entities_.entity_[i].object_;
         if (!trigObj->IsActive())
         {
@@ -1059,6 +1060,7 @@ bool TrigByCollision::CheckCondition(double sim_time)
 
     for (size_t i = 0; i < triggering_entities_.entity_.size(); i++)
     {
+        result          = false;
         Object* trigObj = triggering_entities_.entity_[i].object_;
         if (!trigObj->IsActive())
         {
@@ -1201,6 +1203,8 @@ bool TrigByEndOfRoad::CheckCondition(double sim_time)
             continue;
         }
 
+        result            = false;
+        current_duration_ = 0;
         if (triggering_entities_.entity_[i].object_->IsEndOfRoad())
         {
             current_duration_ = sim_time - triggering_entities_.entity_[i].object_->GetEndOfRoadTimestamp();
@@ -1244,6 +1248,7 @@ bool TrigByStandStill::CheckCondition(double sim_time)
             continue;
         }
 
+        current_duration_ = 0;
         if (triggering_entities_.entity_[i].object_->IsStandStill())
         {
             current_duration_ = sim_time - triggering_entities_.entity_[i].object_->GetStandStillTimestamp();
@@ -1285,6 +1290,7 @@ bool TrigByOffRoad::CheckCondition(double sim_time)
             continue;
         }
 
+        current_duration_ = 0;
         if (triggering_entities_.entity_[i].object_->IsOffRoad())
         {
             current_duration_ = sim_time - triggering_entities_.entity_[i].object_->GetOffRoadTimestamp();
-- 
2.43.0


From 11dd469d992e665b4c347b08d8d19c964401fad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:29 +0000
Subject: [PATCH 11/48] fix: compare orientation of reach position condition
 across the 0/2pi seam

---
 .../Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp      | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp
index 11e56f4..06f9c92 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp
@@ -901,8 +901,9 @@ bool TrigByReachPosition::CheckCondition(double sim_time)
             // Check for any orientation condition
             if (checkOrientation_)
             {
-                if (abs(trigObj->pos_.GetH() - pos->GetH()) < angularTolerance_ && abs(trigObj->pos_.GetP() - pos->GetP()) < angularTolerance_ &&
-                    abs(trigObj->pos_.GetR() - pos->GetR()) < angularTolerance_)
+                if (GetAbsAngleDifference(trigObj->pos_.GetH(), pos->GetH()) < angularTolerance_ &&
+                    GetAbsAngleDifference(trigObj->pos_.GetP(), pos->GetP()) < angularTolerance_ &&
+                    GetAbsAngleDifference(trigObj->pos_.GetR(), pos->GetR()) < angularTolerance_)
                 {
                     result = true;
                 }
-- 
2.43.0


From 9655667932f397092b931bc6117e0bc0bee2adfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:54 +0000
Subject: [PATCH 12/48] fix: detect overlap in road freespace distance when one
 body spans the other

Each vertex of the longer (wider) body sees all vertices of the other one on the
same side, so the overlap has to be looked for among all pairs of vertices.
---
 .../ScenarioEngine/SourceFiles/Entities.cpp   | 21 +++++++++++--------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.cpp
index cd9c1df..404f427 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.cpp
@@ -1023,17 +1023,20 @@ int Object::FreeSpaceDistanceObjectRoadLane(Object* target, PositionDiff* posDif
     posDiff->dt = minDT;
 
     // Check for overlap
-    for (int i = 0; i < 4; i++)  // for each ds
+    for (int i = 0; i < 4; i++)  // for each vertex of first BB
     {
-        if (!((SIGN(ds[i][0]) == SIGN(ds[i][1])) && (SIGN(ds[i][0]) == SIGN(ds[i][2])) && (SIGN(ds[i][0]) == SIGN(ds[i][3]))))
+        for (int j = 0; j < 4; j++)  // for each vertex of second BB
         {
-            // Overlap
-            posDiff->ds = 0.0;
-        }
-        if (!((SIGN(dt[i][0]) == SIGN(dt[i][1])) && (SIGN(dt[i][0]) == SIGN(dt[i][2])) && (SIGN(dt[i][0]) == SIGN(dt[i][3]))))
-        {
-            // Overlap
-            posDiff->dt = 0.0;
+            if (SIGN(ds[i][j]) != SIGN(ds[0][0]))
+            {
+                // Overlap
+                posDiff->ds = 0.0;
+            }
+            if (SIGN(dt[i][j]) != SIGN(dt[0][0]))
+            {
+                // Overlap
+                posDiff->dt = 0.0;
+            }
         }
     }
 
-- 
2.43.0


From aa0d59612a1ed38c85ca24d52c379c1388368759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:19 +0000
Subject: [PATCH 13/48] fix: road freespace distance to a point halfway along
 the body is zero

With all vertices at equal distance the nearest and the farthest one were the
same vertex and the overlap went undetected.
---
 .../ScenarioEngine/SourceFiles/Entities.cpp      | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.cpp
index 404f427..d1bfe85 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.cpp
@@ -834,10 +834,11 @@ int Object::FreeSpaceDistancePointRoadLane(double x, double y, double* latDist,
 
     // Find long and lat max values
     Position     pos[4];
-    double       maxDS = 0.0;
-    double       minDS = LARGE_NUMBER;
-    double       maxDT = 0.0;
-    double       minDT = LARGE_NUMBER;
+    double       firstDS  = 0.0;
+    bool         overlapS = false;
+    double       minDS    = LARGE_NUMBER;
+    double       maxDT    = 0.0;
+    double       minDT    = LARGE_NUMBER;
     PositionDiff posDiff;
     for (int j = 0; j < 4; j++)
     {
@@ -864,10 +865,11 @@ int Object::FreeSpaceDistancePointRoadLane(double x, double y, double* latDist,
             minDT = posDiff.dt;
         }
 
-        if (j == 0 || fabs(posDiff.ds) > fabs(maxDS))
+        if (j == 0)
         {
-            maxDS = posDiff.ds;
+            firstDS = posDiff.ds;
         }
+        overlapS |= SIGN(posDiff.ds) != SIGN(firstDS);
 
         if (j == 0 || fabs(posDiff.dt) > fabs(maxDT))
         {
@@ -879,7 +881,7 @@ int Object::FreeSpaceDistancePointRoadLane(double x, double y, double* latDist,
     *latDist  = minDT;
 
     // Check for overlap
-    if (SIGN(minDS) != SIGN(maxDS))
+    if (overlapS)
     {
         // Overlap
         *longDist = 0.0;
-- 
2.43.0


From d1c7f73ed3b7825747d443f6d52a6d0952a112a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:28 +0000
Subject: [PATCH 14/48] fix: repeat speed action over the same distance

The requested distance was replaced by the corresponding time at first execution, and that time mistaken for the distance at the next one.
---
 .../ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp    | 10 +++++++++-
 .../ScenarioEngine/OSCTypeDefs/OSCPrivateAction.hpp    |  4 ++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
index 45944a7..28704f7 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
@@ -1200,7 +1200,13 @@ void LongSpeedAction::Start(double simTime)
 
         double v0   = transition_.GetStartVal();
         double v1   = target_->GetValue();
-        double dist = transition_.GetParamTargetVal();
+
+        if (requested_distance_ < 0.0 || transition_.GetParamTargetVal() != converted_time_)
+        {
+            // register requested distance, since it's replaced by time below and needed again if the action is repeated
+            requested_distance_ = transition_.GetParamTargetVal();
+        }
+        double dist = requested_distance_;
 
         if (abs(v1 - v0) < SMALL_NUMBER)
         {
@@ -1231,6 +1237,8 @@ void LongSpeedAction::Start(double simTime)
             // => time = 2*distance/(v_init + v_end)
             transition_.SetParamTargetVal(2 * dist / (abs(v0 + v1)));
         }
+
+        converted_time_ = transition_.GetParamTargetVal();
     }
 
     transition_.SetTargetVal(ABS_LIMIT(target_->GetValue(), object_->performance_.maxSpeed));
diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.hpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.hpp
index 0752537..79a5841 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.hpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.hpp
@@ -260,6 +260,8 @@ namespace scenarioengine
 
         std::shared_ptr<Target> target_;
         bool                    target_speed_reached_;
+        double                  requested_distance_ = -1.0;  // transition distance before conversion to time, -1 if not yet registered
+        double                  converted_time_     = 0.0;   // transition time resulting from latest conversion
 
         LongSpeedAction(StoryBoardElement* parent)
             : OSCPrivateAction(OSCPrivateAction::ActionType::LONG_SPEED, parent, static_cast<unsigned int>(ControlDomainMasks::DOMAIN_MASK_LONG)),
@@ -277,6 +279,8 @@ namespace scenarioengine
             target_               = action.target_;
             transition_           = action.transition_;
             target_speed_reached_ = action.target_speed_reached_;
+            requested_distance_   = action.requested_distance_;
+            converted_time_       = action.converted_time_;
         }
 
         OSCPrivateAction* Copy()
-- 
2.43.0


From e01219d6ebb79d58bef6e5a6aa73e13c3b17eae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:55 +0000
Subject: [PATCH 15/48] fix: end speed profile at its last speed also when its
 last entries are in line

Merging entries of equal acceleration left the last vertex with that acceleration, so the speed went on changing, and with fewer vertices than entries the action never ended.
---
 .../Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
index 28704f7..32372ae 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
@@ -1445,7 +1445,7 @@ void LongSpeedProfileAction::Start(double simTime)
         {
             // replace previous entry
             double new_k  = (entry_[index].speed_ + speed_offset - (vertex.rbegin() + 1)->v_) / (time - (vertex.rbegin() + 1)->t_);
-            vertex.back() = EntryVertex(time, entry_[index].speed_ + speed_offset, new_k);
+            vertex.back() = EntryVertex(time, entry_[index].speed_ + speed_offset, index == entry_.size() - 1 ? 0.0 : new_k);
             continue;  // skip entry
         }
 
@@ -1710,7 +1710,7 @@ void LongSpeedProfileAction::Step(double simTime, double dt)
 
     elapsed_ = MAX(0.0, time - segment_[0].t);
 
-    if (static_cast<unsigned int>(cur_index_) >= entry_.size() - 1 && fabs(speed_ - segment_.back().v) < SMALL_NUMBER)
+    if (static_cast<unsigned int>(cur_index_) >= MIN(entry_.size(), segment_.size()) - 1 && fabs(speed_ - segment_.back().v) < SMALL_NUMBER)
     {
         speed_ = segment_.back().v;
         OSCAction::End();
-- 
2.43.0


From d03c001089ef342a13e89a70be7d6e69a7a82436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:36 +0000
Subject: [PATCH 16/48] fix: keep speed profile entries without time

An entry without time that is not the last one replaced the previous entry, so the speed jumped instead of changing at the limit.
---
 .../Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
index 32372ae..3e59ca6 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
@@ -1422,7 +1422,7 @@ void LongSpeedProfileAction::Start(double simTime)
 
         if (index < entry_.size() - 1)
         {
-            if (dt < SMALL_NUMBER)
+            if (NEAR_ZERO(dt))
             {
                 // replace previous entry
                 vertex.back() = EntryVertex(time, entry_[index].speed_ + speed_offset);
-- 
2.43.0


From 937b6e09090c72aa5b8d29e8c910790dfede2074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:42 +0000
Subject: [PATCH 17/48] fix: reach last speed of profile in follow mode with
 entries in line

The corner after two segments of equal acceleration was calculated for the specified line instead of the current one, which is shifted by the initial jerk, so the profile ended at another speed.
---
 .../Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp  | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
index 3e59ca6..01035ed 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
@@ -1675,6 +1675,11 @@ void LongSpeedProfileAction::Start(double simTime)
                     // add jerk segment
                     AddSpeedSegment(t1, v1, k0, j);
                 }
+                else
+                {
+                    // same acceleration, stay on current line which might be shifted due to the initial jerk
+                    m1 = m0;
+                }
 
                 // add linear segment
                 AddSpeedSegment(t3, v3, vtx.k_, 0.0);
-- 
2.43.0


From b7e867a0df9604128397ce1219a0e07c6eb18231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:54 +0000
Subject: [PATCH 18/48] fix: don't overshoot speed profile when a corner lies
 beyond the next segment

With nearly equal accelerations in follow mode the corner can end up far after the entries, and the speed kept changing until then.
---
 .../Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp    | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
index 01035ed..0bca96c 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
@@ -1659,8 +1659,9 @@ void LongSpeedProfileAction::Start(double simTime)
                     // g = (k ^ 2 - 2 k l + l ^ 2 - 2 m(n - o)) / (2 m(k - l))
                     t1 = (pow(k0, 2) - 2 * k0 * k1 + pow(k1, 2) - 2 * j * (m0 - m1)) / (2 * j * (k0 - k1));
 
-                    if (t1 < t0)
+                    if (t1 < t0 || (index + 2 < vertex.size() && t1 > vertex[index + 2].t_))
                     {
+                        // no solution, or not until after the end of next segment
                         LOG_WARN("LongSpeedProfileAction failed at point {} (time={:.2f}). Falling back to linear (Position) mode.",
                                  index,
                                  vertex[index].t_);
-- 
2.43.0


From 34bea76550bafac791e077b88b202b1d2e520af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:15 +0000
Subject: [PATCH 19/48] fix: keep same distance when repeating a lateral
 distance action

Each start added the body widths to, and possibly toggled the sign of, the distance left by the previous one.
---
 .../OSCTypeDefs/OSCPrivateAction.cpp          | 23 +++++++++++--------
 .../OSCTypeDefs/OSCPrivateAction.hpp          |  1 +
 2 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
index 0bca96c..7967438 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
@@ -2000,33 +2000,36 @@ void LatDistanceAction::Start(double simTime)
     double ego_width    = object_->boundingbox_.dimensions_.width_;
     double target_width = target_object_->boundingbox_.dimensions_.width_;
 
+    // keep specified distance as is, in case the action will be executed again
+    target_distance_ = distance_;
+
     if (cs_ == roadmanager::CoordinateSystem::CS_ENTITY)
     {
         if (freespace_)
         {
-            distance_ += (ego_width + target_width) / 2.0;
+            target_distance_ += (ego_width + target_width) / 2.0;
         }
-        distance_ *= displacement_ == DisplacementType::RIGHT_TO_REFERENCED_ENTITY ? -1 : 1;
+        target_distance_ *= displacement_ == DisplacementType::RIGHT_TO_REFERENCED_ENTITY ? -1 : 1;
     }
     else if (cs_ == roadmanager::CoordinateSystem::CS_ROAD)
     {
         if (displacement_ == DisplacementType::LEFT_TO_REFERENCED_ENTITY)
         {
             // We want to be on the left side of the target object
-            distance_ = -abs(distance_);
-            sign_     = -1.0;
+            target_distance_ = -abs(distance_);
+            sign_            = -1.0;
         }
         else if (displacement_ == DisplacementType::RIGHT_TO_REFERENCED_ENTITY)
         {
             // We want to be on the right side of the target object
-            distance_ = abs(distance_);
-            sign_     = 1.0;
+            target_distance_ = abs(distance_);
+            sign_            = 1.0;
         }
 
         if (freespace_)
         {
             // We only take the width of the cars into account if we are in freespace mode
-            distance_ += sign_ * (ego_width + target_width) / 2.0;
+            target_distance_ += sign_ * (ego_width + target_width) / 2.0;
         }
     }
 
@@ -2104,11 +2107,11 @@ void LatDistanceAction::GetDistanceError(roadmanager::Position& pos1, roadmanage
     // Both cars facing same direction, either along the driving direction or against it
     if ((facing_forward && pos_diff.dDirection) || (!facing_forward && !pos_diff.dDirection))
     {
-        distance_error = -(pos_diff.dt + distance_);
+        distance_error = -(pos_diff.dt + target_distance_);
     }
     else  // The cars are facing opposite directions
     {
-        distance_error = -(pos_diff.dt - distance_);
+        distance_error = -(pos_diff.dt - target_distance_);
     }
 }
 
@@ -2130,7 +2133,7 @@ void LatDistanceAction::Step(double simTime, double dt)
         double step_len             = object_->GetSpeed() * dt;
 
         RotateVec2D(1.0, 0.0, target_object_->pos_.GetH(), target_obj_x_axis[0], target_obj_x_axis[1]);
-        RotateVec2D(0.0, distance_, target_object_->pos_.GetH(), target_obj_offset[0], target_obj_offset[1]);
+        RotateVec2D(0.0, target_distance_, target_object_->pos_.GetH(), target_obj_offset[0], target_obj_offset[1]);
 
         // calculate target position, i.e. aiming point
         ProjectPointOnLine2D(object_->pos_.GetX(),
diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.hpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.hpp
index 79a5841..e5663d8 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.hpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.hpp
@@ -549,6 +549,7 @@ namespace scenarioengine
 
         Object*                       target_object_;
         double                        distance_;
+        double                        target_distance_ = 0.0;  // distance including side and any body widths, resolved at start
         DistType                      dist_type_;
         double                        freespace_;
         bool                          continuous_;
-- 
2.43.0


From 76477c6b39e6d161bfb8b2fce779a2f334caaaa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:15 +0000
Subject: [PATCH 20/48] fix: let lateral distance action respect controllers on
 the lateral domain

The domain id was used for the domain mask, so it was overridden by controllers on the longitudinal domain instead.
---
 .../Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
index 7967438..59b8149 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
@@ -2118,7 +2118,7 @@ void LatDistanceAction::GetDistanceError(roadmanager::Position& pos1, roadmanage
 void LatDistanceAction::Step(double simTime, double dt)
 {
     (void)simTime;
-    if (object_->IsControllerModeOnDomains(ControlOperationMode::MODE_OVERRIDE, static_cast<unsigned int>(ControlDomains::DOMAIN_LAT)))
+    if (object_->IsControllerModeOnDomains(ControlOperationMode::MODE_OVERRIDE, static_cast<unsigned int>(ControlDomainMasks::DOMAIN_MASK_LAT)))
     {
         // lateral motion controlled elsewhere
         return;
-- 
2.43.0


From aa5fb2f9c42db3cbee568e4518b7769e54afcf44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:43 +0000
Subject: [PATCH 21/48] fix: use full length and time span of clothoid
 trajectories

---
 EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
index 860fab8..55cc0be 100644
--- a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
+++ b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
@@ -14119,8 +14119,8 @@ void ClothoidShape::CalculatePolyLine()
                 }
             }
         }
-        v.param = v.s = i * stepLen;
-        v.time        = t_start_ + (i * stepLen / spiral_.GetLength()) * t_end_;
+        v.param = v.s = i < steps ? i * stepLen : spiral_.GetLength();
+        v.time        = t_start_ + (v.s / spiral_.GetLength()) * (t_end_ - t_start_);
         pline_.AddVertex(v);
     }
 
@@ -14148,9 +14148,8 @@ int ClothoidShape::Evaluate(double p, TrajectoryParamType ptype, TrajVertex& pos
     {
         if (p >= t_start_ && p <= t_end_)
         {
-            double t = p - t_start_;
             // Transform time parameter value into a s value
-            p = GetLength() * (t - t_start_) / (t_end_ - t_start_);
+            p = GetLength() * (p - t_start_) / (t_end_ - t_start_);
         }
         else
         {
-- 
2.43.0


From c8083e456c4cff9bf5944150cc049f19134ddeef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:58 +0000
Subject: [PATCH 22/48] fix: steady state position of synchronize action lies
 before the destination

The distance between destination and steady state position was taken with
sign, i.e. negative for a position ahead of the destination, so the steady
state phase was never entered.
---
 .../Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
index 59b8149..b2bf9d3 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
@@ -2664,7 +2664,7 @@ void SynchronizeAction::Start(double simTime)
         // Find out distance between steady state position and final destination
         roadmanager::PositionDiff diff;
         target_position_.Delta(&steadyState_.pos_, diff);
-        steadyState_.dist_ = diff.ds;
+        steadyState_.dist_ = fabs(diff.ds);
         steadyState_.type_ = SteadyStateType::STEADY_STATE_DIST;
     }
 
-- 
2.43.0


From 2bf54d1e0e32fc18661d8b6c92488e61e4503ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:58 +0000
Subject: [PATCH 23/48] fix: free space distance to trailers and towed targets

Looking up the front vehicle of a target being a trailer never ended (or
dereferenced null), and in road coordinates the trailers of the target were
never considered.
---
 .../Modules/ScenarioEngine/SourceFiles/Entities.cpp         | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.cpp
index d1bfe85..b6d3f09 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.cpp
@@ -1079,7 +1079,7 @@ int Object::Distance(Object*                           target,
             {
                 pivot_obj = pivot_obj->TowVehicle();
             }
-            while (target_obj->TowVehicle())
+            while (target_front_obj->TowVehicle())
             {
                 target_front_obj = target_front_obj->TowVehicle();
             }
@@ -1136,7 +1136,7 @@ int Object::Distance(Object*                           target,
             {
                 pivot_obj = pivot_obj->TowVehicle();
             }
-            while (target_obj->TowVehicle())
+            while (target_front_obj->TowVehicle())
             {
                 target_front_obj = target_front_obj->TowVehicle();
             }
@@ -1151,7 +1151,7 @@ int Object::Distance(Object*                           target,
                        ((relDistType == RelativeDistanceType::REL_DIST_LATERAL && fabs(candidate_info.pos_diff.dt) > 0.0) ||
                         (relDistType == RelativeDistanceType::REL_DIST_LONGITUDINAL && fabs(candidate_info.pos_diff.ds) > 0.0)))
                 {
-                    int return_value = pivot_obj->FreeSpaceDistanceObjectRoadLane(target, &pos_diff, cs);
+                    int return_value = pivot_obj->FreeSpaceDistanceObjectRoadLane(target_obj, &pos_diff, cs);
                     if (return_value == 0)
                     {
                         if ((relDistType == RelativeDistanceType::REL_DIST_LATERAL && fabs(pos_diff.dt) < fabs(candidate_info.pos_diff.dt)) ||
-- 
2.43.0


From 2bb81abadd27838fa9bad51a74749dae034d2e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:14:25 +0000
Subject: [PATCH 24/48] fix: don't look beyond the last route waypoint on
 reversed road

---
 EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
index 55cc0be..345f99d 100644
--- a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
+++ b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
@@ -15126,9 +15126,9 @@ Position::ReturnCode Route::SetPathS(double s, double* remaining_dist, bool upda
         double ds = s - wp->GetRouteWaypointS();
 
         // check if delta s reaches beyond the road of wp(i)
-        if ((waypoint_idx_ < minimal_waypoints_.size() - 1 &&
-             (wp->GetRouteWaypointDir() == 1 && wp->GetS() + ds > road->GetLength() + SMALL_NUMBER)) ||
-            (wp->GetRouteWaypointDir() == -1 && wp->GetS() < ds + SMALL_NUMBER))
+        if (waypoint_idx_ < minimal_waypoints_.size() - 1 &&
+            ((wp->GetRouteWaypointDir() == 1 && wp->GetS() + ds > road->GetLength() + SMALL_NUMBER) ||
+             (wp->GetRouteWaypointDir() == -1 && wp->GetS() < ds + SMALL_NUMBER)))
         {
             // move to next road
             const Position& next_wp   = minimal_waypoints_[waypoint_idx_ + 1];
-- 
2.43.0


From 4b37402046076baa855f3d1f5fc43000aca0e039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:16:04 +0000
Subject: [PATCH 25/48] fix: update path position of route when set explicitly

---
 EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
index 345f99d..b88f7e0 100644
--- a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
+++ b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
@@ -15121,6 +15121,7 @@ Position::ReturnCode Route::SetPathS(double s, double* remaining_dist, bool upda
         }
         const Road* road = Position::GetOpenDrive()->GetRoadById(wp->GetTrackId());
         waypoint_idx_    = i;
+        path_s_          = CLAMP(s, 0.0, GetLength());
 
         // position is along the route between waypoint i and i + 1, find out on which road
         double ds = s - wp->GetRouteWaypointS();
-- 
2.43.0


From bdb4da0c2fa2a0fbff69e1803a2d889c299e1e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:16:04 +0000
Subject: [PATCH 26/48] fix: don't wrap heading rate difference as if it was an
 angle

---
 .../Modules/ScenarioEngine/SourceFiles/ScenarioEngine.cpp       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioEngine.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioEngine.cpp
index aa17dbc..d371547 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioEngine.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioEngine.cpp
@@ -691,7 +691,7 @@ void ScenarioEngine::prepareGroundTruth(double dt)
                 if (!obj->dirty_.Check(Object::DirtyBit::ANGULAR_ACC))
                 {
                     // If not already reported, calculate angular acceleration
-                    obj->SetAngularAcc(GetAngleDifference(heading_rate_new, obj->state_old.h_rate) / dt, 0.0, 0.0);
+                    obj->SetAngularAcc((heading_rate_new - obj->state_old.h_rate) / dt, 0.0, 0.0);
                 }
 
                 if (obj->type_ == Object::Type::VEHICLE)
-- 
2.43.0


From 6485bcff27697cf6c59091caf2a460e67e2c0254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:16:04 +0000
Subject: [PATCH 27/48] fix: return throttle state from GetThrottleDisabled of
 simple vehicle

---
 EnvironmentSimulator/Modules/Controllers/vehicle.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/EnvironmentSimulator/Modules/Controllers/vehicle.hpp b/EnvironmentSimulator/Modules/Controllers/vehicle.hpp
index 9b63c43..7f5f937 100644
--- a/EnvironmentSimulator/Modules/Controllers/vehicle.hpp
+++ b/EnvironmentSimulator/Modules/Controllers/vehicle.hpp
@@ -129,7 +129,7 @@ namespace vehicle
         }
         bool GetThrottleDisabled() const
         {
-            return steering_disabled_;
+            return throttle_disabled_;
         }
         void SetThrottleDisabled(bool value)
         {
-- 
2.43.0


From 3ec9c09e38db6dd80d3be76d53e606a66251189e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:16:04 +0000
Subject: [PATCH 28/48] fix: consider lane offset when probing along road
 center

---
 EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
index b88f7e0..63b433f 100644
--- a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
+++ b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
@@ -12182,7 +12182,10 @@ Position::ReturnCode Position::GetProbeInfo(double lookahead_distance, RoadProbe
     if (lookAheadMode == LookAheadMode::LOOKAHEADMODE_AT_ROAD_CENTER)
     {
         // Look along center lane requested, adjust offset to end up on center lane
-        retval = target.SetLanePos(target.GetTrackId(), target.GetLaneId(), target.GetS(), -target.GetT() + SMALL_NUMBER * SIGN(GetLaneId()));
+        retval = target.SetLanePos(target.GetTrackId(),
+                                   target.GetLaneId(),
+                                   target.GetS(),
+                                   target.GetOffset() - target.GetT() + SMALL_NUMBER * SIGN(GetLaneId()));
     }
 
     if (retval != ReturnCode::ERROR_GENERIC)
-- 
2.43.0


From 87a2e867989bc3d5b2d8954677a484910669513c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:16:21 +0000
Subject: [PATCH 29/48] fix: reject negative position handles in esminiRMLib

---
 .../Libraries/esminiRMLib/esminiRMLib.cpp     | 35 ++++++++++---------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/EnvironmentSimulator/Libraries/esminiRMLib/esminiRMLib.cpp b/EnvironmentSimulator/Libraries/esminiRMLib/esminiRMLib.cpp
index 1a0d8cd..4dea781 100644
--- a/EnvironmentSimulator/Libraries/esminiRMLib/esminiRMLib.cpp
+++ b/EnvironmentSimulator/Libraries/esminiRMLib/esminiRMLib.cpp
@@ -465,7 +465,7 @@ extern "C"
 
     RM_DLL_API int RM_SetLanePosition(int handle, id_t roadId, int laneId, double laneOffset, double s, bool align)
     {
-        if (odrManager == nullptr || handle >= static_cast<int>(position.size()))
+        if (odrManager == nullptr || handle < 0 || handle >= static_cast<int>(position.size()))
         {
             return -1;
         }
@@ -506,7 +506,7 @@ extern "C"
 
     RM_DLL_API int RM_SetRoadPosition(int handle, id_t roadId, double s, double t, bool align)
     {
-        if (odrManager == nullptr || handle >= static_cast<int>(position.size()))
+        if (odrManager == nullptr || handle < 0 || handle >= static_cast<int>(position.size()))
         {
             return -1;
         }
@@ -547,7 +547,7 @@ extern "C"
 
     RM_DLL_API int RM_SetWorldPosition(int handle, double x, double y, double z, double h, double p, double r)
     {
-        if (odrManager == nullptr || handle >= static_cast<int>(position.size()))
+        if (odrManager == nullptr || handle < 0 || handle >= static_cast<int>(position.size()))
         {
             return -1;
         }
@@ -572,7 +572,7 @@ extern "C"
 
     RM_DLL_API int RM_SetWorldXYHPosition(int handle, double x, double y, double h)
     {
-        if (odrManager == nullptr || handle >= static_cast<int>(position.size()))
+        if (odrManager == nullptr || handle < 0 || handle >= static_cast<int>(position.size()))
         {
             return -1;
         }
@@ -590,7 +590,7 @@ extern "C"
 
     RM_DLL_API int RM_SetWorldXYZHPosition(int handle, double x, double y, double z, double h)
     {
-        if (odrManager == nullptr || handle >= static_cast<int>(position.size()))
+        if (odrManager == nullptr || handle < 0 || handle >= static_cast<int>(position.size()))
         {
             return -1;
         }
@@ -608,7 +608,7 @@ extern "C"
 
     RM_DLL_API int RM_SetWorldPositionMode(int handle, double x, double y, double z, double h, double p, double r, int mode)
     {
-        if (odrManager == nullptr || handle >= static_cast<int>(position.size()))
+        if (odrManager == nullptr || handle < 0 || handle >= static_cast<int>(position.size()))
         {
             return -1;
         }
@@ -648,7 +648,7 @@ extern "C"
 
     RM_DLL_API int RM_SetH(int handle, double h)
     {
-        if (odrManager == nullptr || handle >= static_cast<int>(position.size()))
+        if (odrManager == nullptr || handle < 0 || handle >= static_cast<int>(position.size()))
         {
             return -1;
         }
@@ -677,7 +677,7 @@ extern "C"
 
     RM_DLL_API int RM_SetHMode(int handle, double h, int mode)
     {
-        if (odrManager == nullptr || handle >= static_cast<int>(position.size()))
+        if (odrManager == nullptr || handle < 0 || handle >= static_cast<int>(position.size()))
         {
             return -1;
         }
@@ -704,7 +704,7 @@ extern "C"
 
     RM_DLL_API int RM_SetRoadId(int handle, id_t roadId)
     {
-        if (odrManager == nullptr || handle >= static_cast<int>(position.size()))
+        if (odrManager == nullptr || handle < 0 || handle >= static_cast<int>(position.size()))
         {
             return -1;
         }
@@ -729,7 +729,7 @@ extern "C"
 
     RM_DLL_API int RM_SetS(int handle, double s)
     {
-        if (odrManager == nullptr || handle >= static_cast<int>(position.size()))
+        if (odrManager == nullptr || handle < 0 || handle >= static_cast<int>(position.size()))
         {
             return -1;
         }
@@ -747,7 +747,7 @@ extern "C"
 
     RM_DLL_API int RM_SetSnapLaneTypes(int handle, int laneTypes)
     {
-        if (odrManager == nullptr || handle >= static_cast<int>(position.size()))
+        if (odrManager == nullptr || handle < 0 || handle >= static_cast<int>(position.size()))
         {
             return -1;
         }
@@ -766,7 +766,7 @@ extern "C"
 
     RM_DLL_API int RM_PositionMoveForward(int handle, double dist, double junctionSelectorAngle)
     {
-        if (odrManager == nullptr || handle >= static_cast<int>(position.size()))
+        if (odrManager == nullptr || handle < 0 || handle >= static_cast<int>(position.size()))
         {
             return -1;
         }
@@ -786,7 +786,7 @@ extern "C"
 
     RM_DLL_API int RM_GetPositionData(int handle, RM_PositionData* data)
     {
-        if (odrManager == nullptr || handle >= static_cast<int>(position.size()))
+        if (odrManager == nullptr || handle < 0 || handle >= static_cast<int>(position.size()))
         {
             return -1;
         }
@@ -811,7 +811,7 @@ extern "C"
 
     RM_DLL_API int RM_GetLaneInfo(int handle, double lookahead_distance, RM_RoadLaneInfo* data, int lookAheadMode, bool inRoadDrivingDirection)
     {
-        if (odrManager == nullptr || handle >= static_cast<int>(position.size()))
+        if (odrManager == nullptr || handle < 0 || handle >= static_cast<int>(position.size()))
         {
             return -1;
         }
@@ -821,7 +821,7 @@ extern "C"
 
     RM_DLL_API double RM_GetSpeedLimit(int handle)
     {
-        if (odrManager == nullptr || handle >= static_cast<int>(position.size()))
+        if (odrManager == nullptr || handle < 0 || handle >= static_cast<int>(position.size()))
         {
             return -1;
         }
@@ -831,7 +831,7 @@ extern "C"
 
     RM_DLL_API int RM_GetProbeInfo(int handle, double lookahead_distance, RM_RoadProbeInfo* data, int lookAheadMode, bool inRoadDrivingDirection)
     {
-        if (odrManager == nullptr || handle >= static_cast<int>(position.size()))
+        if (odrManager == nullptr || handle < 0 || handle >= static_cast<int>(position.size()))
         {
             return -1;
         }
@@ -919,7 +919,8 @@ extern "C"
 
     RM_DLL_API int RM_SubtractAFromB(int handleA, int handleB, RM_PositionDiff* pos_diff)
     {
-        if (odrManager == nullptr || handleA >= static_cast<int>(position.size()) || handleB >= static_cast<int>(position.size()))
+        if (odrManager == nullptr || handleA < 0 || handleA >= static_cast<int>(position.size()) || handleB < 0 ||
+            handleB >= static_cast<int>(position.size()))
         {
             return -1;
         }
-- 
2.43.0


From 49354397fdf847209ab7d2e6e1c8fb98b2defaca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:16:21 +0000
Subject: [PATCH 30/48] fix: set road id of road sign info in esminiRMLib

---
 EnvironmentSimulator/Libraries/esminiRMLib/esminiRMLib.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/EnvironmentSimulator/Libraries/esminiRMLib/esminiRMLib.cpp b/EnvironmentSimulator/Libraries/esminiRMLib/esminiRMLib.cpp
index 4dea781..10f71b9 100644
--- a/EnvironmentSimulator/Libraries/esminiRMLib/esminiRMLib.cpp
+++ b/EnvironmentSimulator/Libraries/esminiRMLib/esminiRMLib.cpp
@@ -983,6 +983,7 @@ extern "C"
                 road_sign->y           = pos.GetY();
                 road_sign->z           = pos.GetZ();
                 road_sign->h           = pos.GetH();
+                road_sign->roadId      = road_id;
                 road_sign->s           = pos.GetS();
                 road_sign->t           = pos.GetT();
                 road_sign->orientation = s->GetOrientation() == roadmanager::Signal::Orientation::NEGATIVE ? -1 : 1;
-- 
2.43.0


From e11cc071afc53c8cef6ce172ba4bb9c9096ae8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:16:21 +0000
Subject: [PATCH 31/48] fix: handle missing road sign when reading validity
 records in esminiRMLib

---
 EnvironmentSimulator/Libraries/esminiRMLib/esminiRMLib.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/EnvironmentSimulator/Libraries/esminiRMLib/esminiRMLib.cpp b/EnvironmentSimulator/Libraries/esminiRMLib/esminiRMLib.cpp
index 10f71b9..cacf419 100644
--- a/EnvironmentSimulator/Libraries/esminiRMLib/esminiRMLib.cpp
+++ b/EnvironmentSimulator/Libraries/esminiRMLib/esminiRMLib.cpp
@@ -1012,7 +1012,10 @@ extern "C"
             if (road != NULL)
             {
                 roadmanager::Signal* s = road->GetSignal(index);
-                return static_cast<int>(s->validity_.size());
+                if (s != nullptr)
+                {
+                    return static_cast<int>(s->validity_.size());
+                }
             }
         }
 
@@ -1027,7 +1030,7 @@ extern "C"
             if (road != NULL)
             {
                 roadmanager::Signal* s = road->GetSignal(signIndex);
-                if (validityIndex < s->validity_.size())
+                if (s != nullptr && validityIndex < s->validity_.size())
                 {
                     validity->fromLane = s->validity_[validityIndex].fromLane_;
                     validity->toLane   = s->validity_[validityIndex].toLane_;
-- 
2.43.0


From 703c2bf7ab274f0a83aa535170b081efd125fab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:00 +0000
Subject: [PATCH 32/48] fix: SE_ReportObjectLateralLanePosition ignored the
 lane id

---
 EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
index 4252cf2..f035f93 100644
--- a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
+++ b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
@@ -1283,14 +1283,13 @@ extern "C"
 
     SE_DLL_API int SE_ReportObjectLateralLanePosition(int object_id, int laneId, double laneOffset)
     {
-        (void)laneId;
         Object *obj = nullptr;
         if (getObjectById(object_id, obj) == -1)
         {
             return -1;
         }
 
-        obj->pos_.SetLanePos(obj->pos_.GetTrackId(), obj->pos_.GetLaneId(), obj->pos_.GetS(), laneOffset);
+        obj->pos_.SetLanePos(obj->pos_.GetTrackId(), laneId, obj->pos_.GetS(), laneOffset);
         obj->dirty_.SetBits(Object::DirtyBit::LONGITUDINAL | Object::DirtyBit::LATERAL);
 
         return 0;
-- 
2.43.0


From 5c5c0ad6b79b39d40e2b80f08cbe4f911e58a2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:00 +0000
Subject: [PATCH 33/48] fix: SE_SetSnapLaneTypes and SE_SetLockOnLane refused
 objects whose id exceeds the number of objects

---
 .../Libraries/esminiLib/esminiLib.cpp         | 20 +++----------------
 1 file changed, 3 insertions(+), 17 deletions(-)

diff --git a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
index f035f93..dd13baf 100644
--- a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
+++ b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
@@ -1376,15 +1376,8 @@ extern "C"
             return -1;
         }
 
-        if (object_id >= 0 && object_id < static_cast<int>(player->scenarioEngine->entities_.object_.size()))
-        {
-            obj->pos_.SetSnapLaneTypes(laneTypes);
-            obj->dirty_.SetBits(Object::DirtyBit::LANE_TYPE_SNAP_MASK);
-        }
-        else
-        {
-            return -1;
-        }
+        obj->pos_.SetSnapLaneTypes(laneTypes);
+        obj->dirty_.SetBits(Object::DirtyBit::LANE_TYPE_SNAP_MASK);
 
         return 0;
     }
@@ -1397,14 +1390,7 @@ extern "C"
             return -1;
         }
 
-        if (object_id >= 0 && object_id < static_cast<int>(player->scenarioEngine->entities_.object_.size()))
-        {
-            obj->pos_.SetLockOnLane(mode);
-        }
-        else
-        {
-            return -1;
-        }
+        obj->pos_.SetLockOnLane(mode);
 
         return 0;
     }
-- 
2.43.0


From 27d742288f1ceb176f47f50a9472488f3f15a9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:00 +0000
Subject: [PATCH 34/48] fix: objects added by API without name all got the same
 name

---
 .../Libraries/esminiLib/esminiLib.cpp                 | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
index dd13baf..d492196 100644
--- a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
+++ b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
@@ -1134,7 +1134,10 @@ extern "C"
                 object->category_    = object_category;
                 object->role_        = static_cast<scenarioengine::Object::Role>(object_role);
                 object->boundingbox_ = bb;
-                object->name_        = (object_name == nullptr) ? "obj_" + std::to_string(object->id_) : object_name;
+                if (object_name != nullptr)
+                {
+                    object->name_ = object_name;
+                }
 
                 if (model_3d != nullptr && strlen(model_3d) > 0)
                 {
@@ -1161,6 +1164,12 @@ extern "C"
                 }
 
                 player->scenarioEngine->entities_.addObject(object, true);
+
+                if (object_name == nullptr)
+                {
+                    // id is available first when the object has been added
+                    object->name_ = "obj_" + std::to_string(object->id_);
+                }
             }
             else
             {
-- 
2.43.0


From 58d73ecbc5a526f66c4c0f091abf16836c8fee0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:00 +0000
Subject: [PATCH 35/48] fix: finished injected actions were skipped when
 several finish in the same step

---
 EnvironmentSimulator/Modules/PlayerBase/PlayerServer.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/EnvironmentSimulator/Modules/PlayerBase/PlayerServer.cpp b/EnvironmentSimulator/Modules/PlayerBase/PlayerServer.cpp
index 8975547..012d81b 100644
--- a/EnvironmentSimulator/Modules/PlayerBase/PlayerServer.cpp
+++ b/EnvironmentSimulator/Modules/PlayerBase/PlayerServer.cpp
@@ -88,12 +88,15 @@ namespace scenarioengine
 
     void PlayerServer::Step()
     {
-        for (size_t i = 0; i < action_.size(); i++)
+        for (size_t i = 0; i < action_.size();)
         {
             if (action_[i]->GetCurrentState() == OSCAction::State::COMPLETE)
             {
                 LOG_INFO("Injected action {} finished", action_[i]->GetName().c_str());
                 DeleteAction(static_cast<unsigned int>(i));
+            }
+            else
+            {
                 i++;
             }
         }
-- 
2.43.0


From 94c5fe9e4493e20274c4ccd86b2d6509b96218eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:00 +0000
Subject: [PATCH 36/48] fix: wheel data lacked the wheel radius, accepted
 unknown wheels and crashed without scenario

---
 .../Libraries/esminiLib/esminiLib.cpp              | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
index d492196..fd5ce80 100644
--- a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
+++ b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
@@ -161,6 +161,7 @@ static void copyWheelDataFromScenarioObject(SE_WheelData *wheeldata, const scena
         wheeldata->z                    = wd.z;
         wheeldata->h                    = wd.h;
         wheeldata->p                    = wd.p;
+        wheeldata->wheel_radius         = wd.wheel_radius;
         wheeldata->friction_coefficient = wd.friction_coefficient;
         wheeldata->axle                 = wd.axle;
         wheeldata->index                = wd.index;
@@ -2149,6 +2150,11 @@ extern "C"
 
     SE_DLL_API int SE_GetObjectNumberOfWheels(int object_id)
     {
+        if (player == nullptr)
+        {
+            return -1;
+        }
+
         Object *obj = player->scenarioEngine->entities_.GetObjectById(object_id);
 
         if (obj != nullptr && obj->GetType() == Object::Type::VEHICLE)
@@ -2161,9 +2167,15 @@ extern "C"
 
     SE_DLL_API int SE_GetObjectWheelData(int object_id, int wheel_index, SE_WheelData *wheeldata)
     {
+        if (player == nullptr)
+        {
+            return -1;
+        }
+
         Object *obj = player->scenarioEngine->entities_.GetObjectById(object_id);
 
-        if (wheel_index >= 0 && obj != nullptr && obj->GetType() == Object::Type::VEHICLE)
+        if (wheel_index >= 0 && obj != nullptr && obj->GetType() == Object::Type::VEHICLE &&
+            wheel_index < static_cast<int>(static_cast<Vehicle *>(obj)->GetWheelData().size()))
         {
             copyWheelDataFromScenarioObject(wheeldata, static_cast<Vehicle &>(*obj), static_cast<unsigned int>(wheel_index));
             return 0;
-- 
2.43.0


From da8369dcefca39020880b0fd3ea5ad558dd84ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:00 +0000
Subject: [PATCH 37/48] fix: SE_GetRoadSign left road id unset, validity lookup
 of unknown signs crashed

---
 EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
index fd5ce80..9eb6284 100644
--- a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
+++ b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
@@ -2501,6 +2501,7 @@ extern "C"
                     pos.SetTrackPos(road_id, s->GetS(), s->GetT());
 
                     road_sign->id          = s->GetId();
+                    road_sign->roadId      = static_cast<int>(road_id);
                     returnString           = s->GetName();
                     road_sign->name        = returnString.c_str();
                     road_sign->x           = pos.GetX();
@@ -2532,7 +2533,7 @@ extern "C"
             if (road != nullptr)
             {
                 roadmanager::Signal *s = road->GetSignal(index);
-                return static_cast<unsigned int>(s->validity_.size());
+                return s != nullptr ? static_cast<unsigned int>(s->validity_.size()) : 0;
             }
         }
 
@@ -2547,7 +2548,7 @@ extern "C"
             if (road != NULL)
             {
                 roadmanager::Signal *s = road->GetSignal(signIndex);
-                if (validityIndex < s->validity_.size())
+                if (s != nullptr && validityIndex < s->validity_.size())
                 {
                     validity->fromLane = s->validity_[validityIndex].fromLane_;
                     validity->toLane   = s->validity_[validityIndex].toLane_;
-- 
2.43.0


From 58db47cdc6a76401c08b20f785079f70f8b64cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:00 +0000
Subject: [PATCH 38/48] fix: object sensor mixed up left and right when not
 facing straight ahead

---
 .../Modules/ScenarioEngine/SourceFiles/IdealSensor.cpp          | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/IdealSensor.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/IdealSensor.cpp
index 501ee3f..af3319a 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/IdealSensor.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/IdealSensor.cpp
@@ -106,7 +106,7 @@ void ObjectSensor::Update()
         NormalizeVec2D(xo, yo, xon, yon);
 
         // Find angle to object
-        double angle     = acos(GetDotProduct2D(hx2, hy2, xon, yon));
+        double angle     = atan2(GetCrossProduct2D(hx2, hy2, xon, yon), GetDotProduct2D(hx2, hy2, xon, yon));
         double rel_angle = GetAbsAngleDifference(angle, pos_.h);
         if (rel_angle < fovH_ / 2)
         {
-- 
2.43.0


From a768359331b70bd51aae22cfbf88281d57583901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:00 +0000
Subject: [PATCH 39/48] fix: object sensor wrote beyond its hit list when
 seeing more than maxObj objects

---
 .../Modules/ScenarioEngine/SourceFiles/IdealSensor.cpp          | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/IdealSensor.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/IdealSensor.cpp
index af3319a..0773244 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/IdealSensor.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/IdealSensor.cpp
@@ -61,7 +61,7 @@ void ObjectSensor::Update()
 {
     nObj_ = 0;
 
-    for (size_t i = 0; i < entities_->object_.size(); i++)
+    for (size_t i = 0; i < entities_->object_.size() && nObj_ < maxObj_; i++)
     {
         Object *obj = entities_->object_[i];
         if (obj == host_ || obj->IsGhost())
-- 
2.43.0


From cd8f48f2cc146e2bb484b51fe01be93472cb618b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:55:21 +0000
Subject: [PATCH 40/48] fix: ACC controller keeps the nearest entity when
 several are close ahead

---
 EnvironmentSimulator/Modules/Controllers/ControllerACC.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/EnvironmentSimulator/Modules/Controllers/ControllerACC.cpp b/EnvironmentSimulator/Modules/Controllers/ControllerACC.cpp
index 6f2e150..bfb5237 100644
--- a/EnvironmentSimulator/Modules/Controllers/ControllerACC.cpp
+++ b/EnvironmentSimulator/Modules/Controllers/ControllerACC.cpp
@@ -147,7 +147,8 @@ void ControllerACC::Step(double timeStep)
             double x_local, y_local;
             object_->FreeSpaceDistance(pivot_obj, &y_local, &x_local);
 
-            if (x_local > 0 && x_local < 1.0 + pivot_obj->boundingbox_.dimensions_.length_ + 0.5 * MAX(0.0, currentSpeed_ - pivot_obj->GetSpeed()) &&
+            if (x_local > 0 && x_local < minGapLength &&
+                x_local < 1.0 + pivot_obj->boundingbox_.dimensions_.length_ + 0.5 * MAX(0.0, currentSpeed_ - pivot_obj->GetSpeed()) &&
                 y_local < 0.2 && y_local > -0.5)  // yield some more for right hand traffic
             {
                 minGapLength = x_local;
-- 
2.43.0


From ab0ee7884d28e13f3579362bb31967c2b7105a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:55:21 +0000
Subject: [PATCH 41/48] fix: NaturalDriver finds the adjacent lane in roads
 with different number of left and right lanes

---
 .../Modules/Controllers/ControllerNaturalDriver.cpp         | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/EnvironmentSimulator/Modules/Controllers/ControllerNaturalDriver.cpp b/EnvironmentSimulator/Modules/Controllers/ControllerNaturalDriver.cpp
index 921d34e..e02da57 100644
--- a/EnvironmentSimulator/Modules/Controllers/ControllerNaturalDriver.cpp
+++ b/EnvironmentSimulator/Modules/Controllers/ControllerNaturalDriver.cpp
@@ -568,15 +568,13 @@ bool ControllerNaturalDriver::AdjacentLanesAvailable()
     bool left_driving, right_driving;
     if (SIGN(current_lane) == -1)
     {
-        unsigned int left_lanes = ls->GetNUmberOfLanesLeft();
         (current_lane_idx == max_lane_idx) ? right_driving = false : right_driving = ls->GetLaneById(right_lane_id)->IsDriving();
-        (current_lane_idx == max_lane_idx - left_lanes) ? left_driving = false : left_driving = ls->GetLaneById(left_lane_id)->IsDriving();
+        left_driving = ls->GetLaneById(left_lane_id)->IsDriving();
     }
     else
     {
-        unsigned int right_lanes = ls->GetNUmberOfLanesRight();
         (current_lane_idx == 0) ? right_driving = false : right_driving = ls->GetLaneById(right_lane_id)->IsDriving();
-        (current_lane_idx + 1 == right_lanes) ? left_driving = false : left_driving = ls->GetLaneById(left_lane_id)->IsDriving();
+        left_driving = ls->GetLaneById(left_lane_id)->IsDriving();
     }
 
     if (!left_driving && right_driving)  // Lane to the left is not driveable, but right lane is.
-- 
2.43.0


From e54685cb2f130f4e4bac941a040c8e5f09edf40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:55:21 +0000
Subject: [PATCH 42/48] fix: ActivateControllerAction deactivates the domains
 of the other controllers

---
 .../Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
index b2bf9d3..c6f0124 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
@@ -832,9 +832,9 @@ void ActivateControllerAction::Start(double simTime)
                 {
                     if (scenarioEngine_->GetScenarioReader()->GetVersionMinor() >= 3)
                     {
-                        LOG_WARN("Deactivating ctrl {} on domain {} (>= osc v1.3)", controller_->GetName(), ControlDomain2Str(domain));
+                        LOG_WARN("Deactivating ctrl {} on domain {} (>= osc v1.3)", ctrl->GetName(), ControlDomain2Str(domain));
                         // from osc v1.3 onwards, deactivation is done per domain
-                        controller_->DeactivateDomains(static_cast<unsigned int>(ControlDomain2DomainMask(domain)));
+                        ctrl->DeactivateDomains(static_cast<unsigned int>(ControlDomain2DomainMask(domain)));
                     }
                     else
                     {
-- 
2.43.0


From 758fe411564e23b391c9ab0dcb0bb7c796c2f33e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:55:21 +0000
Subject: [PATCH 43/48] fix: replay frames of recordings with varying step
 length are complete

---
 .../Applications/replayer/Replay.cpp          | 30 +++++++++++--------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/EnvironmentSimulator/Applications/replayer/Replay.cpp b/EnvironmentSimulator/Applications/replayer/Replay.cpp
index 8e9698e..8a6e9e8 100644
--- a/EnvironmentSimulator/Applications/replayer/Replay.cpp
+++ b/EnvironmentSimulator/Applications/replayer/Replay.cpp
@@ -889,9 +889,9 @@ void Replay::FillInTimestamps()
     else
     {
         size_t i = 0;
-        for (size_t j = 0; j < dts_.values.size() - 1;)
+        for (size_t j = 0; j < dts_.values.size() - 1 && (i + 1 < timestamps_.size() || curr_time - SMALL_NUMBER > dts_.values[j + 1].first);)
         {
-            double next_timestamp = timestamps_[i + 1];
+            double next_timestamp = i + 1 < timestamps_.size() ? timestamps_[i + 1] : curr_time;
             double next_dt        = dts_.values[j + 1].second;
 
             // We have reached the time where the next dt should be used
@@ -929,28 +929,32 @@ void Replay::FillInTimestamps()
                 continue;
             }
 
+            // The step up to next timestamp has the next dt if that is where the dt changes, otherwise the current one
             double current_dt = dts_.values[j].second;
+            bool   dt_change  = j + 1 < dts_.values.size() && NEAR_NUMBERS(next_timestamp, dts_.values[j + 1].first);
+            double last_dt    = dt_change ? next_dt : current_dt;
+            size_t nr_filled  = filled.size();
+
             // The gap to the next timestamp is more than 1 sample away, we should fill it
-            if (curr_time + next_dt < next_timestamp - SMALL_NUMBER && curr_time + current_dt < next_timestamp - SMALL_NUMBER)
+            if (curr_time + last_dt < next_timestamp - SMALL_NUMBER)
             {
-                // We have a large gap
-                double end_time = next_timestamp - next_dt;
-                FillEmptyTimestamps(curr_time, end_time, current_dt, filled);
+                FillEmptyTimestamps(curr_time, next_timestamp - last_dt, current_dt, filled);
             }
+
             // We are one sample away, just add it
-            else
+            if (filled.size() == nr_filled)
             {
                 filled.emplace_back(next_timestamp);
+                i++;
             }
 
-            i++;
             curr_time = filled.back();
+        }
 
-            // We have reached the last dt_ value, but the current time is not at the end, so we need to fill with current dt until the end
-            if (j == dts_.values.size() - 1 && curr_time + current_dt < timestamps_.back() - SMALL_NUMBER)
-            {
-                FillEmptyTimestamps(curr_time, timestamps_.back(), current_dt, filled);
-            }
+        // We have reached the last dt_ value, but the current time is not at the end, so we need to fill with last dt until the end
+        if (curr_time < timestamps_.back() - SMALL_NUMBER)
+        {
+            FillEmptyTimestamps(curr_time, timestamps_.back(), dts_.values.back().second, filled);
         }
     }
 
-- 
2.43.0


From f42020b6f8835d06d3f93db7be2b26d9d0419e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:04:45 +0000
Subject: [PATCH 44/48] fix: light transition reaches the commanded intensity
 whatever the step length

---
 .../ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp        | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
index c6f0124..7e58017 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
@@ -3224,7 +3224,8 @@ void LightStateAction::Start(double simTime)
 void LightStateAction::Step(double simTime, double dt)
 {
     (void)simTime;
-    bool end_action = false;
+    bool end_action    = false;
+    bool transitioning = !transitioned_;
 
     bool instantTransition = NEAR_NUMBERS(transitionTime_, 0.0);
     if ((instantTransition || transitionTimer_ > transitionTime_ - SMALL_NUMBER) && !transitioned_)
@@ -3249,12 +3250,12 @@ void LightStateAction::Step(double simTime, double dt)
         transitioned_ = true;  // Make sure we only enter this if-statement once
     }
 
-    if (transitionTimer_ <= transitionTime_ + SMALL_NUMBER)  // We enter here at least once, always
+    if (transitioning)  // We enter here at least once, always, the last time when the transition is completed
     {
         double transitionFactor = 1.0;
         if (transitionTime_ != 0.0)
         {
-            transitionFactor = transitionTimer_ / transitionTime_;
+            transitionFactor = MIN(1.0, transitionTimer_ / transitionTime_);
         }
         // for loop here on struct containing data of previous state
         for (auto& lightState : vehicleLights_)
-- 
2.43.0


From 2c5b39c75761e4c10c91510166781910036b5570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:04:45 +0000
Subject: [PATCH 45/48] fix: a vehicle light emits if any of its color channels
 does

---
 .../Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp  | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
index 7e58017..7b91e5c 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
@@ -3144,6 +3144,7 @@ void LightStateAction::SetVehicleLightState(Object::VehicleLightStatus* vehicleL
 {
     luminousity = CLAMP(luminousity, 0.0, MAX_INTENSITY_LUM);
 
+    vehicleLight->emitting = false;
     for (size_t i = 0; i < RGB_ARRAY_SIZE_; i++)
     {
         // scale luminosity non linear to achieve visible and somewhat natural distribution in the candela span [0,12000]
@@ -3157,10 +3158,6 @@ void LightStateAction::SetVehicleLightState(Object::VehicleLightStatus* vehicleL
         {
             vehicleLight->emitting = true;
         }
-        else
-        {
-            vehicleLight->emitting = false;
-        }
     }
 
     vehicleLight->luminousIntensity = luminousity;
-- 
2.43.0


From a405f667ab3e063cb043938c3d81860841f17735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:04:45 +0000
Subject: [PATCH 46/48] fix: a vehicle light which is reset does not emit

---
 .../Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp      | 1 +
 1 file changed, 1 insertion(+)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
index 7b91e5c..5c88b23 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
@@ -3392,6 +3392,7 @@ void LightStateAction::ResetLight(Object::VehicleLightStatus& light, Object::Veh
     light.emission[0] = 0.0;
     light.emission[1] = 0.0;
     light.emission[2] = 0.0;
+    light.emitting    = false;
 }
 
 void LightStateAction::SetInitState()
-- 
2.43.0


From 9405dbe20240577c068fbb0140fc5839be321360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:04:45 +0000
Subject: [PATCH 47/48] fix: a traffic light of unsupported type has no lamps

---
 EnvironmentSimulator/Modules/RoadManager/RoadManager.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/EnvironmentSimulator/Modules/RoadManager/RoadManager.hpp b/EnvironmentSimulator/Modules/RoadManager/RoadManager.hpp
index 55cce73..f6f23c3 100644
--- a/EnvironmentSimulator/Modules/RoadManager/RoadManager.hpp
+++ b/EnvironmentSimulator/Modules/RoadManager/RoadManager.hpp
@@ -2153,7 +2153,7 @@ namespace roadmanager
         }
 
     private:
-        size_t            nr_lamps_;
+        size_t            nr_lamps_ = 0;
         std::vector<Lamp> lamps_;
         TrafficLightType  light_type_;
 
-- 
2.43.0


From 3f2ef5b401a0ed83145ec870a458243747476076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:08:52 +0000
Subject: [PATCH 48/48] fix: light color with all channels bright is not left
 undefined

---
 EnvironmentSimulator/Modules/CommonMini/CommonMini.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/EnvironmentSimulator/Modules/CommonMini/CommonMini.cpp b/EnvironmentSimulator/Modules/CommonMini/CommonMini.cpp
index 2b4dc1e..53f8c88 100644
--- a/EnvironmentSimulator/Modules/CommonMini/CommonMini.cpp
+++ b/EnvironmentSimulator/Modules/CommonMini/CommonMini.cpp
@@ -1384,6 +1384,14 @@ void GetRgbMinMaxColor(const double* baseRgb, double* minRgb, double* maxRgb, si
             maxRgb[i] = CLAMP(pow(x, gamma), MAX_RGB, MAX_VALUE_MAX);
         }
     }
+    else
+    {
+        // already bright in all channels, keep color as is
+        for (size_t i = 0; i < RGB_ARRAY_SIZE; i++)
+        {
+            maxRgb[i] = rgb[i];
+        }
+    }
 }
 
 bool ArrayZeroToOne(double array[], size_t size)
-- 
2.43.0

