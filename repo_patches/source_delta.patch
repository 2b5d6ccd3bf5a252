From c4b6d015ae8c3223397dc9914914f6ee29f77f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:24 +0000
Subject: [PATCH 01/22] fix: convex hull of point lists with repeated points or
 a single point

The candidate for the next vertex was initialised with point 0 (or 1) without
checking that this point exists and is not a copy of the current vertex.
---
 src/convexpolygon.cpp | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/convexpolygon.cpp b/src/convexpolygon.cpp
index f561d3b..7221aff 100644
--- a/src/convexpolygon.cpp
+++ b/src/convexpolygon.cpp
@@ -166,25 +166,21 @@ namespace MPCWalkgen
   {
     //Creating vector of indexes of the candidate for the next vertex
     std::vector<int> indexesTab;
-    indexesTab.reserve(ptot.size() - 1);
+    indexesTab.reserve(ptot.size());
 
-    // We push back index 0 arbitrarily, unless currIndex=0
-    if(currIndex!=0)
-    {
-      indexesTab.push_back(0);
-    }
-    else
-    {
-      indexesTab.push_back(1);
-    }
-
-    for (size_t i=1; i<ptot.size(); ++i)
+    for (size_t i=0; i<ptot.size(); ++i)
     {
       // We do not check the current vertex. This if statement also avoids copies
       // of the current vertex among ptot vector, i.e. we do not count the current
       // vertex more than once
       if(!ptot[i].isApprox(ptot[currIndex], Constant<Scalar>::EPSILON))
       {
+        if(indexesTab.empty())
+        {
+          indexesTab.push_back(i);
+          continue;
+        }
+
         if(angleBetweenVecs(ptot[currIndex] - lastVertice,
                             ptot[i] - ptot[currIndex]) <
            angleBetweenVecs(ptot[currIndex] -
@@ -204,6 +200,12 @@ namespace MPCWalkgen
       }
     }
 
+    // All the points are copies of the current vertex
+    if (indexesTab.empty())
+    {
+      return currIndex;
+    }
+
     //Choosing the index of the furthest point from the current point
     //among indexesTab
     if (indexesTab.size()>1)
-- 
2.43.0


From 02ea631f25fd377ece5117582f101cf312bca33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:14 +0000
Subject: [PATCH 02/22] fix: convex hull of collinear points with rounding
 errors

Directions were compared without being normalised, so that going back along an
edge could be seen as an angle of -pi, and a slightly smaller angle was
preferred to the furthest of several aligned points.
---
 src/convexpolygon.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/convexpolygon.cpp b/src/convexpolygon.cpp
index 7221aff..8dee9f7 100644
--- a/src/convexpolygon.cpp
+++ b/src/convexpolygon.cpp
@@ -89,11 +89,11 @@ namespace MPCWalkgen
   {
     if(vec1.isZero() ||
        vec2.isZero() ||
-       vec1.isApprox(vec2, Constant<Scalar>::EPSILON))
+       vec1.normalized().isApprox(vec2.normalized(), Constant<Scalar>::EPSILON))
     {
       return static_cast<Scalar>(0.);
     }
-    else if (vec1.isApprox(-vec2, Constant<Scalar>::EPSILON))
+    else if (vec1.normalized().isApprox(-vec2.normalized(), Constant<Scalar>::EPSILON))
     {
       return boost::math::constants::pi<Scalar>();
     }
@@ -184,7 +184,8 @@ namespace MPCWalkgen
         if(angleBetweenVecs(ptot[currIndex] - lastVertice,
                             ptot[i] - ptot[currIndex]) <
            angleBetweenVecs(ptot[currIndex] -
-                            lastVertice, ptot[indexesTab[0]] - ptot[currIndex]))
+                            lastVertice, ptot[indexesTab[0]] - ptot[currIndex]) -
+           Constant<Scalar>::EPSILON)
         {
           indexesTab.erase(indexesTab.begin(), indexesTab.end());
           indexesTab.push_back(i);
-- 
2.43.0


From ceb3c0ee39251546c9d160eca36fd37e03b2ca09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:39 +0000
Subject: [PATCH 03/22] fix: inverse of the acceleration dynamic when the first
 interval is shorter

---
 src/tools.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools.cpp b/src/tools.cpp
index 42e96dd..39e8bc9 100644
--- a/src/tools.cpp
+++ b/src/tools.cpp
@@ -176,7 +176,7 @@ void Tools::ConstantJerkDynamic<Scalar>::computeAccDynamic(Scalar S, Scalar T,
 
   if(dyn.Uinv.rows()>1)
   {
-    dyn.Uinv(1, 0) = dyn.UTinv(0, 1) = -1/S;
+    dyn.Uinv(1, 0) = dyn.UTinv(0, 1) = -1/T;
   }
 
   for (int i=0; i<N; ++i)
@@ -215,7 +215,7 @@ void Tools::ConstantJerkDynamic<Scalar>::computeOrder2VelDynamic(Scalar S, Scala
 
   if(dyn.Uinv.rows()>1)
   {
-    dyn.Uinv(1, 0) = dyn.UTinv(0, 1) = -1/S;
+    dyn.Uinv(1, 0) = dyn.UTinv(0, 1) = -1/T;
   }
 
   for (int i=0; i<N; ++i)
-- 
2.43.0


From 1deca9828a2ad417a331aa1ab5ea9e8757826a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:39 +0000
Subject: [PATCH 04/22] fix: default constructed base model left the tilt
 contact point undefined

---
 src/model/zebulon_base_model.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/model/zebulon_base_model.cpp b/src/model/zebulon_base_model.cpp
index 39155f1..88b6b93 100644
--- a/src/model/zebulon_base_model.cpp
+++ b/src/model/zebulon_base_model.cpp
@@ -58,6 +58,8 @@ BaseModel<Scalar>::BaseModel()
   ,velocityLimit_(1.0)
   ,accelerationLimit_(1.0)
   ,jerkLimit_(1.0)
+  ,tiltContactPointX_(0.0)
+  ,tiltContactPointY_(0.0)
   ,copSupportConvexPolygon_()
   ,comSupportConvexPolygon_()
 {
-- 
2.43.0


From f28f668744c0b0b494295ea1b78fe8eefbc76938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:57 +0000
Subject: [PATCH 05/22] fix: pseudo-inverse of matrices that are not square

---
 mpc-walkgen/tools.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpc-walkgen/tools.h b/mpc-walkgen/tools.h
index 20272a4..6d6b3ed 100644
--- a/mpc-walkgen/tools.h
+++ b/mpc-walkgen/tools.h
@@ -79,7 +79,7 @@ namespace MPCWalkgen
     void inverseSVD(const typename Type<Scalar>::MatrixX& A,
                     typename Type<Scalar>::MatrixX& Ap, Scalar eps=1e-15f) {
       Eigen::JacobiSVD<typename Type<Scalar>::MatrixX> svd =
-          A.jacobiSvd(Eigen::ComputeFullU | Eigen::ComputeFullV);
+          A.jacobiSvd(Eigen::ComputeThinU | Eigen::ComputeThinV);
 
       Scalar tolerance = eps * std::max(A.cols(), A.rows())
           * svd.singularValues().array().abs().maxCoeff();
-- 
2.43.0


From 19eff026f3d252c57636fffc62422b5a0c02a61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:36 +0000
Subject: [PATCH 06/22] fix: decreasing the body or the base mass of the
 wheeled robot aborted

---
 src/zebulon_walkgen.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/zebulon_walkgen.cpp b/src/zebulon_walkgen.cpp
index 5b588a5..644265d 100644
--- a/src/zebulon_walkgen.cpp
+++ b/src/zebulon_walkgen.cpp
@@ -187,6 +187,11 @@ void ZebulonWalkgen<Scalar>::setBodyMass(Scalar mass)
 {
   assert(mass==mass);
 
+  // The mass of a model can never be higher than the total mass
+  if (mass<lipModel_.getMass())
+  {
+    lipModel_.setMass(mass);
+  }
 
   Scalar totalMass = mass + baseModel_.getMass();
   lipModel_.setTotalMass(totalMass);
@@ -208,6 +213,12 @@ void ZebulonWalkgen<Scalar>::setBaseMass(Scalar mass)
 {
   assert(mass==mass);
 
+  // The mass of a model can never be higher than the total mass
+  if (mass<baseModel_.getMass())
+  {
+    baseModel_.setMass(mass);
+  }
+
   Scalar totalMass = lipModel_.getMass() + mass;
   lipModel_.setTotalMass(totalMass);
   baseModel_.setTotalMass(totalMass);
-- 
2.43.0


From 60438ff0b8ec83059bd6a579709d4ed1d75adc19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:36 +0000
Subject: [PATCH 07/22] fix: tilt objectives ignored a change of the base
 height

---
 src/zebulon_walkgen.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/zebulon_walkgen.cpp b/src/zebulon_walkgen.cpp
index 644265d..7db464d 100644
--- a/src/zebulon_walkgen.cpp
+++ b/src/zebulon_walkgen.cpp
@@ -178,6 +178,8 @@ void ZebulonWalkgen<Scalar>::setComBaseHeight(Scalar comHeight)
   copConstraint_.computeConstantPart();
   copCenteringObj_.computeConstantPart();
   comCenteringObj_.updateGravityShift();
+  tiltMinObj_.computeConstantPart();
+  tiltVelMinObj_.computeConstantPart();
 
   computeConstantPart();
 }
-- 
2.43.0


From 686a0864b69548470ddb2e9ada79f07abfb5d0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:36 +0000
Subject: [PATCH 08/22] fix: the correction of the CoM reference for gravity
 was lost by setNbSamples

---
 src/zebulon_walkgen.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/zebulon_walkgen.cpp b/src/zebulon_walkgen.cpp
index 7db464d..2a38ae6 100644
--- a/src/zebulon_walkgen.cpp
+++ b/src/zebulon_walkgen.cpp
@@ -48,6 +48,7 @@ void ZebulonWalkgen<Scalar>::setNbSamples(int nbSamples)
   lipModel_.setNbSamples(nbSamples);
   baseModel_.setNbSamples(nbSamples);
   comCenteringObj_.setNbSamples(nbSamples);
+  comCenteringObj_.updateGravityShift();
 
   dX_.setZero(4*nbSamples);
   X_.setZero(4*nbSamples);
-- 
2.43.0


From fb98948a68c872488779b0e4dd7d2806577bda06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:36 +0000
Subject: [PATCH 09/22] fix: inertial terms of the body and of the base were
 swapped in the tilt objectives

---
 src/function/zebulon_tilt_minimization_objective.cpp          | 4 ++--
 src/function/zebulon_tilt_velocity_minimization_objective.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/function/zebulon_tilt_minimization_objective.cpp b/src/function/zebulon_tilt_minimization_objective.cpp
index 4fb6ebf..221d208 100644
--- a/src/function/zebulon_tilt_minimization_objective.cpp
+++ b/src/function/zebulon_tilt_minimization_objective.cpp
@@ -122,8 +122,8 @@ void TiltMinimizationObjective<Scalar>::computeConstantPart()
   Scalar A2 = m*g;
   Scalar A3x = M*g*dbx;
   Scalar A3y = M*g*dby;
-  Scalar A4 = m*h;
-  Scalar A5 = M*L;
+  Scalar A4 = M*L;
+  Scalar A5 = m*h;
   Scalar A6 = m*h*h+M*L*L;
 
   const LinearDynamic<Scalar>& tiltAngleDyn = baseModel_.getBaseTiltAngleLinearDynamic();
diff --git a/src/function/zebulon_tilt_velocity_minimization_objective.cpp b/src/function/zebulon_tilt_velocity_minimization_objective.cpp
index c3af044..36dbaef 100644
--- a/src/function/zebulon_tilt_velocity_minimization_objective.cpp
+++ b/src/function/zebulon_tilt_velocity_minimization_objective.cpp
@@ -122,8 +122,8 @@ void TiltVelMinimizationObjective<Scalar>::computeConstantPart()
   Scalar A2 = m*g;
   Scalar A3x = M*g*dbx;
   Scalar A3y = M*g*dby;
-  Scalar A4 = m*h;
-  Scalar A5 = M*L;
+  Scalar A4 = M*L;
+  Scalar A5 = m*h;
   Scalar A6 = m*h*h+M*L*L;
 
   const LinearDynamic<Scalar>& tiltAngleDyn = baseModel_.getBaseTiltAngleLinearDynamic();
-- 
2.43.0


From 7a3119f95f6ab99309e0102b1d9f5bb164a9d0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:36 +0000
Subject: [PATCH 10/22] fix: sign of the gravity term of the CoP reference in
 world frame

---
 src/function/zebulon_cop_centering_objective.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/function/zebulon_cop_centering_objective.cpp b/src/function/zebulon_cop_centering_objective.cpp
index b869632..794f819 100644
--- a/src/function/zebulon_cop_centering_objective.cpp
+++ b/src/function/zebulon_cop_centering_objective.cpp
@@ -175,7 +175,7 @@ void CopCenteringObjective<Scalar>::setCopRefInWorldFrame(
 
   copRefInLocalFrame_ = ( mb*g[2]*basePosRefInWorldFrame - mb*hb*baseAccRefInWorldFrame
                         + mc*g[2]*comPosRefInWorldFrame - mc*hc*comAccRefInWorldFrame
-                        + (mb*hb+mc*hc)*constantGravity_) / ((mb+mc)*g[2])
+                        - (mb*hb+mc*hc)*constantGravity_) / ((mb+mc)*g[2])
 
                         - basePosRefInWorldFrame; //In local Frame
 }
-- 
2.43.0


From 0604dc28063b36120727e549473ee6bbe795f76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:00 +0000
Subject: [PATCH 11/22] fix: steps that are not previewed anymore stayed in the
 QP variable

---
 src/humanoid_feet_supervisor.cpp | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/humanoid_feet_supervisor.cpp b/src/humanoid_feet_supervisor.cpp
index 53324bf..dd0190e 100644
--- a/src/humanoid_feet_supervisor.cpp
+++ b/src/humanoid_feet_supervisor.cpp
@@ -526,18 +526,24 @@ namespace MPCWalkgen
       {
         enlargeStepVec(variable);
       }
-      // When the user set move_ to false this checks if the QP variable size must be reduce.
-      if(!move_ && (variable.rows() > 2*nbSamples_ + 2))
-      {
-        variable(2*nbSamples_ + 1) = variable(variable.rows()/2 + nbSamples_);
-        variable.conservativeResize(2*nbSamples_ + 2);
-      }
-
       // Decrementing timers
       phaseTimer_ -= samplingPeriod_;
       horizonTimer_ -= samplingPeriod_;
     }
 
+    // The steps that are not previewed anymore, for instance because the user set move_ to
+    // false or increased the step period, leave the QP variable.
+    const int nbStepsInVariable = variable.rows()/2 - nbSamples_;
+    if(nbStepsInVariable > nbPreviewedSteps_)
+    {
+      for(int i=0; i<nbPreviewedSteps_; ++i)
+      {
+        variable(2*nbSamples_ + nbPreviewedSteps_ + i) =
+            variable(2*nbSamples_ + nbStepsInVariable + i);
+      }
+      variable.conservativeResize(2*nbSamples_ + 2*nbPreviewedSteps_);
+    }
+
     //Removing useless phases
     timeline_.set_capacity(phaseIndex + 1);
 
-- 
2.43.0


From fb6cc4f956ec8c2bab0e1b6d30974b1ae2c9de98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:00 +0000
Subject: [PATCH 12/22] fix: first previewed step when it enters the horizon
 during a single support

---
 src/humanoid_feet_supervisor.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/humanoid_feet_supervisor.cpp b/src/humanoid_feet_supervisor.cpp
index dd0190e..8d344cf 100644
--- a/src/humanoid_feet_supervisor.cpp
+++ b/src/humanoid_feet_supervisor.cpp
@@ -762,13 +762,13 @@ namespace MPCWalkgen
     }
 
     // Adding x and y coordinates of the new footstep position
-    if(isInDS() && (nbPreviewedSteps_==1))
+    if(newNbOfSteps==1)
     {
-      variable(2*nbSamples_ + newNbOfSteps - 1) =
-          getLeftFootStateX()(0) + (rightmostPointX + leftmostPointX)/2;
+      variable(2*nbSamples_) =
+          getSupportFootStateX()(0) + (rightmostPointX + leftmostPointX)/2;
 
       variable(newSize - 1) =
-          getLeftFootStateY()(0) + (lowestPointY + highestPointY)/2;
+          getSupportFootStateY()(0) + (lowestPointY + highestPointY)/2;
     }
     else
     {
-- 
2.43.0


From fdb37965f37bc64a1b18d89aef7e79ef75b31b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:25 +0000
Subject: [PATCH 13/22] fix: X and Y support states shared the same storage in
 double support

---
 mpc-walkgen/humanoid_feet_supervisor.h | 3 ++-
 src/humanoid_feet_supervisor.cpp       | 8 ++++----
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/mpc-walkgen/humanoid_feet_supervisor.h b/mpc-walkgen/humanoid_feet_supervisor.h
index 2e4df92..164927b 100644
--- a/mpc-walkgen/humanoid_feet_supervisor.h
+++ b/mpc-walkgen/humanoid_feet_supervisor.h
@@ -213,7 +213,8 @@ namespace MPCWalkgen
       Scalar feedbackPeriod_;
 
       HumanoidFootModel<Scalar> leftFootModel_, rightFootModel_;
-      mutable VectorX middleState_;
+      mutable VectorX middleStateX_;
+      mutable VectorX middleStateY_;
       mutable ConvexPolygon<Scalar> copDSConvexPolygon_;
       mutable vectorOfVector2 copDSpoints_;
 
diff --git a/src/humanoid_feet_supervisor.cpp b/src/humanoid_feet_supervisor.cpp
index 8d344cf..049e0c4 100644
--- a/src/humanoid_feet_supervisor.cpp
+++ b/src/humanoid_feet_supervisor.cpp
@@ -424,8 +424,8 @@ namespace MPCWalkgen
     }
     else if(isInDS() && !move_)
     {
-      middleState_ = (rightFootModel_.getStateX() + leftFootModel_.getStateX())/2.0;
-      return middleState_;
+      middleStateX_ = (rightFootModel_.getStateX() + leftFootModel_.getStateX())/2.0;
+      return middleStateX_;
     }
     return leftFootModel_.getStateX();
   }
@@ -439,8 +439,8 @@ namespace MPCWalkgen
     }
     else if(isInDS() && !move_)
     {
-      middleState_ = (rightFootModel_.getStateY() + leftFootModel_.getStateY())/2.0;
-      return middleState_;
+      middleStateY_ = (rightFootModel_.getStateY() + leftFootModel_.getStateY())/2.0;
+      return middleStateY_;
     }
     return leftFootModel_.getStateY();
   }
-- 
2.43.0


From df7158fb512f6c84d18d64cc22dc30f6be11738a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:25 +0000
Subject: [PATCH 14/22] fix: height of the flying foot when mid-flight is not
 at the end of a control cycle

---
 src/humanoid_feet_supervisor.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/humanoid_feet_supervisor.cpp b/src/humanoid_feet_supervisor.cpp
index 049e0c4..e618a38 100644
--- a/src/humanoid_feet_supervisor.cpp
+++ b/src/humanoid_feet_supervisor.cpp
@@ -593,7 +593,8 @@ namespace MPCWalkgen
                                feedBackPeriod);
 
       //Updating Z state for the flying foot, depending whether the foot is going up or down
-      if(timeToNextPhase_ < flyingTime*0.5f + Constant<Scalar>::EPSILON)
+      const Scalar timeToMidFlight = timeToNextPhase_ - flyingTime*0.5f;
+      if(timeToMidFlight < Constant<Scalar>::EPSILON)
       {
         flyingFoot->updateStateZ(Vector3::Zero(),
                                  timeToNextPhase_,
@@ -601,9 +602,17 @@ namespace MPCWalkgen
       }
       else
       {
+        // The foot may reach its maximum height before the end of the feedback period
+        const Scalar risingTime = std::min(feedBackPeriod, timeToMidFlight);
         flyingFoot->updateStateZ(Vector3(flyingFoot->getMaxHeight(), 0, 0),
-                                 timeToNextPhase_ - flyingTime*0.5f,
-                                 feedBackPeriod);
+                                 timeToMidFlight,
+                                 risingTime);
+        if(feedBackPeriod - risingTime > Constant<Scalar>::EPSILON)
+        {
+          flyingFoot->updateStateZ(Vector3::Zero(),
+                                   flyingTime*0.5f,
+                                   feedBackPeriod - risingTime);
+        }
       }
     }
 
-- 
2.43.0


From 25f6860c520149c6ff9cee2510273fdd25dbce9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:25 +0000
Subject: [PATCH 15/22] fix: phases whose duration was changed at the end of
 the previous phase

---
 src/humanoid_feet_supervisor.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/humanoid_feet_supervisor.cpp b/src/humanoid_feet_supervisor.cpp
index e618a38..b006fe4 100644
--- a/src/humanoid_feet_supervisor.cpp
+++ b/src/humanoid_feet_supervisor.cpp
@@ -485,9 +485,19 @@ namespace MPCWalkgen
         shortenStepVec(variable);
       }
 
+      // The next phase has not been previewed if the current one has just been shortened
+      if(timeline_.size() == 1)
+      {
+        processFSM(timeline_.front());
+        timeline_.set_capacity(timeline_.capacity() + 1);
+        timeline_.push_back(Phase<Scalar>(phase_));
+      }
+
       timeline_.pop_front();
       timeline_.set_capacity(timeline_.capacity() - 1);
 
+      // The periods may have changed since this phase has been previewed
+      timeline_.front().duration_ = isInDS()? DSPeriod_ : stepPeriod_;
       timeToNextPhase_ = timeline_.front().duration_;
     }
 
-- 
2.43.0


From a9cf9bb05d149127c9545b52d8691b6f69ec4780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:06 +0000
Subject: [PATCH 16/22] fix: endless convex hull computation because of
 rounding errors

---
 src/convexpolygon.cpp | 84 ++++++++++++++++++++++++-------------------
 1 file changed, 47 insertions(+), 37 deletions(-)

diff --git a/src/convexpolygon.cpp b/src/convexpolygon.cpp
index 8dee9f7..233f268 100644
--- a/src/convexpolygon.cpp
+++ b/src/convexpolygon.cpp
@@ -8,6 +8,7 @@
 #include <mpc-walkgen/convexpolygon.h>
 #include <mpc-walkgen/constant.h>
 #include <boost/math/constants/constants.hpp>
+#include <algorithm>
 #include "macro.h"
 
 namespace MPCWalkgen
@@ -58,11 +59,21 @@ namespace MPCWalkgen
 
     p.reserve(points.size());
 
-    // Adding the first vertex
-    int index = getIndexOfLowestAndLeftmostVertice(points);
+    // Adding the first vertex, every other point is on the left of the horizontal line
+    // through it
+    int index = 0;
+    for(size_t i=1; i<points.size(); ++i)
+    {
+      if(points[i](1) < points[index](1) ||
+         (points[i](1) == points[index](1) && points[i](0) < points[index](0)))
+      {
+        index = i;
+      }
+    }
 
     // Adding the first point
     p.push_back(points[index]);
+    std::vector<int> indexes(1, index);
 
     // Finding the index of the second vertex
     index = getIndexOfSmallestAngleVertice(index,
@@ -70,16 +81,25 @@ namespace MPCWalkgen
                                                    points[index](1)),
                                            points);
 
-    // Adding the other vertices until we reach the first index, which
-    // means the convex polygon has been completed
-    while(index != getIndexOfLowestAndLeftmostVertice(points))
+    // Adding the other vertices until we reach a known vertex, which
+    // means the convex polygon has been completed. This vertex is not the first
+    // one if the latter is on an edge or close to another vertex, up to EPSILON.
+    while(std::find(indexes.begin(), indexes.end(), index) == indexes.end())
     {
       assert(p.size() <= points.size());
 
       p.push_back(points[index]);
+      indexes.push_back(index);
       index = getIndexOfSmallestAngleVertice(index, *(p.end()-2), points);
     }
 
+    if(index != indexes.back())
+    {
+      p.erase(p.begin(),
+              p.begin() + (std::find(indexes.begin(), indexes.end(), index) - indexes.begin()));
+    }
+    std::rotate(p.begin(), p.begin() + getIndexOfLowestAndLeftmostVertice(p), p.end());
+
     return p;
   }
 
@@ -99,37 +119,27 @@ namespace MPCWalkgen
     }
     else
     {
-      Scalar angle = vec1.dot(vec2)/(vec1.norm()*vec2.norm());
-
-      if(vec1(0)*vec2(1) - vec1(1)*vec2(0) >= static_cast<Scalar>(0.0))
-      {
-        return std::acos(angle);
-      }
-      else
-      {
-        return -std::acos(angle);
-      }
+      return std::atan2(vec1(0)*vec2(1) - vec1(1)*vec2(0), vec1.dot(vec2));
     }
   }
 
   template <typename Scalar>
   int ConvexPolygon<Scalar>::getIndexOfLowestAndLeftmostVertice(const vectorOfVector2& p)
   {
+    //Looking for the lowest value of Y coordinate
+    Scalar lowestY = p[0](1);
+    for(size_t i=1; i<p.size(); ++i)
+    {
+      lowestY = std::min(lowestY, p[i](1));
+    }
+
     //Storing indexes of the vertices with the lowest value of Y coordinate
     std::vector<int> lowestVerticesIndexes;
     lowestVerticesIndexes.reserve(p.size());
 
-    lowestVerticesIndexes.push_back(0);
-
-    for (size_t i=1; i<p.size(); ++i)
+    for (size_t i=0; i<p.size(); ++i)
     {
-      if(p[i](1)<p[lowestVerticesIndexes[0]](1))
-      {
-        lowestVerticesIndexes.erase(lowestVerticesIndexes.begin(),
-                                    lowestVerticesIndexes.end());
-        lowestVerticesIndexes.push_back(i);
-      }
-      else if(std::abs(p[i](1)-p[lowestVerticesIndexes[0]](1)) < Constant<Scalar>::EPSILON)
+      if(p[i](1) - lowestY < Constant<Scalar>::EPSILON)
       {
         lowestVerticesIndexes.push_back(i);
       }
@@ -173,7 +183,10 @@ namespace MPCWalkgen
       // We do not check the current vertex. This if statement also avoids copies
       // of the current vertex among ptot vector, i.e. we do not count the current
       // vertex more than once
-      if(!ptot[i].isApprox(ptot[currIndex], Constant<Scalar>::EPSILON))
+      // Points on the right of the last edge have been found to be on it, up to EPSILON
+      if((ptot[i] - ptot[currIndex]).norm() >= Constant<Scalar>::EPSILON &&
+         angleBetweenVecs(ptot[currIndex] - lastVertice, ptot[i] - ptot[currIndex]) >=
+         -Constant<Scalar>::EPSILON)
       {
         if(indexesTab.empty())
         {
@@ -181,27 +194,24 @@ namespace MPCWalkgen
           continue;
         }
 
-        if(angleBetweenVecs(ptot[currIndex] - lastVertice,
-                            ptot[i] - ptot[currIndex]) <
-           angleBetweenVecs(ptot[currIndex] -
-                            lastVertice, ptot[indexesTab[0]] - ptot[currIndex]) -
-           Constant<Scalar>::EPSILON)
+        const Scalar angleDifference =
+            angleBetweenVecs(ptot[currIndex] - lastVertice, ptot[i] - ptot[currIndex]) -
+            angleBetweenVecs(ptot[currIndex] - lastVertice,
+                             ptot[indexesTab[0]] - ptot[currIndex]);
+
+        if(angleDifference < -Constant<Scalar>::EPSILON)
         {
           indexesTab.erase(indexesTab.begin(), indexesTab.end());
           indexesTab.push_back(i);
         }
-        else if(std::abs(angleBetweenVecs(ptot[currIndex] - lastVertice,
-                                          ptot[i] - ptot[currIndex]) -
-                         angleBetweenVecs(ptot[currIndex] - lastVertice,
-                                          ptot[indexesTab[0]] - ptot[currIndex]))
-               < Constant<Scalar>::EPSILON)
+        else if(angleDifference < Constant<Scalar>::EPSILON)
         {
           indexesTab.push_back(i);
         }
       }
     }
 
-    // All the points are copies of the current vertex
+    // All the points are copies of the current vertex or points of the last edge
     if (indexesTab.empty())
     {
       return currIndex;
-- 
2.43.0


From 62b4106898764a1fe34fa00041758c61c740a00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:38 +0000
Subject: [PATCH 17/22] fix: humanoid generator picks solvers of an earlier
 size

The solver table was appended to by every reconfiguration, and neither
emptied nor rebuilt when the foot polygons changed, so that solve() could
use a solver (or QP matrices) of another size than the problem, or read
past the end of the tables. The constraint count also accumulated over
calls when only the feet constraints were on.
---
 src/humanoid_walkgen.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/humanoid_walkgen.cpp b/src/humanoid_walkgen.cpp
index 57cc3cb..8182a3a 100644
--- a/src/humanoid_walkgen.cpp
+++ b/src/humanoid_walkgen.cpp
@@ -94,6 +94,8 @@ namespace MPCWalkgen
       const ConvexPolygon<Scalar>& convexPolygon)
   {
     feetSupervisor_.setLeftFootKinematicConvexPolygon(convexPolygon);
+
+    computeConstantPart();
   }
 
   template <typename Scalar>
@@ -101,6 +103,8 @@ namespace MPCWalkgen
       const ConvexPolygon<Scalar> &convexPolygon)
   {
     feetSupervisor_.setRightFootKinematicConvexPolygon(convexPolygon);
+
+    computeConstantPart();
   }
 
   template <typename Scalar>
@@ -108,6 +112,8 @@ namespace MPCWalkgen
       const ConvexPolygon<Scalar>& convexPolygon)
   {
     feetSupervisor_.setLeftFootCopConvexPolygon(convexPolygon);
+
+    computeConstantPart();
   }
 
   template <typename Scalar>
@@ -115,6 +121,8 @@ namespace MPCWalkgen
       const ConvexPolygon<Scalar>& convexPolygon)
   {
     feetSupervisor_.setRightFootCopConvexPolygon(convexPolygon);
+
+    computeConstantPart();
   }
 
   template <typename Scalar>
@@ -458,9 +466,10 @@ namespace MPCWalkgen
   {
     // Updating qpoasesSolverVec_ and qpMatrixVec_
     maximumNbOfSteps_ = feetSupervisor_.getNbSamples();
+    maximumNbOfConstraints_ = 0;
     if(config_.withCopConstraints)
     {
-      maximumNbOfConstraints_ = feetSupervisor_.getMaximumNbOfCopConstraints()
+      maximumNbOfConstraints_ += feetSupervisor_.getMaximumNbOfCopConstraints()
           *feetSupervisor_.getNbSamples();
     }
     if(config_.withFeetConstraints)
@@ -469,6 +478,7 @@ namespace MPCWalkgen
           *maximumNbOfSteps_;
     }
 
+    qpoasesSolverVec_.clear();
     qpoasesSolverVec_.reserve((maximumNbOfSteps_ + 1)*(maximumNbOfConstraints_ + 1));
     qpMatrixVec_.resize((maximumNbOfSteps_ + 1)*(maximumNbOfConstraints_ + 1));
 
-- 
2.43.0


From bfc99d5513900df9b2bd6a847a191102011b8295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:37 +0000
Subject: [PATCH 18/22] fix: humanoid steps are bounded by the plan of the
 previous cycle

The sides of the reachable polygon that are parallel to an axis bounded the
second and later previewed steps relative to where the step before was
planned by the previous solve, while the other sides used the variable of
the step before, so that a plan could leave the polygon and an admissible
one could be excluded. Make them general constraints as well.
---
 src/function/humanoid_foot_constraint.cpp | 91 +++++++++++++++++------
 1 file changed, 68 insertions(+), 23 deletions(-)

diff --git a/src/function/humanoid_foot_constraint.cpp b/src/function/humanoid_foot_constraint.cpp
index 34fa1a1..e2c77e5 100644
--- a/src/function/humanoid_foot_constraint.cpp
+++ b/src/function/humanoid_foot_constraint.cpp
@@ -13,6 +13,40 @@
 
 namespace MPCWalkgen
 {
+  namespace
+  {
+    // The bounds of a convex polygon, in the form a*X + b <= 0. The sides without bound
+    // are left out.
+    template <typename Scalar>
+    struct BoundConstraints
+    {
+      explicit BoundConstraints(const ConvexPolygon<Scalar>& cp)
+        :nb(0)
+      {
+        add(1.0, 0.0, cp.getXSupBound());
+        add(-1.0, 0.0, -cp.getXInfBound());
+        add(0.0, 1.0, cp.getYSupBound());
+        add(0.0, -1.0, -cp.getYInfBound());
+      }
+
+      void add(Scalar coefX, Scalar coefY, Scalar bound)
+      {
+        if(bound<Constant<Scalar>::MAXIMUM_BOUND_VALUE)
+        {
+          coefsForX[nb] = coefX;
+          coefsForY[nb] = coefY;
+          constantPart[nb] = -bound;
+          ++nb;
+        }
+      }
+
+      int nb;
+      Scalar coefsForX[4];
+      Scalar coefsForY[4];
+      Scalar constantPart[4];
+    };
+  }
+
   template <typename Scalar>
   HumanoidFootConstraint<Scalar>::HumanoidFootConstraint(const LIPModel<Scalar>& lipModel,
                                                const HumanoidFeetSupervisor<Scalar>& feetSupervisor)
@@ -109,6 +143,14 @@ namespace MPCWalkgen
     {
       nbGeneralConstraints_+=
           feetSupervisor_.getKinematicConvexPolygon(i).getNbGeneralConstraints();
+
+      // Bounds with respect to a previewed step are general constraints, as they depend on
+      // two variables
+      if(i>0)
+      {
+        nbGeneralConstraints_+=
+            BoundConstraints<Scalar>(feetSupervisor_.getKinematicConvexPolygon(i)).nb;
+      }
     }
   }
 
@@ -170,6 +212,24 @@ namespace MPCWalkgen
       }
 
       nbGeneralConstraintsSinceFirstStep += nbGeneralConstraintsAtCurrentStep;
+
+      if(i>0)
+      {
+        const BoundConstraints<Scalar> bounds(cp);
+
+        for(int j = 0; j<bounds.nb; ++j)
+        {
+          const int row = nbGeneralConstraintsSinceFirstStep + j;
+
+          A_(row, 2*N + i) = bounds.coefsForX[j];
+          A_(row, 2*N + M + i) = bounds.coefsForY[j];
+          A_(row, 2*N + i - 1) = -bounds.coefsForX[j];
+          A_(row, 2*N + M + i - 1) = -bounds.coefsForY[j];
+          b_(row) = bounds.constantPart[j];
+        }
+
+        nbGeneralConstraintsSinceFirstStep += bounds.nb;
+      }
     }
   }
 
@@ -183,31 +243,16 @@ namespace MPCWalkgen
     supBound_.setConstant(2*M, Constant<Scalar>::MAXIMUM_BOUND_VALUE);
     infBound_.setConstant(2*M, -Constant<Scalar>::MAXIMUM_BOUND_VALUE);
 
-    for(int i = 0; i<M; ++i)
+    // The first previewed step is bounded with respect to the support foot, whose position
+    // is known. The next ones have general constraints instead.
+    if(M>0)
     {
-      const ConvexPolygon<Scalar>& cp = feetSupervisor_.getKinematicConvexPolygon(i);
+      const ConvexPolygon<Scalar>& cp = feetSupervisor_.getKinematicConvexPolygon(0);
 
-      supBound_(i) = cp.getXSupBound();
-      supBound_(i + M) = cp.getYSupBound();
-      infBound_(i) = cp.getXInfBound();
-      infBound_(i + M) = cp.getYInfBound();
-
-      // This if-else statement adds the required terms to vectors supBound_ and infBound_
-      // so that constraints are expressed in world frame
-      if(i==0)
-      {
-        supBound_(i) += feetSupervisor_.getSupportFootStateX()(0);
-        supBound_(i + M) += feetSupervisor_.getSupportFootStateY()(0);
-        infBound_(i) += feetSupervisor_.getSupportFootStateX()(0);
-        infBound_(i + M) += feetSupervisor_.getSupportFootStateY()(0);
-      }
-      else
-      {
-        supBound_(i) += x0(i - 1);
-        supBound_(i + M) += x0(M + i - 1);
-        infBound_(i) += x0(i - 1);
-        infBound_(i + M) += x0(M + i - 1);
-      }
+      supBound_(0) = cp.getXSupBound() + feetSupervisor_.getSupportFootStateX()(0);
+      supBound_(M) = cp.getYSupBound() + feetSupervisor_.getSupportFootStateY()(0);
+      infBound_(0) = cp.getXInfBound() + feetSupervisor_.getSupportFootStateX()(0);
+      infBound_(M) = cp.getYInfBound() + feetSupervisor_.getSupportFootStateY()(0);
     }
 
     // As we optimize a variation dX_ of the QP variable X_ (such that X_ = x0 + dX_),
-- 
2.43.0


From e5ba8ace40a30d5ae7902c96b76195394cbeaf9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:37 +0000
Subject: [PATCH 19/22] fix: qpOASES failure reported as success without a log
 stream

---
 qpsolver/src/qpsolver_qpoases.hxx | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/qpsolver/src/qpsolver_qpoases.hxx b/qpsolver/src/qpsolver_qpoases.hxx
index 241ded1..6ead07b 100644
--- a/qpsolver/src/qpsolver_qpoases.hxx
+++ b/qpsolver/src/qpsolver_qpoases.hxx
@@ -76,11 +76,14 @@ bool QPOasesSolver<Scalar>::solve(const QPMatrices<Scalar>& m,
   // the "non-solution" might be useful: it is optimal but unfeasible with
   // respect to some constraints.
   qp_.getPrimalSolution(sol.data());
-  if ((ret != ::qpOASES::SUCCESSFUL_RETURN) && (os != nullptr))
+  if (ret != ::qpOASES::SUCCESSFUL_RETURN)
   {
-    *os << "QP unfeasible. QPOases error code: " << ret
-        << ". Number of working set recalculations: " << maxNbIterations
-        << ". Was warm start: " << doWarmStart << ".\n";
+    if (os != nullptr)
+    {
+      *os << "QP unfeasible. QPOases error code: " << ret
+          << ". Number of working set recalculations: " << maxNbIterations
+          << ". Was warm start: " << doWarmStart << ".\n";
+    }
     return false;
   }
 
-- 
2.43.0


From 7360be895132f64fec0338a5aa484254d564b970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:33 +0000
Subject: [PATCH 20/22] fix: a failed solve of the trajectory generator applied
 the previous correction again when the solver proposed none

---
 src/trajectory_walkgen.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/trajectory_walkgen.cpp b/src/trajectory_walkgen.cpp
index 9c315c2..2881bd7 100644
--- a/src/trajectory_walkgen.cpp
+++ b/src/trajectory_walkgen.cpp
@@ -152,6 +152,9 @@ bool TrajectoryWalkgen<Scalar>::solve(Scalar feedBackPeriod)
 
   assert(feedBackPeriod>0);
 
+  // The solver may leave the solution vector untouched when it fails
+  dX_.fill(Scalar(0.0));
+
   qpMatrix_.p.fill(Scalar(0.0));
   qpMatrix_.bu.fill(Scalar(10e10));
   qpMatrix_.bl.fill(Scalar(-10e10));
-- 
2.43.0


From 61e74c8765943585ebe9b7f90abb8e555ca3fbe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:33 +0000
Subject: [PATCH 21/22] fix: a failed solve of the wheeled-robot generator
 applied the previous correction again when the solver proposed none

---
 src/zebulon_walkgen.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/zebulon_walkgen.cpp b/src/zebulon_walkgen.cpp
index 2a38ae6..f85e595 100644
--- a/src/zebulon_walkgen.cpp
+++ b/src/zebulon_walkgen.cpp
@@ -471,6 +471,9 @@ bool ZebulonWalkgen<Scalar>::solve(Scalar feedBackPeriod)
 
   assert(feedBackPeriod>0);
 
+  // The solver may leave the solution vector untouched when it fails
+  dX_.fill(Scalar(0.0));
+
   qpMatrix_.p.fill(Scalar(0.0));
   qpMatrix_.bu.fill(Scalar(10e10));
   qpMatrix_.bl.fill(Scalar(-10e10));
-- 
2.43.0


From 37c225c47da0eb74a866a2f069ed3f6893104769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:33 +0000
Subject: [PATCH 22/22] fix: a failed solve of the humanoid generator added
 uninitialised memory to the plan when the solver proposed no correction

---
 src/humanoid_walkgen.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/humanoid_walkgen.cpp b/src/humanoid_walkgen.cpp
index 8182a3a..c9cc466 100644
--- a/src/humanoid_walkgen.cpp
+++ b/src/humanoid_walkgen.cpp
@@ -433,7 +433,8 @@ namespace MPCWalkgen
     //Normalization of the matrices. The smallest element value of the QP matrices is at least one.
     qpMatrices.normalizeMatrices(Constant<Scalar>::EPSILON);
 
-    dX_.resize(sizeVec);
+    // The solver may leave the solution vector untouched when it fails
+    dX_.setZero(sizeVec);
 
     //The number of iterations can be high in the init phase (approximatively equals to the
     //number of constraints, aka 250)
-- 
2.43.0

