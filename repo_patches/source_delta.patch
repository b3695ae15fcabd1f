From 153f5153ca14a6cdf6ccf7a24953930663cff932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:41 +0000
Subject: [PATCH 01/26] fix: keep it_last_IMU valid when the state buffer is
 re-dated or restarted

UpdateTime() and the external-propagation restart erase the map node that
it_last_IMU points to; the next ProcessIMU() read freed memory.
---
 msf_core/include/msf_core/implementation/msf_core_inl.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/msf_core/include/msf_core/implementation/msf_core_inl.h b/msf_core/include/msf_core/implementation/msf_core_inl.h
index 7742cdf..26ab0e0 100644
--- a/msf_core/include/msf_core/implementation/msf_core_inl.h
+++ b/msf_core/include/msf_core/implementation/msf_core_inl.h
@@ -167,6 +167,7 @@ void MSF_Core<EKFState_T>::ProcessIMU(
           2, "large time-gap re-initializing to last state\n");
       typename StateBuffer_T::Ptr_T tmp = stateBuffer_.UpdateTime(
           lastState->time, currentState->time);
+      it_last_IMU = stateBuffer_.GetIteratorAtValue(tmp);  // UpdateTime invalidated it.
       time_P_propagated = currentState->time;
       return;  // // early abort // // (if timegap too big)
     }
@@ -254,6 +255,8 @@ void MSF_Core<EKFState_T>::ProcessExternallyPropagatedState(
     if (fabs(currentState->time - lastState->time) > 5) {
       typename StateBuffer_T::Ptr_T tmp = stateBuffer_.UpdateTime(
           lastState->time, currentState->time);
+      it_last_IMU = stateBuffer_.GetIteratorAtValue(tmp);  // UpdateTime invalidated it.
+      time_P_propagated = currentState->time;
       MSF_WARN_STREAM_THROTTLE(
           2, "large time-gap re-initializing to last state: "
           << msf_core::timehuman(tmp->time));
@@ -295,7 +298,7 @@ void MSF_Core<EKFState_T>::ProcessExternallyPropagatedState(
     }
   }
 
-  stateBuffer_.Insert(currentState);
+  it_last_IMU = stateBuffer_.Insert(currentState);
   PropagatePOneStep();
   predictionMade_ = true;
   usercalc_.PublishStateAfterPropagation(currentState);
-- 
2.43.0


From 687d73eee24cf12dbf74cdedb485c97a5299e3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:15 +0000
Subject: [PATCH 02/26] fix: do not step before begin() in the time ordered
 buffer

GetIteratorBeforeBegin() decremented begin(), which is undefined; with one or
two elements the result compared equal to a valid element. GetPreviousMeasurement
dereferenced end() for a time after the newest measurement.
---
 .../msf_core/implementation/msf_core_inl.h     | 18 +++++++-----------
 .../include/msf_core/msf_sortedContainer.h     |  7 +++++--
 2 files changed, 12 insertions(+), 13 deletions(-)

diff --git a/msf_core/include/msf_core/implementation/msf_core_inl.h b/msf_core/include/msf_core/implementation/msf_core_inl.h
index 26ab0e0..79a90f4 100644
--- a/msf_core/include/msf_core/implementation/msf_core_inl.h
+++ b/msf_core/include/msf_core/implementation/msf_core_inl.h
@@ -723,22 +723,18 @@ MSF_Core<EKFState_T>::GetPreviousMeasurement(
     double time, int sensorID) {
   typename measurementBufferT::iterator_T it = MeasurementBuffer_
       .GetIteratorAtValue(time);
-  if (it->second->time != time) {
+  if (it == MeasurementBuffer_.GetIteratorEnd() || it->second->time != time) {
     MSF_WARN_STREAM("GetPreviousMeasurement: Error invalid iterator at value");
     return MeasurementBuffer_.GetInvalid();
   }
-  --it;
-  typename measurementBufferT::iterator_T itbeforebegin = MeasurementBuffer_
-      .GetIteratorBeforeBegin();
-  while (it != itbeforebegin
-      && (it->second->time != time && it->second->sensorID_ != sensorID)) {
+  while (it != MeasurementBuffer_.GetIteratorBegin()) {
     --it;
+    if (it->second->sensorID_ == sensorID) {
+      return it->second;
+    }
   }
-  if (it == itbeforebegin) {
-    MSF_WARN_STREAM("GetPreviousMeasurement: Error hit before begin");
-    return MeasurementBuffer_.GetInvalid();
-  }
-  return it->second;
+  MSF_WARN_STREAM("GetPreviousMeasurement: Error hit before begin");
+  return MeasurementBuffer_.GetInvalid();
 }
 
 template<typename EKFState_T>
diff --git a/msf_core/include/msf_core/msf_sortedContainer.h b/msf_core/include/msf_core/msf_sortedContainer.h
index fc0bd83..2907a3d 100644
--- a/msf_core/include/msf_core/msf_sortedContainer.h
+++ b/msf_core/include/msf_core/msf_sortedContainer.h
@@ -109,8 +109,8 @@ class SortedContainer {
    * \brief Returns the iterator before the beginning of the internal container.
    */
   inline typename ListT::iterator GetIteratorBeforeBegin() {
-    typename ListT::iterator it = stateList.begin();
-    return --it;
+    // Decrementing begin() is undefined, end() marks "no such element" instead.
+    return stateList.end();
   }
 
   /**
@@ -166,6 +166,9 @@ class SortedContainer {
   inline typename ListT::iterator GetIteratorClosestBefore(
       const double& statetime) {
     typename ListT::iterator it = stateList.lower_bound(statetime);
+    if (it == stateList.begin()) {
+      return GetIteratorBeforeBegin();
+    }
     --it;
     return it;
   }
-- 
2.43.0


From d97a4ca04b870fee9c36246e3bfb9f5f84f6a2f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:15 +0000
Subject: [PATCH 03/26] fix: re-propagate the covariance after a rejected late
 measurement

A late measurement that is rejected (outlier gate, early return) left
time_P_propagated behind the following measurements, so these updated an already
updated covariance a second time.
---
 msf_core/include/msf_core/implementation/msf_core_inl.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/msf_core/include/msf_core/implementation/msf_core_inl.h b/msf_core/include/msf_core/implementation/msf_core_inl.h
index 79a90f4..5402832 100644
--- a/msf_core/include/msf_core/implementation/msf_core_inl.h
+++ b/msf_core/include/msf_core/implementation/msf_core_inl.h
@@ -657,6 +657,12 @@ void MSF_Core<EKFState_T>::AddMeasurement(
       continue;
     }
 
+    // The states from here on get re-propagated below, even if the measurement
+    // is rejected without correcting the state, so their covariance has to be too.
+    if (time_P_propagated > state->time) {
+      time_P_propagated = state->time;
+    }
+
     msf_timing::DebugTimer timer_meas_apply("Apply measurement");
     // Calls back core::ApplyCorrection(), which sets time_P_propagated to meas
     // time.
-- 
2.43.0


From bf53a1f4746010474d0d72e3824852222d883d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:15 +0000
Subject: [PATCH 04/26] fix: do not re-apply a buffered measurement when a
 second one has its time stamp

Insert() keeps the existing element, which AddMeasurement() then applied once more
on top of the state it had already corrected.
---
 msf_core/include/msf_core/implementation/msf_core_inl.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/msf_core/include/msf_core/implementation/msf_core_inl.h b/msf_core/include/msf_core/implementation/msf_core_inl.h
index 5402832..c4c7325 100644
--- a/msf_core/include/msf_core/implementation/msf_core_inl.h
+++ b/msf_core/include/msf_core/implementation/msf_core_inl.h
@@ -631,6 +631,12 @@ void MSF_Core<EKFState_T>::AddMeasurement(
   // Add this measurement to the buffer and get an iterator to it.
   typename measurementBufferT::iterator_T it_meas =
       MeasurementBuffer_.Insert(measurement);
+  if (it_meas->second != measurement) {
+    MSF_WARN_STREAM(
+        "There already is a measurement at time "<<timehuman(measurement->time)
+        <<" (s), discarding the new one.");
+    return;  // Do not apply the measurement already in the buffer again.
+  }
   // Get an iterator the the end of the measurement buffer.
   typename measurementBufferT::iterator_T it_meas_end = MeasurementBuffer_
       .GetIteratorEnd();
-- 
2.43.0


From 6ca698af2feb8ebd91b2777366ce770d1c702c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:53 +0000
Subject: [PATCH 05/26] fix: run the buffer clean-up after, not during,
 measurement processing

GetClosestState() could erase the state and the measurement AddMeasurement() was
iterating over.
---
 .../include/msf_core/implementation/msf_core_inl.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/msf_core/include/msf_core/implementation/msf_core_inl.h b/msf_core/include/msf_core/implementation/msf_core_inl.h
index c4c7325..9b5a5fb 100644
--- a/msf_core/include/msf_core/implementation/msf_core_inl.h
+++ b/msf_core/include/msf_core/implementation/msf_core_inl.h
@@ -727,6 +727,13 @@ void MSF_Core<EKFState_T>::AddMeasurement(
   PropPToState(latestState);  // Get the latest covariance.
 
   usercalc_.PublishStateAfterUpdate(latestState);
+
+  static int janitorRun = 0;
+  if (janitorRun++ > 100) {
+    // Remove very old states and measurements from the buffers.
+    CleanUpBuffers();
+    janitorRun = 0;
+  }
 }
 
 template<typename EKFState_T>
@@ -828,13 +835,6 @@ shared_ptr<EKFState_T> MSF_Core<EKFState_T>::GetClosestState(double tstamp) {
         __FUNCTION__<< " State interpolation: interpolated state is invalid (nan)");
     return stateBuffer_.GetInvalid();  // Early abort.
   }
-
-  static int janitorRun = 0;
-  if (janitorRun++ > 100) {
-    // Remove very old states and measurements from the buffers.
-    CleanUpBuffers();
-    janitorRun = 0;
-  }
   return closestState;
 }
 
-- 
2.43.0


From 696bb130c77533373e93c55929eff5ad3f8f43ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:53 +0000
Subject: [PATCH 06/26] fix: accumulate state transitions in the right order

Later transitions multiply from the left: F(t0,tn) = Fd(n-1) ... Fd(1) Fd(0).
---
 msf_core/include/msf_core/implementation/msf_core_inl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msf_core/include/msf_core/implementation/msf_core_inl.h b/msf_core/include/msf_core/implementation/msf_core_inl.h
index 9b5a5fb..b5bbd3e 100644
--- a/msf_core/include/msf_core/implementation/msf_core_inl.h
+++ b/msf_core/include/msf_core/implementation/msf_core_inl.h
@@ -438,7 +438,7 @@ void MSF_Core<EKFState_T>::GetAccumulatedStateTransitionStochasticCloning(
       MSF_Core<EKFState_T>::nErrorStatesAtCompileTime> F_type;
   F = F_type::Identity();
   for (; it != itend; ++it) {
-    F = F * it->second->Fd;
+    F = it->second->Fd * F;
   }
 }
 
-- 
2.43.0


From 6170ec959458286f98b34b8e9b2fd3634d20a238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:53 +0000
Subject: [PATCH 07/26] fix: a measurement without a suitable state must not
 disturb the replay

If the new measurement has no state, the later ones were applied again on top of
states they had already corrected; if a later one has none, the states after it
were not re-propagated.
---
 .../msf_core/implementation/msf_core_inl.h    | 33 ++++++++++---------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/msf_core/include/msf_core/implementation/msf_core_inl.h b/msf_core/include/msf_core/implementation/msf_core_inl.h
index b5bbd3e..4a859ce 100644
--- a/msf_core/include/msf_core/implementation/msf_core_inl.h
+++ b/msf_core/include/msf_core/implementation/msf_core_inl.h
@@ -660,24 +660,27 @@ void MSF_Core<EKFState_T>::AddMeasurement(
     if (state->time <= 0) {
       MSF_ERROR_STREAM_THROTTLE(
           1, __FUNCTION__<< " GetClosestState returned an invalid state");
-      continue;
-    }
+      if (!appliedOne) {
+        break;  // Nothing changed, so there is nothing to redo after it.
+      }
+      // Otherwise skip it, but go on re-propagating from where we are.
+    } else {
+      // The states from here on get re-propagated below, even if the measurement
+      // is rejected without correcting the state, so their covariance has to be too.
+      if (time_P_propagated > state->time) {
+        time_P_propagated = state->time;
+      }
 
-    // The states from here on get re-propagated below, even if the measurement
-    // is rejected without correcting the state, so their covariance has to be too.
-    if (time_P_propagated > state->time) {
-      time_P_propagated = state->time;
+      msf_timing::DebugTimer timer_meas_apply("Apply measurement");
+      // Calls back core::ApplyCorrection(), which sets time_P_propagated to meas
+      // time.
+      it_meas->second->Apply(state, *this);
+      timer_meas_apply.Stop();
+      // Make sure to propagate to next measurement or up to now if no more
+      // measurements. Propagate from current state.
+      it_curr = stateBuffer_.GetIteratorAtValue(state);
     }
 
-    msf_timing::DebugTimer timer_meas_apply("Apply measurement");
-    // Calls back core::ApplyCorrection(), which sets time_P_propagated to meas
-    // time.
-    it_meas->second->Apply(state, *this);
-    timer_meas_apply.Stop();
-    // Make sure to propagate to next measurement or up to now if no more
-    // measurements. Propagate from current state.
-    it_curr = stateBuffer_.GetIteratorAtValue(state);
-
     typename StateBuffer_T::iterator_T it_end;
     typename measurementBufferT::iterator_T it_nextmeas = it_meas;
     ++it_nextmeas;  // The next measurement in the list.
-- 
2.43.0


From 4ecb84e12029918439ebe12258a5896072445b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:23 +0000
Subject: [PATCH 08/26] fix: covariance of an IMU state inserted slightly in
 the past

A sample up to 10 ms older than its predecessor was inserted with a zero
covariance whenever the covariance had already been propagated past it.
---
 msf_core/include/msf_core/implementation/msf_core_inl.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/msf_core/include/msf_core/implementation/msf_core_inl.h b/msf_core/include/msf_core/implementation/msf_core_inl.h
index 4a859ce..1c7caf1 100644
--- a/msf_core/include/msf_core/implementation/msf_core_inl.h
+++ b/msf_core/include/msf_core/implementation/msf_core_inl.h
@@ -191,6 +191,14 @@ void MSF_Core<EKFState_T>::ProcessIMU(
   timer_PropInsertState.Stop();
 
   msf_timing::DebugTimer timer_PropCov("PropCov");
+  if (currentState->time < time_P_propagated
+      && it_last_IMU != stateBuffer_.GetIteratorBegin()) {
+    // Inserted in the past, where the covariance was propagated already.
+    typename StateBuffer_T::iterator_T it_before = it_last_IMU;
+    const double time_P = time_P_propagated;
+    PredictProcessCovariance((--it_before)->second, currentState);
+    time_P_propagated = time_P;
+  }
   PropagatePOneStep();
   timer_PropCov.Stop();
   usercalc_.PublishStateAfterPropagation(currentState);
-- 
2.43.0


From 5308dc58822276ad3374259ded05fdc599c71f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:01 +0000
Subject: [PATCH 09/26] fix: Eigen aliasing made the symmetrised covariances
 asymmetric

P = 0.5 * (P + P.transpose()) reads entries it has already overwritten.
---
 msf_core/include/msf_core/implementation/msf_core_inl.h     | 2 +-
 .../include/msf_core/implementation/msf_measurement_inl.h   | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/msf_core/include/msf_core/implementation/msf_core_inl.h b/msf_core/include/msf_core/implementation/msf_core_inl.h
index 1c7caf1..8aad263 100644
--- a/msf_core/include/msf_core/implementation/msf_core_inl.h
+++ b/msf_core/include/msf_core/implementation/msf_core_inl.h
@@ -85,7 +85,7 @@ void MSF_Core<EKFState_T>::SetPCore(
             -0.0002, -0.0002, -0.0004, -0.0001, 0.0003, 0.0001, -0.0001, -0.0000, 0.0000, 0.0000, 0.0000, 0.0000, 0.0000, 0.0010, 0.0000,
             -0.0000, 0.0000, -0.0001, 0.0000, 0.0000, -0.0001, -0.0000, -0.0000, -0.0000, 0.0000, 0.0000, -0.0000, 0.0000, 0.0000, 0.0001;
 
-  P_core = 0.5 * (P_core + P_core.transpose());
+  P_core = 0.5 * (P_core + P_core.transpose().eval());
   P.template block<coreErrorStates, coreErrorStates>(0, 0) = P_core;
 }
 
diff --git a/msf_core/include/msf_core/implementation/msf_measurement_inl.h b/msf_core/include/msf_core/implementation/msf_measurement_inl.h
index 70bf1b0..30fa2e0 100644
--- a/msf_core/include/msf_core/implementation/msf_measurement_inl.h
+++ b/msf_core/include/msf_core/implementation/msf_measurement_inl.h
@@ -74,7 +74,7 @@ void MSF_MeasurementBase<EKFState_T>::CalculateAndApplyCorrection(
   P = KH * P * KH.transpose() + K * R_delayed * K.transpose();
 
   // Make sure P stays symmetric.
-  P = 0.5 * (P + P.transpose());
+  P = 0.5 * (P + P.transpose().eval());
 
   core.ApplyCorrection(state, correction_);
 }
@@ -118,7 +118,7 @@ void MSF_MeasurementBase<EKFState_T>::CalculateAndApplyCorrection(
   P = KH * P * KH.transpose() + K * R_delayed * K.transpose();
 
   // Make sure P stays symmetric.
-  P = 0.5 * (P + P.transpose());
+  P = 0.5 * (P + P.transpose().eval());
 
   core.ApplyCorrection(state, correction_);
 }
@@ -192,7 +192,7 @@ void MSF_MeasurementBase<EKFState_T>::CalculateAndApplyCorrectionRelative(
 
   // Make sure P stays symmetric.
   // TODO (slynen): EV, set Evalues<eps to zero, then reconstruct.
-  state_new->P = 0.5 * (state_new->P + state_new->P.transpose());
+  state_new->P = 0.5 * (state_new->P + state_new->P.transpose().eval());
 
   core.ApplyCorrection(state_new, correction_);
 }
-- 
2.43.0


From 38b0c2071289b232360334bc085472fd6fdd6e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:53 +0000
Subject: [PATCH 10/26] fix: maximum of recorded intervals when none of them is
 positive

---
 msf_timing/include/msf_timing/Timer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msf_timing/include/msf_timing/Timer.h b/msf_timing/include/msf_timing/Timer.h
index 85049b9..e7e7ec1 100755
--- a/msf_timing/include/msf_timing/Timer.h
+++ b/msf_timing/include/msf_timing/Timer.h
@@ -38,7 +38,7 @@ class Accumulator {
         window_sum_(0),
         sum_(0),
         min_(std::numeric_limits < T > ::max()),
-        max_(std::numeric_limits < T > ::min()) {
+        max_(std::numeric_limits < T > ::lowest()) {
   }
 
   void Add(T sample) {
-- 
2.43.0


From 36c38c0249eee51884ee725a1c5ac2f5eb0d0ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:53 +0000
Subject: [PATCH 11/26] fix: stopping a timer that is not running must not
 record an interval

---
 msf_timing/src/Timer.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/msf_timing/src/Timer.cc b/msf_timing/src/Timer.cc
index 7482420..e354274 100755
--- a/msf_timing/src/Timer.cc
+++ b/msf_timing/src/Timer.cc
@@ -96,6 +96,9 @@ void Timer::Start() {
 }
 
 void Timer::Stop() {
+  if (!timing_) {
+    return;  // Not running, there is no interval to record.
+  }
   std::chrono::time_point < std::chrono::system_clock > now =
       std::chrono::system_clock::now();
   double dt = static_cast<double>(std::chrono::duration_cast
-- 
2.43.0


From 377e851e24e1c1fff340d7a2069fe5df3b2f9aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:43 +0000
Subject: [PATCH 12/26] fix: invert a world-in-sensor pose measurement also
 with fixed covariance

---
 .../pose_sensor_handler/pose_measurement.h    | 26 +++++++++----------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h b/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h
index a64e726..6b67ed0 100644
--- a/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h
+++ b/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h
@@ -93,23 +93,23 @@ struct PoseMeasurement : public PoseMeasurementBase {
       R_.block<3, 3>(0, 3) = Eigen::Matrix<double, 3, 3>::Zero();
       R_.block<3, 3>(3, 0) = Eigen::Matrix<double, 3, 3>::Zero();
       R_(6, 6) = 1e-6;  // q_wv yaw-measurement noise
+    }
 
-      /*************************************************************************************/
-      // Use this if your pose sensor is ethzasl_ptam (www.ros.org/wiki/ethzasl_ptam)
-      // ethzasl_ptam publishes the camera pose as the world seen from the camera.
-      if (!measurement_world_sensor_) {
-        Eigen::Matrix<double, 3, 3> C_zq = z_q_.toRotationMatrix();
-        z_q_ = z_q_.conjugate();
-        z_p_ = -C_zq.transpose() * z_p_;
+    /*************************************************************************************/
+    // Use this if your pose sensor is ethzasl_ptam (www.ros.org/wiki/ethzasl_ptam)
+    // ethzasl_ptam publishes the camera pose as the world seen from the camera.
+    if (!measurement_world_sensor_) {
+      Eigen::Matrix<double, 3, 3> C_zq = z_q_.toRotationMatrix();
+      z_q_ = z_q_.conjugate();
+      z_p_ = -C_zq.transpose() * z_p_;
 
-        Eigen::Matrix<double, 6, 6> C_cov(Eigen::Matrix<double, 6, 6>::Zero());
-        C_cov.block<3, 3>(0, 0) = C_zq;
-        C_cov.block<3, 3>(3, 3) = C_zq;
+      Eigen::Matrix<double, 6, 6> C_cov(Eigen::Matrix<double, 6, 6>::Zero());
+      C_cov.block<3, 3>(0, 0) = C_zq;
+      C_cov.block<3, 3>(3, 3) = C_zq;
 
-        R_.block<6, 6>(0, 0) = C_cov.transpose() * R_.block<6, 6>(0, 0) * C_cov;
-      }
-      /*************************************************************************************/
+      R_.block<6, 6>(0, 0) = C_cov.transpose() * R_.block<6, 6>(0, 0) * C_cov;
     }
+    /*************************************************************************************/
   }
  public:
   EIGEN_MAKE_ALIGNED_OPERATOR_NEW
-- 
2.43.0


From f5fab546ed70f0c2383b5a376ab9ae2aa77073ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:43 +0000
Subject: [PATCH 13/26] fix: overlapping memcpy when the pressure window is
 shifted

---
 .../implementation/pressure_sensorhandler.hpp                   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msf_updates/include/msf_updates/pressure_sensor_handler/implementation/pressure_sensorhandler.hpp b/msf_updates/include/msf_updates/pressure_sensor_handler/implementation/pressure_sensorhandler.hpp
index 6077b4d..86faea9 100644
--- a/msf_updates/include/msf_updates/pressure_sensor_handler/implementation/pressure_sensorhandler.hpp
+++ b/msf_updates/include/msf_updates/pressure_sensor_handler/implementation/pressure_sensorhandler.hpp
@@ -79,7 +79,7 @@ void PressureSensorHandler::MeasurementCallback(
   z_p_ = meas->z_p_;  // Store this for the init procedure.
 
   // Make averaged measurement.
-  memcpy(heightbuff, heightbuff + 1, sizeof(double) * (heightbuffsize - 1));
+  memmove(heightbuff, heightbuff + 1, sizeof(double) * (heightbuffsize - 1));
   heightbuff[heightbuffsize - 1] = meas->z_p_(0);
   double sum = 0;
   for (int k = 0; k < heightbuffsize; ++k)
-- 
2.43.0


From 1420ab79095c67329d704f133c8dd0ea863198c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:43 +0000
Subject: [PATCH 14/26] fix: pressure handler handed out uninitialised heights
 before the first message

---
 .../implementation/pressure_sensorhandler.hpp                  | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/msf_updates/include/msf_updates/pressure_sensor_handler/implementation/pressure_sensorhandler.hpp b/msf_updates/include/msf_updates/pressure_sensor_handler/implementation/pressure_sensorhandler.hpp
index 86faea9..ea5f6ea 100644
--- a/msf_updates/include/msf_updates/pressure_sensor_handler/implementation/pressure_sensorhandler.hpp
+++ b/msf_updates/include/msf_updates/pressure_sensor_handler/implementation/pressure_sensorhandler.hpp
@@ -47,7 +47,8 @@ PressureSensorHandler::PressureSensorHandler(
                           : ros::TransportHints());
 
   memset(heightbuff, 0, sizeof(double) * heightbuffsize);
-
+  z_p_.setZero();
+  z_average_p.setZero();
 }
 
 void PressureSensorHandler::SetNoises(double n_zp) {
-- 
2.43.0


From d2cfd9d546ebdedfa661a2323c7f483fcd24ebdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:43 +0000
Subject: [PATCH 15/26] fix: every position handler needs its own geographic
 reference

---
 .../implementation/position_sensorhandler.hpp            | 9 +++++----
 .../position_sensor_handler/position_sensorhandler.h     | 1 +
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/msf_updates/include/msf_updates/position_sensor_handler/implementation/position_sensorhandler.hpp b/msf_updates/include/msf_updates/position_sensor_handler/implementation/position_sensorhandler.hpp
index 1b08ff1..c48b4d4 100644
--- a/msf_updates/include/msf_updates/position_sensor_handler/implementation/position_sensorhandler.hpp
+++ b/msf_updates/include/msf_updates/position_sensor_handler/implementation/position_sensorhandler.hpp
@@ -30,7 +30,8 @@ PositionSensorHandler<MEASUREMENT_TYPE, MANAGER_TYPE>::PositionSensorHandler(
     : SensorHandler<msf_updates::EKFState>(meas, topic_namespace,
                                            parameternamespace),
       n_zp_(1e-6),
-      delay_(0) {
+      delay_(0),
+      gps_reference_initialized_(false) {
   ros::NodeHandle pnh("~/position_sensor");
   pnh.param("position_use_fixed_covariance", use_fixed_covariance_, false);
   bool enable_tcp_no_delay;
@@ -190,14 +191,14 @@ void PositionSensorHandler<MEASUREMENT_TYPE, MANAGER_TYPE>::MeasurementCallback(
           << " ***");
 
   // Fixed covariance will be set in measurement class -> MakeFromSensorReadingImpl.
-  static bool referenceinit = false;  //TODO (slynen): Dynreconf reset reference.
-  if (!referenceinit) {
+  //TODO (slynen): Dynreconf reset reference.
+  if (!gps_reference_initialized_) {
     gpsConversion_.InitReference(msg->latitude, msg->longitude, msg->altitude);
     MSF_WARN_STREAM(
         "Initialized GPS reference of topic: " << this->topic_namespace_ << "/"
             << subNavSatFix_.getTopic() << " to lat/lon/alt: [" << msg->latitude
             << ", " << msg->longitude << ", " << msg->altitude << "]");
-    referenceinit = true;
+    gps_reference_initialized_ = true;
   }
 
   msf_core::Vector3 ecef = gpsConversion_.WGS84ToECEF(msg->latitude,
diff --git a/msf_updates/include/msf_updates/position_sensor_handler/position_sensorhandler.h b/msf_updates/include/msf_updates/position_sensor_handler/position_sensorhandler.h
index 8ba1970..8f054bf 100644
--- a/msf_updates/include/msf_updates/position_sensor_handler/position_sensorhandler.h
+++ b/msf_updates/include/msf_updates/position_sensor_handler/position_sensorhandler.h
@@ -42,6 +42,7 @@ class PositionSensorHandler : public msf_core::SensorHandler<
   ros::Subscriber subTransformStamped_;
   ros::Subscriber subNavSatFix_;
   msf_core::GPSConversion gpsConversion_;
+  bool gps_reference_initialized_;  ///< Has the first fix been set as reference.
 
   bool use_fixed_covariance_;  ///< Use fixed covariance set by dynamic reconfigure.
   bool provides_absolute_measurements_;  ///< Does this sensor measure relative or absolute values.
-- 
2.43.0


From 87ca2c851b88f3b35d6134c7d5fb3dc05b6fbe7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:43 +0000
Subject: [PATCH 16/26] fix: pose_pressure application dropped the configured
 delay and, after a refused height request, the noises

---
 .../pose_pressure_msf/pose_pressure_sensormanager.h    | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/msf_updates/src/pose_pressure_msf/pose_pressure_sensormanager.h b/msf_updates/src/pose_pressure_msf/pose_pressure_sensormanager.h
index 2a18ac1..0e032a8 100644
--- a/msf_updates/src/pose_pressure_msf/pose_pressure_sensormanager.h
+++ b/msf_updates/src/pose_pressure_msf/pose_pressure_sensormanager.h
@@ -86,6 +86,11 @@ class PosePressureSensorManager : public msf_core::MSF_SensorManagerROS<
    */
   virtual void Config(Config_T &config, uint32_t level) {
     config_ = config;
+    // Pass the noise and delay values to the sensor handlers.
+    pose_handler_->SetNoises(config.pose_noise_meas_p,
+                             config.pose_noise_meas_q);
+    pose_handler_->SetDelay(config.pose_delay);
+    pressure_handler_->SetNoises(config.press_noise_meas_p);
     // Init call with "init filter" checkbox.
     if ((level & msf_updates::SinglePoseSensor_INIT_FILTER)
         && config.core_init_filter == true) {
@@ -105,11 +110,6 @@ class PosePressureSensorManager : public msf_core::MSF_SensorManagerROS<
       Init(scale);
       config.core_set_height = false;
     }
-
-    // Pass the noise values to the sensor handlers.
-    pose_handler_->SetNoises(config.pose_noise_meas_p,
-                             config.pose_noise_meas_q);
-    pressure_handler_->SetNoises(config.press_noise_meas_p);
   }
 
   void Init(double scale) const {
-- 
2.43.0


From ceaf9055089862b96caa1cc79859e06a48aa71f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:43 +0000
Subject: [PATCH 17/26] fix: spherical position application never subscribed to
 the IMU

---
 msf_updates/src/spherical_msf/spherical_sensormanager.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/msf_updates/src/spherical_msf/spherical_sensormanager.h b/msf_updates/src/spherical_msf/spherical_sensormanager.h
index 5e1c586..52808af 100644
--- a/msf_updates/src/spherical_msf/spherical_sensormanager.h
+++ b/msf_updates/src/spherical_msf/spherical_sensormanager.h
@@ -21,6 +21,7 @@
 
 #include <msf_core/msf_core.h>
 #include <msf_core/msf_sensormanagerROS.h>
+#include <msf_core/msf_IMUHandler_ROS.h>
 #include "msf_statedef.hpp"
 #include <msf_updates/spherical_position_sensor/spherical_sensorhandler.h>
 #include <msf_updates/spherical_position_sensor/spherical_measurement.h>
@@ -45,6 +46,10 @@ class SensorManager : public msf_core::MSF_SensorManagerROS<
 
   SensorManager(
       ros::NodeHandle pnh = ros::NodeHandle("~/spherical_position_sensor")) {
+    imu_handler_.reset(
+        new msf_core::IMUHandler_ROS<msf_updates::EKFState>(*this, "msf_core",
+                                                            "imu_handler"));
+
     angle_handler_.reset(
         new AngleSensorHandler_T(*this, "", "spherical_position_sensor"));
     AddHandler(angle_handler_);
@@ -65,6 +70,7 @@ class SensorManager : public msf_core::MSF_SensorManagerROS<
   }
 
  private:
+  boost::shared_ptr<msf_core::IMUHandler_ROS<msf_updates::EKFState> > imu_handler_;
   boost::shared_ptr<AngleSensorHandler_T> angle_handler_;
   boost::shared_ptr<DistanceSensorHandler_T> distance_handler_;
 
-- 
2.43.0


From 765d01b5fadaf79fd7637413cdc6c3024adaa6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:11 +0000
Subject: [PATCH 18/26] fix: pose_pressure application ignored the configured
 noise of p_wv

---
 .../src/pose_pressure_msf/pose_pressure_sensormanager.h       | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/msf_updates/src/pose_pressure_msf/pose_pressure_sensormanager.h b/msf_updates/src/pose_pressure_msf/pose_pressure_sensormanager.h
index 0e032a8..76ee2b0 100644
--- a/msf_updates/src/pose_pressure_msf/pose_pressure_sensormanager.h
+++ b/msf_updates/src/pose_pressure_msf/pose_pressure_sensormanager.h
@@ -208,6 +208,8 @@ class PosePressureSensorManager : public msf_core::MSF_SensorManagerROS<
   virtual void CalculateQAuxiliaryStates(EKFState_T& state, double dt) const {
     const msf_core::Vector3 nqwvv = msf_core::Vector3::Constant(
         config_.pose_noise_q_wv);
+    const msf_core::Vector3 npwvv = msf_core::Vector3::Constant(
+        config_.pose_noise_p_wv);
     const msf_core::Vector3 nqicv = msf_core::Vector3::Constant(
         config_.pose_noise_q_ic);
     const msf_core::Vector3 npicv = msf_core::Vector3::Constant(
@@ -223,6 +225,8 @@ class PosePressureSensorManager : public msf_core::MSF_SensorManagerROS<
         .asDiagonal();
     state.GetQBlock<StateDefinition_T::q_wv>() =
         (dt * nqwvv.cwiseProduct(nqwvv)).asDiagonal();
+    state.GetQBlock<StateDefinition_T::p_wv>() =
+        (dt * npwvv.cwiseProduct(npwvv)).asDiagonal();
     state.GetQBlock<StateDefinition_T::q_ic>() =
         (dt * nqicv.cwiseProduct(nqicv)).asDiagonal();
     state.GetQBlock<StateDefinition_T::p_ic>() =
-- 
2.43.0


From a494628cdb2cf867414d1829d86de075a9f2ba9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:33 +0000
Subject: [PATCH 19/26] fix: position_pose application ignored the configured
 noise of p_ip

---
 .../src/position_pose_msf/position_pose_sensormanager.h       | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/msf_updates/src/position_pose_msf/position_pose_sensormanager.h b/msf_updates/src/position_pose_msf/position_pose_sensormanager.h
index e285368..bbfe165 100644
--- a/msf_updates/src/position_pose_msf/position_pose_sensormanager.h
+++ b/msf_updates/src/position_pose_msf/position_pose_sensormanager.h
@@ -257,6 +257,8 @@ class PositionPoseSensorManager : public msf_core::MSF_SensorManagerROS<
         config_.pose_noise_p_ic);
     const msf_core::Vector1 n_L = msf_core::Vector1::Constant(
         config_.pose_noise_scale);
+    const msf_core::Vector3 npipv = msf_core::Vector3::Constant(
+        config_.position_noise_p_ip);
 
     // Compute the blockwise Q values and store them with the states,
     // these then get copied by the core to the correct places in Qd.
@@ -270,6 +272,8 @@ class PositionPoseSensorManager : public msf_core::MSF_SensorManagerROS<
         (dt * nqicv.cwiseProduct(nqicv)).asDiagonal();
     state.GetQBlock<StateDefinition_T::p_ic>() =
         (dt * npicv.cwiseProduct(npicv)).asDiagonal();
+    state.GetQBlock<StateDefinition_T::p_ip>() =
+        (dt * npipv.cwiseProduct(npipv)).asDiagonal();
   }
 
   virtual void SetStateCovariance(
-- 
2.43.0


From f76f7c75d23a50ecda69ecf31fecf5ec5ef49271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:56 +0000
Subject: [PATCH 20/26] fix: a fixed antenna position was still corrected by
 angle and distance updates

---
 .../spherical_position_sensor/spherical_measurement.h       | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/msf_updates/include/msf_updates/spherical_position_sensor/spherical_measurement.h b/msf_updates/include/msf_updates/spherical_position_sensor/spherical_measurement.h
index 3d127f5..52fed0f 100644
--- a/msf_updates/include/msf_updates/spherical_position_sensor/spherical_measurement.h
+++ b/msf_updates/include/msf_updates/spherical_position_sensor/spherical_measurement.h
@@ -241,7 +241,8 @@ struct AngleMeasurement : public AngleMeasurementBase {
         / (p_(0, 0) * p_(0, 0) + p_(1, 0) * p_(1, 0));
     H.block<2, 3>(0, idxstartcorr_p_) = dz_dp;
     H.block<2, 3>(0, idxstartcorr_q_) = dz_dq;
-    H.block<2, 3>(0, idxstartcorr_p_pi_) = dz_dp_ip;
+    if (!fixed_p_pos_imu)
+      H.block<2, 3>(0, idxstartcorr_p_pi_) = dz_dp_ip;
 
   }
 
@@ -459,7 +460,8 @@ struct DistanceMeasurement : public DistanceMeasurementBase {
         / sqrt(p_(0, 0) * p_(0, 0) + p_(1, 0) * p_(1, 0) + p_(2, 0) * p_(2, 0));
     H.block<1, 3>(0, idxstartcorr_p_) = dz_dp;
     H.block<1, 3>(0, idxstartcorr_q_) = dz_dq;
-    H.block<1, 3>(0, idxstartcorr_p_pi_) = dz_dp_ip;
+    if (!fixed_p_pos_imu)
+      H.block<1, 3>(0, idxstartcorr_p_pi_) = dz_dp_ip;
   }
 
   /**
-- 
2.43.0


From 0aa9224e4b36c79b37e1ffa8e0010d52514c0f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:04 +0000
Subject: [PATCH 21/26] fix: pose Jacobian with respect to p_wv lacks rotation
 and scale

The predicted position is C_wv (p - p_wv + C_q p_ic) L, so its derivative with
respect to p_wv is -C_wv L, not -I.
---
 .../msf_updates/pose_sensor_handler/pose_measurement.h        | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h b/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h
index 6b67ed0..488fe9f 100644
--- a/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h
+++ b/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h
@@ -247,12 +247,10 @@ struct PoseMeasurement : public PoseMeasurementBase {
             (C_wv * C_q * state.Get<StateLIdx>()(0)).eval();  //p_ic
 
 
-    // TODO (slynen): Check scale commenting
     H.block<3, 3>(0, kIdxstartcorr_pwv) =
         driftwvposfix ?
             Eigen::Matrix<double, 3, 3>::Zero() :
-            (-Eigen::Matrix<double, 3, 3>::Identity()
-            /* * state.Get<StateLIdx>()(0)*/).eval();  //p_wv
+            (-C_wv * state.Get<StateLIdx>()(0)).eval();  //p_wv
 
     // Attitude.
     H.block<3, 3>(3, kIdxstartcorr_q) = C_ci;  // q
-- 
2.43.0


From 6ddbd8b1af8e51d3dd49443f52411c73b8d2b7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:04 +0000
Subject: [PATCH 22/26] fix: disabled yaw pseudo measurement makes the outlier
 gate reject poses

Its row of H is zero and its noise 1e-6, so any yaw of q_wv added up to 1e6 times
its square to the Mahalanobis distance and every pose was rejected.
---
 .../pose_sensor_handler/pose_measurement.h        | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h b/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h
index 488fe9f..e94f2a3 100644
--- a/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h
+++ b/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h
@@ -312,11 +312,9 @@ struct PoseMeasurement : public PoseMeasurementBase {
           * state.Get<StateDefinition_T::q>()
           * state.Get<StateQicIdx>()).conjugate() * z_q_;
       r_old.block<3, 1>(3, 0) = q_err.vec() / q_err.w() * 2;
-      // Vision world yaw drift.
-      q_err = state.Get<StateQwvIdx>();
-
-      r_old(6, 0) = -2 * (q_err.w() * q_err.z() + q_err.x() * q_err.y())
-          / (1 - 2 * (q_err.y() * q_err.y() + q_err.z() * q_err.z()));
+      // Vision world yaw drift: this pseudo measurement is disabled, its row of H
+      // is zero, so its residual must not enter the outlier rejection either.
+      r_old(6, 0) = 0;
 
       if (!CheckForNumeric(r_old, "r_old")) {
         MSF_ERROR_STREAM("r_old: "<<r_old);
@@ -425,11 +423,8 @@ struct PoseMeasurement : public PoseMeasurementBase {
       q_err = diffprobatt.conjugate() * diffmeasatt;
 
       r_new.block<3, 1>(3, 0) = q_err.vec() / q_err.w() * 2;
-      // Vision world yaw drift.
-      q_err = state_new.Get<StateQwvIdx>();
-
-      r_new(6, 0) = -2 * (q_err.w() * q_err.z() + q_err.x() * q_err.y())
-          / (1 - 2 * (q_err.y() * q_err.y() + q_err.z() * q_err.z()));
+      // Vision world yaw drift: disabled, see above.
+      r_new(6, 0) = 0;
 
       if (!CheckForNumeric(r_old, "r_old")) {
         MSF_ERROR_STREAM("r_old: "<<r_old);
-- 
2.43.0


From 9a5e5023a7da31c39e9444c45ea64664b37fb714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:04 +0000
Subject: [PATCH 23/26] fix: relative pose measurements correct the attitude in
 the wrong direction

The rotation from old to new was inverted in both prediction and reading, which
flips the sign of the residual with respect to H_new.
---
 .../pose_sensor_handler/pose_measurement.h       | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h b/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h
index e94f2a3..5f5e782 100644
--- a/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h
+++ b/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h
@@ -410,14 +410,14 @@ struct PoseMeasurement : public PoseMeasurementBase {
       r_new.block<3, 1>(0, 0) = diffmeaspos - diffprobpos;
 
       // Attitude:
-      Eigen::Quaternion<double> diffprobatt = (state_new.Get<StateQwvIdx>()
-          * state_new.Get<StateDefinition_T::q>()
-          * state_new.Get<StateQicIdx>()).conjugate()
-          * (state_old.Get<StateQwvIdx>()
-              * state_old.Get<StateDefinition_T::q>()
-              * state_old.Get<StateQicIdx>());
-
-      Eigen::Quaternion<double> diffmeasatt = z_q_.conjugate() * prevmeas->z_q_;
+      Eigen::Quaternion<double> diffprobatt = (state_old.Get<StateQwvIdx>()
+          * state_old.Get<StateDefinition_T::q>()
+          * state_old.Get<StateQicIdx>()).conjugate()
+          * (state_new.Get<StateQwvIdx>()
+              * state_new.Get<StateDefinition_T::q>()
+              * state_new.Get<StateQicIdx>());
+
+      Eigen::Quaternion<double> diffmeasatt = prevmeas->z_q_.conjugate() * z_q_;
 
       Eigen::Quaternion<double> q_err;
       q_err = diffprobatt.conjugate() * diffmeasatt;
-- 
2.43.0


From 89410bbc45efa9cda09e135e6e94a4e4aa90607c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:04 +0000
Subject: [PATCH 24/26] fix: spherical Jacobians use the transposed attitude
 and the IMU position

The residuals are taken at the prism position p + C_q p_ip; the Jacobians were
evaluated at p and with the transposed rotation matrix.
---
 .../spherical_position_sensor/spherical_measurement.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/msf_updates/include/msf_updates/spherical_position_sensor/spherical_measurement.h b/msf_updates/include/msf_updates/spherical_position_sensor/spherical_measurement.h
index 52fed0f..de05891 100644
--- a/msf_updates/include/msf_updates/spherical_position_sensor/spherical_measurement.h
+++ b/msf_updates/include/msf_updates/spherical_position_sensor/spherical_measurement.h
@@ -120,10 +120,12 @@ struct AngleMeasurement : public AngleMeasurementBase {
     if (fixed_p_pos_imu)
       state_in->ClearCrossCov<StateDefinition_T::p_ip>();
 
+    // The derivatives below are expressed in the rotation from the IMU to the
+    // world frame and the position of the prism.
     Eigen::Matrix<double, 3, 3> C_q = state.Get<StateDefinition_T::q>()
-        .conjugate().toRotationMatrix();
-    Eigen::Matrix<double, 3, 1> p_ = state.Get<StateDefinition_T::p>();
+        .toRotationMatrix();
     Eigen::Matrix<double, 3, 1> p_ip = state.Get<StateDefinition_T::p_ip>();
+    Eigen::Matrix<double, 3, 1> p_ = state.Get<StateDefinition_T::p>() + C_q * p_ip;
     Eigen::Matrix<double, 2, 3> dz_dp;
     dz_dp(0, 0) = (p_(0, 0) * p_(2, 0) * 1.0
         / sqrt(p_(0, 0) * p_(0, 0) + p_(1, 0) * p_(1, 0)))
@@ -390,7 +392,7 @@ struct DistanceMeasurement : public DistanceMeasurementBase {
 
     // Get rotation matrices.
     Eigen::Matrix<double, 3, 3> C_q = state.Get<StateDefinition_T::q>()
-        .conjugate().toRotationMatrix();
+        .toRotationMatrix();
 
     // Preprocess for elements in H matrix.
     // Get indices of states in error vector.
@@ -411,8 +413,9 @@ struct DistanceMeasurement : public DistanceMeasurementBase {
     if (fixed_p_pos_imu)
       state_in->ClearCrossCov<StateDefinition_T::p_ip>();
 
-    Eigen::Matrix<double, 3, 1> p_ = state.Get<StateDefinition_T::p>();
     Eigen::Matrix<double, 3, 1> p_ip = state.Get<StateDefinition_T::p_ip>();
+    // Position of the prism.
+    Eigen::Matrix<double, 3, 1> p_ = state.Get<StateDefinition_T::p>() + C_q * p_ip;
     Eigen::Matrix<double, 1, 3> dz_dp;
     dz_dp(0, 0) = p_(0, 0) * 1.0
         / sqrt(p_(0, 0) * p_(0, 0) + p_(1, 0) * p_(1, 0) + p_(2, 0) * p_(2, 0));
-- 
2.43.0


From 3ac2bf967c4d810ae46f72963b26457cec26ce47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:04 +0000
Subject: [PATCH 25/26] fix: azimuth prediction is off by pi on the negative x
 axis

atan(y/x) with manual quadrants misses y = 0; use atan2.
---
 .../spherical_position_sensor/spherical_measurement.h    | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/msf_updates/include/msf_updates/spherical_position_sensor/spherical_measurement.h b/msf_updates/include/msf_updates/spherical_position_sensor/spherical_measurement.h
index de05891..a1cf606 100644
--- a/msf_updates/include/msf_updates/spherical_position_sensor/spherical_measurement.h
+++ b/msf_updates/include/msf_updates/spherical_position_sensor/spherical_measurement.h
@@ -275,14 +275,7 @@ struct AngleMeasurement : public AngleMeasurementBase {
           z_carth(0, 0) * z_carth(0, 0) + z_carth(1, 0) * z_carth(1, 0)
               + z_carth(2, 0) * z_carth(2, 0));
       double theta_old = acos(z_carth(2, 0) / radius_old);
-      double phi_old = atan(z_carth(1, 0) / z_carth(0, 0));
-      // Handle all exeptions that occur when transforming in spherical coordinates.
-      if (z_carth(0, 0) < 0 && z_carth(1, 0) < 0) {
-        phi_old -= M_PI;
-      }
-      if (z_carth(0, 0) < 0 && z_carth(1, 0) > 0) {
-        phi_old += M_PI;
-      }
+      double phi_old = atan2(z_carth(1, 0), z_carth(0, 0));
 
       msf_core::Vector2 z_spherical;
       z_spherical << theta_old, phi_old;
-- 
2.43.0


From 2b898486624d507cefdf991d5fdff919516d2ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:11 +0000
Subject: [PATCH 26/26] fix: sum the powers of the turning rate in the attitude
 step, not its repeated squares

The series of the exponential in PropagateState squared the factor in every
round (A, A^2, A^4, A^8), so that its third and fourth order terms were wrong:
the attitude turned further than the mean rate says, by the cube of half the
angle of a step over six.
---
 msf_core/include/msf_core/implementation/msf_core_inl.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/msf_core/include/msf_core/implementation/msf_core_inl.h b/msf_core/include/msf_core/implementation/msf_core_inl.h
index 8aad263..4a93b85 100644
--- a/msf_core/include/msf_core/implementation/msf_core_inl.h
+++ b/msf_core/include/msf_core/implementation/msf_core_inl.h
@@ -373,10 +373,11 @@ void MSF_Core<EKFState_T>::PropagateState(shared_ptr<EKFState_T>& state_old,
   Matrix4 MatExp;
   MatExp.setIdentity();
   OmegaMean *= 0.5 * dt;
+  Matrix4 OmegaPower = OmegaMean;
   for (int i = 1; i < 5; i++) {  // Can be made fourth order or less to save cycles.
     div *= i;
-    MatExp = MatExp + OmegaMean / div;
-    OmegaMean *= OmegaMean;
+    MatExp = MatExp + OmegaPower / div;
+    OmegaPower *= OmegaMean;
   }
 
   // First oder quat integration matrix.
-- 
2.43.0

