From 8fe4334d5b873e6797d0d8e1bb567f14aa1358e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:04 +0000
Subject: [PATCH 01/40] fix: keep the process noise of tracked contacts when
 another one is added

add_aug_state copied only dimX x dimX entries of Qc_, so the contact noise of
feet tracked earlier was lost as soon as another foot was added.
---
 src/state/robot_state.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/state/robot_state.cpp b/src/state/robot_state.cpp
index 88c203c..a87b0b6 100644
--- a/src/state/robot_state.cpp
+++ b/src/state/robot_state.cpp
@@ -148,12 +148,12 @@ int RobotState::add_aug_state(const Eigen::Vector3d& aug,
   int dimTheta = this->dimTheta();
   Eigen::MatrixXd Qc_aug = Eigen::MatrixXd::Zero(dimQc + 3, dimQc + 3);
 
-  Qc_aug.topLeftCorner(this->dimX(), this->dimX())
-      = this->Qc_.topLeftCorner(this->dimX(), this->dimX());
-  Qc_aug.bottomLeftCorner(dimTheta, this->dimX())
-      = this->Qc_.bottomLeftCorner(dimTheta, this->dimX());
-  Qc_aug.topRightCorner(this->dimX(), dimTheta)
-      = this->Qc_.topRightCorner(this->dimX(), dimTheta);
+  int dimQx = dimQc - dimTheta;    // noise dimension of the existing columns
+  Qc_aug.topLeftCorner(dimQx, dimQx) = this->Qc_.topLeftCorner(dimQx, dimQx);
+  Qc_aug.bottomLeftCorner(dimTheta, dimQx)
+      = this->Qc_.bottomLeftCorner(dimTheta, dimQx);
+  Qc_aug.topRightCorner(dimQx, dimTheta)
+      = this->Qc_.topRightCorner(dimQx, dimTheta);
   Qc_aug.bottomRightCorner(dimTheta, dimTheta)
       = this->Qc_.bottomRightCorner(dimTheta, dimTheta);
   Qc_aug.block<3, 3>(dimQc - dimTheta, dimQc - dimTheta) = noise_cov;
-- 
2.43.0


From be49d7a446c091a400d4ef074e5c38567f318355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:04 +0000
Subject: [PATCH 02/40] fix: address bias covariances and augmented biases by
 their position

With augmented columns the bias covariance is not at (9,9)/(12,12), and
get_aug_bias ignored the index it was given.
---
 src/state/robot_state.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/state/robot_state.cpp b/src/state/robot_state.cpp
index a87b0b6..ce8b79b 100644
--- a/src/state/robot_state.cpp
+++ b/src/state/robot_state.cpp
@@ -120,10 +120,12 @@ const Eigen::Matrix3d RobotState::get_position_covariance() const {
   return P_.block<3, 3>(6, 6);
 }
 const Eigen::Matrix3d RobotState::get_gyroscope_bias_covariance() const {
-  return P_.block<3, 3>(9, 9);
+  int idx = this->dimP() - this->dimTheta();
+  return P_.block<3, 3>(idx, idx);
 }
 const Eigen::Matrix3d RobotState::get_accelerometer_bias_covariance() const {
-  return P_.block<3, 3>(12, 12);
+  int idx = this->dimP() - this->dimTheta() + 3;
+  return P_.block<3, 3>(idx, idx);
 }
 
 const double RobotState::get_time() const { return t_; }
@@ -300,7 +302,8 @@ void RobotState::del_aug_bias(int matrix_idx) {
 
 
 const Eigen::Vector3d RobotState::get_aug_bias(int matrix_idx) {
-  return Theta_.block<3, 1>(Theta_.rows() - 3, 0);
+  int start = matrix_idx - 5 + 6;    // same layout as del_aug_bias
+  return Theta_.block<3, 1>(start, 0);
 }
 
 void RobotState::set_rotation_covariance(const Eigen::Matrix3d& cov) {
@@ -313,10 +316,12 @@ void RobotState::set_position_covariance(const Eigen::Matrix3d& cov) {
   P_.block<3, 3>(6, 6) = cov;
 }
 void RobotState::set_gyroscope_bias_covariance(const Eigen::Matrix3d& cov) {
-  P_.block<3, 3>(9, 9) = cov;
+  int idx = this->dimP() - this->dimTheta();
+  P_.block<3, 3>(idx, idx) = cov;
 }
 void RobotState::set_accelerometer_bias_covariance(const Eigen::Matrix3d& cov) {
-  P_.block<3, 3>(12, 12) = cov;
+  int idx = this->dimP() - this->dimTheta() + 3;
+  P_.block<3, 3>(idx, idx) = cov;
 }
 void RobotState::set_time(const double t) { t_ = t; }
 
-- 
2.43.0


From 0cc79265d9f555b14b86d45319dc8ccccd5ffef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:04 +0000
Subject: [PATCH 03/40] fix: initialise the time stamps and body rate of a new
 RobotState

---
 include/drift/state/robot_state.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/drift/state/robot_state.h b/include/drift/state/robot_state.h
index ad6c237..90b5d5f 100644
--- a/include/drift/state/robot_state.h
+++ b/include/drift/state/robot_state.h
@@ -637,10 +637,11 @@ class RobotState {
                                  // corresponding
                                  // correction map's value
 
-  double t_;                     // The latest time when the state X_ is updated
-  double t_prop_;         // The latest time when the state X_ is propagated
+  double t_ = 0;                 // The latest time when the state X_ is updated
+  double t_prop_ = 0;     // The latest time when the state X_ is propagated
   Eigen::MatrixXd Qc_;    // Continuous noise covariance matrix
-  Eigen::Vector3d body_ang_vel_;    // Latest angular velocity
+  Eigen::Vector3d body_ang_vel_
+      = Eigen::Vector3d::Zero();    // Latest angular velocity
   bool enable_imu_bias_update_ = false;
   int slip_flag_ = 0;               // 0: no slip, 1: slip;
 };
-- 
2.43.0


From 81656a96fa1305d089c5940bb1f29a3fcfa727ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:00 +0000
Subject: [PATCH 04/40] fix: evaluate the SO(3) integrals by their series at
 small angles

The closed forms of Gamma_SO3 and Exp_SEK3 cancel catastrophically for small
angles (for m = 2 and an angle of 1e-8 no digit of the second-order term is
right), and the zero-angle cut-off makes them discontinuous.
---
 src/math/lie_group.cpp | 280 ++++++++++++++++++++---------------------
 1 file changed, 135 insertions(+), 145 deletions(-)

diff --git a/src/math/lie_group.cpp b/src/math/lie_group.cpp
index 5d9221e..b9d8879 100644
--- a/src/math/lie_group.cpp
+++ b/src/math/lie_group.cpp
@@ -1,146 +1,136 @@
-/* ----------------------------------------------------------------------------
- * Copyright 2023, CURLY Lab, University of Michigan
- * All Rights Reserved
- * See LICENSE for the license information
- * -------------------------------------------------------------------------- */
-
-/**
- *  @file   lie_group.cpp
- *  @author Ross Hartley, Tzu-Yuan Lin
- *  @brief  Source file for various Lie Group functions
- *  @date   May 16, 2023
- **/
-
-#include "drift/math/lie_group.h"
-
-namespace math::lie_group {
-
-using namespace std;
-
-const double TOLERANCE = 1e-10;
-
-long int factorial(int n) {
-  return (n == 1 || n == 0) ? 1 : factorial(n - 1) * n;
-}
-
-Eigen::Matrix3d skew(const Eigen::Vector3d& v) {
-  // Convert vector to skew-symmetric matrix
-  Eigen::Matrix3d M = Eigen::Matrix3d::Zero();
-  M << 0, -v[2], v[1], v[2], 0, -v[0], -v[1], v[0], 0;
-  return M;
-}
-
-Eigen::Matrix3d Gamma_SO3(const Eigen::Vector3d& w, int m) {
-  // Computes mth integral of the exponential map: \Gamma_m =
-  // \sum_{n=0}^{\infty} \dfrac{1}{(n+m)!} (w^\wedge)^n
-  assert(m >= 0);
-  Eigen::Matrix3d I = Eigen::Matrix3d::Identity();
-  double theta = w.norm();
-  if (theta < TOLERANCE) {
-    return (1.0 / factorial(m))
-           * I;    // TODO: There is a better small value approximation for
-                   // exp() given in Trawny p.19
-  }
-  Eigen::Matrix3d A = skew(w);
-  double theta2 = theta * theta;
-
-  // Closed form solution for the first 3 cases
-  switch (m) {
-    case 0:    // Exp map of SO(3)
-      return I + (sin(theta) / theta) * A + ((1 - cos(theta)) / theta2) * A * A;
-
-    case 1:    // Left Jacobian of SO(3)
-      // eye(3) - A*(1/theta^2) * (R - eye(3) - A);
-      // eye(3) + (1-cos(theta))/theta^2 * A + (theta-sin(theta))/theta^3 * A^2;
-      return I + ((1 - cos(theta)) / theta2) * A
-             + ((theta - sin(theta)) / (theta2 * theta)) * A * A;
-
-    case 2:
-      // 0.5*eye(3) - (1/theta^2) * (R - eye(3) - A - 0.5*A^2);
-      // 0.5*eye(3) + (theta-sin(theta))/theta^3 * A + (2*(cos(theta)-1) +
-      // theta^2)/(2*theta^4) * A^2
-      return 0.5 * I + (theta - sin(theta)) / (theta2 * theta) * A
-             + (theta2 + 2 * cos(theta) - 2) / (2 * theta2 * theta2) * A * A;
-
-    default:    // General case
-      Eigen::Matrix3d R
-          = I + (sin(theta) / theta) * A + ((1 - cos(theta)) / theta2) * A * A;
-      Eigen::Matrix3d S = I;
-      Eigen::Matrix3d Ak = I;
-      long int kfactorial = 1;
-      for (int k = 1; k <= m; ++k) {
-        kfactorial = kfactorial * k;
-        Ak = (Ak * A).eval();
-        S = (S + (1.0 / kfactorial) * Ak).eval();
-      }
-      if (m == 0) {
-        return R;
-      } else if (m % 2) {    // odd
-        return (1.0 / kfactorial) * I
-               + (pow(-1, (m + 1) / 2) / pow(theta, m + 1)) * A * (R - S);
-      } else {    // even
-        return (1.0 / kfactorial) * I
-               + (pow(-1, m / 2) / pow(theta, m)) * (R - S);
-      }
-  }
-}
-
-Eigen::Matrix3d Exp_SO3(const Eigen::Vector3d& w) {
-  // Computes the vectorized exponential map for SO(3)
-  return Gamma_SO3(w, 0);
-}
-
-Eigen::Matrix3d LeftJacobian_SO3(const Eigen::Vector3d& w) {
-  // Computes the Left Jacobian of SO(3)
-  return Gamma_SO3(w, 1);
-}
-
-Eigen::Matrix3d RightJacobian_SO3(const Eigen::Vector3d& w) {
-  // Computes the Right Jacobian of SO(3)
-  return Gamma_SO3(-w, 1);
-}
-
-Eigen::MatrixXd Exp_SEK3(const Eigen::VectorXd& v) {
-  // Computes the vectorized exponential map for SE_K(3)
-  int K = (v.size() - 3) / 3;
-  Eigen::MatrixXd X = Eigen::MatrixXd::Identity(3 + K, 3 + K);
-  Eigen::Matrix3d R;
-  Eigen::Matrix3d Jl;
-  Eigen::Vector3d w = v.head(3);
-  double theta = w.norm();
-  Eigen::Matrix3d I = Eigen::Matrix3d::Identity();
-  if (theta < TOLERANCE) {
-    R = I;
-    Jl = I;
-  } else {
-    Eigen::Matrix3d A = skew(w);
-    double theta2 = theta * theta;
-    double stheta = sin(theta);
-    double ctheta = cos(theta);
-    double oneMinusCosTheta2 = (1 - ctheta) / (theta2);
-    Eigen::Matrix3d A2 = A * A;
-    R = I + (stheta / theta) * A + oneMinusCosTheta2 * A2;
-    Jl = I + oneMinusCosTheta2 * A + ((theta - stheta) / (theta2 * theta)) * A2;
-  }
-  X.block<3, 3>(0, 0) = R;
-  for (int i = 0; i < K; ++i) {
-    X.block<3, 1>(0, 3 + i) = Jl * v.segment<3>(3 + 3 * i);
-  }
-  return X;
-}
-
-Eigen::MatrixXd Adjoint_SEK3(const Eigen::MatrixXd& X) {
-  // Compute Adjoint(X) for X in SE_K(3)
-  int K = X.cols() - 3;
-  Eigen::MatrixXd Adj = Eigen::MatrixXd::Zero(3 + 3 * K, 3 + 3 * K);
-  Eigen::Matrix3d R = X.block<3, 3>(0, 0);
-  Adj.block<3, 3>(0, 0) = R;
-  for (int i = 0; i < K; ++i) {
-    Adj.block<3, 3>(3 + 3 * i, 3 + 3 * i) = R;
-    Adj.block<3, 3>(3 + 3 * i, 0) = skew(X.block<3, 1>(0, 3 + i)) * R;
-  }
-  return Adj;
-}
-
-
+/* ----------------------------------------------------------------------------
+ * Copyright 2023, CURLY Lab, University of Michigan
+ * All Rights Reserved
+ * See LICENSE for the license information
+ * -------------------------------------------------------------------------- */
+
+/**
+ *  @file   lie_group.cpp
+ *  @author Ross Hartley, Tzu-Yuan Lin
+ *  @brief  Source file for various Lie Group functions
+ *  @date   May 16, 2023
+ **/
+
+#include "drift/math/lie_group.h"
+
+namespace math::lie_group {
+
+using namespace std;
+
+// Below this angle the closed forms lose precision to cancellation and the
+// power series is used
+const double SERIES_ANGLE = 0.5;
+
+long int factorial(int n) {
+  return (n == 1 || n == 0) ? 1 : factorial(n - 1) * n;
+}
+
+Eigen::Matrix3d skew(const Eigen::Vector3d& v) {
+  // Convert vector to skew-symmetric matrix
+  Eigen::Matrix3d M = Eigen::Matrix3d::Zero();
+  M << 0, -v[2], v[1], v[2], 0, -v[0], -v[1], v[0], 0;
+  return M;
+}
+
+Eigen::Matrix3d Gamma_SO3(const Eigen::Vector3d& w, int m) {
+  // Computes mth integral of the exponential map: \Gamma_m =
+  // \sum_{n=0}^{\infty} \dfrac{1}{(n+m)!} (w^\wedge)^n
+  assert(m >= 0);
+  Eigen::Matrix3d I = Eigen::Matrix3d::Identity();
+  double theta = w.norm();
+  Eigen::Matrix3d A = skew(w);
+  if (theta < SERIES_ANGLE) {
+    // sum of A^n / (n+m)!; terms beyond n = 16 are below double precision
+    Eigen::Matrix3d S = I;
+    for (int n = 16; n >= 1; --n) {
+      S = (I + A * S / (n + m)).eval();
+    }
+    return S / factorial(m);
+  }
+  double theta2 = theta * theta;
+
+  // Closed form solution for the first 3 cases
+  switch (m) {
+    case 0:    // Exp map of SO(3)
+      return I + (sin(theta) / theta) * A + ((1 - cos(theta)) / theta2) * A * A;
+
+    case 1:    // Left Jacobian of SO(3)
+      // eye(3) - A*(1/theta^2) * (R - eye(3) - A);
+      // eye(3) + (1-cos(theta))/theta^2 * A + (theta-sin(theta))/theta^3 * A^2;
+      return I + ((1 - cos(theta)) / theta2) * A
+             + ((theta - sin(theta)) / (theta2 * theta)) * A * A;
+
+    case 2:
+      // 0.5*eye(3) - (1/theta^2) * (R - eye(3) - A - 0.5*A^2);
+      // 0.5*eye(3) + (theta-sin(theta))/theta^3 * A + (2*(cos(theta)-1) +
+      // theta^2)/(2*theta^4) * A^2
+      return 0.5 * I + (theta - sin(theta)) / (theta2 * theta) * A
+             + (theta2 + 2 * cos(theta) - 2) / (2 * theta2 * theta2) * A * A;
+
+    default:    // General case
+      Eigen::Matrix3d R
+          = I + (sin(theta) / theta) * A + ((1 - cos(theta)) / theta2) * A * A;
+      Eigen::Matrix3d S = I;
+      Eigen::Matrix3d Ak = I;
+      long int kfactorial = 1;
+      for (int k = 1; k <= m; ++k) {
+        kfactorial = kfactorial * k;
+        Ak = (Ak * A).eval();
+        S = (S + (1.0 / kfactorial) * Ak).eval();
+      }
+      if (m == 0) {
+        return R;
+      } else if (m % 2) {    // odd
+        return (1.0 / kfactorial) * I
+               + (pow(-1, (m + 1) / 2) / pow(theta, m + 1)) * A * (R - S);
+      } else {    // even
+        return (1.0 / kfactorial) * I
+               + (pow(-1, m / 2) / pow(theta, m)) * (R - S);
+      }
+  }
+}
+
+Eigen::Matrix3d Exp_SO3(const Eigen::Vector3d& w) {
+  // Computes the vectorized exponential map for SO(3)
+  return Gamma_SO3(w, 0);
+}
+
+Eigen::Matrix3d LeftJacobian_SO3(const Eigen::Vector3d& w) {
+  // Computes the Left Jacobian of SO(3)
+  return Gamma_SO3(w, 1);
+}
+
+Eigen::Matrix3d RightJacobian_SO3(const Eigen::Vector3d& w) {
+  // Computes the Right Jacobian of SO(3)
+  return Gamma_SO3(-w, 1);
+}
+
+Eigen::MatrixXd Exp_SEK3(const Eigen::VectorXd& v) {
+  // Computes the vectorized exponential map for SE_K(3)
+  int K = (v.size() - 3) / 3;
+  Eigen::MatrixXd X = Eigen::MatrixXd::Identity(3 + K, 3 + K);
+  Eigen::Vector3d w = v.head(3);
+  Eigen::Matrix3d R = Gamma_SO3(w, 0);
+  Eigen::Matrix3d Jl = Gamma_SO3(w, 1);
+  X.block<3, 3>(0, 0) = R;
+  for (int i = 0; i < K; ++i) {
+    X.block<3, 1>(0, 3 + i) = Jl * v.segment<3>(3 + 3 * i);
+  }
+  return X;
+}
+
+Eigen::MatrixXd Adjoint_SEK3(const Eigen::MatrixXd& X) {
+  // Compute Adjoint(X) for X in SE_K(3)
+  int K = X.cols() - 3;
+  Eigen::MatrixXd Adj = Eigen::MatrixXd::Zero(3 + 3 * K, 3 + 3 * K);
+  Eigen::Matrix3d R = X.block<3, 3>(0, 0);
+  Adj.block<3, 3>(0, 0) = R;
+  for (int i = 0; i < K; ++i) {
+    Adj.block<3, 3>(3 + 3 * i, 3 + 3 * i) = R;
+    Adj.block<3, 3>(3 + 3 * i, 0) = skew(X.block<3, 1>(0, 3 + i)) * R;
+  }
+  return Adj;
+}
+
+
 }    // namespace math::lie_group
\ No newline at end of file
-- 
2.43.0


From 1a891f5a501a76f5f2ec15821be5d62973f7111f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:00 +0000
Subject: [PATCH 05/40] fix: state transition matrix of the biases at small
 rotation rates

Below a rate of 1e-6 the integer divisions (1 / 2) and (1 / 6) set the coupling
of gyroscope bias to velocity and position to zero; slightly above it the closed
form has no correct digit left. Use the power series for small rotations.
---
 .../inekf/propagation/imu_propagation.cpp     | 24 +++++++++++++++----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/filter/inekf/propagation/imu_propagation.cpp b/src/filter/inekf/propagation/imu_propagation.cpp
index abb038c..2867c79 100644
--- a/src/filter/inekf/propagation/imu_propagation.cpp
+++ b/src/filter/inekf/propagation/imu_propagation.cpp
@@ -304,11 +304,25 @@ Eigen::MatrixXd ImuPropagation::StateTransitionMatrix(const Eigen::Vector3d& w,
                  * (wx2 * ax * wx2));
 
 
-  /// TODO: Get better approximation using taylor series when theta < tol
-  const double tol = 1e-6;
-  if (theta < tol) {
-    Phi25L = (1 / 2) * ax * dt2;
-    Phi35L = (1 / 6) * ax * dt3;
+  // For small rotations the expressions above divide by vanishing numbers; use
+  // the power series of the integrals instead
+  const double series_angle = 0.5;
+  if (abs(thetadt) < series_angle) {
+    Eigen::Matrix3d W = -wx * dt;
+    Eigen::Matrix3d Wn = Eigen::Matrix3d::Identity();
+    Eigen::Matrix3d S2 = ax;    // sum of W^j * ax * W^k over j + k = n
+    Eigen::Matrix3d S3 = ax;    // same, weighted by (j + 1)
+    double factor = 0.5;        // 1 / (n + 2)!
+    Phi25L.setZero();
+    Phi35L.setZero();
+    for (int n = 0; n < 16; ++n) {
+      Phi25L += S2 * (factor * dt2);
+      factor /= n + 3;
+      Phi35L += S3 * (factor * dt3);
+      Wn = (Wn * W).eval();
+      S2 = (W * S2 + ax * Wn).eval();
+      S3 = (W * S3 + S2).eval();
+    }
   }
 
   // Fill out analytical state transition matrices
-- 
2.43.0


From 37959bc93e56bed7dcf79ca455b743ea31a64ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:00 +0000
Subject: [PATCH 06/40] fix: do not apply a velocity measurement that is not
 due yet

After discarding stale measurements the next one was applied without checking
that it is not ahead of the last propagation.
---
 src/filter/inekf/correction/velocity_correction.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/filter/inekf/correction/velocity_correction.cpp b/src/filter/inekf/correction/velocity_correction.cpp
index 5e7f3f3..8a3902a 100644
--- a/src/filter/inekf/correction/velocity_correction.cpp
+++ b/src/filter/inekf/correction/velocity_correction.cpp
@@ -105,10 +105,14 @@ bool VelocityCorrection::Correct(RobotState& state) {
         return false;
       }
       measured_velocity = sensor_data_buffer_ptr_->front();
+      t_diff = measured_velocity->get_time() - state.get_propagate_time();
+      // Leave a measurement that is not due yet in the buffer
+      if (t_diff >= 0) {
+        sensor_data_buffer_mutex_ptr_->unlock();
+        return false;
+      }
       sensor_data_buffer_ptr_->pop();
       sensor_data_buffer_mutex_ptr_->unlock();
-
-      t_diff = measured_velocity->get_time() - state.get_propagate_time();
     }
   }
 
-- 
2.43.0


From a10e23b08913136566db8d036d7c552bba65adc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:00 +0000
Subject: [PATCH 07/40] fix: skip a leg kinematics measurement that is too far
 ahead

The message says the correction is skipped, but it was applied; and it was not
even checked when stale measurements had been discarded before it.
---
 src/filter/inekf/correction/legged_kinematics_correction.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/filter/inekf/correction/legged_kinematics_correction.cpp b/src/filter/inekf/correction/legged_kinematics_correction.cpp
index 053f3d1..ae7ed26 100644
--- a/src/filter/inekf/correction/legged_kinematics_correction.cpp
+++ b/src/filter/inekf/correction/legged_kinematics_correction.cpp
@@ -82,7 +82,8 @@ bool LeggedKinematicsCorrection::Correct(RobotState& state) {
 
       t_diff = kinematics_measurement->get_time() - state.get_propagate_time();
     }
-  } else if (t_diff > t_diff_thres_) {
+  }
+  if (t_diff > t_diff_thres_) {
     std::cerr
         << std::setprecision(20)
         << "Measurement received in the velocity correction is way faster than "
@@ -92,6 +93,7 @@ bool LeggedKinematicsCorrection::Correct(RobotState& state) {
         << ", this measurement time: " << kinematics_measurement->get_time()
         << ", time diff: " << t_diff << ", set threshold: " << t_diff_thres_
         << std::endl;
+    return false;
   }
 
   state.set_time(kinematics_measurement->get_time());
-- 
2.43.0


From f84749fb59d0a608149fd246be09eeee14382cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:29 +0000
Subject: [PATCH 08/40] fix: initialise the velocity with the configured
 rotation and scale

initialize() took the raw sensor velocity as body velocity while Correct() maps
it by rotation_vel2body and velocity_scale.
---
 src/filter/inekf/correction/velocity_correction.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/filter/inekf/correction/velocity_correction.cpp b/src/filter/inekf/correction/velocity_correction.cpp
index 8a3902a..c90b821 100644
--- a/src/filter/inekf/correction/velocity_correction.cpp
+++ b/src/filter/inekf/correction/velocity_correction.cpp
@@ -169,8 +169,9 @@ bool VelocityCorrection::initialize(RobotState& state) {
   sensor_data_buffer_ptr_->pop();
   sensor_data_buffer_mutex_ptr_.get()->unlock();
 
-  // Apply the rotation to map the body velocity to the world frame
-  state.set_velocity(state.get_rotation() * measured_velocity->get_velocity());
+  // Rotate the velocity from sensor frame to body frame, then to world frame
+  state.set_velocity(state.get_rotation() * R_vel2body_ * velocity_scale_
+                     * measured_velocity->get_velocity());
   state.set_time(measured_velocity->get_time());
   return true;
 }
-- 
2.43.0


From e6d7f33d169866843e0db062c60bffbf09dfe93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:29 +0000
Subject: [PATCH 09/40] fix: initialise the body angular velocity in the body
 frame

The raw rate in the IMU frame was stored, ignoring rotation_imu2body.
---
 src/filter/inekf/propagation/imu_propagation.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/filter/inekf/propagation/imu_propagation.cpp b/src/filter/inekf/propagation/imu_propagation.cpp
index 2867c79..703e6d9 100644
--- a/src/filter/inekf/propagation/imu_propagation.cpp
+++ b/src/filter/inekf/propagation/imu_propagation.cpp
@@ -523,7 +523,8 @@ bool ImuPropagation::set_initial_state(RobotState& state) {
 
   state.set_rotation(R0);
   state.set_position(p0);
-  state.set_body_angular_velocity(imu_measurement->get_angular_velocity());
+  state.set_body_angular_velocity(R_imu2body_
+                                  * imu_measurement->get_angular_velocity());
 
   // Set the initial bias
   state.set_gyroscope_bias(bg0_);
-- 
2.43.0


From 856ed142245f76e57821b3b93a836e3fbfce5654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:29 +0000
Subject: [PATCH 10/40] fix: orientation of the body from the orientation
 reported by the IMU

With use_imu_ori_to_init and a rotated IMU the body orientation ignored
rotation_imu2body, and the bias calibration multiplied it on the wrong side.
---
 src/filter/inekf/propagation/imu_propagation.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/filter/inekf/propagation/imu_propagation.cpp b/src/filter/inekf/propagation/imu_propagation.cpp
index 703e6d9..07d7aa9 100644
--- a/src/filter/inekf/propagation/imu_propagation.cpp
+++ b/src/filter/inekf/propagation/imu_propagation.cpp
@@ -462,7 +462,8 @@ void ImuPropagation::InitImuBias() {
     Eigen::Matrix3d R;
     if (use_imu_ori_to_init_) {
       Eigen::Quaternion<double> quat = imu_measurement->get_quaternion();
-      R = R_imu2body_ * quat.toRotationMatrix();
+      // quat brings the imu frame to the world frame, R the body frame
+      R = quat.toRotationMatrix() * R_imu2body_.transpose();
     } else {
       R = Eigen::Matrix3d::Identity();
     }
@@ -515,7 +516,9 @@ bool ImuPropagation::set_initial_state(RobotState& state) {
   Eigen::Matrix3d R0 = Eigen::Matrix3d::Identity();
   if (use_imu_ori_to_init_) {
     Eigen::Quaternion<double> quat = imu_measurement->get_quaternion();
-    R0 = quat.toRotationMatrix();    // Initialize based on VectorNav estimate
+    // Initialize based on VectorNav estimate: quat brings the imu frame to the
+    // world frame, R0 the body frame
+    R0 = quat.toRotationMatrix() * R_imu2body_.transpose();
     std::cout << "R0: \n" << R0 << std::endl;
   }
   Eigen::Vector3d p0
-- 
2.43.0


From e4a8f2adb97ccfc1e9254cba78175654afdcad7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:29 +0000
Subject: [PATCH 11/40] fix: static bias initialisation with init_bias_size 0

The default size of zero averaged an empty set and set the biases to NaN.
---
 src/filter/inekf/propagation/imu_propagation.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/filter/inekf/propagation/imu_propagation.cpp b/src/filter/inekf/propagation/imu_propagation.cpp
index 07d7aa9..6f84f28 100644
--- a/src/filter/inekf/propagation/imu_propagation.cpp
+++ b/src/filter/inekf/propagation/imu_propagation.cpp
@@ -427,7 +427,8 @@ Eigen::MatrixXd ImuPropagation::DiscreteNoiseMatrix(const Eigen::MatrixXd& Phi,
 }
 
 void ImuPropagation::InitImuBias() {
-  if (!static_bias_initialization_) {
+  // Without samples to average (init_bias_size is 0 by default) keep the prior
+  if (!static_bias_initialization_ || init_bias_size_ <= 0) {
     bias_initialized_ = true;
     std::cout << "Static bias inialization is set to false." << std::endl;
     std::cout << "Bias is initialized using prior as [gyro_bias, acc_bias]: "
-- 
2.43.0


From c005fc121ab276bb4b0e12bfccfbd6088e1f8954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:29 +0000
Subject: [PATCH 12/40] fix: test sensor buffers for emptiness under their lock

The initialisation of propagation and corrections read empty() without the lock
that producers push under.
---
 .../inekf/correction/legged_kinematics_correction.cpp       | 6 +++---
 src/filter/inekf/correction/velocity_correction.cpp         | 6 +++---
 src/filter/inekf/propagation/imu_propagation.cpp            | 3 ++-
 3 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/filter/inekf/correction/legged_kinematics_correction.cpp b/src/filter/inekf/correction/legged_kinematics_correction.cpp
index ae7ed26..d1b7f68 100644
--- a/src/filter/inekf/correction/legged_kinematics_correction.cpp
+++ b/src/filter/inekf/correction/legged_kinematics_correction.cpp
@@ -261,12 +261,12 @@ bool LeggedKinematicsCorrection::initialize(RobotState& state) {
 
   // Get measurement from sensor data buffer
   // Do not initialize if the buffer is emptys
-  while (sensor_data_buffer_ptr_->empty()) {
+  sensor_data_buffer_mutex_ptr_.get()->lock();
+  if (sensor_data_buffer_ptr_->empty()) {
     // std::cout << "Waiting for leg encoder data..." << std::endl;
+    sensor_data_buffer_mutex_ptr_.get()->unlock();
     return false;
   }
-
-  sensor_data_buffer_mutex_ptr_.get()->lock();
   // Get the lates measurement
   while (sensor_data_buffer_ptr_->size() > 1) {
     // std::cout << "Discarding old sensor data..." << std::endl;
diff --git a/src/filter/inekf/correction/velocity_correction.cpp b/src/filter/inekf/correction/velocity_correction.cpp
index c90b821..31bcd44 100644
--- a/src/filter/inekf/correction/velocity_correction.cpp
+++ b/src/filter/inekf/correction/velocity_correction.cpp
@@ -154,12 +154,12 @@ bool VelocityCorrection::initialize(RobotState& state) {
 
   // Get measurement from sensor data buffer
   // Do not initialize if the buffer is emptys
-  while (sensor_data_buffer_ptr_->empty()) {
+  sensor_data_buffer_mutex_ptr_.get()->lock();
+  if (sensor_data_buffer_ptr_->empty()) {
     // std::cout << "Waiting for velocity related encoder data..." << std::endl;
+    sensor_data_buffer_mutex_ptr_.get()->unlock();
     return false;
   }
-
-  sensor_data_buffer_mutex_ptr_.get()->lock();
   // Get the latest measurement
   while (sensor_data_buffer_ptr_->size() > 1) {
     // std::cout << "Discarding old sensor data..." << std::endl;
diff --git a/src/filter/inekf/propagation/imu_propagation.cpp b/src/filter/inekf/propagation/imu_propagation.cpp
index 6f84f28..5579a3a 100644
--- a/src/filter/inekf/propagation/imu_propagation.cpp
+++ b/src/filter/inekf/propagation/imu_propagation.cpp
@@ -506,10 +506,11 @@ const bool ImuPropagation::get_bias_initialized() const {
 // IMU propagation initialization for robot state
 bool ImuPropagation::set_initial_state(RobotState& state) {
   // Do not initialize if the buffer is emptys
+  sensor_data_buffer_mutex_ptr_.get()->lock();
   if (sensor_data_buffer_ptr_->empty()) {
+    sensor_data_buffer_mutex_ptr_.get()->unlock();
     return false;
   }
-  sensor_data_buffer_mutex_ptr_.get()->lock();
   const ImuMeasurementPtr imu_measurement = sensor_data_buffer_ptr_->front();
   sensor_data_buffer_ptr_->pop();
   sensor_data_buffer_mutex_ptr_.get()->unlock();
-- 
2.43.0


From 99efb57f5abbd28279b9dd41841182429626988c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:29 +0000
Subject: [PATCH 13/40] fix: read the contact noise from contact_std as in the
 shipped configuration

The shipped yaml files name the setting contact_std, which was ignored.
---
 src/filter/inekf/correction/legged_kinematics_correction.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/filter/inekf/correction/legged_kinematics_correction.cpp b/src/filter/inekf/correction/legged_kinematics_correction.cpp
index d1b7f68..de82080 100644
--- a/src/filter/inekf/correction/legged_kinematics_correction.cpp
+++ b/src/filter/inekf/correction/legged_kinematics_correction.cpp
@@ -29,7 +29,9 @@ LeggedKinematicsCorrection::LeggedKinematicsCorrection(
   double contact_noise_std
       = config_["noises"]["contact_noise_std"]
             ? config_["noises"]["contact_noise_std"].as<double>()
-            : 0.1;
+            : (config_["noises"]["contact_std"]
+                   ? config_["noises"]["contact_std"].as<double>()
+                   : 0.1);
   contact_noise_cov_ = contact_noise_std * contact_noise_std
                        * Eigen::Matrix<double, 3, 3>::Identity();
 
-- 
2.43.0


From 5f135ad2971a3de921b99cf11a5029c191336e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:11 +0000
Subject: [PATCH 14/40] fix: read init_bias_size in both constructors of the
 IMU filter

---
 src/imu_filter/imu_ang_vel_ekf.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/imu_filter/imu_ang_vel_ekf.cpp b/src/imu_filter/imu_ang_vel_ekf.cpp
index c749132..9d42794 100644
--- a/src/imu_filter/imu_ang_vel_ekf.cpp
+++ b/src/imu_filter/imu_ang_vel_ekf.cpp
@@ -65,6 +65,10 @@ ImuAngVelEKF::ImuAngVelEKF(
           ? config_["settings"]["correction_method"].as<int>()
           : 0);
 
+  init_bias_size_ = config_["settings"]["init_bias_size"]
+                        ? config_["settings"]["init_bias_size"].as<int>()
+                        : 250;
+
   // Set the initial bias
   static_bias_initialization_
       = config_["settings"]["static_bias_initialization"]
-- 
2.43.0


From d214a23384020435d4d7a703d4cdf757fe2957d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:11 +0000
Subject: [PATCH 15/40] fix: destroy an IMU filter whose thread was never
 started

---
 src/imu_filter/imu_ang_vel_ekf.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/imu_filter/imu_ang_vel_ekf.cpp b/src/imu_filter/imu_ang_vel_ekf.cpp
index 9d42794..505c29a 100644
--- a/src/imu_filter/imu_ang_vel_ekf.cpp
+++ b/src/imu_filter/imu_ang_vel_ekf.cpp
@@ -329,7 +329,9 @@ ImuAngVelEKF::ImuAngVelEKF(const std::string& yaml_filepath)
 // IMU filter destructor
 ImuAngVelEKF::~ImuAngVelEKF() {
   stop_thread_ = true;
-  imu_filter_thread_.join();
+  if (imu_filter_thread_.joinable()) {
+    imu_filter_thread_.join();
+  }
   imu_propagate_input_outfile_.close();
   imu_propagate_outfile_.close();
   imu_ang_vel_outfile_.close();
-- 
2.43.0


From 7d9052f847015b18c9ceb68dd06576ba4c0776bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:11 +0000
Subject: [PATCH 16/40] fix: clear every attached buffer of the IMU filter and
 no other

---
 src/imu_filter/imu_ang_vel_ekf.cpp | 38 +++++++++++++++++++++++-------
 1 file changed, 30 insertions(+), 8 deletions(-)

diff --git a/src/imu_filter/imu_ang_vel_ekf.cpp b/src/imu_filter/imu_ang_vel_ekf.cpp
index 505c29a..9ea6ad7 100644
--- a/src/imu_filter/imu_ang_vel_ekf.cpp
+++ b/src/imu_filter/imu_ang_vel_ekf.cpp
@@ -874,19 +874,41 @@ ImuAngVelEKF::get_filtered_imu_data_buffer_and_mutex_ptr() {
 };
 
 void ImuAngVelEKF::clear() {
+  // Clear gyro propagation data buffer
+  if (gyro_prop_data_buffer_ptr_) {
+    gyro_prop_data_buffer_mutex_ptr_.get()->lock();
+    while (!gyro_prop_data_buffer_ptr_->empty()) {
+      gyro_prop_data_buffer_ptr_->pop();
+    }
+    gyro_prop_data_buffer_mutex_ptr_.get()->unlock();
+  }
+
   // Clear Imu data buffer
-  imu_data_buffer_mutex_ptr_.get()->lock();
-  while (!imu_data_buffer_ptr_->empty()) {
-    imu_data_buffer_ptr_->pop();
+  if (imu_data_buffer_ptr_) {
+    imu_data_buffer_mutex_ptr_.get()->lock();
+    while (!imu_data_buffer_ptr_->empty()) {
+      imu_data_buffer_ptr_->pop();
+    }
+    imu_data_buffer_mutex_ptr_.get()->unlock();
+  }
+
+  // Clear the buffers of the other imus
+  for (int i = 0; i < imu_data_buffer_mutex_ptrs_.size(); i++) {
+    imu_data_buffer_mutex_ptrs_[i].get()->lock();
+    while (!imu_data_buffer_ptrs_[i]->empty()) {
+      imu_data_buffer_ptrs_[i]->pop();
+    }
+    imu_data_buffer_mutex_ptrs_[i].get()->unlock();
   }
-  imu_data_buffer_mutex_ptr_.get()->unlock();
 
   // Clear angular velocity data buffer
-  ang_vel_data_buffer_mutex_ptr_.get()->lock();
-  while (!ang_vel_data_buffer_ptr_->empty()) {
-    ang_vel_data_buffer_ptr_->pop();
+  if (ang_vel_data_buffer_ptr_) {
+    ang_vel_data_buffer_mutex_ptr_.get()->lock();
+    while (!ang_vel_data_buffer_ptr_->empty()) {
+      ang_vel_data_buffer_ptr_->pop();
+    }
+    ang_vel_data_buffer_mutex_ptr_.get()->unlock();
   }
-  ang_vel_data_buffer_mutex_ptr_.get()->unlock();
 
   // Clear filtered_imu_data_buffer
   filtered_imu_data_buffer_mutex_ptr_.get()->lock();
-- 
2.43.0


From 904f51e6ce0eaff41bad133342946b1f4c853799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:11 +0000
Subject: [PATCH 17/40] fix: static bias initialisation of an IMU filter
 without an imu correction

---
 src/imu_filter/imu_ang_vel_ekf.cpp | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/imu_filter/imu_ang_vel_ekf.cpp b/src/imu_filter/imu_ang_vel_ekf.cpp
index 9ea6ad7..d1f6356 100644
--- a/src/imu_filter/imu_ang_vel_ekf.cpp
+++ b/src/imu_filter/imu_ang_vel_ekf.cpp
@@ -477,17 +477,30 @@ void ImuAngVelEKF::InitializeFilter() {
   // std::cout << "bias_init set to " << static_bias_initialization_ <<
   // std::endl;
   if (bias_init_vec_.size() < init_bias_size_ && static_bias_initialization_) {
-    imu_data_buffer_mutex_ptr_.get()->lock();
-    if (imu_data_buffer_ptr_->empty()) {
-      imu_data_buffer_mutex_ptr_.get()->unlock();
+    // Without an imu correction the samples come from the gyro itself
+    const bool use_gyro = !imu_data_buffer_ptr_;
+    IMUQueuePtr bias_buffer_ptr
+        = use_gyro ? gyro_prop_data_buffer_ptr_ : imu_data_buffer_ptr_;
+    std::shared_ptr<std::mutex> bias_buffer_mutex_ptr
+        = use_gyro ? gyro_prop_data_buffer_mutex_ptr_
+                   : imu_data_buffer_mutex_ptr_;
+    if (!bias_buffer_ptr) {
       return;
     }
-    ImuMeasurementPtr imu1_measurement = imu_data_buffer_ptr_.get()->front();
-    imu_data_buffer_ptr_.get()->pop();
-    imu_data_buffer_mutex_ptr_.get()->unlock();
+
+    bias_buffer_mutex_ptr.get()->lock();
+    if (bias_buffer_ptr->empty()) {
+      bias_buffer_mutex_ptr.get()->unlock();
+      return;
+    }
+    ImuMeasurementPtr imu1_measurement = bias_buffer_ptr.get()->front();
+    bias_buffer_ptr.get()->pop();
+    bias_buffer_mutex_ptr.get()->unlock();
     bias_init_vec_.push_back(imu1_measurement->get_angular_velocity());
 
-    if (propagation_method_ == GYRO) {
+    if (use_gyro) {
+      prev_ang_vel_measurement_ = imu1_measurement->get_angular_velocity();
+    } else if (propagation_method_ == GYRO) {
       gyro_prop_data_buffer_mutex_ptr_.get()->lock();
       if (gyro_prop_data_buffer_ptr_->empty()) {
         gyro_prop_data_buffer_mutex_ptr_.get()->unlock();
-- 
2.43.0


From 88d2ffb6fafef42b1c11aaa0e78b3f5ff637a68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:11 +0000
Subject: [PATCH 18/40] fix: static bias initialisation of the IMU filter with
 init_bias_size 0

---
 src/imu_filter/imu_ang_vel_ekf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/imu_filter/imu_ang_vel_ekf.cpp b/src/imu_filter/imu_ang_vel_ekf.cpp
index d1f6356..4ae8ccf 100644
--- a/src/imu_filter/imu_ang_vel_ekf.cpp
+++ b/src/imu_filter/imu_ang_vel_ekf.cpp
@@ -513,7 +513,7 @@ void ImuAngVelEKF::InitializeFilter() {
 
       prev_ang_vel_measurement_ = imu0_measurement->get_angular_velocity();
     }
-  } else if (static_bias_initialization_) {
+  } else if (static_bias_initialization_ && !bias_init_vec_.empty()) {
     Eigen::Matrix<double, 3, 1> avg = Eigen::Matrix<double, 3, 1>::Zero();
     for (int i = 0; i < bias_init_vec_.size(); ++i) {
       avg = (avg + bias_init_vec_[i]).eval();
-- 
2.43.0


From c3cc1d03dc90352e5187c85f0c3ffef3985f1544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:11 +0000
Subject: [PATCH 19/40] fix: use the first imu as well in the multi imu
 correction

---
 src/imu_filter/imu_ang_vel_ekf.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/imu_filter/imu_ang_vel_ekf.cpp b/src/imu_filter/imu_ang_vel_ekf.cpp
index 4ae8ccf..c900f27 100644
--- a/src/imu_filter/imu_ang_vel_ekf.cpp
+++ b/src/imu_filter/imu_ang_vel_ekf.cpp
@@ -355,11 +355,10 @@ void ImuAngVelEKF::add_imu_correction(
     // For single imu version:
     imu_data_buffer_ptr_ = imu_data_buffer_ptr;
     imu_data_buffer_mutex_ptr_ = imu_data_buffer_mutex_ptr;
-  } else {
-    // For all other versions:
-    imu_data_buffer_ptrs_.push_back(imu_data_buffer_ptr);
-    imu_data_buffer_mutex_ptrs_.push_back(imu_data_buffer_mutex_ptr);
   }
+  // For all other versions:
+  imu_data_buffer_ptrs_.push_back(imu_data_buffer_ptr);
+  imu_data_buffer_mutex_ptrs_.push_back(imu_data_buffer_mutex_ptr);
 }
 
 void ImuAngVelEKF::add_ang_vel_correction(
-- 
2.43.0


From 21fca4047bb5fe2dee2d77bb11904fc26ff34e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:11 +0000
Subject: [PATCH 20/40] fix: do not emit the sample of another imu for a
 rejected one

---
 src/imu_filter/imu_ang_vel_ekf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/imu_filter/imu_ang_vel_ekf.cpp b/src/imu_filter/imu_ang_vel_ekf.cpp
index c900f27..99cd74f 100644
--- a/src/imu_filter/imu_ang_vel_ekf.cpp
+++ b/src/imu_filter/imu_ang_vel_ekf.cpp
@@ -591,10 +591,10 @@ void ImuAngVelEKF::SingleImuCorrection() {
 
 void ImuAngVelEKF::MultiImuCorrection() {
   ImuMeasurementPtr imu_measurement = nullptr;
-  ImuMeasurementPtr fused_ang_imu = nullptr;
 
   // Bias corrected IMU measurements
   for (int i = 0; i < imu_data_buffer_mutex_ptrs_.size(); i++) {
+    ImuMeasurementPtr fused_ang_imu = nullptr;
     imu_data_buffer_mutex_ptrs_[i].get()->lock();
     if (imu_data_buffer_ptrs_[i]->empty()) {
       imu_data_buffer_mutex_ptrs_[i].get()->unlock();
-- 
2.43.0


From 6c5c9041a98e9f90b8ee9a3e4ff1dac7af154eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:11 +0000
Subject: [PATCH 21/40] fix: a stale imu measurement no longer blocks the IMU
 filter

---
 src/imu_filter/imu_ang_vel_ekf.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/imu_filter/imu_ang_vel_ekf.cpp b/src/imu_filter/imu_ang_vel_ekf.cpp
index 99cd74f..a90ad58 100644
--- a/src/imu_filter/imu_ang_vel_ekf.cpp
+++ b/src/imu_filter/imu_ang_vel_ekf.cpp
@@ -568,6 +568,16 @@ void ImuAngVelEKF::SingleImuCorrection() {
     return;
   }
 
+  // Discard the measurements that are too old, they will never be due again
+  while (last_propagate_time_ - imu_data_buffer_ptr_->front()->get_time()
+         > t_thres_) {
+    imu_data_buffer_ptr_.get()->pop();
+    if (imu_data_buffer_ptr_->empty()) {
+      imu_data_buffer_mutex_ptr_.get()->unlock();
+      return;
+    }
+  }
+
   ImuMeasurementPtr imu_measurement = imu_data_buffer_ptr_.get()->front();
 
   // Only perform correction step if with data prior to the propagation time
-- 
2.43.0


From 9c47bd613a679494ff492c61ed51b1831a867322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:11 +0000
Subject: [PATCH 22/40] fix: accept the measurements of a single imu without
 gyro propagation

---
 src/imu_filter/imu_ang_vel_ekf.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/imu_filter/imu_ang_vel_ekf.cpp b/src/imu_filter/imu_ang_vel_ekf.cpp
index a90ad58..3b89262 100644
--- a/src/imu_filter/imu_ang_vel_ekf.cpp
+++ b/src/imu_filter/imu_ang_vel_ekf.cpp
@@ -585,8 +585,10 @@ void ImuAngVelEKF::SingleImuCorrection() {
   /// TODO: double check if we need absolute here?
   // if (last_propagate_time_ == -1
   // || last_propagate_time_ - imu_measurement->get_time() <= t_thres_) {
-  if (last_propagate_time_ - imu_measurement->get_time() <= t_thres_
-      && last_propagate_time_ >= imu_measurement->get_time()) {
+  // (there is no propagation time to compare with under a random walk)
+  if (propagation_method_ == RANDOM_WALK
+      || (last_propagate_time_ - imu_measurement->get_time() <= t_thres_
+          && last_propagate_time_ >= imu_measurement->get_time())) {
     imu_data_buffer_ptr_.get()->pop();
     imu_data_buffer_mutex_ptr_.get()->unlock();
 
-- 
2.43.0


From 1bfd55aad581701458f7b243ea8f1ea858242cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:11 +0000
Subject: [PATCH 23/40] fix: take a measurement of the IMU filter under the
 lock it was selected

---
 src/imu_filter/imu_ang_vel_ekf.cpp | 49 ++++++++++++++----------------
 1 file changed, 22 insertions(+), 27 deletions(-)

diff --git a/src/imu_filter/imu_ang_vel_ekf.cpp b/src/imu_filter/imu_ang_vel_ekf.cpp
index 3b89262..89db3eb 100644
--- a/src/imu_filter/imu_ang_vel_ekf.cpp
+++ b/src/imu_filter/imu_ang_vel_ekf.cpp
@@ -665,6 +665,27 @@ void ImuAngVelEKF::SingleImuAngVelCorrection() {
     }
   }
 
+  // Take the selected measurement, unless its buffer was cleared meanwhile
+  if (imu_measurement) {
+    imu_data_buffer_mutex_ptr_.get()->lock();
+    if (imu_data_buffer_ptr_->empty()
+        || imu_data_buffer_ptr_->front() != imu_measurement) {
+      imu_data_buffer_mutex_ptr_.get()->unlock();
+      return;
+    }
+    imu_data_buffer_ptr_.get()->pop();
+    imu_data_buffer_mutex_ptr_.get()->unlock();
+  } else {
+    ang_vel_data_buffer_mutex_ptr_.get()->lock();
+    if (ang_vel_data_buffer_ptr_->empty()
+        || ang_vel_data_buffer_ptr_->front() != ang_vel_measurement) {
+      ang_vel_data_buffer_mutex_ptr_.get()->unlock();
+      return;
+    }
+    ang_vel_data_buffer_ptr_.get()->pop();
+    ang_vel_data_buffer_mutex_ptr_.get()->unlock();
+  }
+
   // =================== Angular Velocity filter ====================
   if (imu_measurement) {
     latest_imu_measurement_ = imu_measurement;
@@ -675,17 +696,6 @@ void ImuAngVelEKF::SingleImuAngVelCorrection() {
       filtered_imu_data_buffer_ptr_->push(fused_ang_imu);
       filtered_imu_data_buffer_mutex_ptr_.get()->unlock();
     }
-
-    imu_data_buffer_mutex_ptr_.get()->lock();
-    imu_data_buffer_ptr_.get()->pop();
-    imu_data_buffer_mutex_ptr_.get()->unlock();
-    return;
-  }
-
-  if (ang_vel_measurement && !latest_imu_measurement_) {
-    ang_vel_data_buffer_mutex_ptr_.get()->lock();
-    ang_vel_data_buffer_ptr_.get()->pop();
-    ang_vel_data_buffer_mutex_ptr_.get()->unlock();
     return;
   }
 
@@ -699,10 +709,6 @@ void ImuAngVelEKF::SingleImuAngVelCorrection() {
       filtered_imu_data_buffer_ptr_->push(fused_ang_imu);
       filtered_imu_data_buffer_mutex_ptr_.get()->unlock();
     }
-
-    ang_vel_data_buffer_mutex_ptr_.get()->lock();
-    ang_vel_data_buffer_ptr_->pop();
-    ang_vel_data_buffer_mutex_ptr_.get()->unlock();
     return;
   }
 }
@@ -717,16 +723,9 @@ void ImuAngVelEKF::AngVelCorrection() {
 
   AngularVelocityMeasurementPtr ang_vel_measurement
       = ang_vel_data_buffer_ptr_->front();
+  ang_vel_data_buffer_ptr_->pop();
   ang_vel_data_buffer_mutex_ptr_.get()->unlock();
 
-
-  if (ang_vel_measurement && !latest_imu_measurement_) {
-    ang_vel_data_buffer_mutex_ptr_.get()->lock();
-    ang_vel_data_buffer_ptr_->pop();
-    ang_vel_data_buffer_mutex_ptr_.get()->unlock();
-    return;
-  }
-
   // only execute the following code if we have a latest_imu_measurement_
   if (ang_vel_measurement && latest_imu_measurement_) {
     auto fused_ang_imu = AngVelFilterCorrectEncoder(latest_imu_measurement_,
@@ -734,10 +733,6 @@ void ImuAngVelEKF::AngVelCorrection() {
     filtered_imu_data_buffer_mutex_ptr_.get()->lock();
     filtered_imu_data_buffer_ptr_->push(fused_ang_imu);
     filtered_imu_data_buffer_mutex_ptr_.get()->unlock();
-
-    ang_vel_data_buffer_mutex_ptr_.get()->lock();
-    ang_vel_data_buffer_ptr_->pop();
-    ang_vel_data_buffer_mutex_ptr_.get()->unlock();
     return;
   }
 }
-- 
2.43.0


From ea0a5cd6e6cd493a13856667cbb2773888ad5604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:02 +0000
Subject: [PATCH 24/40] fix: process noise of the IMU filter no longer grows on
 idle iterations

---
 include/drift/imu_filter/imu_ang_vel_ekf.h |  5 +++++
 src/imu_filter/imu_ang_vel_ekf.cpp         | 22 +++++++++++++++++++++-
 2 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/include/drift/imu_filter/imu_ang_vel_ekf.h b/include/drift/imu_filter/imu_ang_vel_ekf.h
index 90e5373..edd7581 100644
--- a/include/drift/imu_filter/imu_ang_vel_ekf.h
+++ b/include/drift/imu_filter/imu_ang_vel_ekf.h
@@ -251,6 +251,11 @@ class ImuAngVelEKF {
   /// @name helper functions
   /// @{
   // ======================================================================
+  /**
+   * @brief Whether any attached correction buffer has a measurement waiting.
+   */
+  bool HasCorrectionMeasurement();
+  // ======================================================================
   /**
    * @brief Propagate the angular velocity filter. We assume the state
    * (anguler velocity) undergoes a random walk.
diff --git a/src/imu_filter/imu_ang_vel_ekf.cpp b/src/imu_filter/imu_ang_vel_ekf.cpp
index 89db3eb..98b5a93 100644
--- a/src/imu_filter/imu_ang_vel_ekf.cpp
+++ b/src/imu_filter/imu_ang_vel_ekf.cpp
@@ -390,7 +390,10 @@ void ImuAngVelEKF::RunOnce() {
         GyroPropagate();
         break;
       case RANDOM_WALK:
-        RandomWalkPropagate();
+        // The process noise is per measurement, not per (idle) iteration
+        if (HasCorrectionMeasurement()) {
+          RandomWalkPropagate();
+        }
         break;
     }
 
@@ -737,6 +740,23 @@ void ImuAngVelEKF::AngVelCorrection() {
   }
 }
 
+bool ImuAngVelEKF::HasCorrectionMeasurement() {
+  bool available = false;
+  if (imu_data_buffer_ptr_) {
+    std::lock_guard<std::mutex> lock(*imu_data_buffer_mutex_ptr_);
+    available = available || !imu_data_buffer_ptr_->empty();
+  }
+  for (int i = 0; i < imu_data_buffer_mutex_ptrs_.size(); i++) {
+    std::lock_guard<std::mutex> lock(*imu_data_buffer_mutex_ptrs_[i]);
+    available = available || !imu_data_buffer_ptrs_[i]->empty();
+  }
+  if (ang_vel_data_buffer_ptr_) {
+    std::lock_guard<std::mutex> lock(*ang_vel_data_buffer_mutex_ptr_);
+    available = available || !ang_vel_data_buffer_ptr_->empty();
+  }
+  return available;
+}
+
 void ImuAngVelEKF::AngVelFilterPropagate() {
   // if (enable_gyro_propagate_) {
   //   this->GyroPropagate();
-- 
2.43.0


From 35fc4162bc420f8cf99b106b12ea38ebbdeb8b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:07 +0000
Subject: [PATCH 25/40] fix: do not reopen the log files while a record is
 being written

---
 include/drift/estimator/inekf_estimator.h | 1 +
 src/estimator/inekf_estimator.cpp         | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/include/drift/estimator/inekf_estimator.h b/include/drift/estimator/inekf_estimator.h
index 192804c..e3db45c 100644
--- a/include/drift/estimator/inekf_estimator.h
+++ b/include/drift/estimator/inekf_estimator.h
@@ -303,6 +303,7 @@ class InekfEstimator {
   std::thread pose_logging_thread_;    // Pose logging thread
   std::mutex
       robot_state_log_queue_mutex_;    // Mutex of the robot state log queue
+  std::mutex log_file_mutex_;          // Mutex of the log files
   RobotStateQueuePtr robot_state_log_queue_ptr_;    // Pointer to the robot
                                                     // state log queue
 
diff --git a/src/estimator/inekf_estimator.cpp b/src/estimator/inekf_estimator.cpp
index 9dad73d..c5c0e1b 100644
--- a/src/estimator/inekf_estimator.cpp
+++ b/src/estimator/inekf_estimator.cpp
@@ -143,6 +143,8 @@ void InekfEstimator::PoseLoggingThread() {
     std::shared_ptr<RobotState> state_log_ptr
         = robot_state_log_queue_ptr_.get()->front();
     robot_state_log_queue_ptr_.get()->pop();
+    // The record belongs to the files that are open now (see clear())
+    std::lock_guard<std::mutex> file_lock(log_file_mutex_);
     robot_state_log_queue_mutex_.unlock();
 
     double time_diff = state_log_ptr->get_time() - last_pub_t_;
@@ -318,6 +320,7 @@ void InekfEstimator::clear() {
   }
   robot_state_log_queue_mutex_.unlock();
   if (enable_pose_logger_) {
+    std::lock_guard<std::mutex> file_lock(log_file_mutex_);
     outfile_.close();
     outfile_.open(pose_log_file_ + '_' + std::to_string(++init_count_)
                   + ".txt");
-- 
2.43.0


From fd7c502bdabe15543cc293e231e488e71f73c5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:07 +0000
Subject: [PATCH 26/40] fix: log the states still waiting when the estimator is
 destroyed

---
 src/estimator/inekf_estimator.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/estimator/inekf_estimator.cpp b/src/estimator/inekf_estimator.cpp
index c5c0e1b..12014dd 100644
--- a/src/estimator/inekf_estimator.cpp
+++ b/src/estimator/inekf_estimator.cpp
@@ -132,11 +132,16 @@ void InekfEstimator::StartLoggingThread() {
 
 void InekfEstimator::PoseLoggingThread() {
   // logger, tum style
-  while (stop_signal_ == false) {
+  while (true) {
+    // Log what is left in the queue before stopping
+    const bool stop = stop_signal_;
     // Get new pose data for logger
     robot_state_log_queue_mutex_.lock();
     if (robot_state_log_queue_ptr_.get()->empty()) {
       robot_state_log_queue_mutex_.unlock();
+      if (stop) {
+        break;
+      }
       continue;
     }
 
-- 
2.43.0


From 1b5527f25285f0e910dd59c84a17f6a1948d6ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:07 +0000
Subject: [PATCH 27/40] fix: type of a leg kinematics measurement built from
 its values

---
 src/measurement/legged_kinematics.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/measurement/legged_kinematics.cpp b/src/measurement/legged_kinematics.cpp
index 9c78471..037a6a6 100644
--- a/src/measurement/legged_kinematics.cpp
+++ b/src/measurement/legged_kinematics.cpp
@@ -21,7 +21,10 @@ LeggedKinematicsMeasurement::LeggedKinematicsMeasurement(
     const Eigen::Matrix<double, Eigen::Dynamic, 1>& encoders,
     const Eigen::Matrix<double, Eigen::Dynamic, 1>& d_encoders,
     const Eigen::Matrix<bool, Eigen::Dynamic, 1>& contacts)
-    : encoders_(encoders), d_encoders_(d_encoders), contacts_(contacts) {}
+    : Measurement(LEGGED_KINEMATICS),
+      encoders_(encoders),
+      d_encoders_(d_encoders),
+      contacts_(contacts) {}
 
 void LeggedKinematicsMeasurement::set_contact(
     const Eigen::Matrix<bool, Eigen::Dynamic, 1>& contacts) {
-- 
2.43.0


From f7e105d90eb3d566140760b5cfa1683ca9c42ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:07 +0000
Subject: [PATCH 28/40] fix: print the type of angular velocity and odometry
 measurements

---
 src/measurement/measurement.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/measurement/measurement.cpp b/src/measurement/measurement.cpp
index 3c5038f..d60a6f1 100644
--- a/src/measurement/measurement.cpp
+++ b/src/measurement/measurement.cpp
@@ -49,12 +49,18 @@ ostream& operator<<(ostream& os, const Measurement& m) {
     case VELOCITY:
       type_str = "VELOCITY";
       break;
+    case ANGULAR_VELOCITY:
+      type_str = "ANGULAR_VELOCITY";
+      break;
     case JOINT_STATE:
       type_str = "JOINT_STATE";
       break;
     case CONTACT:
       type_str = "CONTACT";
       break;
+    case ODOM:
+      type_str = "ODOM";
+      break;
     default:
       type_str = "UNKNOWN";
   }
-- 
2.43.0


From 87e2f96607f4e949286f68f660ad1008c428a0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:07 +0000
Subject: [PATCH 29/40] fix: test the state queue for emptiness under its lock

---
 ROS/drift/src/communication/ros_publisher.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ROS/drift/src/communication/ros_publisher.cpp b/ROS/drift/src/communication/ros_publisher.cpp
index 27c6530..e4bd489 100644
--- a/ROS/drift/src/communication/ros_publisher.cpp
+++ b/ROS/drift/src/communication/ros_publisher.cpp
@@ -94,12 +94,12 @@ void ROSPublisher::StartPublishingThread() {
 
 // Publishes pose
 void ROSPublisher::PosePublish() {
+  // Get the first pose
+  robot_state_queue_mutex_.get()->lock();
   if (robot_state_queue_ptr_->empty()) {
+    robot_state_queue_mutex_.get()->unlock();
     return;
   }
-
-  // Get the first pose
-  robot_state_queue_mutex_.get()->lock();
   const std::shared_ptr<RobotState> state_ptr = robot_state_queue_ptr_->front();
   robot_state_queue_ptr_->pop();
   robot_state_queue_mutex_.get()->unlock();
-- 
2.43.0


From 018dc41ed23ae110f47c048a2be68087e5bb3955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:07 +0000
Subject: [PATCH 30/40] fix: publish the covariance of the position and the
 rotation

---
 ROS/drift/src/communication/ros_publisher.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ROS/drift/src/communication/ros_publisher.cpp b/ROS/drift/src/communication/ros_publisher.cpp
index e4bd489..572806f 100644
--- a/ROS/drift/src/communication/ros_publisher.cpp
+++ b/ROS/drift/src/communication/ros_publisher.cpp
@@ -131,9 +131,10 @@ void ROSPublisher::PosePublish() {
   // Get the 6x6 covariance matrix in the following order:
   // (x, y, z, rotation about X axis, rotation about Y axis, rotation
   // about Z axis)
+  const int cov_idx[6] = {6, 7, 8, 0, 1, 2};
   for (int i = 0; i < 6; i++) {
     for (int j = 0; j < 6; j++) {
-      pose_msg.pose.covariance[i * 6 + j] = cov(i, j);
+      pose_msg.pose.covariance[i * 6 + j] = cov(cov_idx[i], cov_idx[j]);
     }
   }
 
-- 
2.43.0


From 032b16be47fc53d4a2c6286ebff886ff1e707e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:07 +0000
Subject: [PATCH 31/40] fix: keep the slip publisher flag given to the
 constructor

---
 ROS/drift/include/communication/ros_publisher.h | 2 +-
 ROS/drift/src/communication/ros_publisher.cpp   | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/ROS/drift/include/communication/ros_publisher.h b/ROS/drift/include/communication/ros_publisher.h
index 8486124..037ad71 100644
--- a/ROS/drift/include/communication/ros_publisher.h
+++ b/ROS/drift/include/communication/ros_publisher.h
@@ -55,7 +55,7 @@ class ROSPublisher {
    */
   ROSPublisher(ros::NodeHandle* nh, RobotStateQueuePtr& robot_state_queue,
                std::shared_ptr<std::mutex> robot_state_queue_mutex,
-               bool enable_slip_publisher_ = false);
+               bool enable_slip_publisher = false);
   /**
    * @brief Construct a new ROS Publisher object with configuration file
    *
diff --git a/ROS/drift/src/communication/ros_publisher.cpp b/ROS/drift/src/communication/ros_publisher.cpp
index 572806f..3ddef28 100644
--- a/ROS/drift/src/communication/ros_publisher.cpp
+++ b/ROS/drift/src/communication/ros_publisher.cpp
@@ -18,11 +18,12 @@ namespace ros_wrapper {
 ROSPublisher::ROSPublisher(ros::NodeHandle* nh,
                            RobotStateQueuePtr& robot_state_queue_ptr,
                            std::shared_ptr<std::mutex> robot_state_queue_mutex,
-                           bool enable_slip_publisher_)
+                           bool enable_slip_publisher)
     : nh_(nh),
       robot_state_queue_ptr_(robot_state_queue_ptr),
       robot_state_queue_mutex_(robot_state_queue_mutex),
-      thread_started_(false) {
+      thread_started_(false),
+      enable_slip_publisher_(enable_slip_publisher) {
   std::string pose_topic = "/robot/inekf_estimation/pose";
   std::string path_topic = "/robot/inekf_estimation/path";
   pose_frame_ = "/odom";
-- 
2.43.0


From aff4df0fb37bf61aabc8d6e276adec834fd8aed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:07 +0000
Subject: [PATCH 32/40] fix: use the mounting of its own source for every
 odometry message

---
 ROS/drift/include/communication/ros_subscriber.h |  4 +++-
 ROS/drift/src/communication/ros_subscriber.cpp   | 13 ++++++++-----
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/ROS/drift/include/communication/ros_subscriber.h b/ROS/drift/include/communication/ros_subscriber.h
index a55a18a..202b9fb 100644
--- a/ROS/drift/include/communication/ros_subscriber.h
+++ b/ROS/drift/include/communication/ros_subscriber.h
@@ -420,7 +420,9 @@ class ROSSubscriber {
   std::vector<std::shared_ptr<std::mutex>> mutex_list_;    // List of mutexes
   std::unordered_map<int, OdomMeasurementPtr>
       prev_odom_map_;                   // odom_src_id -> prev_odom_measurement
-  Eigen::Matrix4d odom_src_to_body_;    // Camera to body transformation matrix
+  std::unordered_map<int, Eigen::Matrix4d>
+      odom_src_to_body_map_;            // odom_src_id -> transformation matrix
+                                        // from the odometry source to body
 
 
   bool thread_started_;    // Flag of the thread started, true for started,
diff --git a/ROS/drift/src/communication/ros_subscriber.cpp b/ROS/drift/src/communication/ros_subscriber.cpp
index 180d861..03ec408 100644
--- a/ROS/drift/src/communication/ros_subscriber.cpp
+++ b/ROS/drift/src/communication/ros_subscriber.cpp
@@ -249,14 +249,15 @@ VelocityQueuePair ROSSubscriber::AddOdom2VelocityCallback(
   mutex_list_.emplace_back(new std::mutex);
 
   // Calculate the transformation from odometry source to body
-  odom_src_to_body_ = Eigen::Matrix4d::Identity();
+  Eigen::Matrix4d odom_src_to_body = Eigen::Matrix4d::Identity();
   Eigen::Quaternion<double> orientation_quat(
       rotation_odomsrc2body[0], rotation_odomsrc2body[1],
       rotation_odomsrc2body[2], rotation_odomsrc2body[3]);
-  odom_src_to_body_.block<3, 3>(0, 0) = orientation_quat.toRotationMatrix();
-  odom_src_to_body_.block<3, 1>(0, 3) = Eigen::Vector3d(
+  odom_src_to_body.block<3, 3>(0, 0) = orientation_quat.toRotationMatrix();
+  odom_src_to_body.block<3, 1>(0, 3) = Eigen::Vector3d(
       {translation_odomsrc2body[0], translation_odomsrc2body[1],
        translation_odomsrc2body[2]});
+  odom_src_to_body_map_[odom_src_id_] = odom_src_to_body;
 
   // Create a new pair of Odometry queue and its mutex in case we have multiple
   // odometry sources
@@ -659,9 +660,11 @@ void ROSSubscriber::Odom2VelocityCallback(
   // Set current odometry as previous odometry
   prev_odom_map_[odom_src_id] = odom_ptr;
 
-  Eigen::Matrix4d transformation = odom_src_to_body_.inverse()
+  const Eigen::Matrix4d& odom_src_to_body
+      = odom_src_to_body_map_.at(odom_src_id);
+  Eigen::Matrix4d transformation = odom_src_to_body.inverse()
                                    * prev_transformation.inverse()
-                                   * curr_transformation * odom_src_to_body_;
+                                   * curr_transformation * odom_src_to_body;
   Eigen::Matrix4d twist_se3 = transformation.log();
 
   std::shared_ptr<VelocityMeasurement<double>> vel_measurement(
-- 
2.43.0


From be912946bc0b541d58b70f6857a811f66a36b795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:07 +0000
Subject: [PATCH 33/40] fix: keep a valid pose matrix in the wheel odometry

---
 baselines/src/wheel_odometry/wheel_odometry.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/baselines/src/wheel_odometry/wheel_odometry.cpp b/baselines/src/wheel_odometry/wheel_odometry.cpp
index a6b0bfa..bfc39b7 100644
--- a/baselines/src/wheel_odometry/wheel_odometry.cpp
+++ b/baselines/src/wheel_odometry/wheel_odometry.cpp
@@ -119,7 +119,7 @@ void WheelOdometry::Integrate(Eigen::Vector3d v_mea, Eigen::Vector3d w,
   Eigen::Vector3d phi = w * dt;
   Eigen::Matrix3d exp_omega = Gamma_SO3(phi, 0);
 
-  Eigen::MatrixXd X = Eigen::MatrixXd::Ones(5, 5);
+  Eigen::MatrixXd X = Eigen::MatrixXd::Identity(5, 5);
   X.block<3, 3>(0, 0) = R * exp_omega;
   X.block<3, 1>(0, 3) = R * v_mea;
   X.block<3, 1>(0, 4) = p + R * v_mea * dt;
-- 
2.43.0


From cae7d478eec22c75b5e9c5ce58eb59a0ca44be0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:07 +0000
Subject: [PATCH 34/40] fix: integrate the wheel odometry after a first
 measurement at time zero

---
 baselines/include/wheel_odometry/wheel_odometry.h | 1 +
 baselines/src/wheel_odometry/wheel_odometry.cpp   | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/baselines/include/wheel_odometry/wheel_odometry.h b/baselines/include/wheel_odometry/wheel_odometry.h
index c65fe46..92015aa 100644
--- a/baselines/include/wheel_odometry/wheel_odometry.h
+++ b/baselines/include/wheel_odometry/wheel_odometry.h
@@ -50,6 +50,7 @@ class WheelOdometry {
 
   RobotState state_;
 
+  bool initialized_ = false;    // Whether the first pair has set the clock
   double prev_t_ = 0.0;
   double last_pub_t_ = 0.0;
 
diff --git a/baselines/src/wheel_odometry/wheel_odometry.cpp b/baselines/src/wheel_odometry/wheel_odometry.cpp
index bfc39b7..ada6309 100644
--- a/baselines/src/wheel_odometry/wheel_odometry.cpp
+++ b/baselines/src/wheel_odometry/wheel_odometry.cpp
@@ -85,7 +85,8 @@ void WheelOdometry::RunOnce() {
     // Get the time stamp of the measurement
     double t = vel_measurement->get_time();
 
-    if (prev_t_ == 0) {
+    if (!initialized_) {
+      initialized_ = true;
       prev_t_ = t;
       state_.set_time(t);
       return;
-- 
2.43.0


From c3f596253b08784dbf27f6d53d404b6bd7df3ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:48 +0000
Subject: [PATCH 35/40] fix: ignore buffers the correction method does not use
 when idle

---
 include/drift/imu_filter/imu_ang_vel_ekf.h |  3 ++-
 src/imu_filter/imu_ang_vel_ekf.cpp         | 14 +++++++++-----
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/include/drift/imu_filter/imu_ang_vel_ekf.h b/include/drift/imu_filter/imu_ang_vel_ekf.h
index edd7581..3e83b00 100644
--- a/include/drift/imu_filter/imu_ang_vel_ekf.h
+++ b/include/drift/imu_filter/imu_ang_vel_ekf.h
@@ -252,7 +252,8 @@ class ImuAngVelEKF {
   /// @{
   // ======================================================================
   /**
-   * @brief Whether any attached correction buffer has a measurement waiting.
+   * @brief Whether any buffer used by the correction method has a measurement
+   * waiting.
    */
   bool HasCorrectionMeasurement();
   // ======================================================================
diff --git a/src/imu_filter/imu_ang_vel_ekf.cpp b/src/imu_filter/imu_ang_vel_ekf.cpp
index 98b5a93..1431002 100644
--- a/src/imu_filter/imu_ang_vel_ekf.cpp
+++ b/src/imu_filter/imu_ang_vel_ekf.cpp
@@ -742,15 +742,19 @@ void ImuAngVelEKF::AngVelCorrection() {
 
 bool ImuAngVelEKF::HasCorrectionMeasurement() {
   bool available = false;
-  if (imu_data_buffer_ptr_) {
+  if (correction_method_ == SINGLE_IMU_PLUS_ANG_VEL
+      || correction_method_ == SINGLE_IMU) {
     std::lock_guard<std::mutex> lock(*imu_data_buffer_mutex_ptr_);
     available = available || !imu_data_buffer_ptr_->empty();
   }
-  for (int i = 0; i < imu_data_buffer_mutex_ptrs_.size(); i++) {
-    std::lock_guard<std::mutex> lock(*imu_data_buffer_mutex_ptrs_[i]);
-    available = available || !imu_data_buffer_ptrs_[i]->empty();
+  if (correction_method_ == MULTI_IMU) {
+    for (int i = 0; i < imu_data_buffer_mutex_ptrs_.size(); i++) {
+      std::lock_guard<std::mutex> lock(*imu_data_buffer_mutex_ptrs_[i]);
+      available = available || !imu_data_buffer_ptrs_[i]->empty();
+    }
   }
-  if (ang_vel_data_buffer_ptr_) {
+  if (correction_method_ == SINGLE_IMU_PLUS_ANG_VEL
+      || correction_method_ == ANG_VEL) {
     std::lock_guard<std::mutex> lock(*ang_vel_data_buffer_mutex_ptr_);
     available = available || !ang_vel_data_buffer_ptr_->empty();
   }
-- 
2.43.0


From c8eb2ba8647f5e29259dd2264ab54cb9c0c4d39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:18 +0000
Subject: [PATCH 36/40] fix: address every augmented bias by its own three
 entries

An augmented bias has three entries, so that of column 6 starts three entries
after that of column 5.
---
 src/state/robot_state.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/state/robot_state.cpp b/src/state/robot_state.cpp
index ce8b79b..3351504 100644
--- a/src/state/robot_state.cpp
+++ b/src/state/robot_state.cpp
@@ -294,7 +294,7 @@ void RobotState::add_aug_bias(const Eigen::Vector3d& baug) {
 
 
 void RobotState::del_aug_bias(int matrix_idx) {
-  int start = matrix_idx - 5 + 6;
+  int start = 6 + 3 * (matrix_idx - 5);
   Theta_.block(start, 0, Theta_.rows() - start - 3, 1)
       = Theta_.block(start + 3, 0, Theta_.rows() - start - 3, 1);
   Theta_.conservativeResize(Theta_.rows() - 3);
@@ -302,7 +302,7 @@ void RobotState::del_aug_bias(int matrix_idx) {
 
 
 const Eigen::Vector3d RobotState::get_aug_bias(int matrix_idx) {
-  int start = matrix_idx - 5 + 6;    // same layout as del_aug_bias
+  int start = 6 + 3 * (matrix_idx - 5);    // same layout as del_aug_bias
   return Theta_.block<3, 1>(start, 0);
 }
 
-- 
2.43.0


From e2fd10d22a62411b33a677e4a6c79c3f8f18ffb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:18 +0000
Subject: [PATCH 37/40] fix: remove a column of a state whose columns have no
 owner

Columns given to a RobotState through its constructor have no back reference.
---
 src/state/robot_state.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/state/robot_state.cpp b/src/state/robot_state.cpp
index 3351504..09c0262 100644
--- a/src/state/robot_state.cpp
+++ b/src/state/robot_state.cpp
@@ -177,7 +177,9 @@ void RobotState::del_aug_state(int matrix_idx) {
   int dimX = this->dimX();
   for (int i = matrix_idx; i < dimX - 1; i++) {
     column_id_to_corr_map_[i] = column_id_to_corr_map_[i + 1];
-    *(column_id_to_corr_map_[i]) -= 1;
+    if (column_id_to_corr_map_[i]) {
+      *(column_id_to_corr_map_[i]) -= 1;
+    }
   }
   column_id_to_corr_map_.pop_back();
   RemoveRowAndColumn(X_, matrix_idx, 1);
-- 
2.43.0


From bd36df4d9612cd2cbcfe975d1ccb864905ae893f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:07 +0000
Subject: [PATCH 38/40] fix: remove only a file extension from a log file name,
 not part of its directory

---
 baselines/src/wheel_odometry/wheel_odometry.cpp | 4 ++--
 src/estimator/inekf_estimator.cpp               | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/baselines/src/wheel_odometry/wheel_odometry.cpp b/baselines/src/wheel_odometry/wheel_odometry.cpp
index ada6309..4e970f0 100644
--- a/baselines/src/wheel_odometry/wheel_odometry.cpp
+++ b/baselines/src/wheel_odometry/wheel_odometry.cpp
@@ -39,8 +39,8 @@ WheelOdometry::WheelOdometry(VelocityQueuePtr vel_queue,
     // Erase the ".txt" or ".csv" from the file name.
     // This is helpful to make new file names when InekfEstimator::clear() is
     // called
-    std::string::size_type pos = pose_log_file_.find_last_of(".");
-    if (pos != std::string::npos)
+    std::string::size_type pos = pose_log_file_.find_last_of("./");
+    if (pos != std::string::npos && pose_log_file_[pos] == '.')
       pose_log_file_.erase(pos, pose_log_file_.length());
 
     // Define logger settings
diff --git a/src/estimator/inekf_estimator.cpp b/src/estimator/inekf_estimator.cpp
index 12014dd..3e99c25 100644
--- a/src/estimator/inekf_estimator.cpp
+++ b/src/estimator/inekf_estimator.cpp
@@ -49,13 +49,13 @@ InekfEstimator::InekfEstimator(ErrorType error_type, std::string config_file)
     // Erase the ".txt" or ".csv" from the file name.
     // This is helpful to make new file names when InekfEstimator::clear() is
     // called
-    std::string::size_type pos = pose_log_file_.find_last_of(".");
-    if (pos != std::string::npos)
+    std::string::size_type pos = pose_log_file_.find_last_of("./");
+    if (pos != std::string::npos && pose_log_file_[pos] == '.')
       pose_log_file_.erase(pos, pose_log_file_.length());
 
 
-    std::string::size_type v_pos = vel_log_file_.find_last_of(".");
-    if (v_pos != std::string::npos)
+    std::string::size_type v_pos = vel_log_file_.find_last_of("./");
+    if (v_pos != std::string::npos && vel_log_file_[v_pos] == '.')
       vel_log_file_.erase(v_pos, vel_log_file_.length());
 
     // Define logger settings
-- 
2.43.0


From ddc62e4b3529506b9845d06a46b1674755dd7535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:15 +0000
Subject: [PATCH 39/40] fix: keep the CRLF line endings of lie_group.cpp

---
 src/math/lie_group.cpp | 270 ++++++++++++++++++++---------------------
 1 file changed, 135 insertions(+), 135 deletions(-)

diff --git a/src/math/lie_group.cpp b/src/math/lie_group.cpp
index b9d8879..6136366 100644
--- a/src/math/lie_group.cpp
+++ b/src/math/lie_group.cpp
@@ -1,136 +1,136 @@
-/* ----------------------------------------------------------------------------
- * Copyright 2023, CURLY Lab, University of Michigan
- * All Rights Reserved
- * See LICENSE for the license information
- * -------------------------------------------------------------------------- */
-
-/**
- *  @file   lie_group.cpp
- *  @author Ross Hartley, Tzu-Yuan Lin
- *  @brief  Source file for various Lie Group functions
- *  @date   May 16, 2023
- **/
-
-#include "drift/math/lie_group.h"
-
-namespace math::lie_group {
-
-using namespace std;
-
-// Below this angle the closed forms lose precision to cancellation and the
-// power series is used
-const double SERIES_ANGLE = 0.5;
-
-long int factorial(int n) {
-  return (n == 1 || n == 0) ? 1 : factorial(n - 1) * n;
-}
-
-Eigen::Matrix3d skew(const Eigen::Vector3d& v) {
-  // Convert vector to skew-symmetric matrix
-  Eigen::Matrix3d M = Eigen::Matrix3d::Zero();
-  M << 0, -v[2], v[1], v[2], 0, -v[0], -v[1], v[0], 0;
-  return M;
-}
-
-Eigen::Matrix3d Gamma_SO3(const Eigen::Vector3d& w, int m) {
-  // Computes mth integral of the exponential map: \Gamma_m =
-  // \sum_{n=0}^{\infty} \dfrac{1}{(n+m)!} (w^\wedge)^n
-  assert(m >= 0);
-  Eigen::Matrix3d I = Eigen::Matrix3d::Identity();
-  double theta = w.norm();
-  Eigen::Matrix3d A = skew(w);
-  if (theta < SERIES_ANGLE) {
-    // sum of A^n / (n+m)!; terms beyond n = 16 are below double precision
-    Eigen::Matrix3d S = I;
-    for (int n = 16; n >= 1; --n) {
-      S = (I + A * S / (n + m)).eval();
-    }
-    return S / factorial(m);
-  }
-  double theta2 = theta * theta;
-
-  // Closed form solution for the first 3 cases
-  switch (m) {
-    case 0:    // Exp map of SO(3)
-      return I + (sin(theta) / theta) * A + ((1 - cos(theta)) / theta2) * A * A;
-
-    case 1:    // Left Jacobian of SO(3)
-      // eye(3) - A*(1/theta^2) * (R - eye(3) - A);
-      // eye(3) + (1-cos(theta))/theta^2 * A + (theta-sin(theta))/theta^3 * A^2;
-      return I + ((1 - cos(theta)) / theta2) * A
-             + ((theta - sin(theta)) / (theta2 * theta)) * A * A;
-
-    case 2:
-      // 0.5*eye(3) - (1/theta^2) * (R - eye(3) - A - 0.5*A^2);
-      // 0.5*eye(3) + (theta-sin(theta))/theta^3 * A + (2*(cos(theta)-1) +
-      // theta^2)/(2*theta^4) * A^2
-      return 0.5 * I + (theta - sin(theta)) / (theta2 * theta) * A
-             + (theta2 + 2 * cos(theta) - 2) / (2 * theta2 * theta2) * A * A;
-
-    default:    // General case
-      Eigen::Matrix3d R
-          = I + (sin(theta) / theta) * A + ((1 - cos(theta)) / theta2) * A * A;
-      Eigen::Matrix3d S = I;
-      Eigen::Matrix3d Ak = I;
-      long int kfactorial = 1;
-      for (int k = 1; k <= m; ++k) {
-        kfactorial = kfactorial * k;
-        Ak = (Ak * A).eval();
-        S = (S + (1.0 / kfactorial) * Ak).eval();
-      }
-      if (m == 0) {
-        return R;
-      } else if (m % 2) {    // odd
-        return (1.0 / kfactorial) * I
-               + (pow(-1, (m + 1) / 2) / pow(theta, m + 1)) * A * (R - S);
-      } else {    // even
-        return (1.0 / kfactorial) * I
-               + (pow(-1, m / 2) / pow(theta, m)) * (R - S);
-      }
-  }
-}
-
-Eigen::Matrix3d Exp_SO3(const Eigen::Vector3d& w) {
-  // Computes the vectorized exponential map for SO(3)
-  return Gamma_SO3(w, 0);
-}
-
-Eigen::Matrix3d LeftJacobian_SO3(const Eigen::Vector3d& w) {
-  // Computes the Left Jacobian of SO(3)
-  return Gamma_SO3(w, 1);
-}
-
-Eigen::Matrix3d RightJacobian_SO3(const Eigen::Vector3d& w) {
-  // Computes the Right Jacobian of SO(3)
-  return Gamma_SO3(-w, 1);
-}
-
-Eigen::MatrixXd Exp_SEK3(const Eigen::VectorXd& v) {
-  // Computes the vectorized exponential map for SE_K(3)
-  int K = (v.size() - 3) / 3;
-  Eigen::MatrixXd X = Eigen::MatrixXd::Identity(3 + K, 3 + K);
-  Eigen::Vector3d w = v.head(3);
-  Eigen::Matrix3d R = Gamma_SO3(w, 0);
-  Eigen::Matrix3d Jl = Gamma_SO3(w, 1);
-  X.block<3, 3>(0, 0) = R;
-  for (int i = 0; i < K; ++i) {
-    X.block<3, 1>(0, 3 + i) = Jl * v.segment<3>(3 + 3 * i);
-  }
-  return X;
-}
-
-Eigen::MatrixXd Adjoint_SEK3(const Eigen::MatrixXd& X) {
-  // Compute Adjoint(X) for X in SE_K(3)
-  int K = X.cols() - 3;
-  Eigen::MatrixXd Adj = Eigen::MatrixXd::Zero(3 + 3 * K, 3 + 3 * K);
-  Eigen::Matrix3d R = X.block<3, 3>(0, 0);
-  Adj.block<3, 3>(0, 0) = R;
-  for (int i = 0; i < K; ++i) {
-    Adj.block<3, 3>(3 + 3 * i, 3 + 3 * i) = R;
-    Adj.block<3, 3>(3 + 3 * i, 0) = skew(X.block<3, 1>(0, 3 + i)) * R;
-  }
-  return Adj;
-}
-
-
+/* ----------------------------------------------------------------------------
+ * Copyright 2023, CURLY Lab, University of Michigan
+ * All Rights Reserved
+ * See LICENSE for the license information
+ * -------------------------------------------------------------------------- */
+
+/**
+ *  @file   lie_group.cpp
+ *  @author Ross Hartley, Tzu-Yuan Lin
+ *  @brief  Source file for various Lie Group functions
+ *  @date   May 16, 2023
+ **/
+
+#include "drift/math/lie_group.h"
+
+namespace math::lie_group {
+
+using namespace std;
+
+// Below this angle the closed forms lose precision to cancellation and the
+// power series is used
+const double SERIES_ANGLE = 0.5;
+
+long int factorial(int n) {
+  return (n == 1 || n == 0) ? 1 : factorial(n - 1) * n;
+}
+
+Eigen::Matrix3d skew(const Eigen::Vector3d& v) {
+  // Convert vector to skew-symmetric matrix
+  Eigen::Matrix3d M = Eigen::Matrix3d::Zero();
+  M << 0, -v[2], v[1], v[2], 0, -v[0], -v[1], v[0], 0;
+  return M;
+}
+
+Eigen::Matrix3d Gamma_SO3(const Eigen::Vector3d& w, int m) {
+  // Computes mth integral of the exponential map: \Gamma_m =
+  // \sum_{n=0}^{\infty} \dfrac{1}{(n+m)!} (w^\wedge)^n
+  assert(m >= 0);
+  Eigen::Matrix3d I = Eigen::Matrix3d::Identity();
+  double theta = w.norm();
+  Eigen::Matrix3d A = skew(w);
+  if (theta < SERIES_ANGLE) {
+    // sum of A^n / (n+m)!; terms beyond n = 16 are below double precision
+    Eigen::Matrix3d S = I;
+    for (int n = 16; n >= 1; --n) {
+      S = (I + A * S / (n + m)).eval();
+    }
+    return S / factorial(m);
+  }
+  double theta2 = theta * theta;
+
+  // Closed form solution for the first 3 cases
+  switch (m) {
+    case 0:    // Exp map of SO(3)
+      return I + (sin(theta) / theta) * A + ((1 - cos(theta)) / theta2) * A * A;
+
+    case 1:    // Left Jacobian of SO(3)
+      // eye(3) - A*(1/theta^2) * (R - eye(3) - A);
+      // eye(3) + (1-cos(theta))/theta^2 * A + (theta-sin(theta))/theta^3 * A^2;
+      return I + ((1 - cos(theta)) / theta2) * A
+             + ((theta - sin(theta)) / (theta2 * theta)) * A * A;
+
+    case 2:
+      // 0.5*eye(3) - (1/theta^2) * (R - eye(3) - A - 0.5*A^2);
+      // 0.5*eye(3) + (theta-sin(theta))/theta^3 * A + (2*(cos(theta)-1) +
+      // theta^2)/(2*theta^4) * A^2
+      return 0.5 * I + (theta - sin(theta)) / (theta2 * theta) * A
+             + (theta2 + 2 * cos(theta) - 2) / (2 * theta2 * theta2) * A * A;
+
+    default:    // General case
+      Eigen::Matrix3d R
+          = I + (sin(theta) / theta) * A + ((1 - cos(theta)) / theta2) * A * A;
+      Eigen::Matrix3d S = I;
+      Eigen::Matrix3d Ak = I;
+      long int kfactorial = 1;
+      for (int k = 1; k <= m; ++k) {
+        kfactorial = kfactorial * k;
+        Ak = (Ak * A).eval();
+        S = (S + (1.0 / kfactorial) * Ak).eval();
+      }
+      if (m == 0) {
+        return R;
+      } else if (m % 2) {    // odd
+        return (1.0 / kfactorial) * I
+               + (pow(-1, (m + 1) / 2) / pow(theta, m + 1)) * A * (R - S);
+      } else {    // even
+        return (1.0 / kfactorial) * I
+               + (pow(-1, m / 2) / pow(theta, m)) * (R - S);
+      }
+  }
+}
+
+Eigen::Matrix3d Exp_SO3(const Eigen::Vector3d& w) {
+  // Computes the vectorized exponential map for SO(3)
+  return Gamma_SO3(w, 0);
+}
+
+Eigen::Matrix3d LeftJacobian_SO3(const Eigen::Vector3d& w) {
+  // Computes the Left Jacobian of SO(3)
+  return Gamma_SO3(w, 1);
+}
+
+Eigen::Matrix3d RightJacobian_SO3(const Eigen::Vector3d& w) {
+  // Computes the Right Jacobian of SO(3)
+  return Gamma_SO3(-w, 1);
+}
+
+Eigen::MatrixXd Exp_SEK3(const Eigen::VectorXd& v) {
+  // Computes the vectorized exponential map for SE_K(3)
+  int K = (v.size() - 3) / 3;
+  Eigen::MatrixXd X = Eigen::MatrixXd::Identity(3 + K, 3 + K);
+  Eigen::Vector3d w = v.head(3);
+  Eigen::Matrix3d R = Gamma_SO3(w, 0);
+  Eigen::Matrix3d Jl = Gamma_SO3(w, 1);
+  X.block<3, 3>(0, 0) = R;
+  for (int i = 0; i < K; ++i) {
+    X.block<3, 1>(0, 3 + i) = Jl * v.segment<3>(3 + 3 * i);
+  }
+  return X;
+}
+
+Eigen::MatrixXd Adjoint_SEK3(const Eigen::MatrixXd& X) {
+  // Compute Adjoint(X) for X in SE_K(3)
+  int K = X.cols() - 3;
+  Eigen::MatrixXd Adj = Eigen::MatrixXd::Zero(3 + 3 * K, 3 + 3 * K);
+  Eigen::Matrix3d R = X.block<3, 3>(0, 0);
+  Adj.block<3, 3>(0, 0) = R;
+  for (int i = 0; i < K; ++i) {
+    Adj.block<3, 3>(3 + 3 * i, 3 + 3 * i) = R;
+    Adj.block<3, 3>(3 + 3 * i, 0) = skew(X.block<3, 1>(0, 3 + i)) * R;
+  }
+  return Adj;
+}
+
+
 }    // namespace math::lie_group
\ No newline at end of file
-- 
2.43.0


From 7c087442b43332c1531b63278709d6c35a327727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:08 +0000
Subject: [PATCH 40/40] fix: map to left-invariant coordinates when the filter
 is right-invariant

CorrectLeftInvariant expressed the covariance of a left-invariant filter in
left-invariant coordinates a second time, and did not convert that of a
right-invariant filter, although it converted it back afterwards.
---
 src/filter/inekf/inekf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/filter/inekf/inekf.cpp b/src/filter/inekf/inekf.cpp
index 8e50d9f..fbf4f72 100644
--- a/src/filter/inekf/inekf.cpp
+++ b/src/filter/inekf/inekf.cpp
@@ -122,7 +122,7 @@ void CorrectLeftInvariant(const Eigen::MatrixXd& Z, const Eigen::MatrixXd& H,
   }
 
   // Map from right invariant to left invariant error temporarily
-  if (error_type == ErrorType::LeftInvariant) {
+  if (error_type == ErrorType::RightInvariant) {
     Eigen::MatrixXd AdjInv = Eigen::MatrixXd::Identity(dimP, dimP);
     AdjInv.block(0, 0, dimP - dimTheta, dimP - dimTheta)
         = lie_group::Adjoint_SEK3(state.get_Xinv());
-- 
2.43.0

