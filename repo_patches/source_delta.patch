From 1279f5db1a0c3aaabdc820fba70a1ea44ed3acf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:08 +0000
Subject: [PATCH 01/20] fix: se3_distance ignored the rotations of its
 arguments

The distance is documented as a_from_b.translation().norm(), but the
translations were subtracted in different frames.
---
 resim/transforms/se3.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/resim/transforms/se3.cc b/resim/transforms/se3.cc
index f63d57e..e354a53 100644
--- a/resim/transforms/se3.cc
+++ b/resim/transforms/se3.cc
@@ -266,7 +266,13 @@ template SE3 SE3::exp(const TangentVector &, Frame3 &&, const Frame3 &);
 
 double se3_distance(const SE3 &a_from_ref, const SE3 &b_from_ref) {
   REASSERT(a_from_ref.from() == b_from_ref.from(), "From frames must match");
-  return (a_from_ref.translation() - b_from_ref.translation()).norm();
+  // The translation of a_from_ref is expressed in a, so it has to be rotated
+  // into ref before it can be compared with that of b_from_ref.
+  const SO3 ref_from_a_rotation{a_from_ref.rotation().inverse()};
+  const SO3 ref_from_b_rotation{b_from_ref.rotation().inverse()};
+  return (ref_from_a_rotation * a_from_ref.translation() -
+          ref_from_b_rotation * b_from_ref.translation())
+      .norm();
 }
 
 double se3_inverse_distance(const SE3 &ref_from_a, const SE3 &ref_from_b) {
-- 
2.43.0


From e8a5e767650480d767004193a18f890367a0fe9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:07 +0000
Subject: [PATCH 02/20] fix: querying a distance curve at a zero-length segment
 returned NaN

---
 resim/curves/d_curve.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/resim/curves/d_curve.cc b/resim/curves/d_curve.cc
index faa6036..ce3ce8a 100644
--- a/resim/curves/d_curve.cc
+++ b/resim/curves/d_curve.cc
@@ -132,8 +132,11 @@ typename DCurve<Group>::PointAtData DCurve<Group>::point_at_impl(
       });
   REASSERT(s != segments_.end(), "Did not find valid segment.");
 
-  const double fraction = (arc_length - s->orig_arc_length) /
-                          (s->dest_arc_length - s->orig_arc_length);
+  // Repeated control points make segments with no length.
+  const double segment_length = s->dest_arc_length - s->orig_arc_length;
+  const double fraction =
+      segment_length > ZERO ? (arc_length - s->orig_arc_length) / segment_length
+                            : ZERO;
   return {.fraction = fraction, .s = s};
 }
 
-- 
2.43.0


From af662d247a5410f42ec95858b1e6c6b04704fc9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:19 +0000
Subject: [PATCH 03/20] fix: num_samples for doubles overflowed above 2^31
 samples

---
 resim/time/sample_interval.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resim/time/sample_interval.cc b/resim/time/sample_interval.cc
index 4d842c1..3926c93 100644
--- a/resim/time/sample_interval.cc
+++ b/resim/time/sample_interval.cc
@@ -29,7 +29,7 @@ int64_t num_samples(double start_time, double end_time, double max_abs_dt) {
   //
   // n = ceil(total_time / max_abs_dt) + 1
   //
-  return static_cast<int>(std::ceil(total_time / max_abs_dt)) + 1;
+  return static_cast<int64_t>(std::ceil(total_time / max_abs_dt)) + 1;
 }
 
 void sample_interval(
-- 
2.43.0


From 2082ad9289c734bfa7531d229f00d4c17fc59071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:19 +0000
Subject: [PATCH 04/20] fix: num_samples for Timestamps counted two samples in
 an empty interval

---
 resim/time/sample_interval.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/resim/time/sample_interval.cc b/resim/time/sample_interval.cc
index 3926c93..a0ab4e2 100644
--- a/resim/time/sample_interval.cc
+++ b/resim/time/sample_interval.cc
@@ -58,6 +58,11 @@ int64_t num_samples(
       end_time.time_since_epoch().count(),
       start_time.time_since_epoch().count()))};
 
+  // An empty interval is sampled once.
+  if (total_time.count() == 0) {
+    return 1;
+  }
+
   // We want to find the smallest integer n such that:
   //
   // max_abs_dt * (n - 1) >= total_time
-- 
2.43.0


From 1cae87cddf4b0644019ee2d81b403de5fa972c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:19 +0000
Subject: [PATCH 05/20] fix: sample_interval for Timestamps misplaced samples
 of backward and very long intervals

---
 resim/time/sample_interval.cc | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/resim/time/sample_interval.cc b/resim/time/sample_interval.cc
index a0ab4e2..8c46d0f 100644
--- a/resim/time/sample_interval.cc
+++ b/resim/time/sample_interval.cc
@@ -108,24 +108,37 @@ void sample_interval(
   //
   // whole + numerator / intervals
   //
+  // with 0 <= numerator < intervals, also if we sample backwards in time.
+  //
   // Since we need to make a timestamp with an integer count, we
   // always just round to the nearest integer.
+  const int64_t whole_step = total_time.count() / intervals;
+  const int64_t numerator_step = total_time.count() % intervals;
   int64_t whole = 0;
   int64_t numerator = 0;
   for (int64_t ii = 0; ii < samples; ++ii) {
-    // Should never overflow since rounded will be less than or equal to
-    // total_time.
-    const int64_t rounded = whole + ((2 * numerator >= intervals) ? 1 : 0);
+    // Should never overflow since rounded lies between zero and total_time.
+    const int64_t rounded =
+        whole + ((numerator >= intervals - numerator) ? 1 : 0);
     const Duration time{rounded};
 
     func(start_time + time);
 
-    // Increment
-    numerator = math::safe_sum(numerator, total_time.count());
+    // Increment, but not beyond the last sample
+    if (ii == intervals) {
+      break;
+    }
+    whole += whole_step;
+    numerator = math::safe_sum(numerator, numerator_step);
 
     // Restore the mixed number
-    whole += numerator / intervals;
-    numerator %= intervals;
+    if (numerator >= intervals) {
+      ++whole;
+      numerator -= intervals;
+    } else if (numerator < 0) {
+      --whole;
+      numerator += intervals;
+    }
   }
 }
 
-- 
2.43.0


From 00867b238f1845c8322b29283206ae0ddbbbcb8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:36 +0000
Subject: [PATCH 06/20] fix: as_duration lost a nanosecond of durations
 converted with as_seconds

---
 resim/time/timestamp.hh | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/resim/time/timestamp.hh b/resim/time/timestamp.hh
index 89dd585..e4ff38a 100644
--- a/resim/time/timestamp.hh
+++ b/resim/time/timestamp.hh
@@ -28,8 +28,9 @@ constexpr double as_seconds(const Duration duration) {
 
 // Create a duration from seconds as a double
 constexpr Duration as_duration(const double t_s) {
-  return std::chrono::duration_cast<Duration>(
-      std::chrono::duration<double>(t_s));
+  // Round rather than truncate: most decimal fractions are not representable,
+  // so truncation would lose a nanosecond whenever the double is just below.
+  return std::chrono::round<Duration>(std::chrono::duration<double>(t_s));
 }
 
 // A timestamp represented as integer seconds and nanoseconds. This
-- 
2.43.0


From 4d48c45403ef3193963899cdf5ba0190831ce491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:36 +0000
Subject: [PATCH 07/20] fix: querying the duration of an empty trajectory read
 out of bounds

---
 resim/actor/state/trajectory.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/resim/actor/state/trajectory.cc b/resim/actor/state/trajectory.cc
index 1375305..87b5c88 100644
--- a/resim/actor/state/trajectory.cc
+++ b/resim/actor/state/trajectory.cc
@@ -73,6 +73,9 @@ time::Timestamp Trajectory::end_time() const {
 }
 
 time::Duration Trajectory::time_duration() const {
+  REASSERT(
+      !curve_.control_pts().empty(),
+      "Cannot query the duration of a trajectory with no control points");
   return time::as_duration(curve_.control_pts().back().time);
 }
 
-- 
2.43.0


From 54809ac844e817207a66bc00d38e6ab568d1b976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:01 +0000
Subject: [PATCH 08/20] fix: UUID strings were accepted with anything after a
 null character

---
 resim/utils/uuid.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/resim/utils/uuid.cc b/resim/utils/uuid.cc
index fd9d817..e93e71f 100644
--- a/resim/utils/uuid.cc
+++ b/resim/utils/uuid.cc
@@ -21,6 +21,9 @@ UUID::UUID() : id_{NULL_ID} {}
 UUID::UUID(std::array<unsigned char, ARRAY_SIZE> id) : id_(id) {}
 
 UUID::UUID(const std::string &str) : id_{} {
+  // The uuid library would ignore anything behind an embedded null character.
+  constexpr std::size_t STRING_SIZE = 36;
+  REASSERT(str.size() == STRING_SIZE, "Invalid UUID string!");
   constexpr int SUCCESS = 0;
   const int result = uuid_parse(str.c_str(), id_.data());
   REASSERT(SUCCESS == result, "Invalid UUID string!");
-- 
2.43.0


From e8ef6b217f50f1f62d88d8fb11d0d2289ecfa735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:01 +0000
Subject: [PATCH 09/20] fix: unpacking a trajectory overflowed on start times
 beyond the range of nanoseconds

---
 resim/actor/state/proto/trajectory_to_proto.cc | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/resim/actor/state/proto/trajectory_to_proto.cc b/resim/actor/state/proto/trajectory_to_proto.cc
index 432f629..806d8a0 100644
--- a/resim/actor/state/proto/trajectory_to_proto.cc
+++ b/resim/actor/state/proto/trajectory_to_proto.cc
@@ -6,6 +6,10 @@
 
 #include "resim/actor/state/proto/trajectory_to_proto.hh"
 
+#include <cstdint>
+#include <limits>
+#include <ratio>
+
 #include "google/protobuf/timestamp.pb.h"
 #include "resim/actor/state/proto/trajectory.pb.h"
 #include "resim/actor/state/trajectory.hh"
@@ -28,8 +32,18 @@ void pack(const state::Trajectory &in, Trajectory *const out) {
 }
 
 state::Trajectory unpack(const Trajectory &in) {
-  time::Timestamp start_time{time::from_seconds_and_nanos(
-      {in.start_time().seconds(), in.start_time().nanos()})};
+  const int64_t secs = in.start_time().seconds();
+  const int32_t nanos = in.start_time().nanos();
+  // Not every proto timestamp can be represented in nanoseconds.
+  constexpr auto RANGE_ERR = "Start time is out of range!";
+  constexpr int64_t MIN = std::numeric_limits<int64_t>::min();
+  constexpr int64_t MAX = std::numeric_limits<int64_t>::max();
+  REASSERT(
+      secs >= MIN / std::nano::den and secs <= MAX / std::nano::den,
+      RANGE_ERR);
+  const int64_t whole = secs * std::nano::den;
+  REASSERT(nanos > 0 ? whole <= MAX - nanos : whole >= MIN - nanos, RANGE_ERR);
+  time::Timestamp start_time{time::from_seconds_and_nanos({secs, nanos})};
   return state::Trajectory(unpack(in.curve()), start_time);
 }
 
-- 
2.43.0


From 13c3e3d11f58c5239f339766674ce1700982bafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:40:50 +0000
Subject: [PATCH 10/20] fix: Gaussian rejected valid covariance matrices of
 perfectly correlated variables

---
 resim/math/multivariate_gaussian.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/resim/math/multivariate_gaussian.cc b/resim/math/multivariate_gaussian.cc
index 7e33f75..0076033 100644
--- a/resim/math/multivariate_gaussian.cc
+++ b/resim/math/multivariate_gaussian.cc
@@ -59,11 +59,11 @@ typename Gaussian::SamplesMat Gaussian::iid_samples(unsigned int n) {
 void Gaussian::sanitize_eigenvalues() {
   constexpr double TOL_BASE = 1e-15;
   // We need to scale our tolerance according to the scale of the covariance
-  // matrix. Broadly, covariance matrices with wider ranging values deserve
-  // wider tolerance. There may be a more principled way to do this than the
-  // method below, however this performs sufficiently well on our test cases.
-  const double tol =
-      std::max((cov_.maxCoeff() - cov_.minCoeff()) * TOL_BASE, TOL_BASE);
+  // matrix. The error of every computed eigenvalue is proportional to the
+  // largest eigenvalue and grows with the dimensionality.
+  const double tol = std::max(
+      dims_ * eigenvalues_.cwiseAbs().maxCoeff() * TOL_BASE,
+      TOL_BASE);
   constexpr auto EIGENVALS_ERR =
       "Symmetric PSD matrices have positive eigenvalues";
   REASSERT(eigenvalues_.minCoeff() > -tol, EIGENVALS_ERR);
-- 
2.43.0


From 621af7c71bf723eecb02466ce98938fb8cb3e3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:53:29 +0000
Subject: [PATCH 11/20] fix: RETURN_OR_ASSIGN used the value of a temporary
 status value after its destruction

---
 resim/utils/status_value.hh | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/resim/utils/status_value.hh b/resim/utils/status_value.hh
index 3d73fc6..0268265 100644
--- a/resim/utils/status_value.hh
+++ b/resim/utils/status_value.hh
@@ -6,6 +6,7 @@
 
 #pragma once
 
+#include <tuple>
 #include <type_traits>
 #include <utility>
 
@@ -150,18 +151,21 @@ constexpr const Status &StatusValue<T>::status() const {
 // ok. Otherwise, assign the value as the value of this expression. We don't
 // really have a choice but to use the GNU statement expression extension here
 // unless we pass the assignment target in too. We use the lambda because
-// otherwise the statement expression doesn't preserve references.
+// otherwise the statement expression doesn't preserve references. The lambda
+// outlives the statement expression, so it has to hold on to the status value
+// if that's a temporary. Otherwise it holds a reference.
 // NOLINTNEXTLINE(cppcoreguidelines-macro-usage)
-#define RETURN_OR_ASSIGN(status_value)                        \
-  ({                                                          \
-    auto &&evalutated_status_value =                          \
-        std::forward<decltype(status_value)>(status_value);   \
-    RETURN_IF_NOT_OK(evalutated_status_value.status());       \
-    [&]() -> decltype(auto) {                                 \
-      return std::forward<decltype(evalutated_status_value)>( \
-                 evalutated_status_value)                     \
-          .value();                                           \
-    };                                                        \
+#define RETURN_OR_ASSIGN(status_value)                                        \
+  ({                                                                          \
+    auto &&evalutated_status_value = status_value;                            \
+    RETURN_IF_NOT_OK(evalutated_status_value.status());                       \
+    [held_by_return_or_assign = std::tuple<decltype((status_value))>{         \
+         std::forward<decltype((status_value))>(                              \
+             evalutated_status_value)}]() mutable -> decltype(auto) {         \
+      return std::forward<decltype(status_value)>(                            \
+                 std::get<0>(held_by_return_or_assign))                       \
+          .value();                                                           \
+    };                                                                        \
   })()
 
 }  // namespace resim
-- 
2.43.0


From ef22b3cb37730cfff556b3ce321b8c035b714f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:53:29 +0000
Subject: [PATCH 12/20] fix: CHECK_STATUS_OK evaluated its argument twice

---
 resim/utils/status.hh | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/resim/utils/status.hh b/resim/utils/status.hh
index c46ff2f..67cbdb0 100644
--- a/resim/utils/status.hh
+++ b/resim/utils/status.hh
@@ -79,14 +79,15 @@ constexpr Status OKAY_STATUS{};
 
 // Define a macro to check that a given status is okay.
 // NOLINTNEXTLINE(cppcoreguidelines-macro-usage)
-#define CHECK_STATUS_OK(status)       \
-  ({                                  \
-    const auto err_msg = fmt::format( \
-        fg(fmt::color::red),          \
-        "{{{0}.what() == {1}}}",      \
-        #status,                      \
-        (status).what());             \
-    REASSERT((status).ok(), err_msg); \
+#define CHECK_STATUS_OK(status)                           \
+  ({                                                      \
+    const auto evaluated_by_check_status_ok = (status);   \
+    const auto err_msg = fmt::format(                     \
+        fg(fmt::color::red),                              \
+        "{{{0}.what() == {1}}}",                          \
+        #status,                                          \
+        evaluated_by_check_status_ok.what());             \
+    REASSERT(evaluated_by_check_status_ok.ok(), err_msg); \
   })
 
 // Return from the enclosing function if the given status result is not ok.
-- 
2.43.0


From 7d8896b40d3b5b77c8c2314117275b1237c877c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:55:27 +0000
Subject: [PATCH 13/20] fix: a view statement did not notice that its object
 was lost when another thread sent it

---
 resim/visualization/view.cc | 38 ++++++++++++++++++++-----------------
 resim/visualization/view.hh |  3 +++
 2 files changed, 24 insertions(+), 17 deletions(-)

diff --git a/resim/visualization/view.cc b/resim/visualization/view.cc
index 6da8b9c..ca8b7de 100644
--- a/resim/visualization/view.cc
+++ b/resim/visualization/view.cc
@@ -72,29 +72,33 @@ template View &View::operator<< <FramedVector>(const FramedVector &subject);
 
 template <typename T>
 void View::view_object(ViewObject<T> view_object) {
-  {
-    // In a separate scope since flush() needs this lock
-    std::lock_guard<std::mutex> guard{primitives_mutex_};
-
-    // We simply push the primitivies in here without packing
-    // them. The whole ViewUpdate will be packed by the ViewClient.
-    // The user defined name is an std::optional so the existence
-    // of a value i.e. a custom name is not cared about here.
-    primitives_.emplace_back(ViewPrimitive{
-        .id = UUID::new_uuid(),
-        .payload = view_object.the_object,
-        .user_defined_name = view_object.user_defined_name,
-        .file_name = view_object.file_name,
-        .line_number = view_object.line_number,
-    });
-  }
+  // We hold on to the lock until the primitive has been sent. Otherwise, another
+  // thread could send this primitive along with its own, and this thread
+  // wouldn't notice if that failed.
+  std::lock_guard<std::mutex> guard{primitives_mutex_};
+
+  // We simply push the primitivies in here without packing
+  // them. The whole ViewUpdate will be packed by the ViewClient.
+  // The user defined name is an std::optional so the existence
+  // of a value i.e. a custom name is not cared about here.
+  primitives_.emplace_back(ViewPrimitive{
+      .id = UUID::new_uuid(),
+      .payload = view_object.the_object,
+      .user_defined_name = view_object.user_defined_name,
+      .file_name = view_object.file_name,
+      .line_number = view_object.line_number,
+  });
   // Currently, we pack each primitive into its own update and send eagerly to
   // the view server.
-  flush();
+  flush_locked();
 }
 
 void View::flush() {
   std::lock_guard<std::mutex> guard{primitives_mutex_};
+  flush_locked();
+}
+
+void View::flush_locked() {
   REASSERT(client_ != nullptr, "No client interface set!");
   Status send_status = client_->send_view_update(ViewUpdate{
       .primitives = std::move(primitives_),
diff --git a/resim/visualization/view.hh b/resim/visualization/view.hh
index 5542616..fa1ab9a 100644
--- a/resim/visualization/view.hh
+++ b/resim/visualization/view.hh
@@ -139,6 +139,9 @@ class View {
   // @param[in] The new client.
   void set_client(std::unique_ptr<ViewClientInterface> &&client);
 
+  // Implementation of flush(). primitives_mutex_ must be held by the caller.
+  void flush_locked();
+
   std::unique_ptr<ViewClientInterface> client_;
 
   std::vector<ViewPrimitive> primitives_;
-- 
2.43.0


From a66374710467831f806a488f613fd0703df327aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:05 +0000
Subject: [PATCH 14/20] fix: querying a time curve at a time that is not a
 number returned a pose of NaN

---
 resim/curves/t_curve.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/resim/curves/t_curve.cc b/resim/curves/t_curve.cc
index 4e5a719..6a89ba3 100644
--- a/resim/curves/t_curve.cc
+++ b/resim/curves/t_curve.cc
@@ -139,9 +139,10 @@ typename TCurve<Group>::PointAtData TCurve<Group>::point_at_impl(
   REASSERT(!segments_.empty(), EMPTY_ERR);
   constexpr auto TIME_RANGE_ERR =
       "Query time must be within the range of times in the control points.";
-  const bool time_lo = time < control_pts_.front().time;
-  const bool time_hi = time > control_pts_.back().time;
-  REASSERT(!time_lo && !time_hi, TIME_RANGE_ERR);
+  // Note that these are false for times which are not a number.
+  const bool after_start = time >= control_pts_.front().time;
+  const bool before_end = time <= control_pts_.back().time;
+  REASSERT(after_start && before_end, TIME_RANGE_ERR);
   const auto s = std::lower_bound(
       segments_.begin(),
       segments_.end(),
-- 
2.43.0


From 619dc57ff5d2bf223aebc7a406c22e9e61631948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:50 +0000
Subject: [PATCH 15/20] fix: a token could not be stored under a path without a
 directory

create_directories() rejects the empty parent path of a plain file name,
so logging in threw after the token had been fetched.
---
 resim/auth/device_code_client.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/resim/auth/device_code_client.cc b/resim/auth/device_code_client.cc
index 640eec4..8305c45 100644
--- a/resim/auth/device_code_client.cc
+++ b/resim/auth/device_code_client.cc
@@ -72,7 +72,9 @@ void DeviceCodeClient::refresh() {
 }
 
 void DeviceCodeClient::save_token() {
-  std::filesystem::create_directories(config_.token_path.parent_path());
+  if (config_.token_path.has_parent_path()) {
+    std::filesystem::create_directories(config_.token_path.parent_path());
+  }
   std::ofstream token_stream;
   token_stream.open(config_.token_path);
   token_stream << token_;
-- 
2.43.0


From 0e6283122df744cc0edaeb7c2ff517686cd9b4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:01 +0000
Subject: [PATCH 16/20] fix: sampling an interval with a very large step called
 the function with NaN

The number of steps was rounded to zero for infinite steps (and whenever the
quotient underflowed), although the interval was not empty.
---
 resim/time/sample_interval.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/resim/time/sample_interval.cc b/resim/time/sample_interval.cc
index 8c46d0f..235bc94 100644
--- a/resim/time/sample_interval.cc
+++ b/resim/time/sample_interval.cc
@@ -29,7 +29,12 @@ int64_t num_samples(double start_time, double end_time, double max_abs_dt) {
   //
   // n = ceil(total_time / max_abs_dt) + 1
   //
-  return static_cast<int64_t>(std::ceil(total_time / max_abs_dt)) + 1;
+  // The quotient can be rounded to zero, e.g. if max_abs_dt is infinite, but we
+  // still need both endpoints unless they coincide.
+  const double min_steps = total_time > 0. ? 1. : 0.;
+  return static_cast<int64_t>(
+             std::fmax(std::ceil(total_time / max_abs_dt), min_steps)) +
+         1;
 }
 
 void sample_interval(
-- 
2.43.0


From 5c6d734a3d9cf15505dbec07234f0c8a3a3f5ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:19 +0000
Subject: [PATCH 17/20] fix: an empty token file was given out as an empty
 token

---
 resim/auth/device_code_client.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/resim/auth/device_code_client.cc b/resim/auth/device_code_client.cc
index 8305c45..7ec2392 100644
--- a/resim/auth/device_code_client.cc
+++ b/resim/auth/device_code_client.cc
@@ -92,6 +92,12 @@ void DeviceCodeClient::load_token() {
   std::ifstream token_is{config_.token_path};
   token_ss << token_is.rdbuf();
   token_ = token_ss.str();
+  // A file without content, such as one left by an interrupted save, does not
+  // contain a token.
+  if (token_.empty()) {
+    fetch_token();
+    save_token();
+  }
 }
 
 void DeviceCodeClient::fetch_token() {
-- 
2.43.0


From 5fa6d9ec32dc23a2368155072ac1a7b460d441a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:55 +0000
Subject: [PATCH 18/20] fix: counting samples of an interval overflowed if
 there are too many of them

---
 resim/time/sample_interval.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/resim/time/sample_interval.cc b/resim/time/sample_interval.cc
index 235bc94..41d90ae 100644
--- a/resim/time/sample_interval.cc
+++ b/resim/time/sample_interval.cc
@@ -32,9 +32,13 @@ int64_t num_samples(double start_time, double end_time, double max_abs_dt) {
   // The quotient can be rounded to zero, e.g. if max_abs_dt is infinite, but we
   // still need both endpoints unless they coincide.
   const double min_steps = total_time > 0. ? 1. : 0.;
-  return static_cast<int64_t>(
-             std::fmax(std::ceil(total_time / max_abs_dt), min_steps)) +
-         1;
+  const double steps = std::ceil(total_time / max_abs_dt);
+
+  // The largest double below 2^63, so that the result is representable. Note
+  // that this also fails if the interval is not finite.
+  constexpr double MAX_STEPS = 9223372036854774784.;
+  REASSERT(steps <= MAX_STEPS, "Too many samples!");
+  return static_cast<int64_t>(std::fmax(steps, min_steps)) + 1;
 }
 
 void sample_interval(
-- 
2.43.0


From f5c9571f912839b16e31af43a4a7136543b4611e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:24 +0000
Subject: [PATCH 19/20] fix: trajectories accepted timestamps so early that the
 time since the start overflowed

---
 resim/actor/state/trajectory.cc | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/resim/actor/state/trajectory.cc b/resim/actor/state/trajectory.cc
index 87b5c88..01da17c 100644
--- a/resim/actor/state/trajectory.cc
+++ b/resim/actor/state/trajectory.cc
@@ -19,6 +19,20 @@ namespace resim::actor::state {
 namespace {
 using SE3 = transforms::SE3;
 using Frame = transforms::Frame<SE3::DIMS>;
+
+// Get the seconds from start_time to at_time. The difference of timestamps
+// which are too far apart (e.g. Timestamp::min()) is not a valid Duration.
+double seconds_since(
+    const time::Timestamp &start_time,
+    const time::Timestamp &at_time) {
+  time::Duration::rep difference{0};
+  const bool overflow = __builtin_sub_overflow(
+      at_time.time_since_epoch().count(),
+      start_time.time_since_epoch().count(),
+      &difference);
+  REASSERT(!overflow, "Timestamp too far from the start of the trajectory");
+  return time::as_seconds(time::Duration{difference});
+}
 }  // namespace
 
 Trajectory::Trajectory(std::initializer_list<Control> points) {
@@ -45,7 +59,7 @@ void Trajectory::append(const Control &point) {
     REASSERT(frame_condition, FRAME_ERR);
   }
   // Convert the point to a valid format for the TCurve object.
-  double time = time::as_seconds(point.at_time - start_time());
+  double time = seconds_since(start_time(), point.at_time);
   curve_.append({time, point.state.ref_from_body_two_jet().left_two_jet()});
 }
 
@@ -56,7 +70,7 @@ void Trajectory::append(std::initializer_list<Control> points) {
 }
 
 RigidBodyState<SE3> Trajectory::point_at(const time::Timestamp &at_time) const {
-  const double time = time::as_seconds(at_time - start_time());
+  const double time = seconds_since(start_time(), at_time);
   return RigidBodyState<SE3>(curve_.point_at(time).right_two_jet());
 }
 
-- 
2.43.0


From a2586c225eb8e5011ca4c6330a6a7b323ac73968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:39 +0000
Subject: [PATCH 20/20] fix: time curves accepted control points at infinite
 times

---
 resim/curves/t_curve.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/resim/curves/t_curve.cc b/resim/curves/t_curve.cc
index 6a89ba3..0643bbc 100644
--- a/resim/curves/t_curve.cc
+++ b/resim/curves/t_curve.cc
@@ -7,6 +7,7 @@
 #include "resim/curves/t_curve.hh"
 
 #include <algorithm>
+#include <cmath>
 
 #include "resim/assert/assert.hh"
 #include "resim/curves/two_jet.hh"
@@ -54,6 +55,9 @@ TCurve<Group>::TCurve(std::initializer_list<Control> points) {
 
 template <transforms::LieGroupType Group>
 void TCurve<Group>::append(Control point) {
+  REASSERT(
+      std::isfinite(point.time),
+      "Control points must have finite times");
   if (control_pts_.empty()) {
     control_pts_.push_back(std::move(point));
   } else {
-- 
2.43.0

