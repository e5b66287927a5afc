From 602d62bdf2bf404dbf041e6b8afd34ae54133d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:48 +0000
Subject: [PATCH 01/39] fix: emit the integer token for four-group Smile
 integers

Values in [2^19, 2^26) were introduced by 0x00 instead of 0x24, so the
payload could not be decoded.
---
 spectator/smile.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spectator/smile.cc b/spectator/smile.cc
index 9b3006e..db6d98a 100644
--- a/spectator/smile.cc
+++ b/spectator/smile.cc
@@ -52,7 +52,7 @@ void SmilePayload::Append(size_t n) {
   auto b2 = static_cast<uint8_t>(i & 0x7FU);
   i >>= 7U;
   if (i <= 0x7F) {
-    buffer_.Append(kTokenInt32, static_cast<uint8_t>(i), b2, b1, b0);
+    buffer_.Append(kByteInt32, static_cast<uint8_t>(i), b2, b1, b0);
     return;
   }
   // no, need all 5 bytes
-- 
2.43.0


From 16bc2e619851057bbb11b3a68d61c7dec1c2151e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:29 +0000
Subject: [PATCH 02/39] fix: keep capacity and release old storage when
 move-assigning tags

---
 spectator/tags.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/spectator/tags.h b/spectator/tags.h
index b8f6f83..8e8466a 100644
--- a/spectator/tags.h
+++ b/spectator/tags.h
@@ -58,9 +58,17 @@ class Tags {
   auto operator=(const Tags&) -> Tags& = delete;
 
   auto operator=(Tags&& o) noexcept -> Tags& {
+    if (this == &o) {
+      return *this;
+    }
+    if (is_large()) {
+      free(begin_);
+    }
     size_ = o.size_;
     if (is_large()) {
+      // take ownership of the memory
       begin_ = o.begin_;
+      U.capacity_ = o.U.capacity_;
       o.begin_ = nullptr;
     } else {
       begin_ = &U.entries_[0];
-- 
2.43.0


From 55ed954dbfc34d33b52e38fb362df4570f3538ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:31 +0000
Subject: [PATCH 03/39] fix: ignore NaN increments, which discarded the pending
 count

---
 spectator/counter.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spectator/counter.cc b/spectator/counter.cc
index 0804622..a535e8c 100644
--- a/spectator/counter.cc
+++ b/spectator/counter.cc
@@ -22,7 +22,8 @@ void Counter::Increment() noexcept { Add(1.0); }
 void Counter::Add(double delta) noexcept {
   Update();
 
-  if (delta < 0) {
+  // also ignores NaN, which would wipe out the pending count
+  if (!(delta >= 0)) {
     return;
   }
   add_double(&count_, delta);
-- 
2.43.0


From 4654b868c98328240e5cf34d2366e0655ab6e32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:20 +0000
Subject: [PATCH 04/39] fix: add to an atomic double from the value the
 exchange compares with

---
 spectator/atomicnumber.h | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/spectator/atomicnumber.h b/spectator/atomicnumber.h
index f5be358..d7f82fd 100644
--- a/spectator/atomicnumber.h
+++ b/spectator/atomicnumber.h
@@ -7,11 +7,10 @@ namespace spectator {
 /// Atomically add a delta to an atomic double
 /// equivalent to fetch_add for integer types
 inline auto add_double(std::atomic<double>* n, double delta) -> void {
-  double current;
-  do {
-    current = n->load(std::memory_order_relaxed);
-  } while (!n->compare_exchange_weak(
-      current, n->load(std::memory_order_relaxed) + delta));
+  // the sum must be computed from the very value the exchange compares with
+  auto current = n->load(std::memory_order_relaxed);
+  while (!n->compare_exchange_weak(current, current + delta)) {
+  }
 }
 
 /// Atomically set the max value of an atomic number
-- 
2.43.0


From b83a52d638362402a1df1362b7b15bd9594a4f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:20 +0000
Subject: [PATCH 05/39] fix: take a monotonic counter's delta and next baseline
 from one read

---
 spectator/monotonic_counter.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/spectator/monotonic_counter.cc b/spectator/monotonic_counter.cc
index 980adef..8ab751e 100644
--- a/spectator/monotonic_counter.cc
+++ b/spectator/monotonic_counter.cc
@@ -19,9 +19,9 @@ auto MonotonicCounter::Delta() const noexcept -> double {
 }
 
 void MonotonicCounter::Measure(Measurements* results) const noexcept {
-  auto delta = Delta();
-  prev_value_.store(value_.load(std::memory_order_relaxed),
-                    std::memory_order_relaxed);
+  // the reported delta and the new baseline must come from the same value
+  auto current = value_.load(std::memory_order_relaxed);
+  auto delta = current - prev_value_.exchange(current, std::memory_order_relaxed);
   if (delta > 0) {
     if (!count_id_) {
       count_id_ =
-- 
2.43.0


From ca86bd27cbb5d016dc05f77c46f796d3a316d107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:20 +0000
Subject: [PATCH 06/39] fix: no baseline for an unsigned monotonic counter
 before its first value; one read per measurement

---
 spectator/monotonic_counter_uint.cc | 28 ++++++++++++++++++----------
 spectator/monotonic_counter_uint.h  |  1 +
 2 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/spectator/monotonic_counter_uint.cc b/spectator/monotonic_counter_uint.cc
index a89ef2b..b71c33c 100644
--- a/spectator/monotonic_counter_uint.cc
+++ b/spectator/monotonic_counter_uint.cc
@@ -8,19 +8,15 @@ static constexpr auto kNaN = std::numeric_limits<double>::quiet_NaN();
 static constexpr auto kMax = std::numeric_limits<uint64_t>::max();
 
 MonotonicCounterUint::MonotonicCounterUint(Id id) noexcept
-    : Meter{std::move(id)}, init_(false), value_(0), prev_value_(0) {}
+    : Meter{std::move(id)}, init_(false), has_value_(false), value_(0), prev_value_(0) {}
 
 void MonotonicCounterUint::Set(uint64_t amount) noexcept {
   Update();
   value_.store(amount, std::memory_order_relaxed);
+  has_value_.store(true, std::memory_order_release);
 }
 
-auto MonotonicCounterUint::Delta() const noexcept -> double {
-  if (!init_.load(std::memory_order_relaxed)) return kNaN;
-
-  auto prev = prev_value_.load(std::memory_order_relaxed);
-  auto curr = value_.load(std::memory_order_relaxed);
-
+static auto delta_of(uint64_t prev, uint64_t curr) -> double {
   if (curr < prev) {
     return kMax - prev + curr + 1;
   } else {
@@ -28,10 +24,22 @@ auto MonotonicCounterUint::Delta() const noexcept -> double {
   }
 }
 
+auto MonotonicCounterUint::Delta() const noexcept -> double {
+  if (!init_.load(std::memory_order_relaxed)) return kNaN;
+
+  return delta_of(prev_value_.load(std::memory_order_relaxed),
+                  value_.load(std::memory_order_relaxed));
+}
+
 void MonotonicCounterUint::Measure(Measurements* results) const noexcept {
-  auto delta = Delta();
-  prev_value_.store(value_.load(std::memory_order_relaxed), std::memory_order_relaxed);
-  init_.store(true, std::memory_order_relaxed);
+  // there is no baseline before the first value
+  if (!has_value_.load(std::memory_order_acquire)) return;
+
+  // the reported delta and the new baseline must come from the same value
+  auto curr = value_.load(std::memory_order_relaxed);
+  auto prev = prev_value_.exchange(curr, std::memory_order_relaxed);
+  if (!init_.exchange(true, std::memory_order_relaxed)) return;
+  auto delta = delta_of(prev, curr);
 
   if (delta > 0) {
     if (!count_id_) {
diff --git a/spectator/monotonic_counter_uint.h b/spectator/monotonic_counter_uint.h
index 64ca7ab..e408139 100644
--- a/spectator/monotonic_counter_uint.h
+++ b/spectator/monotonic_counter_uint.h
@@ -15,6 +15,7 @@ class MonotonicCounterUint : public Meter {
  private:
   mutable std::unique_ptr<Id> count_id_;
   mutable std::atomic<bool> init_;
+  std::atomic<bool> has_value_;
   mutable std::atomic<uint64_t> value_;
   mutable std::atomic<uint64_t> prev_value_;
 };
-- 
2.43.0


From 3e2777de1e6520e6d9443ae1e848111fcd37d97b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:20 +0000
Subject: [PATCH 07/39] fix: take a sampled counter's rate and next baseline
 under one lock

---
 spectator/monotonic_sampled.cc | 15 ++++++++++-----
 spectator/monotonic_sampled.h  |  1 +
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/spectator/monotonic_sampled.cc b/spectator/monotonic_sampled.cc
index 1e1d5bf..777f050 100644
--- a/spectator/monotonic_sampled.cc
+++ b/spectator/monotonic_sampled.cc
@@ -29,13 +29,14 @@ void MonotonicSampled::Set(double amount, int64_t ts_nanos) noexcept {
 }
 
 void MonotonicSampled::Measure(Measurements* results) const noexcept {
-  auto sampled_delta = SampledRate();
-  if (std::isnan(sampled_delta)) {
-    return;
-  }
-
+  double sampled_delta;
   {
+    // the reported rate and the new baseline must come from the same sample
     absl::MutexLock lock(&mutex_);
+    sampled_delta = Rate();
+    if (std::isnan(sampled_delta)) {
+      return;
+    }
     prev_value_ = value_;
     prev_ts_ = ts_;
   }
@@ -50,6 +51,10 @@ void MonotonicSampled::Measure(Measurements* results) const noexcept {
 
 auto MonotonicSampled::SampledRate() const noexcept -> double {
   absl::MutexLock lock(&mutex_);
+  return Rate();
+}
+
+double MonotonicSampled::Rate() const noexcept {
   auto delta_t = (ts_ - prev_ts_) / 1e9;
   return (value_ - prev_value_) / delta_t;
 }
diff --git a/spectator/monotonic_sampled.h b/spectator/monotonic_sampled.h
index 5618108..14c4c9a 100644
--- a/spectator/monotonic_sampled.h
+++ b/spectator/monotonic_sampled.h
@@ -16,6 +16,7 @@ class MonotonicSampled : public Meter {
  private:
   mutable std::unique_ptr<Id> count_id_;
   mutable absl::Mutex mutex_;
+  double Rate() const noexcept ABSL_EXCLUSIVE_LOCKS_REQUIRED(mutex_);
   double value_ ABSL_GUARDED_BY(mutex_);
   mutable double prev_value_ ABSL_GUARDED_BY(mutex_);
   int64_t ts_ ABSL_GUARDED_BY(mutex_);
-- 
2.43.0


From dff5db8107be9e21ae3dddfa106645d7e32c8f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:44 +0000
Subject: [PATCH 08/39] fix: keep a gauge value set while the expired one is
 being reported

---
 spectator/gauge.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/spectator/gauge.cc b/spectator/gauge.cc
index e87cd63..47b0364 100644
--- a/spectator/gauge.cc
+++ b/spectator/gauge.cc
@@ -27,6 +27,11 @@ void Gauge::Measure(Measurements* results, int64_t now) const noexcept {
   double value;
   if (HasExpired(now)) {
     value = value_.exchange(kNAN, std::memory_order_relaxed);
+    if (!HasExpired(now)) {
+      // set again in the meantime: keep that value, unless there is a newer one
+      auto cleared = kNAN;
+      value_.compare_exchange_strong(cleared, value);
+    }
   } else {
     value = value_.load(std::memory_order_relaxed);
   }
-- 
2.43.0


From c8cc5b0540e36bb5ebf508f5fafdcdb997396ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:15 +0000
Subject: [PATCH 09/39] fix: reject a measurement whose tag has no value

The parser skipped one character after the tag list's separator and read
the value from there: wrong values, or a read past the end of the text.
---
 server/spectatord.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/server/spectatord.cc b/server/spectatord.cc
index 0207e8d..8f5806d 100644
--- a/server/spectatord.cc
+++ b/server/spectatord.cc
@@ -239,7 +239,10 @@ auto get_measurement(char type, std::string_view measurement_str, std::string* e
     while (measurement_str[pos] != ':') {
       ++pos;
       auto k_pos = measurement_str.find('=', pos);
-      if (k_pos == std::string_view::npos) break;
+      if (k_pos == std::string_view::npos) {
+        *err_msg = "Missing tag value";
+        return {};
+      }
       auto key = measurement_str.substr(pos, k_pos - pos);
       ++k_pos;
       auto v_pos = measurement_str.find_first_of(",:", k_pos);
-- 
2.43.0


From b87a791565dc227671c52d7d8eecb4a6a4ef4ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:02 +0000
Subject: [PATCH 10/39] fix: report, count and expire sampled monotonic
 counters

The registry created them but left them out of size, measure and
remove_expired, so they were never reported and never went away.
---
 spectator/registry.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/spectator/registry.h b/spectator/registry.h
index 936b239..1f43381 100644
--- a/spectator/registry.h
+++ b/spectator/registry.h
@@ -167,7 +167,7 @@ struct all_meters {
   auto size() const -> size_t {
     return age_gauges_.size() + counters_.size() + dist_sums_.size() +
            gauges_.size() + max_gauges_.size() + mono_counters_.size() +
-           mono_counters_uint_.size() + timers_.size();
+           mono_counters_uint_.size() + mono_sampled_.size() + timers_.size();
   }
 
   auto measure(int64_t meter_ttl) const -> std::vector<Measurement> {
@@ -180,6 +180,7 @@ struct all_meters {
     max_gauges_.measure(&res, meter_ttl);
     mono_counters_.measure(&res, meter_ttl);
     mono_counters_uint_.measure(&res, meter_ttl);
+    mono_sampled_.measure(&res, meter_ttl);
     timers_.measure(&res, meter_ttl);
     return res;
   }
@@ -210,6 +211,9 @@ struct all_meters {
     std::tie(expired, count) = mono_counters_uint_.remove_expired(meter_ttl);
     total_expired += expired;
     total_count += count;
+    std::tie(expired, count) = mono_sampled_.remove_expired(meter_ttl);
+    total_expired += expired;
+    total_count += count;
     std::tie(expired, count) = timers_.remove_expired(meter_ttl);
     total_expired += expired;
     total_count += count;
-- 
2.43.0


From 113f686eb735787a2a98608f789f38b8e8aee0af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:16 +0000
Subject: [PATCH 11/39] fix: read a sampled counter's value as the double it
 was parsed as

---
 server/spectatord.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/spectatord.cc b/server/spectatord.cc
index 8f5806d..3a7ef03 100644
--- a/server/spectatord.cc
+++ b/server/spectatord.cc
@@ -595,7 +595,7 @@ auto Server::parse_line(const char* buffer) -> std::optional<std::string> {
         // extra is milliseconds since the epoch
         auto nanos = extra * 1000 * 1000;
         registry_->GetMonotonicSampled(measurement->id)
-            ->Set(measurement->value.u, nanos);
+            ->Set(measurement->value.d, nanos);
       }
       break;
     default:
-- 
2.43.0


From 4a40a05634b6dc41f74d2e2f07492cf0704dd631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:31 +0000
Subject: [PATCH 12/39] fix: reject a sampled counter without a usable
 timestamp

---
 server/spectatord.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/server/spectatord.cc b/server/spectatord.cc
index 3a7ef03..16c0f05 100644
--- a/server/spectatord.cc
+++ b/server/spectatord.cc
@@ -591,9 +591,12 @@ auto Server::parse_line(const char* buffer) -> std::optional<std::string> {
       registry_->GetMonotonicCounterUint(measurement->id)->Set(measurement->value.u);
       break;
     case 'X':
-      if (extra > 0) {
+      {
         // extra is milliseconds since the epoch
-        auto nanos = extra * 1000 * 1000;
+        int64_t nanos = 0;
+        if (extra <= 0 || __builtin_mul_overflow(extra, int64_t{1000000}, &nanos)) {
+          return fmt::format("Missing or invalid timestamp for monotonic sampled source {}", measurement->id);
+        }
         registry_->GetMonotonicSampled(measurement->id)
             ->Set(measurement->value.d, nanos);
       }
-- 
2.43.0


From 39c542ca52f05fe3ac6228f6f39a32a52a1ff527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:49 +0000
Subject: [PATCH 13/39] fix: no rate from two samples of the same time

---
 spectator/monotonic_sampled.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/spectator/monotonic_sampled.cc b/spectator/monotonic_sampled.cc
index 777f050..ed3bcd6 100644
--- a/spectator/monotonic_sampled.cc
+++ b/spectator/monotonic_sampled.cc
@@ -55,6 +55,10 @@ auto MonotonicSampled::SampledRate() const noexcept -> double {
 }
 
 double MonotonicSampled::Rate() const noexcept {
+  // a sample that only replaced one of the same time gives no rate
+  if (ts_ <= prev_ts_) {
+    return kNaN;
+  }
   auto delta_t = (ts_ - prev_ts_) / 1e9;
   return (value_ - prev_value_) / delta_t;
 }
-- 
2.43.0


From 932bec7bbb2b7a4bfb190535066f509f02ab6181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:33 +0000
Subject: [PATCH 14/39] fix: skip empty lines at the start of a message

---
 server/spectatord.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/server/spectatord.cc b/server/spectatord.cc
index 16c0f05..97706ea 100644
--- a/server/spectatord.cc
+++ b/server/spectatord.cc
@@ -37,6 +37,10 @@ auto Server::parse_lines(char* buffer, const handler_t& parser) -> std::optional
   const auto& cfg = registry_->GetConfig();
 
   char* p = buffer;
+  // skip empty lines at the start
+  while (*p == '\n') {
+    ++p;
+  }
   std::string err_msg;
   while (*p != '\0') {
     char* newline = std::strchr(p, '\n');
-- 
2.43.0


From 0f1fb253b69b2b5106a2a06c54675fd313dcac37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:58 +0000
Subject: [PATCH 15/39] fix: look at every character of statsd tags

---
 server/spectatord.cc | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/server/spectatord.cc b/server/spectatord.cc
index 97706ea..7f2ebf1 100644
--- a/server/spectatord.cc
+++ b/server/spectatord.cc
@@ -202,18 +202,16 @@ auto Server::parse_statsd_line(const char* buffer)
       const char* begin_key = p;
       const char* end_key = nullptr;
       const char* begin_value = nullptr;
-      while (*p != '\0') {
-        ++p;
+      for (; *p != '\0'; ++p) {
         if (*p == ':') {
           end_key = p;
-          begin_value = ++p;
-        }
-        if (*p == ',') {
+          begin_value = p + 1;
+        } else if (*p == ',') {
           if (!add_tag(&tags, begin_key, end_key, begin_value, p)) {
             return fmt::format("Invalid tags for name={}", name);
           }
           begin_value = nullptr;
-          begin_key = ++p;
+          begin_key = p + 1;
         }
       }
       if (!add_tag(&tags, begin_key, end_key, begin_value, p)) {
-- 
2.43.0


From 89d84d751043c73a4fe373867a7e239a4c3a2c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:38 +0000
Subject: [PATCH 16/39] fix: reject a statsd sampling rate that is not a number

---
 server/spectatord.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/spectatord.cc b/server/spectatord.cc
index 7f2ebf1..8b82890 100644
--- a/server/spectatord.cc
+++ b/server/spectatord.cc
@@ -188,7 +188,7 @@ auto Server::parse_statsd_line(const char* buffer)
     if (*p == '@') {
       ++p;
       sampling_rate = std::strtod(p, &last_char);
-      if (last_char == p || sampling_rate <= 0 || sampling_rate > 1) {
+      if (last_char == p || !(sampling_rate > 0 && sampling_rate <= 1)) {
         return fmt::format("Invalid sampling rate for name={}", name);
       }
       p = last_char;
-- 
2.43.0


From 593fff578ade0169ca4d41978e15e3af5a82ba76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:01 +0000
Subject: [PATCH 17/39] fix: bound the number of updates one sampled statsd
 line makes

---
 server/spectatord.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/server/spectatord.cc b/server/spectatord.cc
index 8b82890..fe27953 100644
--- a/server/spectatord.cc
+++ b/server/spectatord.cc
@@ -7,6 +7,9 @@
 
 namespace spectatord {
 
+// one statsd line stands for at most a million events
+static constexpr double kMinSamplingRate = 1e-6;
+
 enum class StatsdMetricType { Counter, Timing, Gauge, Histogram, Set };
 
 inline auto add_tag(spectator::Tags* tags, const char* begin_key,
@@ -188,7 +191,7 @@ auto Server::parse_statsd_line(const char* buffer)
     if (*p == '@') {
       ++p;
       sampling_rate = std::strtod(p, &last_char);
-      if (last_char == p || !(sampling_rate > 0 && sampling_rate <= 1)) {
+      if (last_char == p || !(sampling_rate >= kMinSamplingRate && sampling_rate <= 1)) {
         return fmt::format("Invalid sampling rate for name={}", name);
       }
       p = last_char;
-- 
2.43.0


From ff4bcb058b8d2d2137a0c7356c3477f2ebb3be8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:09 +0000
Subject: [PATCH 18/39] fix: no percentile bucket for a negative duration

---
 spectator/percentile_timer.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/spectator/percentile_timer.h b/spectator/percentile_timer.h
index 7a023b0..789cb00 100644
--- a/spectator/percentile_timer.h
+++ b/spectator/percentile_timer.h
@@ -25,6 +25,10 @@ class PercentileTimer {
   }
 
   void Record(absl::Duration amount) noexcept {
+    if (amount < absl::ZeroDuration()) {
+      return;
+    }
+
     timer_->Record(amount);
     auto restricted = restrict(amount, min_, max_);
     auto index = PercentileBucketIndexOf(absl::ToInt64Nanoseconds(restricted));
-- 
2.43.0


From 7e524ddc15c552241ed3110ecb45ccd918c6d87c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:09 +0000
Subject: [PATCH 19/39] fix: estimate the 0th percentile from the first bucket
 in use

---
 spectator/percentile_buckets.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spectator/percentile_buckets.cc b/spectator/percentile_buckets.cc
index ef2d7a1..3650f13 100644
--- a/spectator/percentile_buckets.cc
+++ b/spectator/percentile_buckets.cc
@@ -48,7 +48,8 @@ void Percentiles(const std::array<int64_t, PercentileBucketsLength()>& counts,
     auto next = prev + counts.at(i);
     auto nextP = 100.0 * next / total;
     auto nextB = kBucketValues.at(i);
-    while (pctIdx < pcts.size() && nextP >= pcts[pctIdx]) {
+    // an empty bucket contains no percentile, not even the 0th
+    while (pctIdx < pcts.size() && next > prev && nextP >= pcts[pctIdx]) {
       auto f = (pcts[pctIdx] - prevP) / (nextP - prevP);
       results->at(pctIdx) = f * (nextB - prevB) + prevB;
       ++pctIdx;
-- 
2.43.0


From 4195ba97abc579eb2d8258e2f5e0743ef1b571bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:09 +0000
Subject: [PATCH 20/39] fix: no path taken from the query of a URL

---
 spectator/strings.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spectator/strings.cc b/spectator/strings.cc
index 8bfc469..27443ae 100644
--- a/spectator/strings.cc
+++ b/spectator/strings.cc
@@ -19,8 +19,8 @@ auto PathFromUrl(std::string_view url) noexcept -> std::string {
   }
   proto_end += 3;  // skip over ://
 
-  auto path_begin = std::find(proto_end, url.end(), '/');
-  if (path_begin == url.end()) {
+  auto path_begin = std::find_if(proto_end, url.end(), [](char c) { return c == '/' || c == '?'; });
+  if (path_begin == url.end() || *path_begin == '?') {
     return "/";
   }
 
-- 
2.43.0


From 8302ae9dc71467ffb85fb36cbb9490b8be76a1d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:45 +0000
Subject: [PATCH 21/39] fix: max_buffer_size wrote past its buffer for files of
 4096 bytes or more

---
 server/proc_utils.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/proc_utils.cc b/server/proc_utils.cc
index 911423d..c1c0a46 100644
--- a/server/proc_utils.cc
+++ b/server/proc_utils.cc
@@ -23,7 +23,7 @@ auto max_buffer_size(const char* proc_file) -> int {
   } else {
     result = kDefault;
     char buf[4096];
-    int n = read(fd, buf, sizeof buf);
+    int n = read(fd, buf, sizeof buf - 1);
     if (n > 0) {
       buf[n] = '\0';
       if (!absl::SimpleAtoi(buf, &result)) {
-- 
2.43.0


From 922891c3c44893247bc04a315be00793becc2078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:33 +0000
Subject: [PATCH 22/39] fix: a datagram filling the receive buffer was
 terminated past its end

---
 server/local_server.cc | 3 ++-
 server/udp_server.cc   | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/server/local_server.cc b/server/local_server.cc
index a3cdf28..65ffbc9 100644
--- a/server/local_server.cc
+++ b/server/local_server.cc
@@ -13,7 +13,8 @@ void LocalServer::Start() { start_local_receive(); }
 
 void LocalServer::start_local_receive() {
   socket_.async_receive(
-      asio::buffer(recv_buffer_),
+      // leaves room for the terminating NUL
+      asio::buffer(recv_buffer_, recv_buffer_.size() - 1),
       [this](const std::error_code& err, size_t bytes_transferred) {
         if (bytes_transferred >= recv_buffer_.size()) {
           Logger()->error("too many bytes transferred: {} >= {}",
diff --git a/server/udp_server.cc b/server/udp_server.cc
index 5136902..fae1319 100644
--- a/server/udp_server.cc
+++ b/server/udp_server.cc
@@ -23,7 +23,8 @@ UdpServer::UdpServer(asio::io_context& io_context, bool ipv4_only, int port_numb
 
 void UdpServer::start_udp_receive() {
   udp_socket_.async_receive(
-      asio::buffer(recv_buffer_),
+      // leaves room for the terminating NUL
+      asio::buffer(recv_buffer_, recv_buffer_.size() - 1),
       [this](const std::error_code& err, size_t bytes_transferred) {
         if (bytes_transferred >= recv_buffer_.size()) {
           Logger()->error("too many bytes transferred: {} >= {}",
-- 
2.43.0


From 0ea6c873ed702dbc8557e43da7c98f9a096a34b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:38 +0000
Subject: [PATCH 23/39] fix: the counts of parsed and rejected lines were lost
 for good after 15 idle minutes

---
 server/spectatord.cc | 8 ++++----
 server/spectatord.h  | 5 +++--
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/server/spectatord.cc b/server/spectatord.cc
index fe27953..f71b940 100644
--- a/server/spectatord.cc
+++ b/server/spectatord.cc
@@ -53,7 +53,7 @@ auto Server::parse_lines(char* buffer, const handler_t& parser) -> std::optional
     auto maybe_err = parser(p);
     if (maybe_err) {
       if (cfg.status_metrics_enabled) {
-        parse_errors_->Increment();
+        registry_->GetCounter(parse_errors_)->Increment();
       }
       if (err_msg.empty()) {
         err_msg = *maybe_err;
@@ -62,7 +62,7 @@ auto Server::parse_lines(char* buffer, const handler_t& parser) -> std::optional
         err_msg += *maybe_err;
       }
     } else if (cfg.status_metrics_enabled) {
-      parsed_count_->Increment();
+      registry_->GetCounter(parsed_count_)->Increment();
     }
     if (newline == nullptr) {
       break;
@@ -310,8 +310,8 @@ Server::Server(bool ipv4_only, int port_number, std::optional<int> statsd_port_n
       statsd_port_number_{statsd_port_number},
       socket_path_{std::move(socket_path)},
       registry_{registry},
-      parsed_count_{registry_->GetCounter("spectatord.parsedCount")},
-      parse_errors_{registry_->GetCounter("spectatord.parseErrors")},
+      parsed_count_{registry_->GetCounter("spectatord.parsedCount")->MeterId()},
+      parse_errors_{registry_->GetCounter("spectatord.parseErrors")->MeterId()},
       logger_{Logger()},
       perc_timers_{create_perc_timer},
       perc_ds_{create_perc_ds} {}
diff --git a/server/spectatord.h b/server/spectatord.h
index a95115b..ddb874c 100644
--- a/server/spectatord.h
+++ b/server/spectatord.h
@@ -28,8 +28,9 @@ class Server {
   std::optional<int> statsd_port_number_;
   std::optional<std::string> socket_path_;
   spectator::Registry* registry_;
-  std::shared_ptr<spectator::Counter> parsed_count_;
-  std::shared_ptr<spectator::Counter> parse_errors_;
+  // looked up for each use: a counter that was idle for too long is replaced
+  spectator::Id parsed_count_;
+  spectator::Id parse_errors_;
   std::shared_ptr<spdlog::logger> logger_;
   expiring_cache<spectator::PercentileTimer> perc_timers_;
   expiring_cache<spectator::PercentileDistributionSummary> perc_ds_;
-- 
2.43.0


From 8fd78ba88393616f9abcc2b1c9f8b6636fe84f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:15 +0000
Subject: [PATCH 24/39] fix: a percentile meter kept over an idle time of the
 meter TTL lost its counts and totals for good

---
 spectator/percentile_distribution_summary.h | 16 ++++++++++------
 spectator/percentile_timer.h                | 15 +++++++++------
 2 files changed, 19 insertions(+), 12 deletions(-)

diff --git a/spectator/percentile_distribution_summary.h b/spectator/percentile_distribution_summary.h
index 253ddb5..968ae26 100644
--- a/spectator/percentile_distribution_summary.h
+++ b/spectator/percentile_distribution_summary.h
@@ -14,8 +14,8 @@ class PercentileDistributionSummary {
       : registry_{registry},
         id_{std::move(id)},
         min_{min},
-        max_{max},
-        dist_summary_{registry->GetDistributionSummary(id_)} {
+        max_{max} {
+    get_dist_summary();
   }
 
   auto get_counter(size_t index, const std::string* perc_tags) -> std::shared_ptr<Counter> {
@@ -25,12 +25,17 @@ class PercentileDistributionSummary {
     return registry_->GetCounter(std::move(counterId));
   }
 
+  // looked up for each use: a summary that was idle for too long is replaced
+  auto get_dist_summary() const -> std::shared_ptr<DistributionSummary> {
+    return registry_->GetDistributionSummary(id_);
+  }
+
   void Record(int64_t amount) noexcept {
     if (amount < 0) {
       return;
     }
 
-    dist_summary_->Record(amount);
+    get_dist_summary()->Record(amount);
     auto restricted = restrict(amount, min_, max_);
     auto index = PercentileBucketIndexOf(restricted);
     auto c = get_counter(index, kDistTags.begin());
@@ -38,15 +43,14 @@ class PercentileDistributionSummary {
   }
 
   auto MeterId() const noexcept -> const Id& { return id_; }
-  auto Count() const noexcept -> int64_t { return dist_summary_->Count(); }
-  auto TotalAmount() const noexcept -> double { return dist_summary_->TotalAmount(); }
+  auto Count() const noexcept -> int64_t { return get_dist_summary()->Count(); }
+  auto TotalAmount() const noexcept -> double { return get_dist_summary()->TotalAmount(); }
 
  private:
   Registry* registry_;
   Id id_;
   int64_t min_;
   int64_t max_;
-  std::shared_ptr<DistributionSummary> dist_summary_;
 };
 
 }  // namespace spectator
diff --git a/spectator/percentile_timer.h b/spectator/percentile_timer.h
index 789cb00..4fd1c8f 100644
--- a/spectator/percentile_timer.h
+++ b/spectator/percentile_timer.h
@@ -14,8 +14,9 @@ class PercentileTimer {
       : registry_{registry},
         id_{std::move(id)},
         min_{min},
-        max_{max},
-        timer_{registry->GetTimer(id_)} {}
+        max_{max} {
+    get_timer();
+  }
 
   auto get_counter(size_t index, const std::string* perc_tags) -> std::shared_ptr<Counter> {
     using spectator::refs;
@@ -24,12 +25,15 @@ class PercentileTimer {
     return registry_->GetCounter(std::move(counterId));
   }
 
+  // looked up for each use: a timer that was idle for too long is replaced
+  auto get_timer() const -> std::shared_ptr<Timer> { return registry_->GetTimer(id_); }
+
   void Record(absl::Duration amount) noexcept {
     if (amount < absl::ZeroDuration()) {
       return;
     }
 
-    timer_->Record(amount);
+    get_timer()->Record(amount);
     auto restricted = restrict(amount, min_, max_);
     auto index = PercentileBucketIndexOf(absl::ToInt64Nanoseconds(restricted));
     auto c = get_counter(index, kTimerTags.begin());
@@ -38,15 +42,14 @@ class PercentileTimer {
 
   void Record(std::chrono::nanoseconds amount) noexcept { Record(absl::FromChrono(amount)); }
   auto MeterId() const noexcept -> const Id& { return id_; }
-  auto Count() const noexcept -> int64_t { return timer_->Count(); }
-  auto TotalTime() const noexcept -> int64_t { return timer_->TotalTime(); }
+  auto Count() const noexcept -> int64_t { return get_timer()->Count(); }
+  auto TotalTime() const noexcept -> int64_t { return get_timer()->TotalTime(); }
 
  private:
   Registry* registry_;
   Id id_;
   absl::Duration min_;
   absl::Duration max_;
-  std::shared_ptr<Timer> timer_;
 };
 
 }  // namespace spectator
-- 
2.43.0


From 4bda4d7d360927c0ec6fc461f9982f15659957db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:46 +0000
Subject: [PATCH 25/39] fix: count the measurements of a batch answered with
 200 as sent

---
 spectator/publisher.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/spectator/publisher.h b/spectator/publisher.h
index 57231ae..552c235 100644
--- a/spectator/publisher.h
+++ b/spectator/publisher.h
@@ -281,6 +281,9 @@ class Publisher {
     auto http_code = http_response.status;
     if (http_code == 200) {
       num_sent = num_measurements;
+      if (status_metrics_enabled) {
+        sentMetrics_->Add(static_cast<double>(num_measurements));
+      }
     } else if (http_code > 200 && http_code < 500) {
       rapidjson::Document body;
       body.Parse(http_response.raw_body.c_str(), http_response.raw_body.size());
-- 
2.43.0


From 58ade8df4e19874abe0ad7ede868f27c8934f123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:46 +0000
Subject: [PATCH 26/39] fix: check the backend's error response before using
 its fields

---
 spectator/publisher.h | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/spectator/publisher.h b/spectator/publisher.h
index 552c235..a371fcb 100644
--- a/spectator/publisher.h
+++ b/spectator/publisher.h
@@ -295,21 +295,27 @@ class Publisher {
           droppedOther_->Add(num_measurements);
         }
       } else {
-        if (body.HasMember("errorCount")) {
-          auto err_count = body["errorCount"].GetInt();
+        if (body.IsObject() && body.HasMember("errorCount") &&
+            body["errorCount"].IsUint() &&
+            body["errorCount"].GetUint() <= num_measurements) {
+          auto err_count = body["errorCount"].GetUint();
           num_err = err_count;
           num_sent = num_measurements - err_count;
           if (status_metrics_enabled) {
             invalidMetrics_->Add(err_count);
             sentMetrics_->Add(static_cast<double>(num_measurements - err_count));
           }
-          auto messages = body["message"].GetArray();
-          for (auto& msg : messages) {
-            err_messages->emplace(
-                std::string(msg.GetString(), msg.GetStringLength()));
+          auto messages = body.FindMember("message");
+          if (messages != body.MemberEnd() && messages->value.IsArray()) {
+            for (auto& msg : messages->value.GetArray()) {
+              if (msg.IsString()) {
+                err_messages->emplace(
+                    std::string(msg.GetString(), msg.GetStringLength()));
+              }
+            }
           }
         } else {
-          logger->error("Missing errorCount field in JSON response from {}: {}",
+          logger->error("Missing or invalid errorCount field in JSON response from {} - status {}: {}",
                         uri, http_code, http_response.raw_body);
           if (status_metrics_enabled) {
             droppedOther_->Add(num_measurements);
-- 
2.43.0


From 146b0f9aa50a43fdf53966b3a7357f98e0f4fa55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:01 +0000
Subject: [PATCH 27/39] fix: look up the publisher's own counters for each use,
 so that an expired one is not used

---
 spectator/publisher.h | 44 +++++++++++++++++++++++++------------------
 1 file changed, 26 insertions(+), 18 deletions(-)

diff --git a/spectator/publisher.h b/spectator/publisher.h
index a371fcb..64aa953 100644
--- a/spectator/publisher.h
+++ b/spectator/publisher.h
@@ -41,13 +41,6 @@ class Publisher {
         started_{false},
         should_stop_{false},
         last_successful_send_{absl::GetCurrentTimeNanos()},
-        sentMetrics_{detail::get_counter(registry, Tags{{"id", "sent"}})},
-        invalidMetrics_{detail::get_counter(
-            registry, Tags{{"id", "dropped"}, {"error", "validation"}})},
-        droppedHttp_{detail::get_counter(
-            registry, Tags{{"id", "dropped"}, {"error", "http-error"}})},
-        droppedOther_{detail::get_counter(
-            registry, Tags{{"id", "dropped"}, {"error", "other"}})},
         num_sender_threads_{std::min(8U, std::thread::hardware_concurrency())},
         pool_{num_sender_threads_} {
     buffers_.resize(num_sender_threads_);
@@ -111,10 +104,6 @@ class Publisher {
   std::mutex cv_mutex_;
   std::condition_variable cv_;
   std::thread sender_thread_;
-  std::shared_ptr<Counter> sentMetrics_;
-  std::shared_ptr<Counter> invalidMetrics_;
-  std::shared_ptr<Counter> droppedHttp_;
-  std::shared_ptr<Counter> droppedOther_;
   Tags common_tags_;
   size_t num_sender_threads_;
   asio::thread_pool pool_;
@@ -152,6 +141,25 @@ class Publisher {
     logger->info("Stopping Publisher");
   }
 
+  // The counters are looked up for each use, because the registry drops a
+  // counter that was not updated for a while: one kept here would go on
+  // counting without ever being measured.
+  auto sent_metrics() -> std::shared_ptr<Counter> {
+    return detail::get_counter(registry_, Tags{{"id", "sent"}});
+  }
+
+  auto invalid_metrics() -> std::shared_ptr<Counter> {
+    return detail::get_counter(registry_, Tags{{"id", "dropped"}, {"error", "validation"}});
+  }
+
+  auto dropped_http() -> std::shared_ptr<Counter> {
+    return detail::get_counter(registry_, Tags{{"id", "dropped"}, {"error", "http-error"}});
+  }
+
+  auto dropped_other() -> std::shared_ptr<Counter> {
+    return detail::get_counter(registry_, Tags{{"id", "dropped"}, {"error", "other"}});
+  }
+
   // for testing
  protected:
   using StrTable = ska::flat_hash_map<StrRef, int>;
@@ -282,7 +290,7 @@ class Publisher {
     if (http_code == 200) {
       num_sent = num_measurements;
       if (status_metrics_enabled) {
-        sentMetrics_->Add(static_cast<double>(num_measurements));
+        sent_metrics()->Add(static_cast<double>(num_measurements));
       }
     } else if (http_code > 200 && http_code < 500) {
       rapidjson::Document body;
@@ -292,7 +300,7 @@ class Publisher {
                       uri, http_code, http_response.raw_body);
         num_err = num_measurements;
         if (status_metrics_enabled) {
-          droppedOther_->Add(num_measurements);
+          dropped_other()->Add(num_measurements);
         }
       } else {
         if (body.IsObject() && body.HasMember("errorCount") &&
@@ -302,8 +310,8 @@ class Publisher {
           num_err = err_count;
           num_sent = num_measurements - err_count;
           if (status_metrics_enabled) {
-            invalidMetrics_->Add(err_count);
-            sentMetrics_->Add(static_cast<double>(num_measurements - err_count));
+            invalid_metrics()->Add(err_count);
+            sent_metrics()->Add(static_cast<double>(num_measurements - err_count));
           }
           auto messages = body.FindMember("message");
           if (messages != body.MemberEnd() && messages->value.IsArray()) {
@@ -318,7 +326,7 @@ class Publisher {
           logger->error("Missing or invalid errorCount field in JSON response from {} - status {}: {}",
                         uri, http_code, http_response.raw_body);
           if (status_metrics_enabled) {
-            droppedOther_->Add(num_measurements);
+            dropped_other()->Add(num_measurements);
           }
           num_err = num_measurements;
         }
@@ -326,11 +334,11 @@ class Publisher {
     } else if (http_code == -1) {  // connection error or timeout
       num_err = num_measurements;
       if (status_metrics_enabled) {
-        droppedOther_->Add(num_measurements);
+        dropped_other()->Add(num_measurements);
       }
     } else {  // 5xx error
       if (status_metrics_enabled) {
-        droppedHttp_->Add(num_measurements);
+        dropped_http()->Add(num_measurements);
       }
       num_err = num_measurements;
     }
-- 
2.43.0


From 20b669db9182b77e30aa0ff79d5ca63ab401c812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:01 +0000
Subject: [PATCH 28/39] fix: publish with one thread when the number of
 processors is unknown

---
 spectator/publisher.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spectator/publisher.h b/spectator/publisher.h
index 64aa953..fe43747 100644
--- a/spectator/publisher.h
+++ b/spectator/publisher.h
@@ -14,6 +14,7 @@
 
 #include <asio/post.hpp>
 #include <asio/thread_pool.hpp>
+#include <algorithm>
 #include <atomic>
 #include <condition_variable>
 #include <functional>
@@ -41,7 +42,7 @@ class Publisher {
         started_{false},
         should_stop_{false},
         last_successful_send_{absl::GetCurrentTimeNanos()},
-        num_sender_threads_{std::min(8U, std::thread::hardware_concurrency())},
+        num_sender_threads_{std::clamp(std::thread::hardware_concurrency(), 1U, 8U)},
         pool_{num_sender_threads_} {
     buffers_.resize(num_sender_threads_);
     for (const auto& kv : registry_->GetConfig().common_tags) {
-- 
2.43.0


From 972e352343c5a1c9b4f7ad0e78689c2095dd6275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:29 +0000
Subject: [PATCH 29/39] fix: measurements own their ids, as their meters can be
 removed while they are sent

---
 spectator/measurement.h | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/spectator/measurement.h b/spectator/measurement.h
index 3e2264f..cce8f00 100644
--- a/spectator/measurement.h
+++ b/spectator/measurement.h
@@ -12,12 +12,9 @@ class Measurement {
   Measurement(const Id& id_param, double value_param) noexcept
       : id{id_param}, value{value_param} {}
 
-  // We do not own the id_param so temporary references will cause problems.
-  // This could happen if the user tries something like:
-  // Measurement(id.withTag(...), value);
-  Measurement(Id&& error, double value_param) noexcept = delete;
-
-  const Id& id;
+  // Measurements own their ids: the meter they come from can be removed from
+  // the registry while they are being sent.
+  Id id;
   double value;
 
   auto operator==(const Measurement& other) const -> bool {
-- 
2.43.0


From ef37aaf3e64103ffb4b4659d9fb01e21511918b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:39 +0000
Subject: [PATCH 30/39] fix: publish with the common tags as last changed
 through the admin server

---
 admin/admin_server.cc |  7 ++++---
 spectator/publisher.h | 14 +++++++++++---
 spectator/registry.cc |  7 +++++++
 spectator/registry.h  |  2 ++
 4 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/admin/admin_server.cc b/admin/admin_server.cc
index 765d2c1..41da094 100644
--- a/admin/admin_server.cc
+++ b/admin/admin_server.cc
@@ -45,11 +45,12 @@ void GET_root(HTTPServerRequest& req, HTTPServerResponse& res) {
 }
 
 void GET_config(HTTPServerRequest& req, HTTPServerResponse& res,
-                const spectator::Config& config) {
+                const spectator::Registry& registry) {
+  const auto& config = registry.GetConfig();
   Object::Ptr obj = new Object(true);
 
   Object::Ptr common_tags = new Object(true);
-  for (auto& pair : config.common_tags) {
+  for (const auto& pair : registry.CommonTags()) {
     common_tags->set(pair.first, pair.second);
   }
 
@@ -321,7 +322,7 @@ void RequestHandler::handleRequest(HTTPServerRequest& req, HTTPServerResponse& r
     GET_root(req, res);
   } else if (req.getURI() == "/config" && req.getMethod() == "GET") {
     // get the full spectator configuration
-    GET_config(req, res, this->registry.GetConfig());
+    GET_config(req, res, this->registry);
   } else if (req.getURI() == "/config/common_tags" && req.getMethod() == "GET") {
     // describe common_tags usage
     GET_config_common_tags(req, res, join(this->allowed_tags, ", "));
diff --git a/spectator/publisher.h b/spectator/publisher.h
index fe43747..0a135bb 100644
--- a/spectator/publisher.h
+++ b/spectator/publisher.h
@@ -45,9 +45,7 @@ class Publisher {
         num_sender_threads_{std::clamp(std::thread::hardware_concurrency(), 1U, 8U)},
         pool_{num_sender_threads_} {
     buffers_.resize(num_sender_threads_);
-    for (const auto& kv : registry_->GetConfig().common_tags) {
-      common_tags_.add(kv.first, kv.second);
-    }
+    update_common_tags();
   }
 
   Publisher(const Publisher&) = delete;
@@ -161,6 +159,15 @@ class Publisher {
     return detail::get_counter(registry_, Tags{{"id", "dropped"}, {"error", "other"}});
   }
 
+  // the common tags can be changed while running, through the admin server
+  void update_common_tags() {
+    Tags common_tags;
+    for (const auto& kv : registry_->CommonTags()) {
+      common_tags.add(kv.first, kv.second);
+    }
+    common_tags_ = std::move(common_tags);
+  }
+
   // for testing
  protected:
   using StrTable = ska::flat_hash_map<StrRef, int>;
@@ -351,6 +358,7 @@ class Publisher {
     const auto& cfg = registry_->GetConfig();
     auto http_cfg = get_http_config(cfg);
     auto start = absl::Now();
+    update_common_tags();
     HttpClient client{registry_, std::move(http_cfg)};
     auto batch_size = static_cast<std::vector<Measurement>::difference_type>(cfg.batch_size);
     auto measurements = registry_->Measurements();
diff --git a/spectator/registry.cc b/spectator/registry.cc
index 88514f4..388ace4 100644
--- a/spectator/registry.cc
+++ b/spectator/registry.cc
@@ -167,6 +167,7 @@ auto Registry::Measurements() const noexcept -> std::vector<Measurement> {
 }
 
 void Registry::UpdateCommonTag(const std::string& k, const std::string& v) {
+  absl::MutexLock lock(&common_tags_mutex_);
   auto it = config_->common_tags.find(k);
   if (it != config_->common_tags.end()) {
     it->second = v;
@@ -176,9 +177,15 @@ void Registry::UpdateCommonTag(const std::string& k, const std::string& v) {
 }
 
 void Registry::EraseCommonTag(const std::string& k) {
+  absl::MutexLock lock(&common_tags_mutex_);
   config_->common_tags.erase(k);
 }
 
+auto Registry::CommonTags() const -> std::map<std::string, std::string> {
+  absl::MutexLock lock(&common_tags_mutex_);
+  return config_->common_tags;
+}
+
 bool Registry::DeleteMeter(const std::string& type, const Id& id) {
   if (type == "A") {
     return all_meters_.age_gauges_.remove_one(id);
diff --git a/spectator/registry.h b/spectator/registry.h
index 1f43381..5d2af7f 100644
--- a/spectator/registry.h
+++ b/spectator/registry.h
@@ -337,6 +337,7 @@ class Registry {
   // for updating mantis common tags
   void UpdateCommonTag(const std::string& k, const std::string& v);
   void EraseCommonTag(const std::string& k);
+  auto CommonTags() const -> std::map<std::string, std::string>;
 
   // for administering gauges
   bool DeleteMeter(const std::string& type, const Id& id);
@@ -380,6 +381,7 @@ class Registry {
   int64_t meter_ttl_;  // in nanos
 
   std::unique_ptr<Config> config_;
+  mutable absl::Mutex common_tags_mutex_{};  // for the config's common tags
   logger_ptr logger_;
 
   detail::all_meters all_meters_;
-- 
2.43.0


From 6aecef42b711db11d58c986db961366013613a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:53 +0000
Subject: [PATCH 31/39] fix: get or create an age gauge in one step

---
 spectator/registry.cc | 35 +++++++++++++++++------------------
 spectator/registry.h  | 14 ++++++++++++++
 2 files changed, 31 insertions(+), 18 deletions(-)

diff --git a/spectator/registry.cc b/spectator/registry.cc
index 388ace4..dad50d2 100644
--- a/spectator/registry.cc
+++ b/spectator/registry.cc
@@ -26,26 +26,25 @@ auto Registry::GetLogger() const noexcept -> Registry::logger_ptr {
 }
 
 auto Registry::GetAgeGauge(Id id) noexcept -> std::shared_ptr<AgeGauge> {
-  if (all_meters_.age_gauges_.contains(id)) {
-    return all_meters_.age_gauges_.at(id);
-  } else {
-    if (all_meters_.age_gauges_.size() < config_->age_gauge_limit) {
-      return all_meters_.insert_age_gauge(std::move(id));
-    } else {
-      logger_->warn("max number of age gauges ({}) has been reached, skipping creation",
-                    config_->age_gauge_limit);
-
-      if (age_gauge_first_warn_) {
-        auto known_age_gauges = all_meters_.age_gauges_.get_ids();
-        for (size_t i = 0; i < known_age_gauges.size(); ++i) {
-          logger_->warn("known age gauge {}: {}", i, known_age_gauges[i]);
-        }
-        age_gauge_first_warn_ = false;
-      }
-
-      return std::make_shared<AgeGauge>(std::move(id));
+  // in one step: other threads can create or delete age gauges at any time
+  auto meter = std::make_shared<AgeGauge>(std::move(id));
+  auto inserted = all_meters_.age_gauges_.insert_up_to(config_->age_gauge_limit, meter);
+  if (inserted) {
+    return inserted;
+  }
+
+  logger_->warn("max number of age gauges ({}) has been reached, skipping creation",
+                config_->age_gauge_limit);
+
+  if (age_gauge_first_warn_) {
+    auto known_age_gauges = all_meters_.age_gauges_.get_ids();
+    for (size_t i = 0; i < known_age_gauges.size(); ++i) {
+      logger_->warn("known age gauge {}: {}", i, known_age_gauges[i]);
     }
+    age_gauge_first_warn_ = false;
   }
+
+  return meter;
 }
 
 auto Registry::GetAgeGauge(std::string_view name, Tags tags) noexcept
diff --git a/spectator/registry.h b/spectator/registry.h
index 5d2af7f..ca450f9 100644
--- a/spectator/registry.h
+++ b/spectator/registry.h
@@ -69,6 +69,20 @@ struct meter_map {
     return insert_result.first->second;
   }
 
+  // like insert, but returns nullptr if a new meter would exceed the limit
+  auto insert_up_to(size_t limit, const std::shared_ptr<M>& meter) -> std::shared_ptr<M> {
+    absl::MutexLock lock(&meters_mutex_);
+    auto it = meters_.find(meter->MeterId());
+    if (it != meters_.end()) {
+      return it->second;
+    }
+    if (meters_.size() >= limit) {
+      return nullptr;
+    }
+    meters_.emplace(meter->MeterId(), meter);
+    return meter;
+  }
+
   auto at(const Id& id) -> std::shared_ptr<M> {
     absl::MutexLock lock(&meters_mutex_);
     return meters_.at(id);
-- 
2.43.0


From c3553ed36bbe64a54e4d6d5d26357f5d998a72fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:49 +0000
Subject: [PATCH 32/39] fix: deleting all meters used an iterator whose element
 was gone, for ids of the same hash

---
 spectator/registry.h | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/spectator/registry.h b/spectator/registry.h
index ca450f9..4ab9f32 100644
--- a/spectator/registry.h
+++ b/spectator/registry.h
@@ -134,12 +134,7 @@ struct meter_map {
 
   void remove_all() noexcept {
     absl::MutexLock lock{&meters_mutex_};
-    auto it = meters_.begin();
-    auto end = meters_.end();
-    while (it != end) {
-      meters_.erase(it->first);
-      ++it;
-    }
+    meters_.clear();
   }
 
   auto get_ids() const -> std::vector<Id> {
-- 
2.43.0


From 4167d179d88ff7e1b2550a75a28ac488ac951a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:22 +0000
Subject: [PATCH 33/39] fix: a path like /metrics/gXname deleted the gauge
 called name

---
 admin/admin_server.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/admin/admin_server.cc b/admin/admin_server.cc
index 41da094..7b5e29b 100644
--- a/admin/admin_server.cc
+++ b/admin/admin_server.cc
@@ -295,8 +295,10 @@ void DELETE_metrics(const std::string& type, HTTPServerRequest& req, HTTPServerR
     res.setStatus(HTTPResponse::HTTP_OK);
     res.send();
   } else {
+    // a slash separates the meter id from the meter type
+    auto separated = req.getURI()[10] == '/';
     auto id = parse_id(req.getURI().substr(11));
-    if (registry.DeleteMeter(type, id)) {
+    if (separated && registry.DeleteMeter(type, id)) {
       logger->info("DELETE /metrics/{} succeeded: '{}'", type, id);
       res.setStatus(HTTPResponse::HTTP_OK);
       res.send();
-- 
2.43.0


From 069536dc69487e0cba981ee4613716b3e88eaea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:22 +0000
Subject: [PATCH 34/39] fix: a deletion naming a tag without a value deleted
 the meter without that tag

---
 admin/admin_server.cc | 14 ++++++++++----
 admin/admin_server.h  |  2 +-
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/admin/admin_server.cc b/admin/admin_server.cc
index 7b5e29b..4cb931b 100644
--- a/admin/admin_server.cc
+++ b/admin/admin_server.cc
@@ -254,7 +254,8 @@ void GET_metrics(HTTPServerRequest& req, HTTPServerResponse& res, spectator::Reg
   obj->stringify(res.send());
 }
 
-spectator::Id parse_id(const std::string& id_str) {
+spectator::Id parse_id(const std::string& id_str, bool* valid) {
+  if (valid != nullptr) *valid = true;
   // get name (tags are specified with , but are optional)
   auto pos = id_str.find_first_of(',');
   if (pos == std::string_view::npos) {
@@ -269,7 +270,11 @@ spectator::Id parse_id(const std::string& id_str) {
     while (pos != std::string_view::npos) {
       ++pos;
       auto k_pos = id_str.find('=', pos);
-      if (k_pos == std::string_view::npos) break;
+      if (k_pos == std::string_view::npos) {
+        // a tag without a value
+        if (valid != nullptr) *valid = false;
+        break;
+      }
       auto key = id_str.substr(pos, k_pos - pos);
       ++k_pos;
       auto v_pos = id_str.find_first_of(',', k_pos);
@@ -297,8 +302,9 @@ void DELETE_metrics(const std::string& type, HTTPServerRequest& req, HTTPServerR
   } else {
     // a slash separates the meter id from the meter type
     auto separated = req.getURI()[10] == '/';
-    auto id = parse_id(req.getURI().substr(11));
-    if (separated && registry.DeleteMeter(type, id)) {
+    auto valid = false;
+    auto id = parse_id(req.getURI().substr(11), &valid);
+    if (separated && valid && registry.DeleteMeter(type, id)) {
       logger->info("DELETE /metrics/{} succeeded: '{}'", type, id);
       res.setStatus(HTTPResponse::HTTP_OK);
       res.send();
diff --git a/admin/admin_server.h b/admin/admin_server.h
index f4a8436..5f0b564 100644
--- a/admin/admin_server.h
+++ b/admin/admin_server.h
@@ -11,7 +11,7 @@ using namespace Poco::Net;
 using namespace spectator;
 
 std::string join(std::vector<std::string> const& strings, const std::string& delimiter);
-spectator::Id parse_id(const std::string& id_str);
+spectator::Id parse_id(const std::string& id_str, bool* valid = nullptr);
 
 class RequestHandler: public Poco::Net::HTTPRequestHandler {
   spectator::Registry &registry;
-- 
2.43.0


From 49f2c3dc78d020a9dfa902f3566ab1533571a4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:23 +0000
Subject: [PATCH 35/39] fix: requests for any host whose name contains
 localhost were taken as addressed to it

---
 admin/admin_server.cc | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/admin/admin_server.cc b/admin/admin_server.cc
index 4cb931b..af7a77e 100644
--- a/admin/admin_server.cc
+++ b/admin/admin_server.cc
@@ -317,13 +317,16 @@ void DELETE_metrics(const std::string& type, HTTPServerRequest& req, HTTPServerR
   }
 }
 
+// whether the Host header, less its port, names this host
+static bool is_localhost(const std::string& host) {
+  auto name = host.substr(0, host.find(':', host.rfind(']') == std::string::npos ? 0 : host.rfind(']')));
+  return name == "localhost" || name == "127.0.0.1" || name == "[::1]";
+}
+
 void RequestHandler::handleRequest(HTTPServerRequest& req, HTTPServerResponse& res) {
   this->logger->debug("AdminServer request for URI={}", req.getURI());
 
-  auto localhost_found =
-      req.getHost().rfind("localhost") != std::string::npos ||
-      req.getHost().rfind("127.0.0.1") != std::string::npos ||
-      req.getHost().rfind("[::1]") != std::string::npos;
+  auto localhost_found = is_localhost(req.getHost());
 
   if (req.getURI() == "/" && req.getMethod() == "GET") {
     // describe admin service
-- 
2.43.0


From 4ce89dda2b585b76dd764b73522194828272be13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:30 +0000
Subject: [PATCH 36/39] fix: a stop during the work of a background thread
 waited for its next interval

---
 server/spectatord.cc  | 10 ++++++++--
 spectator/publisher.h |  9 +++++++--
 spectator/registry.cc | 14 +++++++++++---
 3 files changed, 26 insertions(+), 7 deletions(-)

diff --git a/server/spectatord.cc b/server/spectatord.cc
index f71b940..1f4a8c4 100644
--- a/server/spectatord.cc
+++ b/server/spectatord.cc
@@ -464,7 +464,7 @@ void Server::upkeep() {
       std::unique_lock<std::mutex> lock{cv_mutex_};
       auto sleep = kFrequency - elapsed;
       logger->debug("Janitor - sleeping {}ms", duration_cast<milliseconds>(sleep).count());
-      cv_.wait_for(lock, sleep);
+      cv_.wait_for(lock, sleep, [this] { return should_stop_.load(); });
     }
   }
 }
@@ -486,7 +486,13 @@ void Server::update_network_metrics() {
 }
 
 void Server::Stop() {
-  if (!should_stop_.exchange(true)) {
+  bool stopped;
+  {
+    // not between the check and the wait of the upkeep, or it would sleep on
+    std::lock_guard<std::mutex> lock{cv_mutex_};
+    stopped = should_stop_.exchange(true);
+  }
+  if (!stopped) {
     logger_->debug("Stopping background tasks");
     cv_.notify_all();
     upkeep_thread_.join();
diff --git a/spectator/publisher.h b/spectator/publisher.h
index 0a135bb..44224cd 100644
--- a/spectator/publisher.h
+++ b/spectator/publisher.h
@@ -84,7 +84,11 @@ class Publisher {
 
   void Stop() {
     if (started_.exchange(false)) {
-      should_stop_ = true;
+      {
+        // not between the sender's check and its wait, or it would sleep on
+        std::lock_guard<std::mutex> lock{cv_mutex_};
+        should_stop_ = true;
+      }
       cv_.notify_all();
       sender_thread_.join();
     }
@@ -134,7 +138,8 @@ class Publisher {
         auto sleep = cfg.frequency - elapsed;
         logger->debug("Sleeping {}s until the next interval",
                       absl::ToDoubleSeconds(sleep));
-        cv_.wait_for(lock, absl::ToChronoMilliseconds(sleep));
+        cv_.wait_for(lock, absl::ToChronoMilliseconds(sleep),
+                     [this] { return should_stop_.load(); });
       }
     }
     logger->info("Stopping Publisher");
diff --git a/spectator/registry.cc b/spectator/registry.cc
index dad50d2..06f08fa 100644
--- a/spectator/registry.cc
+++ b/spectator/registry.cc
@@ -147,7 +147,13 @@ void Registry::Start() noexcept {
 
 void Registry::Stop() noexcept {
   publisher_.Stop();
-  if (!should_stop_.exchange(true)) {
+  bool stopped;
+  {
+    // not between the expirer's check and its wait, or it would sleep on
+    std::lock_guard<std::mutex> lock{cv_mutex_};
+    stopped = should_stop_.exchange(true);
+  }
+  if (!stopped) {
     logger_->debug("Stopping expirer thread");
     cv_.notify_all();
     expirer_thread_.join();
@@ -222,7 +228,8 @@ void Registry::expirer() noexcept {
   // Start - wait one freq_millis interval
   {
     std::unique_lock<std::mutex> lock{cv_mutex_};
-    cv_.wait_for(lock, absl::ToChronoMilliseconds(frequency));
+    cv_.wait_for(lock, absl::ToChronoMilliseconds(frequency),
+                 [this] { return should_stop_.load(); });
   }
   while (!should_stop_) {
     auto start = absl::Now();
@@ -232,7 +239,8 @@ void Registry::expirer() noexcept {
       std::unique_lock<std::mutex> lock{cv_mutex_};
       auto sleep = frequency - elapsed;
       logger_->debug("Expirer sleeping {}s", absl::ToDoubleSeconds(sleep));
-      cv_.wait_for(lock, absl::ToChronoMilliseconds(sleep));
+      cv_.wait_for(lock, absl::ToChronoMilliseconds(sleep),
+                   [this] { return should_stop_.load(); });
     }
   }
 }
-- 
2.43.0


From 5bdff8ed9d54e2f006987a717f9dd687fa2275b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:41 +0000
Subject: [PATCH 37/39] fix: a registry started again after a stop published
 nothing

---
 spectator/publisher.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/spectator/publisher.h b/spectator/publisher.h
index 44224cd..03c0a0e 100644
--- a/spectator/publisher.h
+++ b/spectator/publisher.h
@@ -75,6 +75,7 @@ class Publisher {
       return;
     }
 
+    should_stop_ = false;  // it may have been stopped before
     sender_thread_ = std::thread(&Publisher::sender, this);
   }
 
-- 
2.43.0


From 76a3da21f92c5caab2822a8c25dda7abfe378c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:03 +0000
Subject: [PATCH 38/39] fix: status metrics that expired once were never
 reported again by the upkeep

---
 server/spectatord.cc | 52 ++++++++++++++++----------------------------
 1 file changed, 19 insertions(+), 33 deletions(-)

diff --git a/server/spectatord.cc b/server/spectatord.cc
index 1f4a8c4..f3d7cf0 100644
--- a/server/spectatord.cc
+++ b/server/spectatord.cc
@@ -407,24 +407,9 @@ void Server::ensure_not_stuck() {
 void Server::upkeep() {
   const auto& cfg = registry_->GetConfig();
 
-  static auto timers_size_gauge = registry_->GetGauge(
-      "spectatord.percentileCacheSize", spectator::Tags{{"id", "timer"}});
-  static auto ds_size_gauge = registry_->GetGauge(
-      "spectatord.percentileCacheSize", spectator::Tags{{"id", "dist-summary"}});
-  static auto timers_expired_ctr = registry_->GetCounter(
-      "spectatord.percentileExpired", spectator::Tags{{"id", "timer"}});
-  static auto ds_expired_ctr = registry_->GetCounter(
-      "spectatord.percentileExpired", spectator::Tags{{"id", "dist-summary"}});
-
-  static auto pool_hits = registry_->GetMonotonicCounter(
-      "spectatord.poolAccess", spectator::Tags{{"id", "hit"}});
-  static auto pool_misses = registry_->GetMonotonicCounter(
-      "spectatord.poolAccess", spectator::Tags{{"id", "miss"}});
-  static auto pool_alloc_size = registry_->GetGauge(
-      "spectatord.poolAllocSize");
-  static auto pool_entries = registry_->GetGauge(
-      "spectatord.poolEntries");
-
+  // The meters are looked up for each use, because the registry drops those
+  // that were not updated for a while: one kept here would go on being updated
+  // without ever being measured.
   using clock = std::chrono::steady_clock;
   using std::chrono::duration_cast;
   using std::chrono::milliseconds;
@@ -440,20 +425,26 @@ void Server::upkeep() {
     std::tie(ds_size, ds_expired) = perc_ds_.expire();
     std::tie(t_size, t_expired) = perc_timers_.expire();
     if (cfg.status_metrics_enabled) {
-      timers_size_gauge->Set(t_size);
-      ds_size_gauge->Set(ds_size);
-      timers_expired_ctr->Add(t_expired);
-      ds_expired_ctr->Add(ds_expired);
+      registry_->GetGauge("spectatord.percentileCacheSize",
+                          spectator::Tags{{"id", "timer"}})->Set(t_size);
+      registry_->GetGauge("spectatord.percentileCacheSize",
+                          spectator::Tags{{"id", "dist-summary"}})->Set(ds_size);
+      registry_->GetCounter("spectatord.percentileExpired",
+                            spectator::Tags{{"id", "timer"}})->Add(t_expired);
+      registry_->GetCounter("spectatord.percentileExpired",
+                            spectator::Tags{{"id", "dist-summary"}})->Add(ds_expired);
     }
 #ifdef __linux__
     update_network_metrics();
 #endif
     auto pool_stats = spectator::string_pool_stats();
     if (cfg.status_metrics_enabled) {
-      pool_hits->Set(pool_stats.hits);
-      pool_misses->Set(pool_stats.misses);
-      pool_alloc_size->Set(pool_stats.alloc_size);
-      pool_entries->Set(pool_stats.table_size);
+      registry_->GetMonotonicCounter("spectatord.poolAccess",
+                                     spectator::Tags{{"id", "hit"}})->Set(pool_stats.hits);
+      registry_->GetMonotonicCounter("spectatord.poolAccess",
+                                     spectator::Tags{{"id", "miss"}})->Set(pool_stats.misses);
+      registry_->GetGauge("spectatord.poolAllocSize")->Set(pool_stats.alloc_size);
+      registry_->GetGauge("spectatord.poolEntries")->Set(pool_stats.table_size);
     }
     logger_->debug("Str Pool: Hits {} Misses {} Size {} Alloc {}", pool_stats.hits,
                    pool_stats.misses, pool_stats.table_size, pool_stats.alloc_size);
@@ -473,15 +464,10 @@ void Server::update_network_metrics() {
   // parse /proc/net/udp to get dropped packets for our ports
   const auto& cfg = registry_->GetConfig();
 
-  static auto udp_packets_dropped_ctr = registry_->GetMonotonicCounter(
-      "spectatord.udpPacketsDropped");
-  static auto udp_queue = registry_->GetMaxGauge(
-      "spectatord.udpRxQueue");
-
   auto info = udp_info(port_number_);
   if (info && cfg.status_metrics_enabled) {
-    udp_packets_dropped_ctr->Set(info->num_dropped);
-    udp_queue->Set(info->rx_queue_bytes);
+    registry_->GetMonotonicCounter("spectatord.udpPacketsDropped")->Set(info->num_dropped);
+    registry_->GetMaxGauge("spectatord.udpRxQueue")->Set(info->rx_queue_bytes);
   }
 }
 
-- 
2.43.0


From 358bb8a91e77bf874d7f5d2ce058186414676b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:48 +0000
Subject: [PATCH 39/39] fix: the registry's size was never reported again once
 its meter had expired

---
 spectator/registry.cc | 4 ++--
 spectator/registry.h  | 5 +++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/spectator/registry.cc b/spectator/registry.cc
index 06f08fa..8072d9b 100644
--- a/spectator/registry.cc
+++ b/spectator/registry.cc
@@ -12,7 +12,7 @@ Registry::Registry(std::unique_ptr<Config> config,
       meter_ttl_{absl::ToInt64Nanoseconds(config->meter_ttl)},
       config_{std::move(config)},
       logger_{std::move(logger)},
-      registry_size_{GetDistributionSummary("spectator.registrySize", Tags{{"owner", "spectatord"}})},
+      registry_size_{GetDistributionSummary("spectator.registrySize", Tags{{"owner", "spectatord"}})->MeterId()},
       publisher_(this) {
   if (meter_ttl_ == 0) {
     meter_ttl_ = int64_t(15) * 60 * 1000 * 1000 * 1000;
@@ -163,7 +163,7 @@ void Registry::Stop() noexcept {
 auto Registry::Measurements() const noexcept -> std::vector<Measurement> {
   auto res = all_meters_.measure(meter_ttl_);
   if (config_->status_metrics_enabled) {
-    registry_size_->Record(res.size());
+    all_meters_.insert_dist_sum(registry_size_)->Record(res.size());
   }
   for (const auto& callback : ms_callbacks_) {
     callback(res);
diff --git a/spectator/registry.h b/spectator/registry.h
index 4ab9f32..4ba5943 100644
--- a/spectator/registry.h
+++ b/spectator/registry.h
@@ -393,10 +393,11 @@ class Registry {
   mutable absl::Mutex common_tags_mutex_{};  // for the config's common tags
   logger_ptr logger_;
 
-  detail::all_meters all_meters_;
+  mutable detail::all_meters all_meters_;  // measuring records the size
 
   std::vector<measurements_callback> ms_callbacks_{};
-  std::shared_ptr<DistributionSummary> registry_size_;
+  // looked up for each use: it expires like any other meter
+  Id registry_size_;
 
   void expirer() noexcept;
 
-- 
2.43.0

