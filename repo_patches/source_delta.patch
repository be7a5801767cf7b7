From cb0d0e2b37616b63cfa3f756a9cce1d7c295b106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:47 +0000
Subject: [PATCH 01/50] fix: set the size of a ring buffer constructed from a
 range or copy

---
 cxxmetrics/ringbuf.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cxxmetrics/ringbuf.hpp b/cxxmetrics/ringbuf.hpp
index a954d79..869d43a 100644
--- a/cxxmetrics/ringbuf.hpp
+++ b/cxxmetrics/ringbuf.hpp
@@ -195,6 +195,7 @@ ringbuf<TElemType, TSize>::ringbuf(TInputIterator start, const TInputIterator &e
         data_[i] = *start;
 
     tail_ = i;
+    size_ = i;
 }
 
 
-- 
2.43.0


From b03e93ee3915ac623c543de934f6651eb7a9afed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:47 +0000
Subject: [PATCH 02/50] fix: make ring buffer and sliding window assignment
 return, keep the size and survive self-assignment

---
 cxxmetrics/ringbuf.hpp        | 5 +++++
 cxxmetrics/sliding_window.hpp | 1 +
 2 files changed, 6 insertions(+)

diff --git a/cxxmetrics/ringbuf.hpp b/cxxmetrics/ringbuf.hpp
index 869d43a..b35ffd7 100644
--- a/cxxmetrics/ringbuf.hpp
+++ b/cxxmetrics/ringbuf.hpp
@@ -208,6 +208,9 @@ ringbuf<TElemType, TSize>::ringbuf(const ringbuf &other) noexcept :
 template<typename TElemType, size_t TSize>
 ringbuf<TElemType, TSize> &ringbuf<TElemType, TSize>::operator=(const ringbuf &other) noexcept
 {
+    if (this == &other)
+        return *this;
+
     tail_ = 0;
     size_ = 0;
 
@@ -217,6 +220,8 @@ ringbuf<TElemType, TSize> &ringbuf<TElemType, TSize>::operator=(const ringbuf &o
         data_[i] = *it;
 
     tail_ = i;
+    size_ = i;
+    return *this;
 }
 
 template<typename TElemType, size_t TSize>
diff --git a/cxxmetrics/sliding_window.hpp b/cxxmetrics/sliding_window.hpp
index daf46f1..b10c5e0 100644
--- a/cxxmetrics/sliding_window.hpp
+++ b/cxxmetrics/sliding_window.hpp
@@ -250,6 +250,7 @@ sliding_window_reservoir<TElem, TMaxSize, TClockGet>::operator=(const sliding_wi
     data_ = other.data_;
     clock_ = other.clock_;
     window_ = other.window_;
+    return *this;
 }
 
 template<typename TElem, size_t TMaxSize, typename TClockGet>
-- 
2.43.0


From c4f1d90fd26ad61b39de760ad8d0f7cb80c56c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:10 +0000
Subject: [PATCH 03/50] fix: keep the replaced index of a full uniform
 reservoir inside its storage

---
 cxxmetrics/uniform_reservoir.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cxxmetrics/uniform_reservoir.hpp b/cxxmetrics/uniform_reservoir.hpp
index fda6148..1742589 100644
--- a/cxxmetrics/uniform_reservoir.hpp
+++ b/cxxmetrics/uniform_reservoir.hpp
@@ -110,7 +110,7 @@ void uniform_reservoir<TElem, TSize>::update(const TElem &value) noexcept
     // so we don't run out of count
     count_.store(TSize);
 
-    std::uniform_int_distribution<> d(0, TSize);
+    std::uniform_int_distribution<> d(0, TSize - 1);
     elems_[d(gen_)] = value;
 }
 
-- 
2.43.0


From 7d751c5429fdd203ffbd8c4a497cc756ba0d194d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:10 +0000
Subject: [PATCH 04/50] fix: make uniform reservoir assignment compile

---
 cxxmetrics/uniform_reservoir.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cxxmetrics/uniform_reservoir.hpp b/cxxmetrics/uniform_reservoir.hpp
index 1742589..6f63200 100644
--- a/cxxmetrics/uniform_reservoir.hpp
+++ b/cxxmetrics/uniform_reservoir.hpp
@@ -2,6 +2,7 @@
 #define CXXMETRICS_UNIFORM_RESERVOIR_HPP
 
 #include "snapshots.hpp"
+#include <algorithm>
 #include <atomic>
 #include <chrono>
 #include <random>
@@ -91,8 +92,9 @@ uniform_reservoir<TElem, TSize>::uniform_reservoir(const uniform_reservoir &othe
 template<typename TElem, std::size_t TSize>
 uniform_reservoir<TElem, TSize> &uniform_reservoir<TElem, TSize>::operator=(const uniform_reservoir &other) noexcept
 {
-    elems_ = other.elems_;
-    count_ = other.count_;
+    auto count = std::min<std::size_t>(other.count_.load(), TSize);
+    std::copy(other.elems_, other.elems_ + count, elems_);
+    count_ = count;
     return *this;
 }
 
-- 
2.43.0


From 3c23a9bce27e101ab56fcd6403bf484376c992b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:10 +0000
Subject: [PATCH 05/50] fix: compare numeric metric values without truncating
 or rounding the other operand

---
 cxxmetrics/metric_value.hpp | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/cxxmetrics/metric_value.hpp b/cxxmetrics/metric_value.hpp
index 55271e1..6e930e1 100644
--- a/cxxmetrics/metric_value.hpp
+++ b/cxxmetrics/metric_value.hpp
@@ -145,17 +145,13 @@ public:
     int compare(const variant_data& other) const noexcept override
     {
         bool valid;
-        auto lv = static_cast<T>(other.to_integral(&valid));
+        // long double represents every supported integer exactly
+        auto fv = other.to_float(&valid);
         if (!valid)
-        {
-            auto fv = other.to_float(&valid);
-            if (!valid)
-                return -1;
-
-            return val_ < fv ? -1 : val_ == fv ? 0 : 1;
-        }
+            return -1;
 
-        return val_ - lv;
+        long double lv = val_;
+        return lv < fv ? -1 : lv == fv ? 0 : 1;
     }
 };
 
@@ -248,7 +244,7 @@ public:
     int compare(const variant_data& other) const noexcept override
     {
         bool valid;
-        auto fv = static_cast<T>(other.to_float(&valid));
+        auto fv = other.to_float(&valid);
         if (!valid)
             return -1;
 
-- 
2.43.0


From 3e65b6a44d2cbf3df1f9fbce0d8a6c54bfc1151e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:34 +0000
Subject: [PATCH 06/50] fix: keep dividend and divisor in place when the
 divisor has the wider type

---
 cxxmetrics/metric_value.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cxxmetrics/metric_value.hpp b/cxxmetrics/metric_value.hpp
index 6e930e1..3719f2c 100644
--- a/cxxmetrics/metric_value.hpp
+++ b/cxxmetrics/metric_value.hpp
@@ -688,7 +688,11 @@ public:
     variant_data_holder divide(const variant_data_holder& other) const
     {
         if (other.as<variant_data>()->type_score() > as<variant_data>()->type_score())
-            return other.uc_div(*this);
+        {
+            // promote the dividend to the type of the divisor
+            auto promoted = other.uc_mult(variant_data_holder(0)).uc_add(*this);
+            return promoted.uc_div(other);
+        }
         return uc_div(other);
     }
 
-- 
2.43.0


From 5a70aee29ef7fe50c594b3dc12b344e4db46c41c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:34 +0000
Subject: [PATCH 07/50] fix: subtract a narrower unsigned value without
 wrapping it first

---
 cxxmetrics/metric_value.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/cxxmetrics/metric_value.hpp b/cxxmetrics/metric_value.hpp
index 3719f2c..0e67ba3 100644
--- a/cxxmetrics/metric_value.hpp
+++ b/cxxmetrics/metric_value.hpp
@@ -678,6 +678,14 @@ public:
         return uc_add(other);
     }
 
+    variant_data_holder subtract(const variant_data_holder& other) const
+    {
+        // negate in the wider of the two types: -(-a + b)
+        if (other.as<variant_data>()->type_score() < as<variant_data>()->type_score())
+            return negate().uc_add(other).negate();
+        return add(other.negate());
+    }
+
     variant_data_holder multiply(const variant_data_holder& other) const
     {
         if (other.as<variant_data>()->type_score() > as<variant_data>()->type_score())
@@ -753,7 +761,7 @@ public:
 
     metric_value& operator-=(const metric_value& other)
     {
-        value_ = (value_.add(other.value_.negate()));
+        value_ = (value_.subtract(other.value_));
         return *this;
     }
 
@@ -776,7 +784,7 @@ public:
 
     metric_value operator-(const metric_value& other) const
     {
-        return metric_value(value_.add(other.value_.negate()));
+        return metric_value(value_.subtract(other.value_));
     }
 
     metric_value operator/(const metric_value& other) const
-- 
2.43.0


From 0ea9513f9a922c0874700b1eaeb2b1ba7e36f6fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:34 +0000
Subject: [PATCH 08/50] fix: hash equal tag collections alike whatever order
 they were built in

---
 cxxmetrics/tag_collection.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cxxmetrics/tag_collection.hpp b/cxxmetrics/tag_collection.hpp
index bc5f4ce..8e199fd 100644
--- a/cxxmetrics/tag_collection.hpp
+++ b/cxxmetrics/tag_collection.hpp
@@ -70,7 +70,7 @@ struct hash<cxxmetrics::tag_collection>
         std::hash<std::string> h;
         std::hash<cxxmetrics::metric_value> v;
         for (const auto& p : collection)
-            result = (result * 397) ^ (h(p.first) ^ v(p.second));
+            result += (h(p.first) * 397) ^ v(p.second); // independent of the iteration order
 
         return result;
     }
-- 
2.43.0


From 0b18a15d57128e68121c4b40bf87a75a5211a649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:34 +0000
Subject: [PATCH 09/50] fix: make snapshot inequality the opposite of equality

---
 cxxmetrics/snapshots.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cxxmetrics/snapshots.hpp b/cxxmetrics/snapshots.hpp
index 89eca9e..3fc081f 100644
--- a/cxxmetrics/snapshots.hpp
+++ b/cxxmetrics/snapshots.hpp
@@ -67,12 +67,12 @@ inline bool value_snapshot::operator==(const metric_value &value) const noexcept
 
 inline bool value_snapshot::operator!=(const value_snapshot &other) const noexcept
 {
-    return value_ == other.value_;
+    return value_ != other.value_;
 }
 
 inline bool value_snapshot::operator!=(const metric_value &value) const noexcept
 {
-    return value_ == value;
+    return value_ != value;
 }
 
 class cumulative_value_snapshot : public value_snapshot
-- 
2.43.0


From 655165ba89ab061750c3a769ee2eff235b845b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:17 +0000
Subject: [PATCH 10/50] fix: merge histogram snapshots without losing or
 inventing samples

---
 cxxmetrics/snapshots.hpp | 120 ++-------------------------------------
 1 file changed, 5 insertions(+), 115 deletions(-)

diff --git a/cxxmetrics/snapshots.hpp b/cxxmetrics/snapshots.hpp
index 3fc081f..75278e5 100644
--- a/cxxmetrics/snapshots.hpp
+++ b/cxxmetrics/snapshots.hpp
@@ -4,6 +4,7 @@
 #include <unordered_map>
 #include <vector>
 #include <algorithm>
+#include <iterator>
 #include "meta.hpp"
 #include "metric_value.hpp"
 
@@ -425,119 +426,6 @@ inline reservoir_snapshot& reservoir_snapshot::operator=(reservoir_snapshot&& ot
 class histogram_snapshot : public reservoir_snapshot
 {
     uint64_t count_;
-
-    template<typename TContainer1, typename TContainer2>
-    class alternating_iterator : public std::iterator<std::forward_iterator_tag, metric_value>
-    {
-        using iterator1 = typename TContainer1::const_iterator;
-        using iterator2 = typename TContainer2::const_iterator;
-
-        const TContainer1& srca_;
-        const TContainer2& srcb_;
-
-        iterator1 a_;
-        iterator2 b_;
-
-        bool ata_;
-
-        metric_value current_;
-        void set_current()
-        {
-            if ((ata_ || b_ == srcb_.end()) && a_ != srca_.end())
-                current_ = metric_value(*a_);
-            else if (b_ != srcb_.end())
-                current_ = metric_value(*b_);
-        }
-    public:
-
-        alternating_iterator(const TContainer1& first, const TContainer2& second, iterator1&& a, iterator2&& b) :
-                srca_(first),
-                srcb_(second),
-                a_(std::forward<iterator1>(a)),
-                b_(std::forward<iterator2>(b)),
-                ata_(false),
-                current_(0)
-        {
-            if (a_ != srca_.end() && b_ != srcb_.end())
-                set_current();
-        }
-        alternating_iterator(const TContainer1& first, const TContainer2& second) :
-                alternating_iterator(first, second, first.begin(), second.begin())
-        { }
-
-        alternating_iterator begin() const
-        {
-            return alternating_iterator(srca_, srcb_);
-        }
-
-        alternating_iterator end()
-        {
-            return alternating_iterator(srca_, srcb_, srca_.end(), srcb_.end());
-        }
-
-        alternating_iterator& operator++()
-        {
-            if (a_ == srca_.end() && b_ == srcb_.end())
-                return *this;
-
-            ata_ = !ata_;
-            if (ata_ && a_ != srca_.end())
-            {
-                while (a_ != srca_.end() && *a_ <= current_)
-                    ++a_;
-
-                if (a_ == srca_.end() && b_ != srcb_.end())
-                    ++b_;
-            }
-            else
-            {
-                while (b_ != srcb_.end() && *b_ <= current_)
-                    ++b_;
-
-                if (b_ == srcb_.end() && a_ != srca_.end())
-                    ++a_;
-            }
-
-            if (a_ == srca_.end() && b_ == srcb_.end())
-                return *this;
-
-            set_current();
-            return *this;
-        }
-
-        void operator++(int)
-        {
-            this->operator++();
-        }
-
-        const metric_value* operator->() const
-        {
-            return &current_;
-        }
-
-        const metric_value& operator*() const
-        {
-            return current_;
-        }
-
-        bool operator==(const alternating_iterator& other) const
-        {
-            if (a_ == srca_.end() && b_ == srcb_.end())
-                return other.a_ == other.srca_.end() && other.b_ == other.srcb_.end();
-            return a_ == other.a_ && b_ == other.b_;
-        }
-
-        bool operator!=(const alternating_iterator& other) const
-        {
-            return !operator==(other);
-        }
-    };
-
-    template<typename TContainer1, typename TContainer2>
-    static constexpr alternating_iterator<TContainer1, TContainer2> make_alternating_iterator(const TContainer1& a, const TContainer2& b)
-    {
-        return alternating_iterator<TContainer1, TContainer2>(a, b);
-    }
 public:
     histogram_snapshot(reservoir_snapshot&& q, uint64_t count) :
             reservoir_snapshot(std::move(q)),
@@ -558,8 +446,10 @@ public:
 
     void merge(const histogram_snapshot& other)
     {
-        auto b = make_alternating_iterator(values_, other.values_);
-        reservoir_snapshot::operator=(reservoir_snapshot(b, b.end(), std::max(count_, other.count_)));
+        std::vector<metric_value> merged;
+        merged.reserve(values_.size() + other.values_.size());
+        std::merge(values_.begin(), values_.end(), other.values_.begin(), other.values_.end(), std::back_inserter(merged));
+        values_ = std::move(merged);
         count_ += other.count_;
     }
 
-- 
2.43.0


From b6e54f621e62ac0d0567c6be1d651f483e09e883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:43 +0000
Subject: [PATCH 11/50] fix: decay an idle moving average over every missed
 interval

---
 cxxmetrics/ewma.hpp | 17 ++---------------
 1 file changed, 2 insertions(+), 15 deletions(-)

diff --git a/cxxmetrics/ewma.hpp b/cxxmetrics/ewma.hpp
index 0127f15..ad66ab9 100644
--- a/cxxmetrics/ewma.hpp
+++ b/cxxmetrics/ewma.hpp
@@ -173,7 +173,7 @@ template<typename TClockGet, period::value TWindow, period::value TInterval, typ
 template<bool TWrite>
 TValue ewma<TClockGet, TWindow, TInterval, TValue>::tick(const clock_point &at) noexcept
 {
-    int missed_intervals;
+    long long missed_intervals;
     clock_point last;
 
     last = last_;
@@ -216,20 +216,7 @@ TValue ewma<TClockGet, TWindow, TInterval, TValue>::tick(const clock_point &at)
     if (missed_intervals > 0)
     {
         // we missed some intervals - we'll average in zeros
-        if ((TWindow > TInterval) && (at - last) > period(TWindow))
-        {
-            constexpr auto intervals_per_window = TWindow / TInterval;
-            period::value missed_windows = missed_intervals / intervals_per_window;
-            rate = pow(rate, 1/pow(missed_windows, 2));
-
-            // figure out the missed intervals now
-            missed_intervals -= (missed_windows * intervals_per_window);
-        }
-
-        // this is the fastest way to do this - the alternative is a standard repeated integral
-        // but this is faster
-        for (int i = 0; i < missed_intervals; i++)
-            rate = rate + (alpha_ * -rate);
+        rate *= std::pow(1 - alpha_, missed_intervals);
     }
 
     if (std::isnan(rate) || std::isinf(rate))
-- 
2.43.0


From 7c3c29965b513f5b47de097ac401ddbd8ca4497d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:43 +0000
Subject: [PATCH 12/50] fix: keep read-only access to a moving average from
 ending its first interval

---
 cxxmetrics/ewma.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cxxmetrics/ewma.hpp b/cxxmetrics/ewma.hpp
index ad66ab9..bec5091 100644
--- a/cxxmetrics/ewma.hpp
+++ b/cxxmetrics/ewma.hpp
@@ -189,6 +189,10 @@ TValue ewma<TClockGet, TWindow, TInterval, TValue>::tick(const clock_point &at)
         if ((at - last) < period(TInterval))
             return pending;
 
+        // a read-only tick must not leave a trace
+        if (!TWrite)
+            return pending;
+
         bool ticked = false;
         if (ticked_.compare_exchange_weak(ticked, true))
         {
-- 
2.43.0


From b9000f500e23bdf3bbf0b8b77c52cb0e8a42461d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:43 +0000
Subject: [PATCH 13/50] fix: carry over whether the first interval ended when
 assigning a moving average

---
 cxxmetrics/ewma.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cxxmetrics/ewma.hpp b/cxxmetrics/ewma.hpp
index bec5091..edcccce 100644
--- a/cxxmetrics/ewma.hpp
+++ b/cxxmetrics/ewma.hpp
@@ -247,6 +247,7 @@ ewma<TClockGet, TWindow, TInterval, TValue> &ewma<TClockGet, TWindow, TInterval,
     rate_.store(c.rate_.load());
     pending_.store(c.pending_.load());
     last_ = c.last_;
+    ticked_.store(c.ticked_.load());
     return *this;
 }
 
-- 
2.43.0


From fd097f8d9bf969b2b2c60ca4a0f23c9269f1be81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:22 +0000
Subject: [PATCH 14/50] fix: keep the correction of an integral moving average
 from wrapping around

---
 cxxmetrics/ewma.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cxxmetrics/ewma.hpp b/cxxmetrics/ewma.hpp
index edcccce..3c6d7f9 100644
--- a/cxxmetrics/ewma.hpp
+++ b/cxxmetrics/ewma.hpp
@@ -213,7 +213,7 @@ TValue ewma<TClockGet, TWindow, TInterval, TValue>::tick(const clock_point &at)
 
     // apply the pending value to our current rate
     // if someone else already snagged the pending value, start over
-    auto rate = nrate + (alpha_ * (pending - nrate));
+    auto rate = nrate + (alpha_ * (static_cast<long double>(pending) - nrate));
 
     // figure out how many intervals we've missed
     missed_intervals = ((at - last) / period(TInterval)) - 1;
-- 
2.43.0


From c70d4964b7d202f9229dc6f7401c117411892502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:22 +0000
Subject: [PATCH 15/50] fix: initialise the scale of timer publish options

---
 cxxmetrics/publisher.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cxxmetrics/publisher.hpp b/cxxmetrics/publisher.hpp
index 0cc6918..54dc432 100644
--- a/cxxmetrics/publisher.hpp
+++ b/cxxmetrics/publisher.hpp
@@ -275,24 +275,28 @@ class timer_publish_options : public histogram_publish_options, public meter_pub
     bool rates_;
 public:
     timer_publish_options(timer_publish_options&& other) noexcept :
+            value_publish_options(other),
             histogram_publish_options(std::move(other)),
             meter_publish_options(std::move(other)),
             rates_(other.rates_)
     { }
 
     timer_publish_options(bool rates = true, const scale_factor& sf = scale_factor()) noexcept :
+            value_publish_options(sf),
             histogram_publish_options(sf),
             meter_publish_options(sf),
             rates_(rates)
     { }
 
     timer_publish_options(bool rates, bool publish_count, const scale_factor& sf = scale_factor()) noexcept :
+            value_publish_options(sf),
             histogram_publish_options(publish_count, sf),
             meter_publish_options(sf),
             rates_(rates)
     { }
 
     timer_publish_options(bool rates, bool publish_count, bool publish_mean, const scale_factor& sf = scale_factor()) noexcept :
+            value_publish_options(sf),
             histogram_publish_options(publish_count, sf),
             meter_publish_options(publish_mean, sf),
             rates_(rates)
@@ -300,6 +304,7 @@ public:
 
     template<typename TQuantileOptions, typename = typename std::enable_if<std::is_base_of<basic_quantile_options, TQuantileOptions>::value, void>::type>
     timer_publish_options(TQuantileOptions&& quantile_options, bool rates, bool publish_count = true, const scale_factor& sf = scale_factor()) :
+            value_publish_options(sf),
             histogram_publish_options(quantile_options, publish_count, sf),
             meter_publish_options(sf),
             rates_(rates)
@@ -308,6 +313,7 @@ public:
 
     template<typename TQuantileOptions, typename = typename std::enable_if<std::is_base_of<basic_quantile_options, TQuantileOptions>::value, void>::type>
     timer_publish_options(TQuantileOptions&& quantile_options, bool rates, bool publish_count, bool publish_mean, const scale_factor& sf = scale_factor()) :
+            value_publish_options(sf),
             histogram_publish_options(quantile_options, publish_count, sf),
             meter_publish_options(publish_mean, sf),
             rates_(rates)
-- 
2.43.0


From fc5c2a295fd2df39085ad554aa50ecd3b930e398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:22 +0000
Subject: [PATCH 16/50] fix: make timer publish options with quantiles compile
 and keep their scale out of the distribution flag

---
 cxxmetrics/publisher.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cxxmetrics/publisher.hpp b/cxxmetrics/publisher.hpp
index 54dc432..7917686 100644
--- a/cxxmetrics/publisher.hpp
+++ b/cxxmetrics/publisher.hpp
@@ -305,7 +305,7 @@ public:
     template<typename TQuantileOptions, typename = typename std::enable_if<std::is_base_of<basic_quantile_options, TQuantileOptions>::value, void>::type>
     timer_publish_options(TQuantileOptions&& quantile_options, bool rates, bool publish_count = true, const scale_factor& sf = scale_factor()) :
             value_publish_options(sf),
-            histogram_publish_options(quantile_options, publish_count, sf),
+            histogram_publish_options(std::forward<TQuantileOptions>(quantile_options), publish_count, false, sf),
             meter_publish_options(sf),
             rates_(rates)
     { }
@@ -314,7 +314,7 @@ public:
     template<typename TQuantileOptions, typename = typename std::enable_if<std::is_base_of<basic_quantile_options, TQuantileOptions>::value, void>::type>
     timer_publish_options(TQuantileOptions&& quantile_options, bool rates, bool publish_count, bool publish_mean, const scale_factor& sf = scale_factor()) :
             value_publish_options(sf),
-            histogram_publish_options(quantile_options, publish_count, sf),
+            histogram_publish_options(std::forward<TQuantileOptions>(quantile_options), publish_count, false, sf),
             meter_publish_options(publish_mean, sf),
             rates_(rates)
     { }
-- 
2.43.0


From b821e63af514ab27a2fe12c699a0aa4613a282ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:22 +0000
Subject: [PATCH 17/50] fix: assign the rates flag of timer publish options

---
 cxxmetrics/publisher.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cxxmetrics/publisher.hpp b/cxxmetrics/publisher.hpp
index 7917686..f7de02e 100644
--- a/cxxmetrics/publisher.hpp
+++ b/cxxmetrics/publisher.hpp
@@ -323,6 +323,7 @@ public:
     {
         histogram_publish_options::operator=(std::move(other));
         meter_publish_options::operator=(std::move(other));
+        rates_ = other.rates_;
         return *this;
     }
 
-- 
2.43.0


From 245374f964b33ea1e9edeb1815118f3005baa438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:22 +0000
Subject: [PATCH 18/50] fix: forward the clock of a timer as a clock

---
 cxxmetrics/timer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cxxmetrics/timer.hpp b/cxxmetrics/timer.hpp
index 56573b1..ce5c242 100644
--- a/cxxmetrics/timer.hpp
+++ b/cxxmetrics/timer.hpp
@@ -38,7 +38,7 @@ public:
      */
     timer(TReservoir &&reservoir, TClock &&clock) :
             histogram_(std::forward<TReservoir>(reservoir)),
-            clock_(std::forward<TReservoir>(clock))
+            clock_(std::forward<TClock>(clock))
     { }
 
 
-- 
2.43.0


From e8847e81c8d5144705f27429a2f9a231cf9c1978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:22 +0000
Subject: [PATCH 19/50] fix: let timers time callables before C++17

---
 cxxmetrics/metric.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cxxmetrics/metric.hpp b/cxxmetrics/metric.hpp
index 4fbfa07..3512a63 100644
--- a/cxxmetrics/metric.hpp
+++ b/cxxmetrics/metric.hpp
@@ -5,8 +5,8 @@
 
 #if __cplusplus < 201700L
 namespace std {
-template<typename T>
-using invoke_result = result_of<T>;
+template<typename TFn, typename... TArgs>
+using invoke_result = result_of<TFn(TArgs...)>;
 }
 #endif
 
-- 
2.43.0


From 8fd687a5da467ea1ed715db80b06daa33a9705a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:51 +0000
Subject: [PATCH 20/50] fix: let summing gauges be set by assignment

---
 cxxmetrics/gauge.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cxxmetrics/gauge.hpp b/cxxmetrics/gauge.hpp
index 2e4f767..bf5a85e 100644
--- a/cxxmetrics/gauge.hpp
+++ b/cxxmetrics/gauge.hpp
@@ -225,7 +225,7 @@ public:
 
     gauge& operator=(const TGaugeType& value) noexcept
     {
-        gauges::primitive_gauge<TGaugeType>::operator=(value);
+        gauges::primitive_gauge<TGaugeType, TAggregation>::operator=(value);
         return *this;
     }
     gauge& operator=(const gauge& other) = default;
-- 
2.43.0


From b0b19c5de78d2628f57b15c6a4e022688bde4223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:51 +0000
Subject: [PATCH 21/50] fix: honour the aggregation of function and reference
 gauges

---
 cxxmetrics/gauge.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/cxxmetrics/gauge.hpp b/cxxmetrics/gauge.hpp
index bf5a85e..00c8a23 100644
--- a/cxxmetrics/gauge.hpp
+++ b/cxxmetrics/gauge.hpp
@@ -146,7 +146,7 @@ typename functional_gauge<TFn, TAggregation>::gauge_type functional_gauge<TFn, T
 }
 
 template<typename TRefType, gauge_aggregation_type TAggregation = aggregation_average>
-class referential_gauge : public gauge<TRefType>
+class referential_gauge : public gauge<TRefType, TAggregation>
 {
     std::reference_wrapper<TRefType> value_;
 public:
@@ -233,14 +233,14 @@ public:
 };
 
 template<typename T, gauges::gauge_aggregation_type TAggregation>
-class gauge<std::function<T()>, TAggregation> : public gauges::functional_gauge<std::function<T()>>, public metric<gauge<std::function<T()>>>
+class gauge<std::function<T()>, TAggregation> : public gauges::functional_gauge<std::function<T()>, TAggregation>, public metric<gauge<std::function<T()>>>
 {
 public:
     explicit gauge(const std::function<T()> &fn) :
-            gauges::functional_gauge<std::function<T()>>(fn)
+            gauges::functional_gauge<std::function<T()>, TAggregation>(fn)
     { }
     explicit gauge(std::function<T()> &&fn) noexcept :
-            gauges::functional_gauge<std::function<T()>>(std::move(fn))
+            gauges::functional_gauge<std::function<T()>, TAggregation>(std::move(fn))
     { }
     gauge(const gauge& copy) = default;
     gauge(gauge&& mv) = default;
@@ -251,11 +251,11 @@ public:
 };
 
 template<typename TGaugeType, gauges::gauge_aggregation_type TAggregation>
-class gauge<TGaugeType*, TAggregation> : public gauges::referential_gauge<TGaugeType>, public metric<gauge<TGaugeType &>>
+class gauge<TGaugeType*, TAggregation> : public gauges::referential_gauge<TGaugeType, TAggregation>, public metric<gauge<TGaugeType &>>
 {
 public:
     inline explicit gauge(TGaugeType* ptr) noexcept :
-            gauges::referential_gauge<TGaugeType>(*ptr)
+            gauges::referential_gauge<TGaugeType, TAggregation>(*ptr)
     { }
     gauge(const gauge& copy) = default;
     ~gauge() = default;
@@ -264,11 +264,11 @@ public:
 };
 
 template<typename TGaugeType, gauges::gauge_aggregation_type TAggregation>
-class gauge<TGaugeType &, TAggregation> : public gauges::referential_gauge<TGaugeType>, public metric<gauge<TGaugeType &>>
+class gauge<TGaugeType &, TAggregation> : public gauges::referential_gauge<TGaugeType, TAggregation>, public metric<gauge<TGaugeType &>>
 {
 public:
     inline explicit gauge(TGaugeType& ref) noexcept :
-            gauges::referential_gauge<TGaugeType>(ref)
+            gauges::referential_gauge<TGaugeType, TAggregation>(ref)
     { }
     gauge(const gauge& copy) = default;
     ~gauge() = default;
-- 
2.43.0


From f69015e90f5058218369e96bbf067c74eb1f27e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:51 +0000
Subject: [PATCH 22/50] fix: tell summing and averaging gauges apart in the
 registry

---
 cxxmetrics/gauge.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cxxmetrics/gauge.hpp b/cxxmetrics/gauge.hpp
index 00c8a23..5d51a69 100644
--- a/cxxmetrics/gauge.hpp
+++ b/cxxmetrics/gauge.hpp
@@ -212,7 +212,7 @@ TRefType referential_gauge<TRefType, TAggregation>::get() const noexcept
  * \tparam TGaugeType The type of data for the gauge
  */
 template<typename TGaugeType, gauges::gauge_aggregation_type TAggregation = gauges::aggregation_average>
-class gauge : public gauges::primitive_gauge<TGaugeType, TAggregation>, public metric<gauge<TGaugeType>>
+class gauge : public gauges::primitive_gauge<TGaugeType, TAggregation>, public metric<gauge<TGaugeType, TAggregation>>
 {
 public:
     explicit gauge(const TGaugeType& value = TGaugeType()) noexcept :
@@ -233,7 +233,7 @@ public:
 };
 
 template<typename T, gauges::gauge_aggregation_type TAggregation>
-class gauge<std::function<T()>, TAggregation> : public gauges::functional_gauge<std::function<T()>, TAggregation>, public metric<gauge<std::function<T()>>>
+class gauge<std::function<T()>, TAggregation> : public gauges::functional_gauge<std::function<T()>, TAggregation>, public metric<gauge<std::function<T()>, TAggregation>>
 {
 public:
     explicit gauge(const std::function<T()> &fn) :
@@ -251,7 +251,7 @@ public:
 };
 
 template<typename TGaugeType, gauges::gauge_aggregation_type TAggregation>
-class gauge<TGaugeType*, TAggregation> : public gauges::referential_gauge<TGaugeType, TAggregation>, public metric<gauge<TGaugeType &>>
+class gauge<TGaugeType*, TAggregation> : public gauges::referential_gauge<TGaugeType, TAggregation>, public metric<gauge<TGaugeType &, TAggregation>>
 {
 public:
     inline explicit gauge(TGaugeType* ptr) noexcept :
@@ -264,7 +264,7 @@ public:
 };
 
 template<typename TGaugeType, gauges::gauge_aggregation_type TAggregation>
-class gauge<TGaugeType &, TAggregation> : public gauges::referential_gauge<TGaugeType, TAggregation>, public metric<gauge<TGaugeType &>>
+class gauge<TGaugeType &, TAggregation> : public gauges::referential_gauge<TGaugeType, TAggregation>, public metric<gauge<TGaugeType &, TAggregation>>
 {
 public:
     inline explicit gauge(TGaugeType& ref) noexcept :
-- 
2.43.0


From 0e353a2685bd82acf6665068a0f821c9c738c860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:32 +0000
Subject: [PATCH 23/50] fix: visit any number of tagged metrics without growing
 the stack

---
 cxxmetrics/metrics_registry.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/cxxmetrics/metrics_registry.hpp b/cxxmetrics/metrics_registry.hpp
index 259ecf2..e2d103a 100644
--- a/cxxmetrics/metrics_registry.hpp
+++ b/cxxmetrics/metrics_registry.hpp
@@ -272,12 +272,14 @@ template<typename TMetricType>
 void registered_metric<TMetricType>::visit_each(cxxmetrics::internal::registered_snapshot_visitor_builder &builder)
 {
     std::lock_guard<std::mutex> lock(lock_);
+
+    // one buffer for all of the visitors: alloca only releases when returning
+    auto sz = builder.visitor_size() + sizeof(std::max_align_t);
+    void* ptr = alloca(sz);
+    std::align(sizeof(std::max_align_t), builder.visitor_size(), ptr, sz);
+
     for (auto& p : metrics_)
     {
-        auto sz = builder.visitor_size() + sizeof(std::max_align_t);
-        void* ptr = alloca(sz);
-
-        std::align(sizeof(std::max_align_t), sz, ptr, sz);
         auto loc = reinterpret_cast<snapshot_visitor*>(ptr);
         builder.construct(loc, p.first);
         try
-- 
2.43.0


From 6fb2193cde4ef6ead4cbc21cade594468b65b851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:32 +0000
Subject: [PATCH 24/50] fix: escape backslashes and newlines in prometheus
 label values

---
 cxxmetrics_prometheus/snapshot_writer.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cxxmetrics_prometheus/snapshot_writer.hpp b/cxxmetrics_prometheus/snapshot_writer.hpp
index 6708ff6..4b99887 100644
--- a/cxxmetrics_prometheus/snapshot_writer.hpp
+++ b/cxxmetrics_prometheus/snapshot_writer.hpp
@@ -55,6 +55,10 @@ inline std::ostream& format_tag_value(std::ostream& into, const std::string& val
     {
         if (c == '"')
             into << "\\\"";
+        else if (c == '\\')
+            into << "\\\\";
+        else if (c == '\n')
+            into << "\\n";
         else
             into << c;
     }
-- 
2.43.0


From b7c83afb05ccffc3741923e8dde5535056df4935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:32 +0000
Subject: [PATCH 25/50] fix: write valid prometheus label names for empty tag
 names and ones starting with a digit

---
 cxxmetrics_prometheus/snapshot_writer.hpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/cxxmetrics_prometheus/snapshot_writer.hpp b/cxxmetrics_prometheus/snapshot_writer.hpp
index 4b99887..11e467e 100644
--- a/cxxmetrics_prometheus/snapshot_writer.hpp
+++ b/cxxmetrics_prometheus/snapshot_writer.hpp
@@ -49,6 +49,15 @@ inline std::ostream& format_name(std::ostream& into, const cxxmetrics::metric_pa
     return into;
 }
 
+inline std::ostream& format_tag_name(std::ostream& into, const std::string& name)
+{
+    // label names can neither be empty nor start with a digit
+    if (name.empty() || std::isdigit(static_cast<unsigned char>(name[0])))
+        into << '_';
+
+    return format_name_element(into, name);
+}
+
 inline std::ostream& format_tag_value(std::ostream& into, const std::string& value)
 {
     for (auto c : value)
@@ -72,13 +81,13 @@ inline std::ostream& format_tags(std::ostream& into, const cxxmetrics::tag_colle
     if (tag == tags.end())
         return into;
 
-    format_name_element(into, tag->first);
+    format_tag_name(into, tag->first);
     into << "=\"";
     format_tag_value(into, tag->second) << "\"";
     for (++tag; tag != tags.end(); ++tag)
     {
         into << ",";
-        format_name_element(into, tag->first) << "=\"";
+        format_tag_name(into, tag->first) << "=\"";
         format_tag_value(into, tag->second) << "\"";
     }
 
-- 
2.43.0


From f1a64aeb9465518596b50978ff50b8befc77290d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:32 +0000
Subject: [PATCH 26/50] fix: name prometheus windows that aren't a whole number
 of units distinctly

---
 cxxmetrics_prometheus/snapshot_writer.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/cxxmetrics_prometheus/snapshot_writer.hpp b/cxxmetrics_prometheus/snapshot_writer.hpp
index 11e467e..6949019 100644
--- a/cxxmetrics_prometheus/snapshot_writer.hpp
+++ b/cxxmetrics_prometheus/snapshot_writer.hpp
@@ -98,27 +98,28 @@ template<typename TRep, typename TPer>
 std::ostream& format_window(std::ostream& into, const std::chrono::duration<TRep, TPer>& time)
 {
     using namespace std::chrono_literals;
-    if (time >= 1h)
+    // the largest unit that doesn't lose anything, so that different windows have different names
+    if (time >= 1h && time % 1h == time.zero())
     {
         into << std::chrono::duration_cast<std::chrono::hours>(time).count() << "hr";
         return into;
     }
-    if (time >= 1min)
+    if (time >= 1min && time % 1min == time.zero())
     {
         into << std::chrono::duration_cast<std::chrono::minutes>(time).count() << "min";
         return into;
     }
-    if (time >= 1s)
+    if (time >= 1s && time % 1s == time.zero())
     {
         into << std::chrono::duration_cast<std::chrono::seconds>(time).count() << "sec";
         return into;
     }
-    if (time >= 1ms)
+    if (time >= 1ms && time % 1ms == time.zero())
     {
         into << std::chrono::duration_cast<std::chrono::milliseconds>(time).count() << "msec";
         return into;
     }
-    if (time >= 1us)
+    if (time >= 1us && time % 1us == time.zero())
     {
         into << std::chrono::duration_cast<std::chrono::microseconds>(time).count() << "usec";
         return into;
-- 
2.43.0


From 191c3b8de1f5fd9dd30b544426a2183985635b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:32 +0000
Subject: [PATCH 27/50] fix: escape the path in the prometheus help of a timer

---
 cxxmetrics_prometheus/prometheus_timer.hpp |  3 ++-
 cxxmetrics_prometheus/snapshot_writer.hpp  | 15 +++++++++++++++
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/cxxmetrics_prometheus/prometheus_timer.hpp b/cxxmetrics_prometheus/prometheus_timer.hpp
index b5ae3ac..c618f02 100644
--- a/cxxmetrics_prometheus/prometheus_timer.hpp
+++ b/cxxmetrics_prometheus/prometheus_timer.hpp
@@ -11,7 +11,8 @@ class snapshot_writer<cxxmetrics::timer_snapshot>
 {
     void write_header() const
     {
-        stream << "# HELP " << internal::name(path) << " " << path.join("/") << " in microseconds\n";
+        stream << "# HELP " << internal::name(path) << " ";
+        internal::format_help(stream, path.join("/")) << " in microseconds\n";
         stream << "# TYPE " << internal::name(path) << " summary\n";
     }
 
diff --git a/cxxmetrics_prometheus/snapshot_writer.hpp b/cxxmetrics_prometheus/snapshot_writer.hpp
index 6949019..4a4caf6 100644
--- a/cxxmetrics_prometheus/snapshot_writer.hpp
+++ b/cxxmetrics_prometheus/snapshot_writer.hpp
@@ -75,6 +75,21 @@ inline std::ostream& format_tag_value(std::ostream& into, const std::string& val
     return into;
 }
 
+inline std::ostream& format_help(std::ostream& into, const std::string& text)
+{
+    for (auto c : text)
+    {
+        if (c == '\\')
+            into << "\\\\";
+        else if (c == '\n')
+            into << "\\n";
+        else
+            into << c;
+    }
+
+    return into;
+}
+
 inline std::ostream& format_tags(std::ostream& into, const cxxmetrics::tag_collection& tags)
 {
     auto tag = tags.begin();
-- 
2.43.0


From fb29da1d0f80b5a82802dcba1f8d23228d3c55f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:12 +0000
Subject: [PATCH 28/50] fix: leave an empty literal out of a concatenated
 metric path

---
 cxxmetrics/metric_path.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cxxmetrics/metric_path.hpp b/cxxmetrics/metric_path.hpp
index af3d62e..7f98e2c 100644
--- a/cxxmetrics/metric_path.hpp
+++ b/cxxmetrics/metric_path.hpp
@@ -124,7 +124,8 @@ inline metric_path operator/(const char (&pstr)[Size], const metric_path& other)
     std::vector<std::string> paths;
     paths.reserve(other.paths_.size() + 1);
 
-    paths.emplace_back(pstr);
+    if (*pstr)
+        paths.emplace_back(pstr);
     paths.insert(paths.end(), other.paths_.begin(), other.paths_.end());
 
     return metric_path(std::move(paths));
-- 
2.43.0


From 59ec5a9663d5c58b4ecd46f1550fda82cec737a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:12 +0000
Subject: [PATCH 29/50] fix: free the remaining elements of the lock-free stack
 with its own allocator

---
 cxxmetrics/internal/atomic_lifo.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cxxmetrics/internal/atomic_lifo.hpp b/cxxmetrics/internal/atomic_lifo.hpp
index bf31d2c..4b0a90f 100644
--- a/cxxmetrics/internal/atomic_lifo.hpp
+++ b/cxxmetrics/internal/atomic_lifo.hpp
@@ -235,7 +235,7 @@ namespace cxxmetrics {
 
             virtual ~atomic_lifo()
             {
-                deallocator a;
+                deallocator a(alloc_);
                 auto oh = head_.exchange(head_t()).nodev;
                 while (oh)
                 {
-- 
2.43.0


From dfd40bee6ae3d1d788775267c9387c01e3fb0ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:12 +0000
Subject: [PATCH 30/50] fix: sample snapshots of a single value at finite
 quantiles only

---
 cxxmetrics/snapshots.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cxxmetrics/snapshots.hpp b/cxxmetrics/snapshots.hpp
index 75278e5..5e1d835 100644
--- a/cxxmetrics/snapshots.hpp
+++ b/cxxmetrics/snapshots.hpp
@@ -306,7 +306,7 @@ public:
     {
         long double q_proportion = 1.0L / std::min(
             static_cast<long double>(max_to_visit + 1),
-            static_cast<long double>(values_.size() - 1));
+            static_cast<long double>(std::max<std::size_t>(values_.size(), 2) - 1));
 
         for (std::size_t i = 0; i < max_to_visit; i++) {
             long double q = q_proportion * (i + 1);
-- 
2.43.0


From 4003f0646f9b582fe3cce16dfdeab6f770b22b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:35 +0000
Subject: [PATCH 31/50] fix: keep the unit when casting a duration value to
 another duration

---
 cxxmetrics/metric_value.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cxxmetrics/metric_value.hpp b/cxxmetrics/metric_value.hpp
index 0e67ba3..460ef0d 100644
--- a/cxxmetrics/metric_value.hpp
+++ b/cxxmetrics/metric_value.hpp
@@ -901,7 +901,9 @@ namespace chrono
 template<typename _ToDur>
 constexpr _ToDur duration_cast(const cxxmetrics::metric_value &v)
 {
-    return duration_cast<_ToDur>(static_cast<std::chrono::nanoseconds>(v));
+    // not a static_cast, which would construct the nanoseconds from the plain count
+    std::chrono::nanoseconds nanos = v;
+    return duration_cast<_ToDur>(nanos);
 }
 
 }
-- 
2.43.0


From de5a73a64e819c334af6c5a427734bc1f0158723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:34 +0000
Subject: [PATCH 32/50] fix: interpolate quantiles without overflowing the type
 of the samples

---
 cxxmetrics/snapshots.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cxxmetrics/snapshots.hpp b/cxxmetrics/snapshots.hpp
index 5e1d835..3d7188b 100644
--- a/cxxmetrics/snapshots.hpp
+++ b/cxxmetrics/snapshots.hpp
@@ -287,7 +287,7 @@ public:
         if (static_cast<std::size_t>(index) >= values_.size())
             return max();
 
-        return values_[index - 1] + metric_value((pos - index) * static_cast<long double>(values_[index] - values_[index - 1]));
+        return values_[index - 1] + metric_value((pos - index) * (static_cast<long double>(values_[index]) - static_cast<long double>(values_[index - 1])));
     }
 
     /**
@@ -329,7 +329,7 @@ public:
             hnd(values_[index - 1] +
                     metric_value(
                         (pos - static_cast<double>(index)) *
-                        static_cast<long double>(values_[index] - values_[index - 1])),
+                        (static_cast<long double>(values_[index]) - static_cast<long double>(values_[index - 1]))),
                 pos * 100 / static_cast<long double>(values_.size() + 1));
         }
     }
-- 
2.43.0


From 55052be160c9d88bb065a8b3043243e2fb13808a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:13 +0000
Subject: [PATCH 33/50] fix: convert floating point values beyond the signed
 range to unsigned integers

---
 cxxmetrics/metric_value.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cxxmetrics/metric_value.hpp b/cxxmetrics/metric_value.hpp
index 460ef0d..f745c7a 100644
--- a/cxxmetrics/metric_value.hpp
+++ b/cxxmetrics/metric_value.hpp
@@ -174,7 +174,12 @@ public:
     {
         if (valid)
             *valid = true;
-        return static_cast<long long>(std::round(val_));
+
+        // values only an unsigned integer can hold keep their bits, like those of unsigned integers do
+        auto rounded = std::round(val_);
+        if (rounded >= static_cast<T>(9223372036854775808.0L))
+            return static_cast<long long>(static_cast<unsigned long long>(rounded));
+        return static_cast<long long>(rounded);
     }
 
     virtual long double to_float(bool* valid) const override
-- 
2.43.0


From 2f9b973b5dbf257353a4b9fdefff1418b25be40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:48 +0000
Subject: [PATCH 34/50] fix: hash equal numbers and durations alike whatever
 their types

---
 cxxmetrics/metric_value.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cxxmetrics/metric_value.hpp b/cxxmetrics/metric_value.hpp
index f745c7a..cd82284 100644
--- a/cxxmetrics/metric_value.hpp
+++ b/cxxmetrics/metric_value.hpp
@@ -198,7 +198,10 @@ public:
 
     std::size_t hash_value() const override
     {
-        return std::hash<T>()(val_);
+        // numbers that compare equal hash alike, whatever their types
+        if (std::floor(val_) == val_ && val_ >= static_cast<T>(-9223372036854775808.0L) && val_ < static_cast<T>(18446744073709551616.0L))
+            return std::hash<long long>()(to_integral(nullptr));
+        return std::hash<long double>()(val_);
     }
 
     void copy(void* into) const noexcept override
@@ -439,7 +442,7 @@ public:
 
     std::size_t hash_value() const override
     {
-        return std::hash<std::chrono::duration<TRep, TPeriod>>()(dur_);
+        return std::hash<std::chrono::nanoseconds>()(to_nanos(nullptr)); // equal lengths hash alike, whatever their units
     }
 
     void copy(void* into) const noexcept override
-- 
2.43.0


From 44d58b0f3932ed1689095c0fcfa0be698bc10324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:58 +0000
Subject: [PATCH 35/50] fix: keep the unit of duration samples when averaging
 and interpolating

---
 cxxmetrics/snapshots.hpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/cxxmetrics/snapshots.hpp b/cxxmetrics/snapshots.hpp
index 3d7188b..569e2e9 100644
--- a/cxxmetrics/snapshots.hpp
+++ b/cxxmetrics/snapshots.hpp
@@ -228,6 +228,18 @@ public:
  */
 class reservoir_snapshot
 {
+    // averaging and interpolating yields plain numbers, which stand for nanoseconds if the values are durations
+    template<typename TRep, typename TPer>
+    static std::chrono::nanoseconds sample_value(const std::chrono::duration<TRep, TPer>& value)
+    {
+        return std::chrono::duration_cast<std::chrono::nanoseconds>(value);
+    }
+
+    template<typename TElem>
+    static const TElem& sample_value(const TElem& value)
+    {
+        return value;
+    }
 protected:
     std::vector<metric_value> values_;
 public:
@@ -396,7 +408,7 @@ reservoir_snapshot::reservoir_snapshot(TInputIterator begin, const TInputIterato
 
     std::size_t at = 0;
     for (; begin != end && at < size; ++begin, ++at)
-        values_.emplace_back(*begin);
+        values_.emplace_back(sample_value(*begin));
 
     std::sort(values_.begin(), values_.end());
 }
@@ -408,7 +420,7 @@ reservoir_snapshot::reservoir_snapshot(const TElem *a, std::size_t count) noexce
 
     std::size_t at = 0;
     for (; at < count; ++at)
-        values_.emplace_back(a[at]);
+        values_.emplace_back(sample_value(a[at]));
 
     std::sort(values_.begin(), values_.end());
 }
-- 
2.43.0


From f0db684aa2bce6dffb8ac2d1bdabb04b01571c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:47 +0000
Subject: [PATCH 36/50] fix: give different quantiles different labels in
 prometheus output

---
 .../prometheus_histogram.hpp                  |  2 +-
 cxxmetrics_prometheus/prometheus_timer.hpp    |  2 +-
 cxxmetrics_prometheus/snapshot_writer.hpp     | 25 +++++++++++++++++++
 3 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/cxxmetrics_prometheus/prometheus_histogram.hpp b/cxxmetrics_prometheus/prometheus_histogram.hpp
index 9c4717a..2864721 100644
--- a/cxxmetrics_prometheus/prometheus_histogram.hpp
+++ b/cxxmetrics_prometheus/prometheus_histogram.hpp
@@ -28,7 +28,7 @@ public:
 
         stream << internal::name(path) << "_mean{" << internal::tags(tags) << "} " << internal::scale_value(snapshot.mean(), options.histogram_options()) << "\n";
         options.histogram_options().quantiles()->visit(snapshot, [&](cxxmetrics::quantile q, cxxmetrics::metric_value&& value) {
-            stream << internal::name(path) << '{' << "quantile=\"" << (q.percentile() / 100.0) << "\"" << comma << internal::tags(tags) << "} " << internal::scale_value(std::move(value), options.histogram_options()) << "\n";
+            stream << internal::name(path) << '{' << "quantile=\"" << internal::quantile(q) << "\"" << comma << internal::tags(tags) << "} " << internal::scale_value(std::move(value), options.histogram_options()) << "\n";
         });
     }
 };
diff --git a/cxxmetrics_prometheus/prometheus_timer.hpp b/cxxmetrics_prometheus/prometheus_timer.hpp
index c618f02..634413f 100644
--- a/cxxmetrics_prometheus/prometheus_timer.hpp
+++ b/cxxmetrics_prometheus/prometheus_timer.hpp
@@ -31,7 +31,7 @@ public:
         stream << internal::name(path) << "_mean{" << internal::tags(tags) << "} " << internal::scale_value(std::chrono::duration_cast<std::chrono::microseconds>(static_cast<std::chrono::nanoseconds>(snapshot.mean())), options.timer_options()) << "\n";
         options.timer_options().quantiles()->visit(snapshot, [&](cxxmetrics::quantile q, cxxmetrics::metric_value&& value) {
             stream << internal::name(path) <<
-                    '{' << "quantile=\"" << (q.percentile() / 100.0) << "\"" << comma <<
+                    '{' << "quantile=\"" << internal::quantile(q) << "\"" << comma <<
                     internal::tags(tags) << "} " <<
                     internal::scale_value(std::chrono::duration_cast<std::chrono::microseconds>(static_cast<std::chrono::nanoseconds>(value)), options.timer_options()) << "\n";
         });
diff --git a/cxxmetrics_prometheus/snapshot_writer.hpp b/cxxmetrics_prometheus/snapshot_writer.hpp
index 4a4caf6..b606e2c 100644
--- a/cxxmetrics_prometheus/snapshot_writer.hpp
+++ b/cxxmetrics_prometheus/snapshot_writer.hpp
@@ -163,6 +163,15 @@ std::ostream& operator<<(std::ostream& stream, prometheus_time_window_t<TRep, TP
     return format_window(stream, w.duration);
 }
 
+inline std::ostream& format_quantile(std::ostream& into, const cxxmetrics::quantile& q)
+{
+    // as many digits as the encoding of a quantile carries, so that different quantiles have different labels
+    auto precision = into.precision(9);
+    into << (q.percentile() / 100.0);
+    into.precision(precision);
+    return into;
+}
+
 struct prometheus_tags_t
 {
     const cxxmetrics::tag_collection& tags;
@@ -195,6 +204,22 @@ inline std::ostream& operator<<(std::ostream& stream, prometheus_name_t t)
     return format_name(stream, t.name);
 }
 
+struct prometheus_quantile_t
+{
+    const cxxmetrics::quantile& value;
+    prometheus_quantile_t(const cxxmetrics::quantile& q) : value(q) { }
+};
+
+inline prometheus_quantile_t quantile(const cxxmetrics::quantile& q)
+{
+    return prometheus_quantile_t(q);
+}
+
+inline std::ostream& operator<<(std::ostream& stream, prometheus_quantile_t q)
+{
+    return format_quantile(stream, q.value);
+}
+
 };
 
 #define CXXMETRICS_PROMETHEUS_SNAPSHOT_WRITER_INIT \
-- 
2.43.0


From aaaf0fc21dbbe45e790cae318fd5414fa2985d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:25 +0000
Subject: [PATCH 37/50] fix: don't lose marks when several threads end an
 interval of a moving average

---
 cxxmetrics/ewma.hpp | 71 +++++++++++++++++++++++----------------------
 1 file changed, 37 insertions(+), 34 deletions(-)

diff --git a/cxxmetrics/ewma.hpp b/cxxmetrics/ewma.hpp
index 3c6d7f9..a29b4bf 100644
--- a/cxxmetrics/ewma.hpp
+++ b/cxxmetrics/ewma.hpp
@@ -83,6 +83,7 @@ private:
     clock_point last_;
     std::atomic<TValue> pending_;
     std::atomic<bool> ticked_;
+    std::atomic<bool> ticking_;
 
     static constexpr double get_alpha()
     {
@@ -92,6 +93,9 @@ private:
     template<bool TWrite = true>
     TValue tick(const clock_point &at) noexcept;
 
+    template<bool TWrite>
+    TValue apply_pending(const clock_point &at) noexcept;
+
 public:
     ewma(const TClockGet &clock = TClockGet()) noexcept;
     ewma(const ewma &e) noexcept;
@@ -119,7 +123,8 @@ ewma<TClockGet, TWindow, TInterval, TValue>::ewma(const TClockGet &clock) noexce
         rate_(0),
         last_(clk_()),
         pending_(0),
-        ticked_(false)
+        ticked_(false),
+        ticking_(false)
 {
 }
 
@@ -129,7 +134,8 @@ ewma<TClockGet, TWindow, TInterval, TValue>::ewma(const ewma &c) noexcept :
     rate_(c.rate_.load()),
     last_(c.last_),
     pending_(c.pending_.load()),
-    ticked_(c.ticked_.load())
+    ticked_(c.ticked_.load()),
+    ticking_(false)
 {
 
 }
@@ -172,47 +178,49 @@ TValue ewma<TClockGet, TWindow, TInterval, TValue>::rate() const noexcept
 template<typename TClockGet, period::value TWindow, period::value TInterval, typename TValue>
 template<bool TWrite>
 TValue ewma<TClockGet, TWindow, TInterval, TValue>::tick(const clock_point &at) noexcept
+{
+    // one thread at a time ends an interval, the others just go by what there is
+    if (!TWrite || ticking_.exchange(true))
+        return apply_pending<false>(at);
+
+    auto rate = apply_pending<true>(at);
+    ticking_.store(false);
+    return rate;
+}
+
+template<typename TClockGet, period::value TWindow, period::value TInterval, typename TValue>
+template<bool TWrite>
+TValue ewma<TClockGet, TWindow, TInterval, TValue>::apply_pending(const clock_point &at) noexcept
 {
     long long missed_intervals;
     clock_point last;
 
     last = last_;
 
-    auto pending = pending_.load();
     auto nrate = rate_.load();
 
     if (at < last)
         return nrate;
 
-    if (nrate == TValue{} && !ticked_.load())
-    {
-        if ((at - last) < period(TInterval))
-            return pending;
+    // a read-only tick must not leave a trace
+    const bool ends = TWrite && !((at - last) < period(TInterval));
 
-        // a read-only tick must not leave a trace
-        if (!TWrite)
-            return pending;
+    // whatever gets marked from here on counts for the next interval
+    TValue pending = ends ? pending_.exchange(TValue{}) : pending_.load();
 
-        bool ticked = false;
-        if (ticked_.compare_exchange_weak(ticked, true))
+    if (nrate == TValue{} && !ticked_.load())
+    {
+        if (ends)
         {
-            // use constexpr if with 17
-            if (TWrite)
-            {
-                // one thread sets the last timestamp
-                if (!pending_.compare_exchange_weak(pending, 0))
-                    return pending; // someone else ticked from under us
-
-                if (rate_.compare_exchange_weak(nrate, pending))
-                    last_ = at;
-            }
-
-            return pending;
+            rate_.store(pending);
+            last_ = at;
+            ticked_.store(true);
         }
+
+        return pending;
     }
 
     // apply the pending value to our current rate
-    // if someone else already snagged the pending value, start over
     auto rate = nrate + (alpha_ * (static_cast<long double>(pending) - nrate));
 
     // figure out how many intervals we've missed
@@ -226,16 +234,11 @@ TValue ewma<TClockGet, TWindow, TInterval, TValue>::tick(const clock_point &at)
     if (std::isnan(rate) || std::isinf(rate))
         rate = TValue{};
 
-    // make sure that last_ didn't catch up with us
-    if (!TWrite || (at - last) < period(TInterval))
-        return rate;
-
-    if (!pending_.compare_exchange_weak(pending, 0))
-        return rate; // someone else already either ticked or added a pending value
-
-    rate_.store(rate);
-    if (last_ < at)
+    if (ends)
+    {
+        rate_.store(rate);
         last_ = at;
+    }
 
     return rate;
 }
-- 
2.43.0


From 3348f4ecfdd8e488d2f40ca00601b5d25ee5ef41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:13 +0000
Subject: [PATCH 38/50] fix: make elements of the ring buffer available once
 they and those before them are written

---
 cxxmetrics/ringbuf.hpp | 45 ++++++++++++++++++++++++++++--------------
 1 file changed, 30 insertions(+), 15 deletions(-)

diff --git a/cxxmetrics/ringbuf.hpp b/cxxmetrics/ringbuf.hpp
index b35ffd7..79236fa 100644
--- a/cxxmetrics/ringbuf.hpp
+++ b/cxxmetrics/ringbuf.hpp
@@ -30,6 +30,9 @@ class ringbuf
 
     // how many elements in the ring buffer that are available
     std::atomic_uint_fast64_t size_;
+
+    // which elements have been written, and not just claimed by way of the tail
+    std::array<std::atomic_bool, TSize> written_;
 public:
 
     class iterator : public std::iterator<std::input_iterator_tag, TElemType>
@@ -179,7 +182,8 @@ const TElemType *ringbuf<TElemType, TSize>::iterator::operator->() const noexcep
 template<typename TElemType, size_t TSize>
 ringbuf<TElemType, TSize>::ringbuf() noexcept :
         tail_(0),
-        size_(0)
+        size_(0),
+        written_{}
 {
     static_assert(TSize > 1, "The ringbuffer must have a size of at least 2");
 }
@@ -188,11 +192,15 @@ template<typename TElemType, size_t TSize>
 template<typename TInputIterator>
 ringbuf<TElemType, TSize>::ringbuf(TInputIterator start, const TInputIterator &end) noexcept :
         tail_(0),
-        size_(0)
+        size_(0),
+        written_{}
 {
     std::size_t i = 0;
     for (; start != end && i < TSize; ++i, ++start)
+    {
         data_[i] = *start;
+        written_[i] = true;
+    }
 
     tail_ = i;
     size_ = i;
@@ -217,7 +225,13 @@ ringbuf<TElemType, TSize> &ringbuf<TElemType, TSize>::operator=(const ringbuf &o
     auto it = other.begin();
     std::size_t i = 0;
     for (; it != other.end() && i < TSize; ++i, ++it)
+    {
         data_[i] = *it;
+        written_[i] = true;
+    }
+
+    for (auto j = i; j < TSize; ++j)
+        written_[j] = false;
 
     tail_ = i;
     size_ = i;
@@ -243,20 +257,21 @@ typename ringbuf<TElemType, TSize>::iterator ringbuf<TElemType, TSize>::end() co
 template<typename TElemType, size_t TSize>
 void ringbuf<TElemType, TSize>::push(const TElemType &elem) noexcept
 {
-    auto writeloc = tail_.fetch_add(1);
-    data_[writeloc % TSize] = elem;
-
-    if (++writeloc > TSize)
-        writeloc = TSize;
-
-    auto csize = size_.load(std::memory_order_acquire);
-    while (true)
+    auto writeloc = tail_.fetch_add(1) % TSize;
+    data_[writeloc] = elem;
+
+    auto csize = size_.load();
+    if (csize >= TSize)
+        return;
+
+    // another thread may have claimed an earlier element without having written it yet. In that
+    // case, that thread is going to make this element available along with its own
+    written_[writeloc] = true;
+    csize = size_.load();
+    while (csize < TSize && written_[csize])
     {
-        if (writeloc <= csize || csize >= TSize)
-            return;
-
-        if (size_.compare_exchange_weak(csize, writeloc, std::memory_order_release, std::memory_order_acquire))
-            return;
+        if (size_.compare_exchange_weak(csize, csize + 1))
+            ++csize;
     }
 }
 
-- 
2.43.0


From f14b06c351c61c48a4347aaf6f8bdb6384db42a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:13 +0000
Subject: [PATCH 39/50] fix: make elements of the uniform reservoir available
 once they and those before them are written

---
 cxxmetrics/uniform_reservoir.hpp | 35 +++++++++++++++++++++++++++-----
 1 file changed, 30 insertions(+), 5 deletions(-)

diff --git a/cxxmetrics/uniform_reservoir.hpp b/cxxmetrics/uniform_reservoir.hpp
index 6f63200..27447ac 100644
--- a/cxxmetrics/uniform_reservoir.hpp
+++ b/cxxmetrics/uniform_reservoir.hpp
@@ -3,6 +3,7 @@
 
 #include "snapshots.hpp"
 #include <algorithm>
+#include <array>
 #include <atomic>
 #include <chrono>
 #include <random>
@@ -23,6 +24,10 @@ class uniform_reservoir
     TElem elems_[TSize];
     std::atomic_uint_fast64_t count_;
 
+    // how many elements are available, and which have been written and not just claimed by way of the count
+    std::atomic_uint_fast64_t size_;
+    std::array<std::atomic_bool, TSize> written_;
+
     static unsigned generate_seed() noexcept
     {
         auto full = std::chrono::system_clock::now().time_since_epoch();
@@ -69,32 +74,42 @@ public:
      */
     reservoir_snapshot snapshot() const noexcept
     {
-        return reservoir_snapshot(&elems_[0], std::min(count_.load(), static_cast<decltype(count_.load())>(TSize)));
+        return reservoir_snapshot(&elems_[0], size_.load());
     }
 };
 
 template<typename TElem, std::size_t TSize>
 uniform_reservoir<TElem, TSize>::uniform_reservoir() noexcept :
         gen_(generate_seed()),
-        count_(0)
+        count_(0),
+        size_(0),
+        written_{}
 {
 }
 
 template<typename TElem, std::size_t TSize>
 uniform_reservoir<TElem, TSize>::uniform_reservoir(const uniform_reservoir &other) noexcept :
         gen_(generate_seed()),
-        count_(other.count_.load())
+        count_(other.size_.load()),
+        size_(count_.load()),
+        written_{}
 {
-    for (std::size_t i = 0; i < count_; i++)
+    for (std::size_t i = 0; i < size_; i++)
+    {
         elems_[i] = other.elems_[i];
+        written_[i] = true;
+    }
 }
 
 template<typename TElem, std::size_t TSize>
 uniform_reservoir<TElem, TSize> &uniform_reservoir<TElem, TSize>::operator=(const uniform_reservoir &other) noexcept
 {
-    auto count = std::min<std::size_t>(other.count_.load(), TSize);
+    auto count = other.size_.load();
     std::copy(other.elems_, other.elems_ + count, elems_);
+    for (std::size_t i = 0; i < TSize; i++)
+        written_[i] = i < count;
     count_ = count;
+    size_ = count;
     return *this;
 }
 
@@ -106,6 +121,16 @@ void uniform_reservoir<TElem, TSize>::update(const TElem &value) noexcept
     if (c < TSize)
     {
         elems_[c] = value;
+
+        // another thread may have claimed an earlier element without having written it yet. In that
+        // case, that thread is going to make this element available along with its own
+        written_[c] = true;
+        auto size = size_.load();
+        while (size < TSize && written_[size])
+        {
+            if (size_.compare_exchange_weak(size, size + 1))
+                ++size;
+        }
         return;
     }
 
-- 
2.43.0


From 2b150fd69d3092aaebc388187fe4a764d53a28fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:50 +0000
Subject: [PATCH 40/50] fix: sample a snapshot at finite quantiles whatever the
 maximum number of values

---
 cxxmetrics/snapshots.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cxxmetrics/snapshots.hpp b/cxxmetrics/snapshots.hpp
index 569e2e9..fe61a8f 100644
--- a/cxxmetrics/snapshots.hpp
+++ b/cxxmetrics/snapshots.hpp
@@ -317,7 +317,7 @@ public:
     void sample(std::size_t max_to_visit, Handler hnd) const
     {
         long double q_proportion = 1.0L / std::min(
-            static_cast<long double>(max_to_visit + 1),
+            static_cast<long double>(max_to_visit) + 1,
             static_cast<long double>(std::max<std::size_t>(values_.size(), 2) - 1));
 
         for (std::size_t i = 0; i < max_to_visit; i++) {
-- 
2.43.0


From 3a68e3a693d0b21dff78819691b2d6e3ba897bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:05 +0000
Subject: [PATCH 41/50] fix: headers include what they use

---
 cxxmetrics/gauge.hpp                | 1 +
 cxxmetrics/internal/atomic_lifo.hpp | 1 +
 cxxmetrics/pool.hpp                 | 4 +++-
 cxxmetrics/ringbuf.hpp              | 2 ++
 4 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/cxxmetrics/gauge.hpp b/cxxmetrics/gauge.hpp
index 5d51a69..ee27f66 100644
--- a/cxxmetrics/gauge.hpp
+++ b/cxxmetrics/gauge.hpp
@@ -2,6 +2,7 @@
 #define CXXMETRICS_GAUGE_HPP
 
 #include "metric.hpp"
+#include <functional>
 #include <type_traits>
 
 namespace cxxmetrics
diff --git a/cxxmetrics/internal/atomic_lifo.hpp b/cxxmetrics/internal/atomic_lifo.hpp
index 4b0a90f..9f6a9d6 100644
--- a/cxxmetrics/internal/atomic_lifo.hpp
+++ b/cxxmetrics/internal/atomic_lifo.hpp
@@ -2,6 +2,7 @@
 #define CXXMETRICS_ATOMIC_LIFO_HPP
 
 #include <initializer_list>
+#include <iterator>
 #include <memory>
 #include <atomic>
 #include <type_traits>
diff --git a/cxxmetrics/pool.hpp b/cxxmetrics/pool.hpp
index 4c936e0..d1795dc 100644
--- a/cxxmetrics/pool.hpp
+++ b/cxxmetrics/pool.hpp
@@ -2,6 +2,8 @@
 #define CXXMETRICS_POOL_HPP
 
 #include <atomic>
+#include <cstddef>
+#include <memory>
 
 namespace cxxmetrics
 {
@@ -99,7 +101,7 @@ public:
     /**
      * \brief Convenience wrapper to assign nullptr to pool_ptr instances
      */
-    constexpr pool_ptr(nullptr_t ptr) noexcept :
+    constexpr pool_ptr(std::nullptr_t ptr) noexcept :
             pool_ptr()
     { }
 
diff --git a/cxxmetrics/ringbuf.hpp b/cxxmetrics/ringbuf.hpp
index 79236fa..31b4426 100644
--- a/cxxmetrics/ringbuf.hpp
+++ b/cxxmetrics/ringbuf.hpp
@@ -1,7 +1,9 @@
 #ifndef CXXMETRICS_RINGBUF_HPP
 #define CXXMETRICS_RINGBUF_HPP
 
+#include <array>
 #include <atomic>
+#include <iterator>
 #include <thread>
 
 namespace cxxmetrics
-- 
2.43.0


From fccd46fdb5037c42928d650a581c740fa75b5d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:08 +0000
Subject: [PATCH 42/50] fix: don't name a pair of an abstract class in the
 default repository's allocator

Unqualified calls and operators with a registry's pointer or reference look into that pair and didn't compile.
---
 cxxmetrics/metrics_registry.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cxxmetrics/metrics_registry.hpp b/cxxmetrics/metrics_registry.hpp
index e2d103a..11d96fb 100644
--- a/cxxmetrics/metrics_registry.hpp
+++ b/cxxmetrics/metrics_registry.hpp
@@ -428,7 +428,7 @@ basic_default_repository<TAlloc>::get_publish_data() const
     return static_cast<TDataType*>(fnd->second.get());
 }
 
-using default_repository = basic_default_repository<std::allocator<std::pair<metric_path, basic_registered_metric>>>;
+using default_repository = basic_default_repository<std::allocator<std::pair<const metric_path, std::unique_ptr<basic_registered_metric>>>>;
 
 /**
  * \brief The registry where metrics are registered
-- 
2.43.0


From 4835ef0fea0d2f06e595a937bb106aa4a9d271ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:36 +0000
Subject: [PATCH 43/50] fix: install every header where the others include it

snapshots.hpp and three of the prometheus headers were missing and internal/atomic_lifo.hpp lost its directory.
---
 cxxmetrics/CMakeLists.txt            | 2 +-
 cxxmetrics_prometheus/CMakeLists.txt | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cxxmetrics/CMakeLists.txt b/cxxmetrics/CMakeLists.txt
index 2acaee2..5cc68c8 100644
--- a/cxxmetrics/CMakeLists.txt
+++ b/cxxmetrics/CMakeLists.txt
@@ -43,4 +43,4 @@ target_include_directories(cxxmetrics::cxxmetrics INTERFACE "${CMAKE_CURRENT_SOU
 target_sources_local(cxxmetrics::cxxmetrics INTERFACE ${HEADERS})
 target_link_libraries(cxxmetrics::cxxmetrics INTERFACE atomic)
 
-install(FILES ${HEADERS} DESTINATION "include/cxxmetrics")
\ No newline at end of file
+install(DIRECTORY "${CMAKE_CURRENT_SOURCE_DIR}/" DESTINATION "include/cxxmetrics" FILES_MATCHING PATTERN "*.hpp")
\ No newline at end of file
diff --git a/cxxmetrics_prometheus/CMakeLists.txt b/cxxmetrics_prometheus/CMakeLists.txt
index e045ed8..6d91af0 100644
--- a/cxxmetrics_prometheus/CMakeLists.txt
+++ b/cxxmetrics_prometheus/CMakeLists.txt
@@ -26,7 +26,7 @@ target_include_directories(cxxmetrics_prometheus INTERFACE "${CMAKE_CURRENT_SOUR
 target_sources_local(cxxmetrics_prometheus INTERFACE ${HEADERS})
 target_link_libraries(cxxmetrics_prometheus INTERFACE cxxmetrics_prometheus)
 
-install(FILES ${HEADERS} DESTINATION "include/cxxmetrics_prometheus")
+install(DIRECTORY "${CMAKE_CURRENT_SOURCE_DIR}/" DESTINATION "include/cxxmetrics_prometheus" FILES_MATCHING PATTERN "*.hpp")
 
 install(TARGETS cxxmetrics_prometheus
         LIBRARY DESTINATION lib
-- 
2.43.0


From a7f17a5212256b32f6979aef84246b144231c523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:37 +0000
Subject: [PATCH 44/50] fix: don't give storage that is in use again to another
 pooled object

---
 cxxmetrics/pool.hpp | 51 ++++++++++++++++++++++++++++++++-------------
 1 file changed, 36 insertions(+), 15 deletions(-)

diff --git a/cxxmetrics/pool.hpp b/cxxmetrics/pool.hpp
index d1795dc..2f87192 100644
--- a/cxxmetrics/pool.hpp
+++ b/cxxmetrics/pool.hpp
@@ -203,6 +203,34 @@ class pool
         return data;
     }
 
+#ifndef CXXMETRICS_DISABLE_POOLING
+    data_type *reuse() noexcept
+    {
+        // take the whole list: a lone head might be taken and released again, in front of
+        // something else, between looking at what follows it and taking it
+        data_type *head = v_.exchange(nullptr);
+        if (head == nullptr)
+            return nullptr;
+
+        data_type *rest = head->next;
+        data_type *released = nullptr;
+        if (rest != nullptr && !v_.compare_exchange_strong(released, rest))
+        {
+            // more was released in the meantime, the rest goes in front of it
+            data_type *last = rest;
+            while (last->next != nullptr)
+                last = last->next;
+
+            do
+            {
+                last->next = released;
+            } while (!v_.compare_exchange_strong(released, rest));
+        }
+
+        return head;
+    }
+#endif
+
     void finish(data_type *data) noexcept
     {
         data->value().~TValue();
@@ -262,23 +290,16 @@ public:
      */
     pool_ptr<TValue, TAlloc> allocate(const TValue &value = TValue()) noexcept
     {
-        data_type *head = v_.load();
-
-        while (true)
-        {
 #ifndef CXXMETRICS_DISABLE_POOLING
-            if (head == nullptr)
-#endif
-                return pool_ptr<TValue, TAlloc>(allocnew(value));
-
-            data_type *next = head->next;
-            if (v_.compare_exchange_strong(head, next))
-            {
-                head->next = reinterpret_cast<data_type *>(0x11);
-                new (&head->value()) TValue(value);
-                return pool_ptr<TValue, TAlloc>(head);
-            }
+        data_type *data = reuse();
+        if (data != nullptr)
+        {
+            data->next = reinterpret_cast<data_type *>(0x11);
+            new (&data->value()) TValue(value);
+            return pool_ptr<TValue, TAlloc>(data);
         }
+#endif
+        return pool_ptr<TValue, TAlloc>(allocnew(value));
     }
 };
 
-- 
2.43.0


From 1cda44c6f669bec327eeeffa9d3679cc4137626a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:11 +0000
Subject: [PATCH 45/50] fix: call handlers that return references

---
 cxxmetrics/snapshots.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cxxmetrics/snapshots.hpp b/cxxmetrics/snapshots.hpp
index fe61a8f..6835a18 100644
--- a/cxxmetrics/snapshots.hpp
+++ b/cxxmetrics/snapshots.hpp
@@ -538,7 +538,7 @@ class invokable_snapshot_visitor : public snapshot_visitor
     class has_overload
     {
         template<typename _T>
-        static std::true_type check(decltype(std::declval<_T>()(std::declval<TSnapshot>()))*);
+        static std::true_type check(typename std::remove_reference<decltype(std::declval<_T>()(std::declval<TSnapshot>()))>::type*);
         template<typename _T>
         static std::false_type check(...);
     public:
-- 
2.43.0


From 68118206cf7dcdc57255eeeee6782ca02cfaa8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:12 +0000
Subject: [PATCH 46/50] fix: let a handler of all metrics change its state,
 like one of the aggregate

---
 cxxmetrics/metrics_registry.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cxxmetrics/metrics_registry.hpp b/cxxmetrics/metrics_registry.hpp
index 11d96fb..fe290b3 100644
--- a/cxxmetrics/metrics_registry.hpp
+++ b/cxxmetrics/metrics_registry.hpp
@@ -35,10 +35,10 @@ class invokable_snapshot_visitor_builder : public registered_snapshot_visitor_bu
 
     class bound_visitor
     {
-        const TVisitor& visitor_;
+        TVisitor& visitor_;
         const tag_collection& tags_;
     public:
-        bound_visitor(const TVisitor& v, const tag_collection& t) :
+        bound_visitor(TVisitor& v, const tag_collection& t) :
             visitor_(v),
             tags_(t)
         { }
-- 
2.43.0


From 5932dd11591deebb8ea3972717f8b2e5fee2d0e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:35 +0000
Subject: [PATCH 47/50] fix: values of text and numbers that are equal hash
 alike and compare the same from either side

---
 cxxmetrics/metric_value.hpp | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/cxxmetrics/metric_value.hpp b/cxxmetrics/metric_value.hpp
index cd82284..d0a3ad1 100644
--- a/cxxmetrics/metric_value.hpp
+++ b/cxxmetrics/metric_value.hpp
@@ -333,15 +333,26 @@ public:
     std::chrono::nanoseconds to_nanos(bool* valid) const override
     {
         bool lvalid;
-        auto lv = to_integral(&lvalid);
-        if (lvalid)
+        if (valid == nullptr)
+            valid = &lvalid;
+        auto lv = to_integral(valid);
+        if (*valid)
             return std::chrono::nanoseconds(lv);
 
-        return std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::duration<long double, std::chrono::nanoseconds::period>(to_float(nullptr)));
+        auto fv = to_float(valid);
+        if (!*valid)
+            return std::chrono::nanoseconds::zero();
+
+        return std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::duration<long double, std::chrono::nanoseconds::period>(fv));
     }
 
     std::size_t hash_value() const override
     {
+        // a number that this text is equal to hashes alike
+        bool valid;
+        auto fv = to_float(&valid);
+        if (valid && !std::isnan(fv))
+            return float_variant_data<long double>(fv).hash_value();
         return std::hash<std::string>()(val_);
     }
 
@@ -401,7 +412,9 @@ public:
 
     int compare(const variant_data& other) const noexcept override
     {
-        return val_.compare(other.to_string());
+        // only texts compare as texts, what another value makes of this one holds from either side
+        auto text = dynamic_cast<const string_variant_data*>(&other);
+        return text ? val_.compare(text->val_) : -other.compare(*this);
     }
 };
 
@@ -517,6 +530,9 @@ public:
     {
         bool valid;
         auto n = other.to_nanos(&valid);
+        if (!valid)
+            return -1;
+
         return dur_ < n ? -1 : dur_ == n ? 0 : 1;
     }
 };
-- 
2.43.0


From cad66ad426a4b563959dff776bef07f531ebbf7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:35 +0000
Subject: [PATCH 48/50] fix: a value survives being moved to itself, as when it
 is swapped with itself

---
 cxxmetrics/metric_value.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cxxmetrics/metric_value.hpp b/cxxmetrics/metric_value.hpp
index d0a3ad1..f4cd251 100644
--- a/cxxmetrics/metric_value.hpp
+++ b/cxxmetrics/metric_value.hpp
@@ -665,6 +665,9 @@ public:
 
     variant_data_holder& operator=(variant_data_holder&& other) noexcept
     {
+        if (this == &other)
+            return *this;
+
         as<variant_data>()->~variant_data();
         other.as<variant_data>()->move(std::addressof(v));
         return *this;
-- 
2.43.0


From 8820281d8f8083032cf27e3f99a9f7f989867fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:21 +0000
Subject: [PATCH 49/50] fix: a text with a NUL character in it isn't taken for
 the number before that

---
 cxxmetrics/metric_value.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cxxmetrics/metric_value.hpp b/cxxmetrics/metric_value.hpp
index f4cd251..3ef6928 100644
--- a/cxxmetrics/metric_value.hpp
+++ b/cxxmetrics/metric_value.hpp
@@ -288,7 +288,7 @@ public:
         if (val_[0] == '-')
         {
             auto res = strtoll(val_.c_str(), &end, 10);
-            if (!end || *end)
+            if (end != val_.c_str() + val_.length())
             {
                 *valid = false;
                 return 0;
@@ -299,7 +299,7 @@ public:
         }
 
         auto res = strtoull(val_.c_str(), &end, 10);
-        if (!end || *end)
+        if (end != val_.c_str() + val_.length())
         {
             *valid = false;
             return 0;
@@ -321,7 +321,7 @@ public:
 
         char* end = nullptr;
         auto res = strtold(val_.c_str(), &end);
-        if (!end || *end)
+        if (end != val_.c_str() + val_.length())
         {
             *valid = false;
             return std::numeric_limits<long double>::quiet_NaN();
-- 
2.43.0


From 088ff53a75b931decde878f66d72762708390e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:36 +0000
Subject: [PATCH 50/50] fix: label prometheus windows and quantiles the same
 whatever the state of the stream

---
 cxxmetrics_prometheus/snapshot_writer.hpp | 24 +++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/cxxmetrics_prometheus/snapshot_writer.hpp b/cxxmetrics_prometheus/snapshot_writer.hpp
index b606e2c..238274e 100644
--- a/cxxmetrics_prometheus/snapshot_writer.hpp
+++ b/cxxmetrics_prometheus/snapshot_writer.hpp
@@ -2,7 +2,10 @@
 #define CXXMETRICS_SNAPSHOT_WRITER_HPP
 
 #include <cctype>
+#include <locale>
 #include <ostream>
+#include <sstream>
+#include <string>
 #include <cxxmetrics/snapshots.hpp>
 #include <cxxmetrics/publisher.hpp>
 
@@ -116,31 +119,31 @@ std::ostream& format_window(std::ostream& into, const std::chrono::duration<TRep
     // the largest unit that doesn't lose anything, so that different windows have different names
     if (time >= 1h && time % 1h == time.zero())
     {
-        into << std::chrono::duration_cast<std::chrono::hours>(time).count() << "hr";
+        into << std::to_string(std::chrono::duration_cast<std::chrono::hours>(time).count()) << "hr";
         return into;
     }
     if (time >= 1min && time % 1min == time.zero())
     {
-        into << std::chrono::duration_cast<std::chrono::minutes>(time).count() << "min";
+        into << std::to_string(std::chrono::duration_cast<std::chrono::minutes>(time).count()) << "min";
         return into;
     }
     if (time >= 1s && time % 1s == time.zero())
     {
-        into << std::chrono::duration_cast<std::chrono::seconds>(time).count() << "sec";
+        into << std::to_string(std::chrono::duration_cast<std::chrono::seconds>(time).count()) << "sec";
         return into;
     }
     if (time >= 1ms && time % 1ms == time.zero())
     {
-        into << std::chrono::duration_cast<std::chrono::milliseconds>(time).count() << "msec";
+        into << std::to_string(std::chrono::duration_cast<std::chrono::milliseconds>(time).count()) << "msec";
         return into;
     }
     if (time >= 1us && time % 1us == time.zero())
     {
-        into << std::chrono::duration_cast<std::chrono::microseconds>(time).count() << "usec";
+        into << std::to_string(std::chrono::duration_cast<std::chrono::microseconds>(time).count()) << "usec";
         return into;
     }
 
-    into << std::chrono::duration_cast<std::chrono::nanoseconds>(time).count() << "nsec";
+    into << std::to_string(std::chrono::duration_cast<std::chrono::nanoseconds>(time).count()) << "nsec";
     return into;
 }
 
@@ -166,10 +169,11 @@ std::ostream& operator<<(std::ostream& stream, prometheus_time_window_t<TRep, TP
 inline std::ostream& format_quantile(std::ostream& into, const cxxmetrics::quantile& q)
 {
     // as many digits as the encoding of a quantile carries, so that different quantiles have different labels
-    auto precision = into.precision(9);
-    into << (q.percentile() / 100.0);
-    into.precision(precision);
-    return into;
+    std::ostringstream text;
+    text.imbue(std::locale::classic());
+    text.precision(9);
+    text << (q.percentile() / 100.0);
+    return into << text.str();
 }
 
 struct prometheus_tags_t
-- 
2.43.0

