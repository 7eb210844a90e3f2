From ca368ec5aa1b2577f78958a6cae2b66ebd07a9ff Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:03 +0000
Subject: [PATCH 01/29] fix: compare metric values by their mathematical value

Integral comparisons subtracted in the operand type and truncated the
difference to int, and narrowed the other operand first, so values 2^32
apart compared equal and large spreads sorted wrongly.
---
 cxxmetrics/metric_value.hpp | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/cxxmetrics/metric_value.hpp b/cxxmetrics/metric_value.hpp
index 55271e1..211f38e 100644
--- a/cxxmetrics/metric_value.hpp
+++ b/cxxmetrics/metric_value.hpp
@@ -31,6 +31,10 @@ public:
     virtual void negate() noexcept = 0;
     virtual void bitwise_negate() noexcept = 0;
     virtual int compare(const variant_data& other) const noexcept = 0;
+    // whether an integral value exceeds the range of to_integral, which then carries its two's complement
+    virtual bool exceeds_integral() const noexcept { return false; }
+    // whether the value is held as a floating point number
+    virtual bool is_floating() const noexcept { return false; }
 };
 
 template<typename T>
@@ -145,8 +149,8 @@ public:
     int compare(const variant_data& other) const noexcept override
     {
         bool valid;
-        auto lv = static_cast<T>(other.to_integral(&valid));
-        if (!valid)
+        auto lv = other.to_integral(&valid);
+        if (!valid || other.is_floating())
         {
             auto fv = other.to_float(&valid);
             if (!valid)
@@ -155,7 +159,17 @@ public:
             return val_ < fv ? -1 : val_ == fv ? 0 : 1;
         }
 
-        return val_ - lv;
+        // a value that exceeds the signed range is greater than any that doesn't
+        if (exceeds_integral() != other.exceeds_integral())
+            return exceeds_integral() ? 1 : -1;
+
+        auto v = static_cast<long long>(val_);
+        return v < lv ? -1 : v == lv ? 0 : 1;
+    }
+
+    bool exceeds_integral() const noexcept override
+    {
+        return !std::is_signed<T>::value && static_cast<long long>(val_) < 0;
     }
 };
 
@@ -248,12 +262,17 @@ public:
     int compare(const variant_data& other) const noexcept override
     {
         bool valid;
-        auto fv = static_cast<T>(other.to_float(&valid));
+        auto fv = other.to_float(&valid);
         if (!valid)
             return -1;
 
         return val_ < fv ? -1 : val_ == fv ? 0 : 1;
     }
+
+    bool is_floating() const noexcept override
+    {
+        return true;
+    }
 };
 
 class string_variant_data : public variant_data
-- 
2.43.0


From 0c0b29227b2cfb06308bf6c8f938e17a47e8d765 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:41 +0000
Subject: [PATCH 02/29] fix: divide and subtract metric values of different
 types correctly

Division swapped its operands whenever the divisor had the wider type, and
subtraction negated the subtrahend in its own, possibly unsigned and
narrower, type.
---
 cxxmetrics/metric_value.hpp | 42 ++++++++++++++++++++++++++++++++++---
 1 file changed, 39 insertions(+), 3 deletions(-)

diff --git a/cxxmetrics/metric_value.hpp b/cxxmetrics/metric_value.hpp
index 211f38e..2710f76 100644
--- a/cxxmetrics/metric_value.hpp
+++ b/cxxmetrics/metric_value.hpp
@@ -24,6 +24,8 @@ public:
     virtual int type_score() const = 0;
     virtual std::size_t hash_value() const = 0;
     virtual void copy(void* into) const noexcept = 0;
+    // construct a value of this type from the value of the other one
+    virtual void convert(void* into, const variant_data& from) const noexcept = 0;
     virtual void move(void* into) noexcept { return copy(into); }
     virtual void add(const variant_data& other) noexcept = 0;
     virtual void multiply(const variant_data& other) noexcept = 0;
@@ -81,6 +83,11 @@ public:
         new (reinterpret_cast<integral_variant_data<T>*>(into)) integral_variant_data<T>(val_);
     }
 
+    void convert(void* into, const variant_data& from) const noexcept override
+    {
+        new (reinterpret_cast<integral_variant_data<T>*>(into)) integral_variant_data<T>(static_cast<T>(from.to_integral(nullptr)));
+    }
+
     int type_score() const override
     {
         return (sizeof(T) * 10) + (std::is_signed<T>::value ? 0 : 1);
@@ -219,6 +226,11 @@ public:
         new (reinterpret_cast<float_variant_data<T>*>(into)) float_variant_data<T>(val_);
     }
 
+    void convert(void* into, const variant_data& from) const noexcept override
+    {
+        new (reinterpret_cast<float_variant_data<T>*>(into)) float_variant_data<T>(static_cast<T>(from.to_float(nullptr)));
+    }
+
     int type_score() const override
     {
         return (sizeof(T) * 20);
@@ -365,6 +377,11 @@ public:
         new (reinterpret_cast<string_variant_data*>(into)) string_variant_data(val_);
     }
 
+    void convert(void* into, const variant_data& from) const noexcept override
+    {
+        new (reinterpret_cast<string_variant_data*>(into)) string_variant_data(from.to_string());
+    }
+
     void move(void* into) noexcept override
     {
         new (reinterpret_cast<string_variant_data*>(into)) string_variant_data(std::move(val_));
@@ -465,6 +482,12 @@ public:
         new (reinterpret_cast<duration_variant_data<TRep, TPeriod>*>(into)) duration_variant_data<TRep, TPeriod>(dur_);
     }
 
+    void convert(void* into, const variant_data& from) const noexcept override
+    {
+        new (reinterpret_cast<duration_variant_data<TRep, TPeriod>*>(into)) duration_variant_data<TRep, TPeriod>(
+                std::chrono::duration_cast<std::chrono::duration<TRep, TPeriod>>(from.to_nanos(nullptr)));
+    }
+
     int type_score() const override
     {
         if (std::is_floating_point<TRep>::value)
@@ -562,6 +585,11 @@ class variant_data_holder
         cp->copy(std::addressof(v));
     }
 
+    variant_data_holder(const variant_data* type, const variant_data* from)
+    {
+        type->convert(std::addressof(v), *from);
+    }
+
     variant_data_holder uc_add(const variant_data_holder& other) const
     {
         variant_data_holder result(as<variant_data>());
@@ -708,10 +736,18 @@ public:
         return uc_mult(other);
     }
 
+    variant_data_holder subtract(const variant_data_holder& other) const
+    {
+        // negate in the wider of the two types, negating in the narrower one may not be representable
+        if (other.as<variant_data>()->type_score() < as<variant_data>()->type_score())
+            return negate().uc_add(other).negate();
+        return add(other.negate());
+    }
+
     variant_data_holder divide(const variant_data_holder& other) const
     {
         if (other.as<variant_data>()->type_score() > as<variant_data>()->type_score())
-            return other.uc_div(*this);
+            return variant_data_holder(other.as<variant_data>(), as<variant_data>()).uc_div(other);
         return uc_div(other);
     }
 
@@ -772,7 +808,7 @@ public:
 
     metric_value& operator-=(const metric_value& other)
     {
-        value_ = (value_.add(other.value_.negate()));
+        value_ = (value_.subtract(other.value_));
         return *this;
     }
 
@@ -795,7 +831,7 @@ public:
 
     metric_value operator-(const metric_value& other) const
     {
-        return metric_value(value_.add(other.value_.negate()));
+        return metric_value(value_.subtract(other.value_));
     }
 
     metric_value operator/(const metric_value& other) const
-- 
2.43.0


From 941cd7e0cece1ed9747f4422452f96f8cee5db33 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:41 +0000
Subject: [PATCH 03/29] fix: value snapshots that differ compare unequal

---
 cxxmetrics/snapshots.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cxxmetrics/snapshots.hpp b/cxxmetrics/snapshots.hpp
index 89eca9e..3fc081f 100644
--- a/cxxmetrics/snapshots.hpp
+++ b/cxxmetrics/snapshots.hpp
@@ -67,12 +67,12 @@ inline bool value_snapshot::operator==(const metric_value &value) const noexcept
 
 inline bool value_snapshot::operator!=(const value_snapshot &other) const noexcept
 {
-    return value_ == other.value_;
+    return value_ != other.value_;
 }
 
 inline bool value_snapshot::operator!=(const metric_value &value) const noexcept
 {
-    return value_ == value;
+    return value_ != value;
 }
 
 class cumulative_value_snapshot : public value_snapshot
-- 
2.43.0


From 59ad822093c2a2832edcf78eb1cb810d650eba22 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:04 +0000
Subject: [PATCH 04/29] fix: merging histogram snapshots keeps every sample

The alternating iterator skipped samples equal to or below the current one,
and produced a zero that was never recorded when one side was empty.
---
 cxxmetrics/snapshots.hpp | 121 +++------------------------------------
 1 file changed, 7 insertions(+), 114 deletions(-)

diff --git a/cxxmetrics/snapshots.hpp b/cxxmetrics/snapshots.hpp
index 3fc081f..27fc205 100644
--- a/cxxmetrics/snapshots.hpp
+++ b/cxxmetrics/snapshots.hpp
@@ -4,6 +4,7 @@
 #include <unordered_map>
 #include <vector>
 #include <algorithm>
+#include <iterator>
 #include "meta.hpp"
 #include "metric_value.hpp"
 
@@ -426,118 +427,6 @@ class histogram_snapshot : public reservoir_snapshot
 {
     uint64_t count_;
 
-    template<typename TContainer1, typename TContainer2>
-    class alternating_iterator : public std::iterator<std::forward_iterator_tag, metric_value>
-    {
-        using iterator1 = typename TContainer1::const_iterator;
-        using iterator2 = typename TContainer2::const_iterator;
-
-        const TContainer1& srca_;
-        const TContainer2& srcb_;
-
-        iterator1 a_;
-        iterator2 b_;
-
-        bool ata_;
-
-        metric_value current_;
-        void set_current()
-        {
-            if ((ata_ || b_ == srcb_.end()) && a_ != srca_.end())
-                current_ = metric_value(*a_);
-            else if (b_ != srcb_.end())
-                current_ = metric_value(*b_);
-        }
-    public:
-
-        alternating_iterator(const TContainer1& first, const TContainer2& second, iterator1&& a, iterator2&& b) :
-                srca_(first),
-                srcb_(second),
-                a_(std::forward<iterator1>(a)),
-                b_(std::forward<iterator2>(b)),
-                ata_(false),
-                current_(0)
-        {
-            if (a_ != srca_.end() && b_ != srcb_.end())
-                set_current();
-        }
-        alternating_iterator(const TContainer1& first, const TContainer2& second) :
-                alternating_iterator(first, second, first.begin(), second.begin())
-        { }
-
-        alternating_iterator begin() const
-        {
-            return alternating_iterator(srca_, srcb_);
-        }
-
-        alternating_iterator end()
-        {
-            return alternating_iterator(srca_, srcb_, srca_.end(), srcb_.end());
-        }
-
-        alternating_iterator& operator++()
-        {
-            if (a_ == srca_.end() && b_ == srcb_.end())
-                return *this;
-
-            ata_ = !ata_;
-            if (ata_ && a_ != srca_.end())
-            {
-                while (a_ != srca_.end() && *a_ <= current_)
-                    ++a_;
-
-                if (a_ == srca_.end() && b_ != srcb_.end())
-                    ++b_;
-            }
-            else
-            {
-                while (b_ != srcb_.end() && *b_ <= current_)
-                    ++b_;
-
-                if (b_ == srcb_.end() && a_ != srca_.end())
-                    ++a_;
-            }
-
-            if (a_ == srca_.end() && b_ == srcb_.end())
-                return *this;
-
-            set_current();
-            return *this;
-        }
-
-        void operator++(int)
-        {
-            this->operator++();
-        }
-
-        const metric_value* operator->() const
-        {
-            return &current_;
-        }
-
-        const metric_value& operator*() const
-        {
-            return current_;
-        }
-
-        bool operator==(const alternating_iterator& other) const
-        {
-            if (a_ == srca_.end() && b_ == srcb_.end())
-                return other.a_ == other.srca_.end() && other.b_ == other.srcb_.end();
-            return a_ == other.a_ && b_ == other.b_;
-        }
-
-        bool operator!=(const alternating_iterator& other) const
-        {
-            return !operator==(other);
-        }
-    };
-
-    template<typename TContainer1, typename TContainer2>
-    static constexpr alternating_iterator<TContainer1, TContainer2> make_alternating_iterator(const TContainer1& a, const TContainer2& b)
-    {
-        return alternating_iterator<TContainer1, TContainer2>(a, b);
-    }
 public:
     histogram_snapshot(reservoir_snapshot&& q, uint64_t count) :
             reservoir_snapshot(std::move(q)),
@@ -558,8 +447,12 @@ public:
 
     void merge(const histogram_snapshot& other)
     {
-        auto b = make_alternating_iterator(values_, other.values_);
-        reservoir_snapshot::operator=(reservoir_snapshot(b, b.end(), std::max(count_, other.count_)));
+        // both sides are sorted, merging keeps every sampled value of both
+        std::vector<metric_value> merged;
+        merged.reserve(values_.size() + other.values_.size());
+        std::merge(values_.begin(), values_.end(), other.values_.begin(), other.values_.end(), std::back_inserter(merged));
+
+        values_ = std::move(merged);
         count_ += other.count_;
     }
 
-- 
2.43.0


From 14bab2d12c9648336ffc32ccd7feb17be83de719 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:32 +0000
Subject: [PATCH 05/29] fix: interpolate quantiles without overflowing the
 sample type

---
 cxxmetrics/snapshots.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cxxmetrics/snapshots.hpp b/cxxmetrics/snapshots.hpp
index 27fc205..6063780 100644
--- a/cxxmetrics/snapshots.hpp
+++ b/cxxmetrics/snapshots.hpp
@@ -287,7 +287,7 @@ public:
         if (static_cast<std::size_t>(index) >= values_.size())
             return max();
 
-        return values_[index - 1] + metric_value((pos - index) * static_cast<long double>(values_[index] - values_[index - 1]));
+        return values_[index - 1] + metric_value((pos - index) * (static_cast<long double>(values_[index]) - static_cast<long double>(values_[index - 1])));
     }
 
     /**
@@ -329,7 +329,7 @@ public:
             hnd(values_[index - 1] +
                     metric_value(
                         (pos - static_cast<double>(index)) *
-                        static_cast<long double>(values_[index] - values_[index - 1])),
+                        (static_cast<long double>(values_[index]) - static_cast<long double>(values_[index - 1]))),
                 pos * 100 / static_cast<long double>(values_.size() + 1));
         }
     }
-- 
2.43.0


From 7739aaf0bd9a24485b1d2318978d11901a0c29b4 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:32 +0000
Subject: [PATCH 06/29] fix: sampling a snapshot of one value divided by zero

---
 cxxmetrics/snapshots.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cxxmetrics/snapshots.hpp b/cxxmetrics/snapshots.hpp
index 6063780..c30411f 100644
--- a/cxxmetrics/snapshots.hpp
+++ b/cxxmetrics/snapshots.hpp
@@ -304,6 +304,10 @@ public:
     template <typename Handler>
     void sample(std::size_t max_to_visit, Handler hnd) const
     {
+        // there is nothing to interpolate between
+        if (values_.size() < 2)
+            return;
+
         long double q_proportion = 1.0L / std::min(
             static_cast<long double>(max_to_visit + 1),
             static_cast<long double>(values_.size() - 1));
-- 
2.43.0


From 72019a6482c7afd187f7e7cbf262ea35b9c56a98 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:40 +0000
Subject: [PATCH 07/29] fix: equal tag collections hash equally whatever their
 iteration order

---
 cxxmetrics/tag_collection.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cxxmetrics/tag_collection.hpp b/cxxmetrics/tag_collection.hpp
index bc5f4ce..8e75af1 100644
--- a/cxxmetrics/tag_collection.hpp
+++ b/cxxmetrics/tag_collection.hpp
@@ -69,8 +69,9 @@ struct hash<cxxmetrics::tag_collection>
         std::size_t result = 0;
         std::hash<std::string> h;
         std::hash<cxxmetrics::metric_value> v;
+        // equal collections may iterate in different orders, so the order must not matter
         for (const auto& p : collection)
-            result = (result * 397) ^ (h(p.first) ^ v(p.second));
+            result += (h(p.first) * 397) ^ v(p.second);
 
         return result;
     }
-- 
2.43.0


From 97b86f7ed0b0b8bc405294a46e8bd2ff3d578bc9 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:48 +0000
Subject: [PATCH 08/29] fix: gauges honour and are typed by their aggregation
 mode

---
 cxxmetrics/gauge.hpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/cxxmetrics/gauge.hpp b/cxxmetrics/gauge.hpp
index 2e4f767..f2bfc5a 100644
--- a/cxxmetrics/gauge.hpp
+++ b/cxxmetrics/gauge.hpp
@@ -146,7 +146,7 @@ typename functional_gauge<TFn, TAggregation>::gauge_type functional_gauge<TFn, T
 }
 
 template<typename TRefType, gauge_aggregation_type TAggregation = aggregation_average>
-class referential_gauge : public gauge<TRefType>
+class referential_gauge : public gauge<TRefType, TAggregation>
 {
     std::reference_wrapper<TRefType> value_;
 public:
@@ -212,7 +212,7 @@ TRefType referential_gauge<TRefType, TAggregation>::get() const noexcept
  * \tparam TGaugeType The type of data for the gauge
  */
 template<typename TGaugeType, gauges::gauge_aggregation_type TAggregation = gauges::aggregation_average>
-class gauge : public gauges::primitive_gauge<TGaugeType, TAggregation>, public metric<gauge<TGaugeType>>
+class gauge : public gauges::primitive_gauge<TGaugeType, TAggregation>, public metric<gauge<TGaugeType, TAggregation>>
 {
 public:
     explicit gauge(const TGaugeType& value = TGaugeType()) noexcept :
@@ -225,7 +225,7 @@ public:
 
     gauge& operator=(const TGaugeType& value) noexcept
     {
-        gauges::primitive_gauge<TGaugeType>::operator=(value);
+        gauges::primitive_gauge<TGaugeType, TAggregation>::operator=(value);
         return *this;
     }
     gauge& operator=(const gauge& other) = default;
@@ -233,14 +233,14 @@ public:
 };
 
 template<typename T, gauges::gauge_aggregation_type TAggregation>
-class gauge<std::function<T()>, TAggregation> : public gauges::functional_gauge<std::function<T()>>, public metric<gauge<std::function<T()>>>
+class gauge<std::function<T()>, TAggregation> : public gauges::functional_gauge<std::function<T()>, TAggregation>, public metric<gauge<std::function<T()>, TAggregation>>
 {
 public:
     explicit gauge(const std::function<T()> &fn) :
-            gauges::functional_gauge<std::function<T()>>(fn)
+            gauges::functional_gauge<std::function<T()>, TAggregation>(fn)
     { }
     explicit gauge(std::function<T()> &&fn) noexcept :
-            gauges::functional_gauge<std::function<T()>>(std::move(fn))
+            gauges::functional_gauge<std::function<T()>, TAggregation>(std::move(fn))
     { }
     gauge(const gauge& copy) = default;
     gauge(gauge&& mv) = default;
@@ -251,11 +251,11 @@ public:
 };
 
 template<typename TGaugeType, gauges::gauge_aggregation_type TAggregation>
-class gauge<TGaugeType*, TAggregation> : public gauges::referential_gauge<TGaugeType>, public metric<gauge<TGaugeType &>>
+class gauge<TGaugeType*, TAggregation> : public gauges::referential_gauge<TGaugeType, TAggregation>, public metric<gauge<TGaugeType*, TAggregation>>
 {
 public:
     inline explicit gauge(TGaugeType* ptr) noexcept :
-            gauges::referential_gauge<TGaugeType>(*ptr)
+            gauges::referential_gauge<TGaugeType, TAggregation>(*ptr)
     { }
     gauge(const gauge& copy) = default;
     ~gauge() = default;
@@ -264,11 +264,11 @@ public:
 };
 
 template<typename TGaugeType, gauges::gauge_aggregation_type TAggregation>
-class gauge<TGaugeType &, TAggregation> : public gauges::referential_gauge<TGaugeType>, public metric<gauge<TGaugeType &>>
+class gauge<TGaugeType &, TAggregation> : public gauges::referential_gauge<TGaugeType, TAggregation>, public metric<gauge<TGaugeType &, TAggregation>>
 {
 public:
     inline explicit gauge(TGaugeType& ref) noexcept :
-            gauges::referential_gauge<TGaugeType>(ref)
+            gauges::referential_gauge<TGaugeType, TAggregation>(ref)
     { }
     gauge(const gauge& copy) = default;
     ~gauge() = default;
-- 
2.43.0


From bc7eaad8968eebd9928e4fe70de045dda647bd64 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:53 +0000
Subject: [PATCH 09/29] fix: uniform reservoir stays within its storage and can
 be assigned

---
 cxxmetrics/uniform_reservoir.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/cxxmetrics/uniform_reservoir.hpp b/cxxmetrics/uniform_reservoir.hpp
index fda6148..05135ba 100644
--- a/cxxmetrics/uniform_reservoir.hpp
+++ b/cxxmetrics/uniform_reservoir.hpp
@@ -84,15 +84,17 @@ uniform_reservoir<TElem, TSize>::uniform_reservoir(const uniform_reservoir &othe
         gen_(generate_seed()),
         count_(other.count_.load())
 {
-    for (std::size_t i = 0; i < count_; i++)
+    for (std::size_t i = 0; i < count_ && i < TSize; i++)
         elems_[i] = other.elems_[i];
 }
 
 template<typename TElem, std::size_t TSize>
 uniform_reservoir<TElem, TSize> &uniform_reservoir<TElem, TSize>::operator=(const uniform_reservoir &other) noexcept
 {
-    elems_ = other.elems_;
-    count_ = other.count_;
+    count_ = other.count_.load();
+    for (std::size_t i = 0; i < count_ && i < TSize; i++)
+        elems_[i] = other.elems_[i];
+
     return *this;
 }
 
@@ -110,7 +112,7 @@ void uniform_reservoir<TElem, TSize>::update(const TElem &value) noexcept
     // so we don't run out of count
     count_.store(TSize);
 
-    std::uniform_int_distribution<> d(0, TSize);
+    std::uniform_int_distribution<std::size_t> d(0, TSize - 1);
     elems_[d(gen_)] = value;
 }
 
-- 
2.43.0


From 82026ac5f70fc20720571416a1abc521ca34d33c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:01 +0000
Subject: [PATCH 10/29] fix: copied and assigned ring buffers keep their
 contents

---
 cxxmetrics/ringbuf.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cxxmetrics/ringbuf.hpp b/cxxmetrics/ringbuf.hpp
index a954d79..11a341f 100644
--- a/cxxmetrics/ringbuf.hpp
+++ b/cxxmetrics/ringbuf.hpp
@@ -195,6 +195,7 @@ ringbuf<TElemType, TSize>::ringbuf(TInputIterator start, const TInputIterator &e
         data_[i] = *start;
 
     tail_ = i;
+    size_ = i;
 }
 
 
@@ -207,6 +208,9 @@ ringbuf<TElemType, TSize>::ringbuf(const ringbuf &other) noexcept :
 template<typename TElemType, size_t TSize>
 ringbuf<TElemType, TSize> &ringbuf<TElemType, TSize>::operator=(const ringbuf &other) noexcept
 {
+    if (this == &other)
+        return *this;
+
     tail_ = 0;
     size_ = 0;
 
@@ -216,6 +220,9 @@ ringbuf<TElemType, TSize> &ringbuf<TElemType, TSize>::operator=(const ringbuf &o
         data_[i] = *it;
 
     tail_ = i;
+    size_ = i;
+
+    return *this;
 }
 
 template<typename TElemType, size_t TSize>
-- 
2.43.0


From e7bc48006633bbadfe13dceb51f17746c8dec285 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:08 +0000
Subject: [PATCH 11/29] fix: sliding window assignment returns the reservoir

---
 cxxmetrics/sliding_window.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cxxmetrics/sliding_window.hpp b/cxxmetrics/sliding_window.hpp
index daf46f1..b10c5e0 100644
--- a/cxxmetrics/sliding_window.hpp
+++ b/cxxmetrics/sliding_window.hpp
@@ -250,6 +250,7 @@ sliding_window_reservoir<TElem, TMaxSize, TClockGet>::operator=(const sliding_wi
     data_ = other.data_;
     clock_ = other.clock_;
     window_ = other.window_;
+    return *this;
 }
 
 template<typename TElem, size_t TMaxSize, typename TClockGet>
-- 
2.43.0


From cd329bbde5f6327dc1ae4c6beee755167579e8ab Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:13 +0000
Subject: [PATCH 12/29] fix: timer publish options keep their scale, rates flag
 and quantiles

---
 cxxmetrics/publisher.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/cxxmetrics/publisher.hpp b/cxxmetrics/publisher.hpp
index 0cc6918..f7de02e 100644
--- a/cxxmetrics/publisher.hpp
+++ b/cxxmetrics/publisher.hpp
@@ -275,24 +275,28 @@ class timer_publish_options : public histogram_publish_options, public meter_pub
     bool rates_;
 public:
     timer_publish_options(timer_publish_options&& other) noexcept :
+            value_publish_options(other),
             histogram_publish_options(std::move(other)),
             meter_publish_options(std::move(other)),
             rates_(other.rates_)
     { }
 
     timer_publish_options(bool rates = true, const scale_factor& sf = scale_factor()) noexcept :
+            value_publish_options(sf),
             histogram_publish_options(sf),
             meter_publish_options(sf),
             rates_(rates)
     { }
 
     timer_publish_options(bool rates, bool publish_count, const scale_factor& sf = scale_factor()) noexcept :
+            value_publish_options(sf),
             histogram_publish_options(publish_count, sf),
             meter_publish_options(sf),
             rates_(rates)
     { }
 
     timer_publish_options(bool rates, bool publish_count, bool publish_mean, const scale_factor& sf = scale_factor()) noexcept :
+            value_publish_options(sf),
             histogram_publish_options(publish_count, sf),
             meter_publish_options(publish_mean, sf),
             rates_(rates)
@@ -300,7 +304,8 @@ public:
 
     template<typename TQuantileOptions, typename = typename std::enable_if<std::is_base_of<basic_quantile_options, TQuantileOptions>::value, void>::type>
     timer_publish_options(TQuantileOptions&& quantile_options, bool rates, bool publish_count = true, const scale_factor& sf = scale_factor()) :
-            histogram_publish_options(quantile_options, publish_count, sf),
+            value_publish_options(sf),
+            histogram_publish_options(std::forward<TQuantileOptions>(quantile_options), publish_count, false, sf),
             meter_publish_options(sf),
             rates_(rates)
     { }
@@ -308,7 +313,8 @@ public:
 
     template<typename TQuantileOptions, typename = typename std::enable_if<std::is_base_of<basic_quantile_options, TQuantileOptions>::value, void>::type>
     timer_publish_options(TQuantileOptions&& quantile_options, bool rates, bool publish_count, bool publish_mean, const scale_factor& sf = scale_factor()) :
-            histogram_publish_options(quantile_options, publish_count, sf),
+            value_publish_options(sf),
+            histogram_publish_options(std::forward<TQuantileOptions>(quantile_options), publish_count, false, sf),
             meter_publish_options(publish_mean, sf),
             rates_(rates)
     { }
@@ -317,6 +323,7 @@ public:
     {
         histogram_publish_options::operator=(std::move(other));
         meter_publish_options::operator=(std::move(other));
+        rates_ = other.rates_;
         return *this;
     }
 
-- 
2.43.0


From f07a33e1825d1c4f801bbaf63169ee8aa6dfff39 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:18 +0000
Subject: [PATCH 13/29] fix: escape prometheus label values and help text and
 keep label names valid

---
 cxxmetrics_prometheus/prometheus_timer.hpp |  3 +-
 cxxmetrics_prometheus/snapshot_writer.hpp  | 35 +++++++++++++++++++---
 2 files changed, 33 insertions(+), 5 deletions(-)

diff --git a/cxxmetrics_prometheus/prometheus_timer.hpp b/cxxmetrics_prometheus/prometheus_timer.hpp
index b5ae3ac..c618f02 100644
--- a/cxxmetrics_prometheus/prometheus_timer.hpp
+++ b/cxxmetrics_prometheus/prometheus_timer.hpp
@@ -11,7 +11,8 @@ class snapshot_writer<cxxmetrics::timer_snapshot>
 {
     void write_header() const
     {
-        stream << "# HELP " << internal::name(path) << " " << path.join("/") << " in microseconds\n";
+        stream << "# HELP " << internal::name(path) << " ";
+        internal::format_help(stream, path.join("/")) << " in microseconds\n";
         stream << "# TYPE " << internal::name(path) << " summary\n";
     }
 
diff --git a/cxxmetrics_prometheus/snapshot_writer.hpp b/cxxmetrics_prometheus/snapshot_writer.hpp
index 6708ff6..029c2db 100644
--- a/cxxmetrics_prometheus/snapshot_writer.hpp
+++ b/cxxmetrics_prometheus/snapshot_writer.hpp
@@ -24,7 +24,7 @@ inline std::ostream& format_name_element(std::ostream&into, const std::string& e
     for (std::size_t i = 0; i < element.size(); i++)
     {
         char c = element[i];
-        if (!isalnum(c))
+        if (!std::isalnum(static_cast<unsigned char>(c)))
             into << '_';
         else
             into << c;
@@ -36,7 +36,7 @@ inline std::ostream& format_name_element(std::ostream&into, const std::string& e
 inline std::ostream& format_name(std::ostream& into, const cxxmetrics::metric_path& path)
 {
     auto elem = path.begin();
-    if (std::isdigit((*elem)[0]))
+    if (std::isdigit(static_cast<unsigned char>((*elem)[0])))
         into << '_';
 
     format_name_element(into, *elem);
@@ -55,6 +55,10 @@ inline std::ostream& format_tag_value(std::ostream& into, const std::string& val
     {
         if (c == '"')
             into << "\\\"";
+        else if (c == '\\')
+            into << "\\\\";
+        else if (c == '\n')
+            into << "\\n";
         else
             into << c;
     }
@@ -62,19 +66,42 @@ inline std::ostream& format_tag_value(std::ostream& into, const std::string& val
     return into;
 }
 
+inline std::ostream& format_help(std::ostream& into, const std::string& text)
+{
+    for (auto c : text)
+    {
+        if (c == '\\')
+            into << "\\\\";
+        else if (c == '\n')
+            into << "\\n";
+        else
+            into << c;
+    }
+
+    return into;
+}
+
+inline std::ostream& format_tag_name(std::ostream& into, const std::string& name)
+{
+    if (name.empty() || std::isdigit(static_cast<unsigned char>(name[0])))
+        into << '_';
+
+    return format_name_element(into, name);
+}
+
 inline std::ostream& format_tags(std::ostream& into, const cxxmetrics::tag_collection& tags)
 {
     auto tag = tags.begin();
     if (tag == tags.end())
         return into;
 
-    format_name_element(into, tag->first);
+    format_tag_name(into, tag->first);
     into << "=\"";
     format_tag_value(into, tag->second) << "\"";
     for (++tag; tag != tags.end(); ++tag)
     {
         into << ",";
-        format_name_element(into, tag->first) << "=\"";
+        format_tag_name(into, tag->first) << "=\"";
         format_tag_value(into, tag->second) << "\"";
     }
 
-- 
2.43.0


From 11b8c3b85f2d103926a02e2ee300e7b8399b1e47 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:40 +0000
Subject: [PATCH 14/29] fix: distinct time windows get distinct prometheus
 labels

---
 cxxmetrics_prometheus/snapshot_writer.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/cxxmetrics_prometheus/snapshot_writer.hpp b/cxxmetrics_prometheus/snapshot_writer.hpp
index 029c2db..b19d11c 100644
--- a/cxxmetrics_prometheus/snapshot_writer.hpp
+++ b/cxxmetrics_prometheus/snapshot_writer.hpp
@@ -112,27 +112,27 @@ template<typename TRep, typename TPer>
 std::ostream& format_window(std::ostream& into, const std::chrono::duration<TRep, TPer>& time)
 {
     using namespace std::chrono_literals;
-    if (time >= 1h)
+    if (time >= 1h && time % 1h == time.zero())
     {
         into << std::chrono::duration_cast<std::chrono::hours>(time).count() << "hr";
         return into;
     }
-    if (time >= 1min)
+    if (time >= 1min && time % 1min == time.zero())
     {
         into << std::chrono::duration_cast<std::chrono::minutes>(time).count() << "min";
         return into;
     }
-    if (time >= 1s)
+    if (time >= 1s && time % 1s == time.zero())
     {
         into << std::chrono::duration_cast<std::chrono::seconds>(time).count() << "sec";
         return into;
     }
-    if (time >= 1ms)
+    if (time >= 1ms && time % 1ms == time.zero())
     {
         into << std::chrono::duration_cast<std::chrono::milliseconds>(time).count() << "msec";
         return into;
     }
-    if (time >= 1us)
+    if (time >= 1us && time % 1us == time.zero())
     {
         into << std::chrono::duration_cast<std::chrono::microseconds>(time).count() << "usec";
         return into;
-- 
2.43.0


From 93ff8a3f6768f8432c54ae175846475f0ce57af2 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:51 +0000
Subject: [PATCH 15/29] fix: reading or copying a moving average keeps its
 first-tick state

---
 cxxmetrics/ewma.hpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/cxxmetrics/ewma.hpp b/cxxmetrics/ewma.hpp
index 0127f15..8470666 100644
--- a/cxxmetrics/ewma.hpp
+++ b/cxxmetrics/ewma.hpp
@@ -189,19 +189,19 @@ TValue ewma<TClockGet, TWindow, TInterval, TValue>::tick(const clock_point &at)
         if ((at - last) < period(TInterval))
             return pending;
 
+        // use constexpr if with 17
+        if (!TWrite)
+            return pending;
+
         bool ticked = false;
         if (ticked_.compare_exchange_weak(ticked, true))
         {
-            // use constexpr if with 17
-            if (TWrite)
-            {
-                // one thread sets the last timestamp
-                if (!pending_.compare_exchange_weak(pending, 0))
-                    return pending; // someone else ticked from under us
+            // one thread sets the last timestamp
+            if (!pending_.compare_exchange_weak(pending, 0))
+                return pending; // someone else ticked from under us
 
-                if (rate_.compare_exchange_weak(nrate, pending))
-                    last_ = at;
-            }
+            if (rate_.compare_exchange_weak(nrate, pending))
+                last_ = at;
 
             return pending;
         }
@@ -255,6 +255,7 @@ ewma<TClockGet, TWindow, TInterval, TValue> &ewma<TClockGet, TWindow, TInterval,
     alpha_ = c.alpha_;
     rate_.store(c.rate_.load());
     pending_.store(c.pending_.load());
+    ticked_.store(c.ticked_.load());
     last_ = c.last_;
     return *this;
 }
-- 
2.43.0


From e51b2f3232df8a866935b1d4e23dc55a6d5f560d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:51 +0000
Subject: [PATCH 16/29] fix: idle moving averages decay by the same fraction
 every interval

---
 cxxmetrics/ewma.hpp | 20 +++-----------------
 1 file changed, 3 insertions(+), 17 deletions(-)

diff --git a/cxxmetrics/ewma.hpp b/cxxmetrics/ewma.hpp
index 8470666..8d03644 100644
--- a/cxxmetrics/ewma.hpp
+++ b/cxxmetrics/ewma.hpp
@@ -173,7 +173,6 @@ template<typename TClockGet, period::value TWindow, period::value TInterval, typ
 template<bool TWrite>
 TValue ewma<TClockGet, TWindow, TInterval, TValue>::tick(const clock_point &at) noexcept
 {
-    int missed_intervals;
     clock_point last;
 
     last = last_;
@@ -212,24 +211,11 @@ TValue ewma<TClockGet, TWindow, TInterval, TValue>::tick(const clock_point &at)
     auto rate = nrate + (alpha_ * (pending - nrate));
 
     // figure out how many intervals we've missed
-    missed_intervals = ((at - last) / period(TInterval)) - 1;
-    if (missed_intervals > 0)
+    auto intervals = (at - last) / period(TInterval);
+    if (intervals > 1)
     {
         // we missed some intervals - we'll average in zeros
-        if ((TWindow > TInterval) && (at - last) > period(TWindow))
-        {
-            constexpr auto intervals_per_window = TWindow / TInterval;
-            period::value missed_windows = missed_intervals / intervals_per_window;
-            rate = pow(rate, 1/pow(missed_windows, 2));
-
-            // figure out the missed intervals now
-            missed_intervals -= (missed_windows * intervals_per_window);
-        }
-
-        // this is the fastest way to do this - the alternative is a standard repeated integral
-        // but this is faster
-        for (int i = 0; i < missed_intervals; i++)
-            rate = rate + (alpha_ * -rate);
+        rate *= std::pow(1 - alpha_, static_cast<long double>(intervals - 1));
     }
 
     if (std::isnan(rate) || std::isinf(rate))
-- 
2.43.0


From c409ba6d6050a91fee9e1da1a88ed339e2398aa8 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:19 +0000
Subject: [PATCH 17/29] fix: joining an empty literal to a path adds no
 component

---
 cxxmetrics/metric_path.hpp | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/cxxmetrics/metric_path.hpp b/cxxmetrics/metric_path.hpp
index af3d62e..b2b456b 100644
--- a/cxxmetrics/metric_path.hpp
+++ b/cxxmetrics/metric_path.hpp
@@ -121,13 +121,7 @@ inline bool metric_path::operator!=(const cxxmetrics::metric_path &other) const
 template<std::size_t Size>
 inline metric_path operator/(const char (&pstr)[Size], const metric_path& other)
 {
-    std::vector<std::string> paths;
-    paths.reserve(other.paths_.size() + 1);
-
-    paths.emplace_back(pstr);
-    paths.insert(paths.end(), other.paths_.begin(), other.paths_.end());
-
-    return metric_path(std::move(paths));
+    return metric_path(pstr) / other;
 }
 
 }
-- 
2.43.0


From 66164b744c01c67fb852e262291d6defe7510abf Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:19 +0000
Subject: [PATCH 18/29] fix: timers accept a clock instance

---
 cxxmetrics/timer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cxxmetrics/timer.hpp b/cxxmetrics/timer.hpp
index 56573b1..ce5c242 100644
--- a/cxxmetrics/timer.hpp
+++ b/cxxmetrics/timer.hpp
@@ -38,7 +38,7 @@ public:
      */
     timer(TReservoir &&reservoir, TClock &&clock) :
             histogram_(std::forward<TReservoir>(reservoir)),
-            clock_(std::forward<TReservoir>(clock))
+            clock_(std::forward<TClock>(clock))
     { }
 
 
-- 
2.43.0


From f47379dba581f7b891c56f20ef5d9c5069b48860 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:43 +0000
Subject: [PATCH 19/29] fix: timing a callable compiles before C++17

---
 cxxmetrics/metric.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cxxmetrics/metric.hpp b/cxxmetrics/metric.hpp
index 4fbfa07..772ae22 100644
--- a/cxxmetrics/metric.hpp
+++ b/cxxmetrics/metric.hpp
@@ -6,7 +6,7 @@
 #if __cplusplus < 201700L
 namespace std {
 template<typename T>
-using invoke_result = result_of<T>;
+using invoke_result = result_of<T()>;
 }
 #endif
 
-- 
2.43.0


From 33dd28cac64df37df2e15b7d3bb5c4aaba65969b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:50 +0000
Subject: [PATCH 20/29] fix: the pool header compiles

---
 cxxmetrics/pool.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cxxmetrics/pool.hpp b/cxxmetrics/pool.hpp
index 4c936e0..60ebb33 100644
--- a/cxxmetrics/pool.hpp
+++ b/cxxmetrics/pool.hpp
@@ -2,6 +2,9 @@
 #define CXXMETRICS_POOL_HPP
 
 #include <atomic>
+#include <cstddef>
+#include <memory>
+#include <type_traits>
 
 namespace cxxmetrics
 {
@@ -39,7 +42,7 @@ class pool_ptr
 
         bool is_counted() const
         {
-            return next.load() & 1;
+            return reinterpret_cast<unsigned long>(next.load()) & 1;
         }
 
         bool add_reference()
@@ -99,7 +102,7 @@ public:
     /**
      * \brief Convenience wrapper to assign nullptr to pool_ptr instances
      */
-    constexpr pool_ptr(nullptr_t ptr) noexcept :
+    constexpr pool_ptr(std::nullptr_t ptr) noexcept :
             pool_ptr()
     { }
 
-- 
2.43.0


From a88cc47e996144519496c5906bbb2b2516e75fff Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:28 +0000
Subject: [PATCH 21/29] fix: the skip list header compiles

---
 cxxmetrics/skiplist.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cxxmetrics/skiplist.hpp b/cxxmetrics/skiplist.hpp
index 9b09c8d..4dd8f19 100644
--- a/cxxmetrics/skiplist.hpp
+++ b/cxxmetrics/skiplist.hpp
@@ -3,9 +3,12 @@
 
 #include <atomic>
 #include <array>
+#include <cassert>
+#include <functional>
+#include <iterator>
 #include <random>
-
-#include "internal/hazard_ptr.hpp"
+#include <thread>
+#include <utility>
 
 namespace cxxmetrics
 {
-- 
2.43.0


From cecc316c7301d2a498253a88d59aaf3e9934729c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:38 +0000
Subject: [PATCH 22/29] fix: copied skip list iterators can advance

---
 cxxmetrics/skiplist.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cxxmetrics/skiplist.hpp b/cxxmetrics/skiplist.hpp
index 4dd8f19..d665a24 100644
--- a/cxxmetrics/skiplist.hpp
+++ b/cxxmetrics/skiplist.hpp
@@ -455,12 +455,14 @@ skiplist<T, TSize, TLess>::iterator::iterator(internal::skiplist_node_pin<T, TSi
 { }
 
 template<typename T, int TSize, typename TLess>
-skiplist<T, TSize, TLess>::iterator::iterator() noexcept
+skiplist<T, TSize, TLess>::iterator::iterator() noexcept :
+        list_(nullptr)
 { }
 
 template<typename T, int TSize, typename TLess>
 skiplist<T, TSize, TLess>::iterator::iterator(const iterator &other) noexcept :
-    node_(other.node_)
+    node_(other.node_),
+    list_(other.list_)
 {
 };
 
@@ -509,6 +511,7 @@ template<typename T, int TSize, typename TLess>
 typename skiplist<T, TSize, TLess>::iterator &skiplist<T, TSize, TLess>::iterator::operator=(const iterator &other) noexcept
 {
     node_ = other.node_;
+    list_ = other.list_;
     return *this;
 }
 
-- 
2.43.0


From 02a277cc59fe09f103d6809014ce95eb6b658e05 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:47 +0000
Subject: [PATCH 23/29] fix: visiting many tag sets does not exhaust the stack

---
 cxxmetrics/metrics_registry.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/cxxmetrics/metrics_registry.hpp b/cxxmetrics/metrics_registry.hpp
index 259ecf2..1e8dd91 100644
--- a/cxxmetrics/metrics_registry.hpp
+++ b/cxxmetrics/metrics_registry.hpp
@@ -272,13 +272,15 @@ template<typename TMetricType>
 void registered_metric<TMetricType>::visit_each(cxxmetrics::internal::registered_snapshot_visitor_builder &builder)
 {
     std::lock_guard<std::mutex> lock(lock_);
+
+    // one buffer for all the visitors: stack memory is only released on return
+    auto sz = builder.visitor_size() + sizeof(std::max_align_t);
+    void* ptr = alloca(sz);
+    std::align(sizeof(std::max_align_t), sz, ptr, sz);
+    auto loc = reinterpret_cast<snapshot_visitor*>(ptr);
+
     for (auto& p : metrics_)
     {
-        auto sz = builder.visitor_size() + sizeof(std::max_align_t);
-        void* ptr = alloca(sz);
-
-        std::align(sizeof(std::max_align_t), sz, ptr, sz);
-        auto loc = reinterpret_cast<snapshot_visitor*>(ptr);
         builder.construct(loc, p.first);
         try
         {
-- 
2.43.0


From b2899b00cfc06ccdde625f4597040030945a774e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:50 +0000
Subject: [PATCH 24/29] fix: the stack destroys what is left with its own
 allocator

---
 cxxmetrics/internal/atomic_lifo.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cxxmetrics/internal/atomic_lifo.hpp b/cxxmetrics/internal/atomic_lifo.hpp
index bf31d2c..4b0a90f 100644
--- a/cxxmetrics/internal/atomic_lifo.hpp
+++ b/cxxmetrics/internal/atomic_lifo.hpp
@@ -235,7 +235,7 @@ namespace cxxmetrics {
 
             virtual ~atomic_lifo()
             {
-                deallocator a;
+                deallocator a(alloc_);
                 auto oh = head_.exchange(head_t()).nodev;
                 while (oh)
                 {
-- 
2.43.0


From 6fbcef0dde979e9dc4152ea4a31b7c525a784aa6 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:11 +0000
Subject: [PATCH 25/29] fix: a pool never hands out an object that is in use

---
 cxxmetrics/pool.hpp | 39 ++++++++++++++++++++++++---------------
 1 file changed, 24 insertions(+), 15 deletions(-)

diff --git a/cxxmetrics/pool.hpp b/cxxmetrics/pool.hpp
index 60ebb33..5a67903 100644
--- a/cxxmetrics/pool.hpp
+++ b/cxxmetrics/pool.hpp
@@ -191,7 +191,15 @@ template<typename TValue, template<typename ...> class TAlloc>
 class pool
 {
     using data_type = typename pool_ptr<TValue, TAlloc>::pool_data;
-    std::atomic<data_type *> v_;
+
+    // the top of the free list, tagged because nodes come back to it
+    struct head_type
+    {
+        data_type *top;
+        unsigned long tag;
+    };
+
+    std::atomic<head_type> v_;
     bool active_;
     TAlloc<data_type> a_;
 
@@ -214,7 +222,7 @@ class pool
         }
 
 #ifndef CXXMETRICS_DISABLE_POOLING
-        data_type *head = v_.load();
+        head_type head = v_.load();
         while (true)
         {
             if (!active_)
@@ -223,8 +231,8 @@ class pool
                 return;
             }
 
-            data->next = head;
-            if (v_.compare_exchange_strong(head, data))
+            data->next = head.top;
+            if (v_.compare_exchange_strong(head, head_type{data, head.tag + 1}))
                 break;
         }
 #else
@@ -238,7 +246,7 @@ public:
      * \brief default constructor
      */
     pool() noexcept :
-            v_(nullptr),
+            v_(head_type{nullptr, 0}),
             active_(true)
     {
     }
@@ -250,10 +258,11 @@ public:
     {
         active_ = false;
 
-        while (v_)
+        data_type *head = v_.load().top;
+        while (head)
         {
-            auto tmp = v_.load();
-            v_ = tmp->next.load();
+            auto tmp = head;
+            head = tmp->next.load();
             a_.deallocate(tmp, 1);
         }
     }
@@ -263,21 +272,21 @@ public:
      */
     pool_ptr<TValue, TAlloc> allocate(const TValue &value = TValue()) noexcept
     {
-        data_type *head = v_.load();
+        head_type head = v_.load();
 
         while (true)
         {
 #ifndef CXXMETRICS_DISABLE_POOLING
-            if (head == nullptr)
+            if (head.top == nullptr)
 #endif
                 return pool_ptr<TValue, TAlloc>(allocnew(value));
 
-            data_type *next = head->next;
-            if (v_.compare_exchange_strong(head, next))
+            data_type *node = head.top;
+            if (v_.compare_exchange_strong(head, head_type{node->next, head.tag + 1}))
             {
-                head->next = reinterpret_cast<data_type *>(0x11);
-                new (&head->value()) TValue(value);
-                return pool_ptr<TValue, TAlloc>(head);
+                node->next = reinterpret_cast<data_type *>(0x11);
+                new (&node->value()) TValue(value);
+                return pool_ptr<TValue, TAlloc>(node);
             }
         }
     }
-- 
2.43.0


From cb80706f1501701b40fbe9d311999c0a2564dc7b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:14 +0000
Subject: [PATCH 26/29] fix: equal tag values of different numeric types or
 duration units hash equally

---
 cxxmetrics/metric_value.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/cxxmetrics/metric_value.hpp b/cxxmetrics/metric_value.hpp
index 2710f76..94b5103 100644
--- a/cxxmetrics/metric_value.hpp
+++ b/cxxmetrics/metric_value.hpp
@@ -75,7 +75,8 @@ public:
 
     std::size_t hash_value() const override
     {
-        return std::hash<T>()(val_);
+        // equal values of different types need to hash equally
+        return std::hash<long double>()(static_cast<long double>(val_));
     }
 
     void copy(void* into) const noexcept override
@@ -218,7 +219,8 @@ public:
 
     std::size_t hash_value() const override
     {
-        return std::hash<T>()(val_);
+        // equal values of different types need to hash equally
+        return std::hash<long double>()(static_cast<long double>(val_));
     }
 
     void copy(void* into) const noexcept override
@@ -474,7 +476,8 @@ public:
 
     std::size_t hash_value() const override
     {
-        return std::hash<std::chrono::duration<TRep, TPeriod>>()(dur_);
+        // equal durations of different units need to hash equally, and apart from plain numbers
+        return ~std::hash<long double>()(static_cast<long double>(dur_.count()) * TPeriod::num / TPeriod::den);
     }
 
     void copy(void* into) const noexcept override
-- 
2.43.0


From 1d4320351076a880350f413b873edcf617c26acc Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:25 +0000
Subject: [PATCH 27/29] fix: durations of every unit and magnitude compare and
 add exactly

---
 cxxmetrics/metric_value.hpp | 84 ++++++++++++++++++++++++++++++++++++-
 1 file changed, 83 insertions(+), 1 deletion(-)

diff --git a/cxxmetrics/metric_value.hpp b/cxxmetrics/metric_value.hpp
index 94b5103..cd56b2d 100644
--- a/cxxmetrics/metric_value.hpp
+++ b/cxxmetrics/metric_value.hpp
@@ -5,6 +5,8 @@
 #include <string>
 #include <cmath>
 #include <cstddef>
+#include <limits>
+#include <utility>
 #include "time.hpp"
 
 namespace cxxmetrics
@@ -13,6 +15,66 @@ namespace cxxmetrics
 namespace internal
 {
 
+// a duration of any unit: count * num / den seconds
+struct duration_parts
+{
+    bool floating;
+    long long count;
+    long double float_count;
+    long long num;
+    long long den;
+
+    static long long gcd(long long a, long long b) noexcept
+    {
+        while (b)
+        {
+            auto r = a % b;
+            a = b;
+            b = r;
+        }
+        return a;
+    }
+
+    int compare(const duration_parts& other) const noexcept
+    {
+        auto gnum = gcd(num, other.num);
+        auto gden = gcd(den, other.den);
+        // this compares to other like count * f compares to other.count * of
+        auto ff = static_cast<long double>(num / gnum) * (other.den / gden);
+        auto off = static_cast<long double>(other.num / gnum) * (den / gden);
+
+        constexpr long double limit = std::numeric_limits<long long>::max();
+        if (floating || other.floating || ff > limit || off > limit)
+        {
+            auto a = float_count * ff;
+            auto b = other.float_count * off;
+            return a < b ? -1 : a == b ? 0 : 1;
+        }
+
+        if ((count < 0) != (other.count < 0))
+            return count < 0 ? -1 : 1;
+
+        auto f = static_cast<unsigned long long>(ff);
+        auto of = static_cast<unsigned long long>(off);
+        // the products may exceed any integer type, so compare |count| / of to |other.count| / f
+        int greater = count < 0 ? -1 : 1;
+        unsigned long long a = count < 0 ? 0ull - count : count;
+        unsigned long long b = other.count < 0 ? 0ull - other.count : other.count;
+        while (a / of == b / f)
+        {
+            a %= of;
+            b %= f;
+            if (!a || !b)
+                return a ? greater : b ? -greater : 0;
+
+            // both are proper fractions, they compare like their inverses the other way around
+            std::swap(a, f);
+            std::swap(b, of);
+        }
+        return a / of < b / f ? -greater : greater;
+    }
+};
+
 class variant_data
 {
 public:
@@ -37,6 +99,8 @@ public:
     virtual bool exceeds_integral() const noexcept { return false; }
     // whether the value is held as a floating point number
     virtual bool is_floating() const noexcept { return false; }
+    // whether the value is a duration, and which
+    virtual bool to_duration(duration_parts&) const noexcept { return false; }
 };
 
 template<typename T>
@@ -501,7 +565,11 @@ public:
 
     void add(const variant_data& other) noexcept override
     {
-        dur_ += std::chrono::duration_cast<std::chrono::duration<TRep, TPeriod>>(other.to_nanos(nullptr));
+        duration_parts o;
+        if (other.to_duration(o) && o.num == TPeriod::num && o.den == TPeriod::den)
+            dur_ += std::chrono::duration<TRep, TPeriod>(static_cast<TRep>(o.floating ? o.float_count : o.count));
+        else
+            dur_ += std::chrono::duration_cast<std::chrono::duration<TRep, TPeriod>>(other.to_nanos(nullptr));
     }
 
     void multiply(const variant_data& other) noexcept override
@@ -556,10 +624,24 @@ public:
 
     int compare(const variant_data& other) const noexcept override
     {
+        duration_parts d, o;
+        if (to_duration(d) && other.to_duration(o))
+            return d.compare(o);
+
         bool valid;
         auto n = other.to_nanos(&valid);
         return dur_ < n ? -1 : dur_ == n ? 0 : 1;
     }
+
+    bool to_duration(duration_parts& into) const noexcept override
+    {
+        into.count = static_cast<long long>(dur_.count());
+        into.float_count = static_cast<long double>(dur_.count());
+        into.floating = std::is_floating_point<TRep>::value || (dur_.count() > 0 && into.count < 0);
+        into.num = TPeriod::num;
+        into.den = TPeriod::den;
+        return true;
+    }
 };
 
 class variant_data_holder
-- 
2.43.0


From f4d35c532281a7928057c81215d540afc92c685e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:37 +0000
Subject: [PATCH 28/29] fix: dividing the lowest integer or duration by -1
 wraps instead of killing the process (P19)

---
 cxxmetrics/metric_value.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cxxmetrics/metric_value.hpp b/cxxmetrics/metric_value.hpp
index cd56b2d..7f6c2e7 100644
--- a/cxxmetrics/metric_value.hpp
+++ b/cxxmetrics/metric_value.hpp
@@ -192,6 +192,8 @@ public:
         {
             if (!lv)
                 val_ = 0;
+            else if (std::is_signed<T>::value && lv == -1) // the lowest value traps when divided by -1
+                val_ = static_cast<T>(0 - static_cast<unsigned long long>(val_));
             else
                 val_ /= lv;
         }
@@ -609,6 +611,8 @@ public:
 
         if (!lv)
             dur_ = dur_.zero();
+        else if (std::is_integral<TRep>::value && std::is_signed<TRep>::value && lv == -1) // as for integers
+            dur_ = std::chrono::duration<TRep, TPeriod>(static_cast<TRep>(0 - static_cast<unsigned long long>(dur_.count())));
         else
             dur_ /= lv;
     }
-- 
2.43.0


From 0a254acb77b87915c5ee9d8a0465399e121449cc Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:37 +0000
Subject: [PATCH 29/29] fix: a name given by pointer and length may begin with
 a null character (P27)

---
 cxxmetrics/metric_path.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cxxmetrics/metric_path.hpp b/cxxmetrics/metric_path.hpp
index b2b456b..3dbe484 100644
--- a/cxxmetrics/metric_path.hpp
+++ b/cxxmetrics/metric_path.hpp
@@ -33,7 +33,7 @@ public:
 
     metric_path(const char* pstr, std::size_t len = 0)
     {
-        if (pstr && *pstr)
+        if (pstr && (len || *pstr))
         {
             if (len)
                 paths_.emplace_back(pstr, len);
-- 
2.43.0

