From e58a72e196559f564e8aa2d3d033015b92dffdcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:26 +0000
Subject: [PATCH 01/35] fix: OKToEndSim by a component that never said
 DoNotEndSim took another component out of the exit count

---
 src/sst/core/baseComponent.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/sst/core/baseComponent.cc b/src/sst/core/baseComponent.cc
index 632f7a3..b32ef1a 100644
--- a/src/sst/core/baseComponent.cc
+++ b/src/sst/core/baseComponent.cc
@@ -918,9 +918,13 @@ BaseComponent::primaryComponentOKToEndSim()
             "WARNING: Component (%s) had multiple calls to primaryComponentOKToEndSim()\n", getName().c_str());
     }
     else {
+        // Only a component counted by Exit may be removed from its count
+        bool counted = isStateDoNotEndSim();
         setStateOKToEndSim();
-        int thread = sim_->getRank().thread;
-        sim_->getExit()->refDec(thread);
+        if ( counted ) {
+            int thread = sim_->getRank().thread;
+            sim_->getExit()->refDec(thread);
+        }
     }
 }
 
-- 
2.43.0


From 5096b763c85bd03111bbebbcb0608ad344092b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:26 +0000
Subject: [PATCH 02/35] verif: loop invariant for Exit constructor
 (SST_CORE_VERIF)

---
 src/sst/core/exit.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sst/core/exit.cc b/src/sst/core/exit.cc
index c2e994e..0453ca1 100644
--- a/src/sst/core/exit.cc
+++ b/src/sst/core/exit.cc
@@ -33,6 +33,10 @@ Exit::Exit(int num_threads, bool single_rank) :
     setPriority(EXITPRIORITY);
     thread_counts_ = new unsigned int[num_threads_];
     for ( int i = 0; i < num_threads_; i++ ) {
+#ifdef SST_CORE_VERIF
+        SST_VERIF_INVARIANT("Exit::Exit", i >= 0 && i < num_threads_ && ref_count_ == 0 && end_time_ == 0 &&
+            vf::forall(0, i, [&](uint64_t k) { return thread_counts_[k] == 0; }));
+#endif
         thread_counts_[i] = 0;
     }
 }
-- 
2.43.0


From 66fabd4a868a51d30e47cfb444734ba4873d0440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:13 +0000
Subject: [PATCH 03/35] fix: decimal_fixedpoint::toUnsignedLong read the
 fraction words instead of the whole words

---
 src/sst/core/decimal_fixedpoint.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sst/core/decimal_fixedpoint.h b/src/sst/core/decimal_fixedpoint.h
index 4129258..e92993e 100644
--- a/src/sst/core/decimal_fixedpoint.h
+++ b/src/sst/core/decimal_fixedpoint.h
@@ -394,7 +394,7 @@ public:
         uint64_t ret    = 0;
         uint64_t factor = 1;
         for ( int i = 0; i < whole_words; ++i ) {
-            ret += (static_cast<int64_t>(data[i]) * factor);
+            ret += (static_cast<uint64_t>(data[fraction_words + i]) * factor);
             factor *= storage_radix;
         }
         return ret;
-- 
2.43.0


From f0790850f252cd956596e87e755954e100b7f4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:13 +0000
Subject: [PATCH 04/35] fix: UnitAlgebra::operator!= called quantities of
 different units not unequal

---
 src/sst/core/unitAlgebra.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sst/core/unitAlgebra.cc b/src/sst/core/unitAlgebra.cc
index eb73656..b96b4a0 100644
--- a/src/sst/core/unitAlgebra.cc
+++ b/src/sst/core/unitAlgebra.cc
@@ -482,7 +482,7 @@ UnitAlgebra::operator==(const UnitAlgebra& v) const
 bool
 UnitAlgebra::operator!=(const UnitAlgebra& v) const
 {
-    if ( unit != v.unit ) return false;
+    if ( unit != v.unit ) return true;
     return value != v.value;
 }
 
-- 
2.43.0


From 04e7124f8e5f8cac3e81c7e53d46d7a8cb07b8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:44 +0000
Subject: [PATCH 05/35] fix: decimal_fixedpoint comparisons and double
 conversions ignored the sign

---
 src/sst/core/decimal_fixedpoint.h | 73 ++++++++++++++++++-------------
 src/sst/core/unitAlgebra.cc       | 10 +++--
 2 files changed, 48 insertions(+), 35 deletions(-)

diff --git a/src/sst/core/decimal_fixedpoint.h b/src/sst/core/decimal_fixedpoint.h
index e92993e..e0364e8 100644
--- a/src/sst/core/decimal_fixedpoint.h
+++ b/src/sst/core/decimal_fixedpoint.h
@@ -80,6 +80,38 @@ private:
      */
     bool negative;
 
+    /**
+       Compares the magnitudes (absolute values) of two numbers
+
+       @param v Number to compare to
+
+       @return negative, zero or positive value if the magnitude of
+       this number is less than, equal to or greater than that of v
+     */
+    int compareMagnitude(const decimal_fixedpoint& v) const
+    {
+        for ( int i = whole_words + fraction_words - 1; i >= 0; --i ) {
+            if ( data[i] > v.data[i] ) return 1;
+            if ( data[i] < v.data[i] ) return -1;
+        }
+        return 0;
+    }
+
+    /**
+       Compares two numbers, taking the sign into account
+
+       @param v Number to compare to
+
+       @return negative, zero or positive value if this number is less
+       than, equal to or greater than v
+     */
+    int compare(const decimal_fixedpoint& v) const
+    {
+        if ( negative == v.negative ) return negative ? v.compareMagnitude(*this) : compareMagnitude(v);
+        if ( isZero() && v.isZero() ) return 0;
+        return negative ? -1 : 1;
+    }
+
     /**
        initialize a decimal_fixedpoint using a string initializer
 
@@ -175,7 +207,8 @@ private:
      */
     void from_double(double init)
     {
-        negative = false;
+        negative = init < 0;
+        if ( negative ) init = -init;
 
         for ( int i = 0; i < whole_words + fraction_words; ++i ) {
             data[i] = 0;
@@ -345,7 +378,7 @@ public:
             factor *= storage_radix;
         }
 
-        return ret;
+        return negative ? -ret : ret;
     }
 
     /**
@@ -682,7 +715,7 @@ public:
         }
 
         // Signs don't match, so we need to sort
-        if ( operator>=(v) ) {
+        if ( compareMagnitude(v) >= 0 ) {
             // Calculate the result for each digit.  Need to negate the
             // second operand and pass a 1 in as carry-in (carry-over).
             uint64_t carry_over = 1;
@@ -829,10 +862,7 @@ public:
      */
     bool operator==(const decimal_fixedpoint& v) const
     {
-        for ( int i = whole_words + fraction_words - 1; i >= 0; --i ) {
-            if ( data[i] != v.data[i] ) return false;
-        }
-        return true;
+        return compare(v) == 0;
     }
 
     /**
@@ -842,10 +872,7 @@ public:
      */
     bool operator!=(const decimal_fixedpoint& v) const
     {
-        for ( int i = whole_words + fraction_words - 1; i >= 0; --i ) {
-            if ( data[i] != v.data[i] ) return true;
-        }
-        return false;
+        return compare(v) != 0;
     }
 
     /**
@@ -855,11 +882,7 @@ public:
      */
     bool operator>(const decimal_fixedpoint& v) const
     {
-        for ( int i = whole_words + fraction_words - 1; i >= 0; --i ) {
-            if ( data[i] > v.data[i] ) return true;
-            if ( data[i] < v.data[i] ) return false;
-        }
-        return false;
+        return compare(v) > 0;
     }
 
     /**
@@ -870,11 +893,7 @@ public:
      */
     bool operator>=(const decimal_fixedpoint& v) const
     {
-        for ( int i = whole_words + fraction_words - 1; i >= 0; --i ) {
-            if ( data[i] > v.data[i] ) return true;
-            if ( data[i] < v.data[i] ) return false;
-        }
-        return true;
+        return compare(v) >= 0;
     }
 
     /**
@@ -884,11 +903,7 @@ public:
      */
     bool operator<(const decimal_fixedpoint& v) const
     {
-        for ( int i = whole_words + fraction_words - 1; i >= 0; --i ) {
-            if ( data[i] < v.data[i] ) return true;
-            if ( data[i] > v.data[i] ) return false;
-        }
-        return false;
+        return compare(v) < 0;
     }
 
     /**
@@ -899,11 +914,7 @@ public:
      */
     bool operator<=(const decimal_fixedpoint& v) const
     {
-        for ( int i = whole_words + fraction_words - 1; i >= 0; --i ) {
-            if ( data[i] < v.data[i] ) return true;
-            if ( data[i] > v.data[i] ) return false;
-        }
-        return true;
+        return compare(v) <= 0;
     }
 };
 
diff --git a/src/sst/core/unitAlgebra.cc b/src/sst/core/unitAlgebra.cc
index b96b4a0..ee844b9 100644
--- a/src/sst/core/unitAlgebra.cc
+++ b/src/sst/core/unitAlgebra.cc
@@ -378,11 +378,13 @@ UnitAlgebra::toStringBestSI(int32_t precision) const
 
     auto& si_units = si_unit_map();
     for ( auto it : si_units ) {
-        // Divide by the value, if it's between 1 and 1000, we have
-        // the most natural SI unit
+        // Divide by the value, if its magnitude is between 1 and 1000,
+        // we have the most natural SI unit
         if ( it.first.length() == 2 ) continue; // Don't do power of 2 units
-        temp = value / it.second;
-        if ( temp >= 1 && temp < 1000 ) {
+        temp                  = value / it.second;
+        sst_big_num magnitude = temp;
+        if ( magnitude < 0 ) magnitude.negate();
+        if ( magnitude >= 1 && magnitude < 1000 ) {
             found = true;
             si    = it.first;
             break;
-- 
2.43.0


From 80d0c808661928bbab2860e53dd2ee1b2d088bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:30 +0000
Subject: [PATCH 06/35] fix: AccumulatorStatistic reports the right maximum for
 all-negative floating point data

numeric_limits<T>::min() is the smallest positive normal number for floating
point types, so a maximum below it was never recorded.
---
 src/sst/core/statapi/stataccumulator.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sst/core/statapi/stataccumulator.h b/src/sst/core/statapi/stataccumulator.h
index 1293a68..087e17e 100644
--- a/src/sst/core/statapi/stataccumulator.h
+++ b/src/sst/core/statapi/stataccumulator.h
@@ -59,7 +59,7 @@ public:
         m_sum    = static_cast<NumberBase>(0);
         m_sum_sq = static_cast<NumberBase>(0);
         m_min    = std::numeric_limits<NumberBase>::max();
-        m_max    = std::numeric_limits<NumberBase>::min();
+        m_max    = std::numeric_limits<NumberBase>::lowest();
     }
 
     ~AccumulatorStatistic() {}
@@ -164,7 +164,7 @@ public:
         m_sum    = 0;
         m_sum_sq = 0;
         m_min    = std::numeric_limits<NumberBase>::max();
-        m_max    = std::numeric_limits<NumberBase>::min();
+        m_max    = std::numeric_limits<NumberBase>::lowest();
         this->setCollectionCount(0);
     }
 
-- 
2.43.0


From 5986196ebd4fab37e931aa48cc8d90f8e3948143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:38 +0000
Subject: [PATCH 07/35] fix: HistogramStatistic counts every repeated point as
 binned

addDataNTimes(N, v) added N to the bin but only one to the number of binned items.
---
 src/sst/core/statapi/stathistogram.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sst/core/statapi/stathistogram.h b/src/sst/core/statapi/stathistogram.h
index c893498..bdb9cdf 100644
--- a/src/sst/core/statapi/stathistogram.h
+++ b/src/sst/core/statapi/stathistogram.h
@@ -134,7 +134,7 @@ protected:
         m_totalSummedSqr += N * (value * value);
 
         // Increment the Binned count (note this <= to the Statistics added Item Count)
-        m_itemsBinnedCount++;
+        m_itemsBinnedCount += N;
 
         // Figure out what the starting bin is and find it in the map
         // To support signed and unsigned values along with floating point types,
-- 
2.43.0


From df1bdc405cfcde9d2564339a55e9073fd6679ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:38 +0000
Subject: [PATCH 08/35] fix: HistogramStatistic upper bound no longer wraps at
 32 bits

binwidth * numbins was computed in 32 bits, so wide histograms rejected in-range points.
---
 src/sst/core/statapi/stathistogram.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sst/core/statapi/stathistogram.h b/src/sst/core/statapi/stathistogram.h
index bdb9cdf..52c6309 100644
--- a/src/sst/core/statapi/stathistogram.h
+++ b/src/sst/core/statapi/stathistogram.h
@@ -205,7 +205,7 @@ private:
     BinDataType getBinsMaxValue()
     {
         // Compute the max value based on the width * num bins offset by minvalue
-        return (m_binWidth * m_numBins) + m_minValue - 1;
+        return ((uint64_t)m_binWidth * m_numBins) + m_minValue - 1; // Force full 64-bit multiply
     }
 
     /**
-- 
2.43.0


From f45c456e3c61aaab0a1ae6555ff9fc4e47451077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:09 +0000
Subject: [PATCH 09/35] fix: HistogramStatistic bins points relative to the
 minimum value, exactly

Bins are reported as [minvalue + y * binwidth, ...], but points were filed
under multiples of binwidth, so with a minvalue that is not a multiple of
binwidth no reported bin ever received its points.  Integer data went
through double, which misfiled values above 2^53.
---
 src/sst/core/statapi/stathistogram.h | 41 +++++++++++++++++++---------
 1 file changed, 28 insertions(+), 13 deletions(-)

diff --git a/src/sst/core/statapi/stathistogram.h b/src/sst/core/statapi/stathistogram.h
index 52c6309..df80fbc 100644
--- a/src/sst/core/statapi/stathistogram.h
+++ b/src/sst/core/statapi/stathistogram.h
@@ -17,6 +17,8 @@
 #include "sst/core/statapi/statoutput.h"
 #include "sst/core/warnmacros.h"
 
+#include <type_traits>
+
 namespace SST::Statistics {
 
 // NOTE: When calling base class members in classes derived from
@@ -137,15 +139,7 @@ protected:
         m_itemsBinnedCount += N;
 
         // Figure out what the starting bin is and find it in the map
-        // To support signed and unsigned values along with floating point types,
-        // the calculation to find the bin_start value must be done in floating point
-        // then converted to BinDataType
-        double      calc1     = (double)value / (double)m_binWidth;
-        double      calc2     = floor(calc1); // Find the floor of the value
-        double      calc3     = m_binWidth * calc2;
-        BinDataType bin_start = (BinDataType)calc3;
-        //      printf("DEBUG: value = %d, junk1 = %f, calc2 = %f, calc3 = %f : bin_start = %d, item count = %ld, \n",
-        //      value, calc1, calc2, calc3, bin_start, getStatCollectionCount());
+        BinDataType bin_start = getBinStart(value);
 
         HistoMapItr_t bin_itr = m_binsMap.find(bin_start);
 
@@ -163,6 +157,30 @@ protected:
     void addData_impl(BinDataType value) override { addData_impl_Ntimes(1, value); }
 
 private:
+    /** Start of the bin that holds value; bins are laid out from the minimum value.  Only valid for
+        value >= getBinsMinValue() */
+    BinDataType getBinStart(BinDataType value)
+    {
+        if constexpr ( std::is_floating_point_v<BinDataType> ) {
+            return getBinStartByIndex((uint64_t)floor(((double)value - (double)m_minValue) / (double)m_binWidth));
+        }
+        else {
+            // Exact also for values that a double cannot represent
+            return getBinStartByIndex(((uint64_t)value - (uint64_t)m_minValue) / m_binWidth);
+        }
+    }
+
+    /** Start of the bin with the given number */
+    BinDataType getBinStartByIndex(uint64_t index)
+    {
+        if constexpr ( std::is_floating_point_v<BinDataType> ) {
+            return (BinDataType)((double)m_minValue + (double)index * (double)m_binWidth);
+        }
+        else {
+            return (BinDataType)((uint64_t)m_minValue + index * m_binWidth);
+        }
+    }
+
     /** Count how many bins are active in this histogram */
     NumBinsType getActiveBinCount() { return m_binsMap.size(); }
 
@@ -306,11 +324,8 @@ private:
 
         // Do we also need to dump the bin counts on output
         if ( true == m_dumpBinsOnOutput ) {
-            BinDataType currentBinValue = getBinsMinValue();
             for ( uint32_t y = 0; y < getNumBins(); y++ ) {
-                statOutput->outputField(m_Fields[x++], getBinCountByBinStart(currentBinValue));
-                // Increment the currentBinValue to get the next bin
-                currentBinValue += getBinWidth();
+                statOutput->outputField(m_Fields[x++], getBinCountByBinStart(getBinStartByIndex(y)));
             }
         }
     }
-- 
2.43.0


From 39eb672e3a35fa96425611381d73600d005091b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:08 +0000
Subject: [PATCH 10/35] fix: thread-safe TimeVortexPQ stayed locked after pop()
 on an empty queue

---
 src/sst/core/impl/timevortex/timeVortexPQ.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sst/core/impl/timevortex/timeVortexPQ.cc b/src/sst/core/impl/timevortex/timeVortexPQ.cc
index 7d75427..21fd6ff 100644
--- a/src/sst/core/impl/timevortex/timeVortexPQ.cc
+++ b/src/sst/core/impl/timevortex/timeVortexPQ.cc
@@ -76,7 +76,10 @@ Activity*
 TimeVortexPQBase<TS>::pop()
 {
     if constexpr ( TS ) slock.lock();
-    if ( data.empty() ) return nullptr;
+    if ( data.empty() ) {
+        if constexpr ( TS ) slock.unlock();
+        return nullptr;
+    }
     Activity* ret_val = data.top();
     data.pop();
     current_depth--;
-- 
2.43.0


From 1ba06f793405dc5357a405da0ec2c7fc0c0751de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:14 +0000
Subject: [PATCH 11/35] verif: loop invariants for SparseVectorMap searches
 (SST_CORE_VERIF)

---
 src/sst/core/sparseVectorMap.h | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/src/sst/core/sparseVectorMap.h b/src/sst/core/sparseVectorMap.h
index 7c38a95..ae0b80d 100644
--- a/src/sst/core/sparseVectorMap.h
+++ b/src/sst/core/sparseVectorMap.h
@@ -74,6 +74,10 @@ private:
         int middle;
 
         while ( bottom <= top ) {
+#ifdef SST_CORE_VERIF
+            SST_VERIF_INVARIANT("SparseVectorMap::insert", 0 <= bottom && bottom <= top && top < size && id <= data[top].key() &&
+                vf::forall(0, bottom, [&](uint64_t k) { return data[k].key() < id; }));
+#endif
             middle = bottom + (top - bottom) / 2;
             if ( id == data[middle].key() ) return -1; // Already in map
             if ( id < data[middle].key() ) {
@@ -111,6 +115,11 @@ private:
 
         if ( data.size() == 0 ) return -1;
         while ( bottom <= top ) {
+#ifdef SST_CORE_VERIF
+            SST_VERIF_INVARIANT("SparseVectorMap::find", 0 <= bottom && bottom <= top && top < (int)data.size() &&
+                vf::forall(0, bottom, [&](uint64_t k) { return data[k].key() < id; }) &&
+                vf::forall((uint64_t)top + 1, data.size(), [&](uint64_t k) { return id < data[k].key(); }));
+#endif
             middle = bottom + (top - bottom) / 2;
             if ( id == data[middle].key() )
                 return middle;
@@ -342,6 +351,10 @@ private:
         int middle;
 
         while ( bottom <= top ) {
+#ifdef SST_CORE_VERIF
+            SST_VERIF_INVARIANT("SparseVectorMap::insert", 0 <= bottom && bottom <= top && top < size && id <= data[top]->key() &&
+                vf::forall(0, bottom, [&](uint64_t k) { return data[k]->key() < id; }));
+#endif
             middle = bottom + (top - bottom) / 2;
             if ( id == data[middle]->key() ) return -1; // Already in map
             if ( id < data[middle]->key() ) {
@@ -379,6 +392,11 @@ private:
 
         if ( data.size() == 0 ) return -1;
         while ( bottom <= top ) {
+#ifdef SST_CORE_VERIF
+            SST_VERIF_INVARIANT("SparseVectorMap::find", 0 <= bottom && bottom <= top && top < (int)data.size() &&
+                vf::forall(0, bottom, [&](uint64_t k) { return data[k]->key() < id; }) &&
+                vf::forall((uint64_t)top + 1, data.size(), [&](uint64_t k) { return id < data[k]->key(); }));
+#endif
             middle = bottom + (top - bottom) / 2;
             if ( id == data[middle]->key() )
                 return middle;
@@ -628,6 +646,10 @@ private:
         int middle;
 
         while ( bottom <= top ) {
+#ifdef SST_CORE_VERIF
+            SST_VERIF_INVARIANT("SparseVectorMap::insert", 0 <= bottom && bottom <= top && top < size && id <= data[top] &&
+                vf::forall(0, bottom, [&](uint64_t k) { return data[k] < id; }));
+#endif
             middle = bottom + (top - bottom) / 2;
             if ( id == data[middle] ) return -1; // Already in map
             if ( id < data[middle] ) {
@@ -665,6 +687,11 @@ private:
 
         if ( data.size() == 0 ) return -1;
         while ( bottom <= top ) {
+#ifdef SST_CORE_VERIF
+            SST_VERIF_INVARIANT("SparseVectorMap::find", 0 <= bottom && bottom <= top && top < (int)data.size() &&
+                vf::forall(0, bottom, [&](uint64_t k) { return data[k] < id; }) &&
+                vf::forall((uint64_t)top + 1, data.size(), [&](uint64_t k) { return id < data[k]; }));
+#endif
             middle = bottom + (top - bottom) / 2;
             if ( id == data[middle] )
                 return middle;
-- 
2.43.0


From 82fe336c24aaea4136a16904f9b1d0fc0a851880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:14 +0000
Subject: [PATCH 12/35] verif: loop invariant for Simulation::run
 (SST_CORE_VERIF)

---
 src/sst/core/simulation.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sst/core/simulation.cc b/src/sst/core/simulation.cc
index 5589aa7..bb154fa 100644
--- a/src/sst/core/simulation.cc
+++ b/src/sst/core/simulation.cc
@@ -1097,6 +1097,9 @@ Simulation::run()
     // If there was a fault, a message will be printed.
     bool time_fault = false;
     while ( LIKELY(!endSim && !time_fault) ) {
+#ifdef SST_CORE_VERIF
+        SST_VERIF_INVARIANT("Simulation::run", !endSim && !time_fault && !vf::ghost_flag && vf::ghost_time <= currentSimCycle);
+#endif
 
         current_activity     = timeVortex->pop();
         // Check for time fault
-- 
2.43.0


From ea4e3fce67f5a6497cad38f7a40b2c206957193d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:19 +0000
Subject: [PATCH 13/35] fix: dividing or multiplying Units by itself used its
 own updated unit lists

---
 src/sst/core/unitAlgebra.cc | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/sst/core/unitAlgebra.cc b/src/sst/core/unitAlgebra.cc
index ee844b9..e33a82e 100644
--- a/src/sst/core/unitAlgebra.cc
+++ b/src/sst/core/unitAlgebra.cc
@@ -219,9 +219,12 @@ Units&
 Units::operator*=(const Units& v)
 {
 
+    // v may be this object, so work from a copy of its units
+    const Units rhs(v);
+
     // Simply combine the two numerators and denominators, then reduce.
-    numerator.insert(numerator.end(), v.numerator.begin(), v.numerator.end());
-    denominator.insert(denominator.end(), v.denominator.begin(), v.denominator.end());
+    numerator.insert(numerator.end(), rhs.numerator.begin(), rhs.numerator.end());
+    denominator.insert(denominator.end(), rhs.denominator.begin(), rhs.denominator.end());
     reduce();
     return *this;
 }
@@ -229,8 +232,11 @@ Units::operator*=(const Units& v)
 Units&
 Units::operator/=(const Units& v)
 {
-    numerator.insert(numerator.end(), v.denominator.begin(), v.denominator.end());
-    denominator.insert(denominator.end(), v.numerator.begin(), v.numerator.end());
+    // v may be this object, so work from a copy of its units
+    const Units rhs(v);
+
+    numerator.insert(numerator.end(), rhs.denominator.begin(), rhs.denominator.end());
+    denominator.insert(denominator.end(), rhs.numerator.begin(), rhs.numerator.end());
     reduce();
     return *this;
 }
-- 
2.43.0


From 517d674ee4f60a6ab4db66d914816c4acb275b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:19 +0000
Subject: [PATCH 14/35] fix: decimal_fixedpoint multiplied by itself read its
 own overwritten digits

---
 src/sst/core/decimal_fixedpoint.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/sst/core/decimal_fixedpoint.h b/src/sst/core/decimal_fixedpoint.h
index e0364e8..5ae0e83 100644
--- a/src/sst/core/decimal_fixedpoint.h
+++ b/src/sst/core/decimal_fixedpoint.h
@@ -769,6 +769,10 @@ public:
         // Need to do the multiply accumulate for each digit.
         decimal_fixedpoint<whole_words, fraction_words> me(*this);
 
+        // If multiplying by ourselves, use the copy, because our own
+        // digits are overwritten as the result is computed
+        const decimal_fixedpoint& rhs = (&v == this) ? me : v;
+
         // The first "fraction_words" digits only matter as far as
         // their carries go.  They get dropped in the final output
         // because they are less than the least significant digit.
@@ -776,7 +780,7 @@ public:
         for ( int i = 0; i < fraction_words; ++i ) {
             uint64_t sum = carry_over;
             for ( int j = 0; j <= i; ++j ) {
-                sum += static_cast<uint64_t>(me.data[j]) * static_cast<uint64_t>(v.data[i - j]);
+                sum += static_cast<uint64_t>(me.data[j]) * static_cast<uint64_t>(rhs.data[i - j]);
             }
             carry_over = sum / storage_radix_long;
         }
@@ -785,7 +789,7 @@ public:
         for ( int i = fraction_words; i < whole_words + fraction_words; ++i ) {
             uint64_t sum = carry_over;
             for ( int j = 0; j <= i; ++j ) {
-                sum += static_cast<uint64_t>(me.data[j]) * static_cast<uint64_t>(v.data[i - j]);
+                sum += static_cast<uint64_t>(me.data[j]) * static_cast<uint64_t>(rhs.data[i - j]);
             }
             carry_over               = sum / storage_radix_long;
             data[i - fraction_words] = static_cast<uint32_t>(sum % storage_radix_long);
@@ -795,13 +799,13 @@ public:
             uint64_t sum = carry_over;
             for ( int j = i + 1; j < whole_words + fraction_words; ++j ) {
                 sum += static_cast<uint64_t>(me.data[j]) *
-                       static_cast<uint64_t>(v.data[whole_words + fraction_words + i - j]);
+                       static_cast<uint64_t>(rhs.data[whole_words + fraction_words + i - j]);
             }
             carry_over            = sum / storage_radix_long;
             data[i + whole_words] = static_cast<uint32_t>(sum % storage_radix_long);
         }
         // Get the sign
-        negative = negative ^ v.negative;
+        negative = negative ^ rhs.negative;
         return *this;
     }
 
-- 
2.43.0


From a7f70b79a2f43d3f0401436be02ff8c37070b1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:42 +0000
Subject: [PATCH 15/35] fix: memory pool arenas smaller than one element handed
 out memory beyond the arena

---
 src/sst/core/mempool.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sst/core/mempool.cc b/src/sst/core/mempool.cc
index 7822255..29352a7 100644
--- a/src/sst/core/mempool.cc
+++ b/src/sst/core/mempool.cc
@@ -132,6 +132,8 @@ public:
         else {
             allocSize = elemSize + 8;
         }
+        // An arena must hold at least one element
+        if ( arenaSize < allocSize ) arenaSize = allocSize;
         max_overflow_size = arenaSize / allocSize;
 
         // Won't alloc until we need to
-- 
2.43.0


From 6e5b8fa057aa2425d885eab70cfedd8f780c4cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:42 +0000
Subject: [PATCH 16/35] verif: loop invariant for MemPoolNoMutex::allocPool
 (SST_CORE_VERIF)

---
 src/sst/core/mempool.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/sst/core/mempool.cc b/src/sst/core/mempool.cc
index 29352a7..7d73655 100644
--- a/src/sst/core/mempool.cc
+++ b/src/sst/core/mempool.cc
@@ -246,6 +246,12 @@ private:
         arenas.push_back(newPool);
         size_t nelem = arenaSize / allocSize;
         for ( size_t i = 0; i < nelem; i++ ) {
+#ifdef SST_CORE_VERIF
+            SST_VERIF_INVARIANT("MemPoolNoMutex::allocPool", i < nelem && freelist.size() == i && i <= freelist.capacity() &&
+                (i == 0 || ((uint64_t)freelist[0] == (uint64_t)newPool &&
+                    (uint64_t)freelist[i - 1] + allocSize == (uint64_t)newPool + allocSize * i)) &&
+                vf::forall(1, i, [&](uint64_t k) { return (uint64_t)freelist[k] == (uint64_t)freelist[k - 1] + allocSize; }));
+#endif
             uint64_t* ptr = (uint64_t*)(newPool + (allocSize * i));
             freelist.push_back(ptr);
         }
-- 
2.43.0


From c34165124f43d7aac571f8ae069e159c189e3639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:42 +0000
Subject: [PATCH 17/35] fix: StandardMem WriteUnlock::makeResponse cleared the
 request's virtual address

---
 src/sst/core/interfaces/stdMem.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sst/core/interfaces/stdMem.h b/src/sst/core/interfaces/stdMem.h
index f0af776..52ba12b 100644
--- a/src/sst/core/interfaces/stdMem.h
+++ b/src/sst/core/interfaces/stdMem.h
@@ -854,7 +854,7 @@ public:
 
         virtual ~WriteUnlock() {}
 
-        virtual Request* makeResponse() override { return new WriteResp(id, pAddr, size, flags, vAddr = 0, iPtr, tid); }
+        virtual Request* makeResponse() override { return new WriteResp(id, pAddr, size, flags, vAddr, iPtr, tid); }
 
         virtual bool needsResponse() override { return !posted; }
 
-- 
2.43.0


From 6984371157c8159a7a0148dc995b23c2d2f3f9b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:42 +0000
Subject: [PATCH 18/35] fix: StandardMem ReadResp was deserialized as a Read
 and lost its data

---
 src/sst/core/interfaces/stdMem.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sst/core/interfaces/stdMem.h b/src/sst/core/interfaces/stdMem.h
index 52ba12b..11422a6 100644
--- a/src/sst/core/interfaces/stdMem.h
+++ b/src/sst/core/interfaces/stdMem.h
@@ -420,11 +420,12 @@ public:
             SST_SER(pAddr);
             SST_SER(vAddr);
             SST_SER(size);
+            SST_SER(data);
             SST_SER(iPtr);
             SST_SER(tid);
         }
 
-        ImplementSerializable(SST::Interfaces::StandardMem::Read);
+        ImplementSerializable(SST::Interfaces::StandardMem::ReadResp);
     };
 
     /** Request to write data.
-- 
2.43.0


From f76ba6f09cfd3f9edddb23b2c7acf2ddc0d4317b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:42 +0000
Subject: [PATCH 19/35] fix: unpacking a StandardMem request moved the request
 id counter back

---
 src/sst/core/interfaces/stdMem.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/sst/core/interfaces/stdMem.h b/src/sst/core/interfaces/stdMem.h
index 11422a6..b5a5de7 100644
--- a/src/sst/core/interfaces/stdMem.h
+++ b/src/sst/core/interfaces/stdMem.h
@@ -255,7 +255,12 @@ public:
         {
             SST_SER(id);
             SST_SER(flags);
-            SST_SER(main_id);
+
+            // Unpacking a request must never move the id counter back, or ids would be handed out again
+            id_t next_id = main_id;
+            SST_SER(next_id);
+            id_t current = main_id;
+            while ( current < next_id && !main_id.compare_exchange_weak(current, next_id) ) {}
         }
 
     protected:
-- 
2.43.0


From 0f6fd0e6fdc8d93119bb5a2693322b35be51e9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:42 +0000
Subject: [PATCH 20/35] fix: serialization buffer overrun check wrapped around
 for huge sizes

---
 src/sst/core/serialization/impl/ser_buffer_accessor.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sst/core/serialization/impl/ser_buffer_accessor.h b/src/sst/core/serialization/impl/ser_buffer_accessor.h
index 2bba149..7203500 100644
--- a/src/sst/core/serialization/impl/ser_buffer_accessor.h
+++ b/src/sst/core/serialization/impl/ser_buffer_accessor.h
@@ -43,8 +43,9 @@ public:
     // return a pointer to the buffer and then advance it size bytes
     void* buf_next(size_t size)
     {
+        // Compare against what is left, because size_ + size can wrap around when size comes from a corrupt buffer
+        if ( size > max_size_ - size_ ) throw std::out_of_range("serialization buffer overrun");
         size_ += size;
-        if ( size_ > max_size_ ) throw std::out_of_range("serialization buffer overrun");
         char* buf = bufptr_;
         bufptr_ += size;
         return buf;
-- 
2.43.0


From 122acfd759005ef1a76c32258d5290fec61f4dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:42 +0000
Subject: [PATCH 21/35] fix: size of the second shared_ptr to a shared array
 was not serialized

---
 .../core/serialization/impl/serialize_shared_ptr.h    | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/sst/core/serialization/impl/serialize_shared_ptr.h b/src/sst/core/serialization/impl/serialize_shared_ptr.h
index 7bd2774..4b8f9a0 100644
--- a/src/sst/core/serialization/impl/serialize_shared_ptr.h
+++ b/src/sst/core/serialization/impl/serialize_shared_ptr.h
@@ -277,6 +277,10 @@ unpack_shared_ptr_owner(
         // Set the parent to the owning std::shared_ptr, analogous to casting from void* to PARENT_TYPE*
         parent = std::static_pointer_cast<PARENT_TYPE>(owner);
     }
+    else if constexpr ( is_unbounded_array_v<OWNER_TYPE> ) {
+        // Each pointer to a shared array has its own size parameter
+        ser.primitive(*size);
+    }
     return owner;
 }
 
@@ -325,7 +329,12 @@ public:
             if ( tag != 0 ) pack_shared_ptr_address(ptr, parent, size, ser);
 
             // If this is the first use of the tag of the owning control block, serialize the parent object
-            if ( is_new_tag ) pack_shared_ptr_parent(parent, size, ser, opt);
+            if ( is_new_tag )
+                pack_shared_ptr_parent(parent, size, ser, opt);
+            else if constexpr ( is_unbounded_array_v<PARENT_TYPE> ) {
+                // Each pointer to a shared array has its own size parameter
+                if ( tag != 0 ) ser.primitive(*size);
+            }
             break;
         }
 
-- 
2.43.0


From 43ec58171a214cde7c5bc3b67cc12a38a73cd844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:42 +0000
Subject: [PATCH 22/35] fix: shared_ptr unpacking ignored the serialization
 options used for packing

---
 src/sst/core/serialization/impl/serialize_shared_ptr.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sst/core/serialization/impl/serialize_shared_ptr.h b/src/sst/core/serialization/impl/serialize_shared_ptr.h
index 4b8f9a0..7492e52 100644
--- a/src/sst/core/serialization/impl/serialize_shared_ptr.h
+++ b/src/sst/core/serialization/impl/serialize_shared_ptr.h
@@ -270,7 +270,7 @@ unpack_shared_ptr_owner(
                     owner = std::make_shared<OWNER_TYPE>();
 
                 // Deserialize the parent owner object
-                SST_SER(*static_cast<OWNER_TYPE*>(owner.get()));
+                SST_SER(*static_cast<OWNER_TYPE*>(owner.get()), opt);
             }
         }
 
-- 
2.43.0


From 3839c543a7549a3c385642e838670cf64b360b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:42 +0000
Subject: [PATCH 23/35] fix: SharedObject counters were uninitialized and lost
 on restart

---
 src/sst/core/shared/sharedObject.h | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/sst/core/shared/sharedObject.h b/src/sst/core/shared/sharedObject.h
index 6317284..0f7b476 100644
--- a/src/sst/core/shared/sharedObject.h
+++ b/src/sst/core/shared/sharedObject.h
@@ -134,10 +134,10 @@ public:
 
 protected:
     std::string name;
-    int         share_count;
-    int         publish_count;
-    bool        fully_published;
-    bool        locked;
+    int         share_count     = 0;
+    int         publish_count   = 0;
+    bool        fully_published = false;
+    bool        locked          = false;
 
     // Mutex for locking across threads
     mutable std::mutex mtx;
@@ -214,7 +214,14 @@ protected:
      */
     virtual ~SharedObjectData() {}
 
-    void serialize_order(serializer& ser) override { SST_SER(name); }
+    void serialize_order(serializer& ser) override
+    {
+        SST_SER(name);
+        SST_SER(share_count);
+        SST_SER(publish_count);
+        SST_SER(fully_published);
+        SST_SER(locked);
+    }
 
     ImplementVirtualSerializable(SharedObjectData);
 };
-- 
2.43.0


From cd46a089e3b1e79b8744b52c342b75d7e897370f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:42 +0000
Subject: [PATCH 24/35] fix: SharedMap::upper_bound returned the lower bound

---
 src/sst/core/shared/sharedMap.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sst/core/shared/sharedMap.h b/src/sst/core/shared/sharedMap.h
index c313faa..8a0d96c 100644
--- a/src/sst/core/shared/sharedMap.h
+++ b/src/sst/core/shared/sharedMap.h
@@ -152,7 +152,7 @@ public:
 
        @param key key to compare to
     */
-    inline const_iterator upper_bound(const keyT& key) const { return data->map.lower_bound(key); }
+    inline const_iterator upper_bound(const keyT& key) const { return data->map.upper_bound(key); }
 
     /**
        Indicate that the calling element has written all the data it
-- 
2.43.0


From aff49a06ffedd25a55d97afeef2fed0700deb891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:42 +0000
Subject: [PATCH 25/35] fix: direct links between threads were never
 synchronized

---
 src/sst/core/sync/threadSyncDirectSkip.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sst/core/sync/threadSyncDirectSkip.h b/src/sst/core/sync/threadSyncDirectSkip.h
index d6c5ddb..83982e6 100644
--- a/src/sst/core/sync/threadSyncDirectSkip.h
+++ b/src/sst/core/sync/threadSyncDirectSkip.h
@@ -67,7 +67,10 @@ public:
     /** Clear interactive flags before next run */
     void clearFlags() override;
 
-    SimTime_t getNextSyncTime() override { return nextSyncTime - 1; }
+    SimTime_t getNextSyncTime() override { return nextSyncTime; }
+
+    /** The smallest latency of a link between threads; without it, the SyncManager would drop this object */
+    SimTime_t findSyncInterval() override { return my_max_period; }
 
     /** Register a Link which this Sync Object is responsible for */
     void           registerLink(Link* UNUSED(link)) override {}
-- 
2.43.0


From cd573eb4f6f54f77a423cec53c06f5d109288fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:53 +0000
Subject: [PATCH 26/35] fix: elements of sets packed with as_ptr_elem could not
 be unpacked

---
 .../core/serialization/impl/serialize_insertable.h   | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/sst/core/serialization/impl/serialize_insertable.h b/src/sst/core/serialization/impl/serialize_insertable.h
index 1f12f50..2250ebd 100644
--- a/src/sst/core/serialization/impl/serialize_insertable.h
+++ b/src/sst/core/serialization/impl/serialize_insertable.h
@@ -172,10 +172,18 @@ class serialize_impl<OBJ, std::enable_if_t<is_insertable_v<OBJ>>>
                     SST_SER_NAME(cast_e.second, "value", opts);
                 }
             }
+            else if constexpr ( is_same_type_template_v<OBJ, std::set> ||
+                                is_same_type_template_v<OBJ, std::unordered_set> ||
+                                is_same_type_template_v<OBJ, std::multiset> ||
+                                is_same_type_template_v<OBJ, std::unordered_multiset> ) {
+                // as_ptr_elem is not supported for sets (see UNPACK below), so the elements must not be tracked here
+                for ( auto& e : obj )
+                    SST_SER(const_cast<value_type&>(reinterpret_cast<const value_type&>(e)));
+            }
             else {
-                // Iterate over references to elements, casting away any const in keys
+                // Iterate over references to elements
                 for ( auto& e : obj )
-                    SST_SER(const_cast<value_type&>(reinterpret_cast<const value_type&>(e)), opts);
+                    SST_SER(e, opts);
             }
             break;
         }
-- 
2.43.0


From ab705cae46ca68e5ebd91dee50d4bba78625a38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:53 +0000
Subject: [PATCH 27/35] verif: loop invariants for container serialization
 (SST_CORE_VERIF)

---
 .../core/serialization/impl/serialize_insertable.h   | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/sst/core/serialization/impl/serialize_insertable.h b/src/sst/core/serialization/impl/serialize_insertable.h
index 2250ebd..681ef68 100644
--- a/src/sst/core/serialization/impl/serialize_insertable.h
+++ b/src/sst/core/serialization/impl/serialize_insertable.h
@@ -182,8 +182,13 @@ class serialize_impl<OBJ, std::enable_if_t<is_insertable_v<OBJ>>>
             }
             else {
                 // Iterate over references to elements
-                for ( auto& e : obj )
+                for ( auto& e : obj ) {
+#ifdef SST_CORE_VERIF
+                    if constexpr ( vf::cut_elements<OBJ> )
+                        SST_VERIF_INVARIANT("serialize_impl<insertable>::pack", vf::elements_packed(obj, e, ser));
+#endif
                     SST_SER(e, opts);
+                }
             }
             break;
         }
@@ -209,6 +214,11 @@ class serialize_impl<OBJ, std::enable_if_t<is_insertable_v<OBJ>>>
             }
             else {
                 for ( size_t i = 0; i < size; ++i ) {
+#ifdef SST_CORE_VERIF
+                    if constexpr ( vf::cut_elements<OBJ> )
+                        SST_VERIF_INVARIANT(
+                            "serialize_impl<insertable>::unpack", i < size && vf::elements_unpacked(obj, i, ser));
+#endif
                     if constexpr ( is_same_type_template_v<OBJ, std::map> ||
                                    is_same_type_template_v<OBJ, std::unordered_map> ) {
                         typename OBJ::key_type key {};
-- 
2.43.0


From b15c496d198f8fcf2636190ec5693fa3ea1cf57e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:48 +0000
Subject: [PATCH 28/35] fix: next rank synchronisation wrapped around into the
 past when no work was left

---
 src/sst/core/sync/rankSyncParallelSkip.cc | 4 +++-
 src/sst/core/sync/rankSyncSerialSkip.cc   | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/sst/core/sync/rankSyncParallelSkip.cc b/src/sst/core/sync/rankSyncParallelSkip.cc
index 94c67e4..42cb8c4 100644
--- a/src/sst/core/sync/rankSyncParallelSkip.cc
+++ b/src/sst/core/sync/rankSyncParallelSkip.cc
@@ -439,7 +439,9 @@ RankSyncParallelSkip::exchange_master(int UNUSED(thread))
     SimTime_t min_time;
     MPI_Allreduce(&input, &min_time, 1, MPI_UINT64_T, MPI_MIN, MPI_COMM_WORLD);
 
-    myNextSyncTime = min_time + max_period;
+    // If there is nothing left to do anywhere, min_time is MAX_SIMTIME_T and the sum must not wrap around into the past
+    SimTime_t min_plus = min_time + max_period;
+    myNextSyncTime     = min_time > min_plus ? min_time : min_plus;
 
     /* Exchange signals */
     int32_t local_signals[3]  = { sig_end_, sig_usr_, sig_alrm_ };
diff --git a/src/sst/core/sync/rankSyncSerialSkip.cc b/src/sst/core/sync/rankSyncSerialSkip.cc
index b371892..f5545fe 100644
--- a/src/sst/core/sync/rankSyncSerialSkip.cc
+++ b/src/sst/core/sync/rankSyncSerialSkip.cc
@@ -319,7 +319,9 @@ RankSyncSerialSkip::exchange()
     SimTime_t min_time;
     MPI_Allreduce(&input, &min_time, 1, MPI_UINT64_T, MPI_MIN, MPI_COMM_WORLD);
 
-    myNextSyncTime = min_time + max_period;
+    // If there is nothing left to do anywhere, min_time is MAX_SIMTIME_T and the sum must not wrap around into the past
+    SimTime_t min_plus = min_time + max_period;
+    myNextSyncTime     = min_time > min_plus ? min_time : min_plus;
 
     int32_t local_signals[3]  = { sig_end_, sig_usr_, sig_alrm_ };
     int32_t global_signals[3] = { 0, 0, 0 };
-- 
2.43.0


From 6220de5142e3be6d2cf35d201b2c43328be694ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:08:27 +0000
Subject: [PATCH 29/35] fix: trigger record showed a later sample once the
 trace buffer had dropped one

---
 src/sst/core/impl/interactive/ObjTreeHelpers.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sst/core/impl/interactive/ObjTreeHelpers.h b/src/sst/core/impl/interactive/ObjTreeHelpers.h
index 42beee4..70cfa5e 100644
--- a/src/sst/core/impl/interactive/ObjTreeHelpers.h
+++ b/src/sst/core/impl/interactive/ObjTreeHelpers.h
@@ -240,7 +240,8 @@ public:
                 for ( size_t obj = 0; obj < objBuffers_.size(); obj++ ) {
                     auto& [bufVec, storedTriggerIdx] = objBuffers_[obj];
                     bufVec.erase(bufVec.begin());
-                    if ( storedTriggerIdx == bufVec.size() ) {
+                    // The remaining samples moved down by one, including the triggered one
+                    if ( storedTriggerIdx > 0 ) {
                         storedTriggerIdx--;
                     }
                 }
-- 
2.43.0


From 2a453ba850c22fa4d0d50b07ca24efe221b7dbc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:08:27 +0000
Subject: [PATCH 30/35] fix: watchpoint <=, >= and == held for NaN and for
 values that cannot be compared

---
 src/sst/core/impl/interactive/NumericHandle.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/sst/core/impl/interactive/NumericHandle.h b/src/sst/core/impl/interactive/NumericHandle.h
index ce05698..3a6c32f 100644
--- a/src/sst/core/impl/interactive/NumericHandle.h
+++ b/src/sst/core/impl/interactive/NumericHandle.h
@@ -64,11 +64,11 @@ public:
 
     // ── Compare handle <=> handle ────────────────────────────────
     bool operator<(const NumericHandle& rhs) const { return cmpHandle(rhs, std::less<> {}); }
-    bool operator>(const NumericHandle& rhs) const { return rhs < *this; }
-    bool operator<=(const NumericHandle& rhs) const { return !(rhs < *this); }
-    bool operator>=(const NumericHandle& rhs) const { return !(*this < rhs); }
-    bool operator==(const NumericHandle& rhs) const { return !(*this < rhs) && !(rhs < *this); }
-    bool operator!=(const NumericHandle& rhs) const { return !(*this == rhs); }
+    bool operator>(const NumericHandle& rhs) const { return cmpHandle(rhs, std::greater<> {}); }
+    bool operator<=(const NumericHandle& rhs) const { return cmpHandle(rhs, std::less_equal<> {}); }
+    bool operator>=(const NumericHandle& rhs) const { return cmpHandle(rhs, std::greater_equal<> {}); }
+    bool operator==(const NumericHandle& rhs) const { return cmpHandle(rhs, std::equal_to<> {}); }
+    bool operator!=(const NumericHandle& rhs) const { return cmpHandle(rhs, std::not_equal_to<> {}); }
 
     // ── Compare handle <=> arithmetic constant ───────────────────
     // A single template for every numeric type avoids the int64_t vs
-- 
2.43.0


From 2e2fcb0dc92ae84a117ba8f1ed7c1a459f9c0b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:08:27 +0000
Subject: [PATCH 31/35] fix: watchpoint comparison took negative values for
 huge unsigned ones

---
 src/sst/core/impl/interactive/NumericHandle.h | 26 +++++++++++++------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/sst/core/impl/interactive/NumericHandle.h b/src/sst/core/impl/interactive/NumericHandle.h
index 3a6c32f..5631b5b 100644
--- a/src/sst/core/impl/interactive/NumericHandle.h
+++ b/src/sst/core/impl/interactive/NumericHandle.h
@@ -111,6 +111,20 @@ public:
     }
 
 private:
+    // Compare integers by value: a negative value is less than any value of an unsigned type
+    template <typename L, typename R, typename Cmp>
+    static bool cmpIntegers(L lhs, R rhs, Cmp cmp)
+    {
+        if constexpr ( std::is_signed_v<L> && !std::is_signed_v<R> ) {
+            if ( lhs < 0 ) return cmp(0, 1);
+        }
+        if constexpr ( !std::is_signed_v<L> && std::is_signed_v<R> ) {
+            if ( rhs < 0 ) return cmp(1, 0);
+        }
+        using Common = std::common_type_t<L, R>;
+        return cmp(static_cast<Common>(lhs), static_cast<Common>(rhs));
+    }
+
     // Visit both sides' variants and compare directly.
     template <typename Cmp>
     bool cmpHandle(const NumericHandle& rhs, Cmp cmp) const
@@ -121,8 +135,7 @@ private:
         auto visitRhs = [&](auto lhsVal) -> bool {
             auto inner = [&](auto rhsVal) -> bool {
                 if constexpr ( std::is_integral_v<decltype(lhsVal)> && std::is_integral_v<decltype(rhsVal)> ) {
-                    using Common = std::common_type_t<decltype(lhsVal), decltype(rhsVal)>;
-                    return cmp(static_cast<Common>(lhsVal), static_cast<Common>(rhsVal));
+                    return cmpIntegers(lhsVal, rhsVal, cmp);
                 }
                 else {
                     return cmp(static_cast<long double>(lhsVal), static_cast<long double>(rhsVal));
@@ -152,8 +165,7 @@ private:
             return asInteger()->visit([&](auto lhs) {
                 if constexpr ( std::is_integral_v<decltype(lhs)> && std::is_integral_v<ConstT> ) {
                     // Both sides integral — compare without floating-point loss
-                    using Common = std::common_type_t<decltype(lhs), ConstT>;
-                    return cmp(static_cast<Common>(lhs), static_cast<Common>(rhs));
+                    return cmpIntegers(lhs, rhs, cmp);
                 }
                 else {
                     return cmp(static_cast<long double>(lhs), static_cast<long double>(rhs));
@@ -167,8 +179,7 @@ private:
         if ( kind_ == Kind::Bool ) {
             auto lhs = static_cast<int64_t>(asBool()->getVal());
             if constexpr ( std::is_integral_v<ConstT> ) {
-                using Common = std::common_type_t<int64_t, ConstT>;
-                return cmp(static_cast<Common>(lhs), static_cast<Common>(rhs));
+                return cmpIntegers(lhs, rhs, cmp);
             }
             else {
                 return cmp(static_cast<long double>(lhs), static_cast<long double>(rhs));
@@ -177,8 +188,7 @@ private:
         if ( kind_ == Kind::Cont ) {
             auto lhs = asCont()->getSize();
             if constexpr ( std::is_integral_v<ConstT> ) {
-                using Common = std::common_type_t<int64_t, ConstT>;
-                return cmp(static_cast<Common>(lhs), static_cast<Common>(rhs));
+                return cmpIntegers(lhs, rhs, cmp);
             }
             else {
                 return cmp(static_cast<long double>(lhs), static_cast<long double>(rhs));
-- 
2.43.0


From 2e331dec4b2dbaae6293ccbed91b04c9e34b862b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:08:27 +0000
Subject: [PATCH 32/35] fix: trace buffer of size 0 was accepted and written
 out of bounds

---
 src/sst/core/impl/interactive/debugConsole.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sst/core/impl/interactive/debugConsole.cc b/src/sst/core/impl/interactive/debugConsole.cc
index 8b55bd1..27f8cc6 100644
--- a/src/sst/core/impl/interactive/debugConsole.cc
+++ b/src/sst/core/impl/interactive/debugConsole.cc
@@ -3856,6 +3856,10 @@ parseTraceBuffer(std::vector<std::string>& tokens, size_t& index)
         std::cout << "Out of range for buffer size: " << tokens[index - 1] << std::endl;
         return nullptr;
     }
+    if ( bufsize == 0 ) {
+        std::cout << "Invalid argument for buffer size: " << tokens[index - 1] << std::endl;
+        return nullptr;
+    }
 
     // Get post delay
     try {
-- 
2.43.0


From 17717e4d0ca56fe45acb2da09ce3861f41b646b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:08:28 +0000
Subject: [PATCH 33/35] fix: collapsed partition graph kept links of
 subcomponents attached to their old component

---
 src/sst/core/model/configGraph.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sst/core/model/configGraph.cc b/src/sst/core/model/configGraph.cc
index c4b68dc..74b1e2f 100644
--- a/src/sst/core/model/configGraph.cc
+++ b/src/sst/core/model/configGraph.cc
@@ -840,8 +840,9 @@ ConfigGraph::getCollapsedPartitionGraph()
         PartitionComponent* pcomp = *i;
         for ( LinkIdMap_t::iterator j = pcomp->links.begin(); j != pcomp->links.end(); ++j ) {
             PartitionLink& plink = plinks[*j];
-            if ( pcomp->group.contains(plink.component_[0]) ) plink.component_[0] = pcomp->id;
-            if ( pcomp->group.contains(plink.component_[1]) ) plink.component_[1] = pcomp->id;
+            // The link may be connected to a subcomponent
+            if ( pcomp->group.contains(COMPONENT_ID_MASK(plink.component_[0])) ) plink.component_[0] = pcomp->id;
+            if ( pcomp->group.contains(COMPONENT_ID_MASK(plink.component_[1])) ) plink.component_[1] = pcomp->id;
         }
     }
 
-- 
2.43.0


From 72e9179022cb7ef540f0e19770468c2e3cfa25b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:08:28 +0000
Subject: [PATCH 34/35] fix: a link whose second side has no latency was
 accepted

---
 src/sst/core/model/configGraph.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sst/core/model/configGraph.cc b/src/sst/core/model/configGraph.cc
index 74b1e2f..174e373 100644
--- a/src/sst/core/model/configGraph.cc
+++ b/src/sst/core/model/configGraph.cc
@@ -384,13 +384,13 @@ ConfigGraph::addLink(ComponentId_t comp_id, LinkId_t link_id, const char* port,
 
     // Check to make sure that a latency was specified, either in the
     // call or at ConfigLink construct time
-    if ( nullptr == latency_str && link->latency_[0] == 0 ) {
+    int index = link->component_[0] == UNSET_COMPONENT_ID ? 0 : 1;
+    if ( nullptr == latency_str && link->latency_[index] == 0 ) {
         output.fatal(CALL_INFO, 1, "ERROR: Parsing SDL file: Connecting link with no latency assigned: %s\n",
             link->name_.c_str());
     }
 
     // Update link information
-    int index               = link->component_[0] == UNSET_COMPONENT_ID ? 0 : 1;
     link->component_[index] = comp_id;
     link->port_[index]      = port;
 
-- 
2.43.0


From 52a4a917e066f399d297f72a0666acb49b8f5442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:08:28 +0000
Subject: [PATCH 35/35] fix: reporting a dangling link on a subcomponent looked
 up a component that does not exist

---
 src/sst/core/model/configGraph.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sst/core/model/configGraph.cc b/src/sst/core/model/configGraph.cc
index 174e373..e977f8d 100644
--- a/src/sst/core/model/configGraph.cc
+++ b/src/sst/core/model/configGraph.cc
@@ -263,7 +263,7 @@ ConfigGraph::checkForStructuralErrors()
         // If we do this check, we know component_[0] is set
         else if ( clink->component_[1] == UNSET_COMPONENT_ID && !clink->nonlocal_ ) {
             output.output("WARNING:  Found dangling link: %s.  It is connected on one side to component %s.\n",
-                clink->name_.c_str(), comps_[clink->component_[0]]->name.c_str());
+                clink->name_.c_str(), comps_[COMPONENT_ID_MASK(clink->component_[0])]->name.c_str());
             found_error = true;
         }
     }
-- 
2.43.0

