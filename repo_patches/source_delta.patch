From b62d2f1609c218adc54228ec7a3875a97a65fd75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:07 +0000
Subject: [PATCH 1/4] fix: clip extrema of 64 bit integer maps without
 undefined conversion

The largest 64 bit integer is not representable as a double, so clipping
to it and converting back is undefined (in practice the smallest integer),
which made every default LONGLONG map fail with an exception.  A minimum
above, or a maximum below, the type's range was likewise converted out of
range.
---
 lib/marc/Map_traits.h | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/lib/marc/Map_traits.h b/lib/marc/Map_traits.h
index 31cd15f..6a5437e 100644
--- a/lib/marc/Map_traits.h
+++ b/lib/marc/Map_traits.h
@@ -79,10 +79,7 @@ namespace MaRC
          */
         static T minimum(double m)
         {
-            constexpr double type_min = std::numeric_limits<T>::lowest();
-
-            // Return the larger of the two minimums.
-            return std::max(m, type_min);
+            return clip(m);
         }
 
         /**
@@ -103,10 +100,31 @@ namespace MaRC
          */
         static T maximum(double m)
         {
-            constexpr double type_max = std::numeric_limits<T>::max();
+            return clip(m);
+        }
+
+    private:
+
+        /**
+         * @brief Clip value to the map data type range.
+         *
+         * The limits of the map data type are not necessarily exactly
+         * representable as a @c double.  For example, the largest 64
+         * bit integer is rounded up.  Converting such a rounded limit
+         * back to the map data type is undefined behavior.
+         */
+        static T clip(double m)
+        {
+            constexpr T type_min = std::numeric_limits<T>::lowest();
+            constexpr T type_max = std::numeric_limits<T>::max();
+
+            if (m <= static_cast<double>(type_min))
+                return type_min;
+
+            if (m >= static_cast<double>(type_max))
+                return type_max;
 
-            // Return the smaller of the two maximums.
-            return std::min(m, type_max);
+            return static_cast<T>(m);
         }
     };
 
-- 
2.43.0


From 8fcaf9d13a96d078359c16cb19446eb7bdaad0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:20 +0000
Subject: [PATCH 2/4] fix: reject data that does not fit a 64 bit integer map

The upper extremum is rounded up to 2^63 in the comparison with a double,
so that a datum of exactly 2^63 was accepted and then converted out of
range.
---
 lib/marc/extrema.h | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/lib/marc/extrema.h b/lib/marc/extrema.h
index 21e38aa..7c42141 100644
--- a/lib/marc/extrema.h
+++ b/lib/marc/extrema.h
@@ -128,6 +128,21 @@ namespace MaRC
         /// Is value @a v in range of the extrema?
         template <typename U>
         bool in_range(U v) const {
+            if constexpr (std::is_integral<T>::value
+                          && std::is_floating_point<U>::value) {
+                /*
+                  The largest integer may be rounded up when converted
+                  to a floating point type.  Do not accept a value
+                  that isn't representable as the extremum type.
+                */
+                constexpr U limit =
+                    2 * static_cast<U>(
+                        std::numeric_limits<T>::max() / 2 + 1);
+
+                if (v >= limit)
+                    return false;
+            }
+
             return v >= this->minimum_ && v <= this->maximum_;
         }
 
-- 
2.43.0


From 8de244ab65a49874c67b7d1b8eb521522a5a5831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:35 +0000
Subject: [PATCH 3/4] fix: merge extrema into an empty pair of extrema

---
 lib/marc/extrema.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/marc/extrema.h b/lib/marc/extrema.h
index 7c42141..4aaa98a 100644
--- a/lib/marc/extrema.h
+++ b/lib/marc/extrema.h
@@ -197,10 +197,12 @@ namespace MaRC
              * @todo Should we validate @c e.minimum_ and
              *       @c e.maximum_ as is done in the constructor?
              */
-            if (e.minimum_ && *e.minimum_ < this->minimum_)
+            if (e.minimum_
+                && (*e.minimum_ < this->minimum_ || !this->minimum_))
                 this->minimum_ = *e.minimum_;
 
-            if (e.maximum_ && *e.maximum_ > this->maximum_)
+            if (e.maximum_
+                && (*e.maximum_ > this->maximum_ || !this->maximum_))
                 this->maximum_ = *e.maximum_;
         }
 
-- 
2.43.0


From ce45427fd413f8c65027a2883ad1f1db5b4b28b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:53 +0000
Subject: [PATCH 4/4] fix: intersect lines tangent to or pointing away from the
 body

OblateSpheroid::ellipse_intersection() aborted on an assertion when the line
was tangent to the ellipsoid or met it behind the given point.
---
 lib/marc/OblateSpheroid.cpp | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/lib/marc/OblateSpheroid.cpp b/lib/marc/OblateSpheroid.cpp
index 3a021a0..213d10c 100644
--- a/lib/marc/OblateSpheroid.cpp
+++ b/lib/marc/OblateSpheroid.cpp
@@ -238,7 +238,7 @@ MaRC::OblateSpheroid::ellipse_intersection(DVector const & vec,
         is a vector that crosses the surface of the ellipsoid
         at least once.
       - ** returns lat and lon based on solution closest to vec> first
-          (i.e. k.second < k.first)
+          (i.e. |k.second| <= |k.first|)
 
       output:
 
@@ -295,13 +295,12 @@ MaRC::OblateSpheroid::ellipse_intersection(DVector const & vec,
     //             k.first,
     //             k.second);
 
-    //   if (k.first < k.second)  // This is unlikely to be true.
-    //   //  if (std::abs(k.first) < std::abs(k.second))
-    //     k.second = k.first;
-
-    // Use k.second as solution
-
-    assert(k.second < k.first);
+    // Use k.second as solution, i.e. the one closest to vec>.  The
+    // roots are equal when the line is tangent to the ellipsoid (except
+    // for rounding), and both are negative when the ellipsoid is behind
+    // vec>.
+    if (std::abs(k.first) < std::abs(k.second))
+        k.second = k.first;
 
     double const x = vec[0] + k.second * dvec[0];
     double const y = vec[1] + k.second * dvec[1];
-- 
2.43.0

