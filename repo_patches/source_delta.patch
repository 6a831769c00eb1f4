From acea325aacb28a6745e75063be6bce5b5a48ab81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:42 +0000
Subject: [PATCH 01/38] fix: orthographic projection solved the wrong quadratic
 for tilted oblate bodies

---
 lib/marc/Orthographic.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/marc/Orthographic.cpp b/lib/marc/Orthographic.cpp
index f660d5c..c7af384 100644
--- a/lib/marc/Orthographic.cpp
+++ b/lib/marc/Orthographic.cpp
@@ -348,7 +348,7 @@ MaRC::Orthographic::plot_map(std::size_t samples,
             }
 
             double const CB =
-                diff * zz * std::sin(2 * this->sub_observ_lat_);
+                -diff * zz * std::sin(2 * this->sub_observ_lat_);
             double const CC =
                 a2 * zz * zz + c2 * x * x - a2 * c2 - diff *
                 zz * zz * std::pow(std::sin(this->sub_observ_lat_), 2);
-- 
2.43.0


From 6b3b49753a83ade97e9efe98037ac8b7e14ae2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:26 +0000
Subject: [PATCH 02/38] fix: bracketed root finding gave up on roots it had
 bracketed

---
 lib/marc/root_find.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/lib/marc/root_find.cpp b/lib/marc/root_find.cpp
index 0bef16f..756caf9 100644
--- a/lib/marc/root_find.cpp
+++ b/lib/marc/root_find.cpp
@@ -268,6 +268,22 @@ MaRC::root_find(double y,
             xh = x0;
     }
 
+    // Round-off can prevent the above convergence criterion from being
+    // satisfied.  The root is still bracketed so finish by bisecting.
+    constexpr int max_bisections = 2200;  // Entire range of a double.
+
+    for (int i = 0; i < max_bisections; ++i) {
+        x0 = xl + (xh - xl) / 2;
+
+        if (x0 == xl || x0 == xh)
+            return x0;
+
+        if (f(x0) < y)
+            xl = x0;
+        else
+            xh = x0;
+    }
+
     throw
         std::runtime_error("Root finding process is diverging.");
 
-- 
2.43.0


From 331045de133b670d2e0613bed4b8d08258629b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:35 +0000
Subject: [PATCH 03/38] fix: last plane of a one pixel FITS image array could
 not be written

---
 src/FITS_image_t.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/FITS_image_t.cpp b/src/FITS_image_t.cpp
index c2d8d9c..36e9a37 100644
--- a/src/FITS_image_t.cpp
+++ b/src/FITS_image_t.cpp
@@ -91,7 +91,7 @@ template <typename T>
 bool
 MaRC::FITS::image::write(T const & img)
 {
-    if (this->fpixel_>= this->max_elements_) {
+    if (this->fpixel_ > this->max_elements_) {
         MaRC::error("FITS image array is already fully written.");
 
         return false;
-- 
2.43.0


From 3f60f9a9da744029941c12cc2818dedb723ff8f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:17 +0000
Subject: [PATCH 04/38] fix: root finding divided zero by zero when it hit the
 root exactly

---
 lib/marc/root_find.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/marc/root_find.cpp b/lib/marc/root_find.cpp
index 756caf9..1114112 100644
--- a/lib/marc/root_find.cpp
+++ b/lib/marc/root_find.cpp
@@ -232,6 +232,11 @@ MaRC::root_find(double y,
     constexpr int max_iterations = 100;
 
     for (int i = 0; i < max_iterations; ++i) {
+        // Root found.  A zero derivative would otherwise result in a
+        // step of 0/0 below.
+        if (y0 == y)
+            return x0;
+
         double const df = first_derivative(x0, f);
 
         // Bisect if Newtown-Raphson is out of range or not
-- 
2.43.0


From 2b52644367f0aa69e5cd05f8075336a8623c823f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:56 +0000
Subject: [PATCH 05/38] fix: out of range or NaN pixel coordinates were
 converted to integers

---
 lib/marc/PhotoImage.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/marc/PhotoImage.cpp b/lib/marc/PhotoImage.cpp
index 9e0b53a..97a6c3f 100644
--- a/lib/marc/PhotoImage.cpp
+++ b/lib/marc/PhotoImage.cpp
@@ -117,7 +117,11 @@ MaRC::PhotoImage::read_data(double lat,
 
     double x = 0, z = 0;
 
-    if (!this->geometry_->latlon2pix(lat, lon, x, z) || x < 0 || z < 0)
+    // Reject pixel coordinates outside of the image, including NaN,
+    // prior to conversion to an integer type.
+    if (!this->geometry_->latlon2pix(lat, lon, x, z)
+        || !(x >= 0 && x < this->samples_)
+        || !(z >= 0 && z < this->lines_))
         return false;
 
     // x and z are 'pixel coordinates'.  In 'pixel coordinates', the
-- 
2.43.0


From 6b166348e27b675a5be905169415f171e29f033a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:02 +0000
Subject: [PATCH 06/38] fix: undefined pixel of one photo hid or replaced data
 of others in a mosaic

---
 lib/marc/PhotoImage.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/lib/marc/PhotoImage.cpp b/lib/marc/PhotoImage.cpp
index 97a6c3f..58cc59e 100644
--- a/lib/marc/PhotoImage.cpp
+++ b/lib/marc/PhotoImage.cpp
@@ -148,23 +148,26 @@ MaRC::PhotoImage::read_data(double lat,
         || i >= this->right_
         || k <  this->top_
         || k >= this->bottom_
-        || (!this->body_mask_.empty() && !this->body_mask_[index])
-        || std::isnan(data))
+        || (!this->body_mask_.empty() && !this->body_mask_[index]))
         return false;
 
-    data = this->image_[index];
+    // Only set the caller's datum upon success.  It may hold data
+    // read from another image.
+    double datum = this->image_[index];
 
     if (!config->interpolation_strategy()->interpolate(
             this->image_.data(),
             x,
             z,
-            data)
+            datum)
         || !config->photometric_correction()->correct(*this->geometry_,
-                                                      data)
-        || std::isnan(data)) {
+                                                      datum)
+        || std::isnan(datum)) {
         return false;
     }
 
+    data = datum;
+
     // Scan across image for "off-planet/image" pixels and compute
     // data weight.
     if (scan)
-- 
2.43.0


From d1d746c002109bc33cf983f182f90b7798c1156c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:47 +0000
Subject: [PATCH 07/38] fix: mosaic weights of sky removed photos ignored
 distance to the sky

---
 lib/marc/PhotoImage.cpp | 98 ++++++++++++++++-------------------------
 lib/marc/PhotoImage.h   | 36 +++++++--------
 2 files changed, 54 insertions(+), 80 deletions(-)

diff --git a/lib/marc/PhotoImage.cpp b/lib/marc/PhotoImage.cpp
index 58cc59e..36f2500 100644
--- a/lib/marc/PhotoImage.cpp
+++ b/lib/marc/PhotoImage.cpp
@@ -177,58 +177,51 @@ MaRC::PhotoImage::read_data(double lat,
 }
 
 void
-MaRC::PhotoImage::scan_samples(std::size_t line,
-                               std::size_t left,
-                               std::size_t right,
+MaRC::PhotoImage::scan_samples(std::size_t i,
+                               std::size_t k,
                                double & weight) const
 {
-    // Scan across samples on given line.
-
-    auto const offset    = line * this->samples_;
-    auto       body_iter = std::cbegin(this->body_mask_) + offset;
-
-    // Search the half-open interval [left, right).
-    auto const begin  = body_iter + left;
-    auto const end    = body_iter + right;
-    auto const result = std::find(begin, end, true);
-
-    assert(begin <= result);
-
-    // The weight is the shortest distance.
-    if (result != end)
-        weight =
-            std::min(
-                static_cast<
-                std::remove_reference<decltype(weight)>::type>(
-                    std::distance(begin, result)),
-                weight);
+    // Scan across samples on line k, moving away from sample i.
+    auto const line = std::cbegin(this->body_mask_) + k * this->samples_;
+
+    // The weight is the shortest distance to the sky.
+    for (auto s = i; s > this->left_; --s) {
+        if (!line[s - 1]) {
+            weight = std::min<double>(i - (s - 1), weight);
+            break;
+        }
+    }
 
+    for (auto s = i + 1; s < this->right_; ++s) {
+        if (!line[s]) {
+            weight = std::min<double>(s - i, weight);
+            break;
+        }
+    }
 }
 
 void
 MaRC::PhotoImage::scan_lines(std::size_t i,
-                             std::size_t top,
-                             std::size_t bottom,
+                             std::size_t k,
                              double & weight) const
 {
-    // Search the half-open interval [top, bottom).
-    auto body_iter =
-        std::cbegin(this->body_mask_) + (top * this->samples_) + i;
-
-    auto const first = top;
-    auto const last  = bottom;
-    auto       line = first;
-
-    for (; line < last && *body_iter; ++line)
-        std::advance(body_iter, this->samples_); // Sample i in next
-                                                 // line in mask.
-
-    if (line != last)
-        weight =
-            std::min(
-                static_cast<
-                std::remove_reference<decltype(weight)>::type>(line - first),
-                weight);
+    // Scan across lines on sample i, moving away from line k.
+    auto const sample = std::cbegin(this->body_mask_) + i;
+
+    // The weight is the shortest distance to the sky.
+    for (auto l = k; l > this->top_; --l) {
+        if (!sample[(l - 1) * this->samples_]) {
+            weight = std::min<double>(k - (l - 1), weight);
+            break;
+        }
+    }
+
+    for (auto l = k + 1; l < this->bottom_; ++l) {
+        if (!sample[l * this->samples_]) {
+            weight = std::min<double>(l - k, weight);
+            break;
+        }
+    }
 }
 
 void
@@ -268,21 +261,6 @@ MaRC::PhotoImage::data_weight(std::size_t i,
     if (this->body_mask_.empty())
         return;
 
-    // -----------------------------------------------------
-
-    // Scan across the half-open interval [left, i) on line k.
-    this->scan_samples(k, this->left_, i, weight);
-
-    // Scan across the half-open interval [i, right) on line k.
-    this->scan_samples(k, i, this->right_, weight);
-
-    // -----------------------------------------------------
-
-    // Line numbers increase from top to bottom.
-
-    // Scan across the half-open interval [top, k) on sample i.
-    this->scan_lines(i, this->top_, k, weight);
-
-    // Scan across the half-open interval [k, bottom) on sample i.
-    this->scan_lines(i, k, this->bottom_, weight);
+    this->scan_samples(i, k, weight);
+    this->scan_lines(i, k, weight);
 }
diff --git a/lib/marc/PhotoImage.h b/lib/marc/PhotoImage.h
index b287dfa..a187f07 100644
--- a/lib/marc/PhotoImage.h
+++ b/lib/marc/PhotoImage.h
@@ -131,35 +131,31 @@ namespace MaRC
         /**
          * @brief Scan across samples for the data weight.
          *
-         * Scan samples across the given line for the data weight in
-         * the half-open interval [left, right).
+         * Scan samples on the given line in both directions for the
+         * sky closest to the given sample.
          *
-         * @param[in]  line   Image line across which scan should
-         *                    occur.
-         * @param[in]  left   Sample at which scan should be started.
-         * @param[in]  right  Sample at which scan should be stopped.
-         * @param[out] weight Data weight for the given image line.
+         * @param[in]     i      Image pixel sample.
+         * @param[in]     k      Image pixel line.
+         * @param[in,out] weight Data weight, reduced to the distance
+         *                       to the sky if that is shorter.
          */
-        void scan_samples(std::size_t line,
-                          std::size_t left,
-                          std::size_t right,
+        void scan_samples(std::size_t i,
+                          std::size_t k,
                           double & weight) const;
 
         /**
          * @brief Scan across lines for the data weight.
          *
-         * Scan lines across the given sample for the data weight in
-         * in the half-open interval [top, bottom).
+         * Scan lines on the given sample in both directions for the
+         * sky closest to the given line.
          *
-         * @param[in]  sample Image sample across which scan should
-         *                    occur.
-         * @param[in]  top    Line at which scan should be started.
-         * @param[in]  bottom Line at which scan should be stopped.
-         * @param[out] weight Data weight for the given image sample.
+         * @param[in]     i      Image pixel sample.
+         * @param[in]     k      Image pixel line.
+         * @param[in,out] weight Data weight, reduced to the distance
+         *                       to the sky if that is shorter.
          */
-        void scan_lines(std::size_t sample,
-                        std::size_t top,
-                        std::size_t bottom,
+        void scan_lines(std::size_t i,
+                        std::size_t k,
                         double & weight) const;
 
         /**
-- 
2.43.0


From d268f35ff34ad8e1f1c86a97df0c05b898be8f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:51 +0000
Subject: [PATCH 08/38] fix: bilinear interpolation did not interpolate between
 the four pixels

---
 lib/marc/BilinearInterpolation.cpp | 47 +++++++++++++-----------------
 1 file changed, 20 insertions(+), 27 deletions(-)

diff --git a/lib/marc/BilinearInterpolation.cpp b/lib/marc/BilinearInterpolation.cpp
index 91226ed..3d21277 100644
--- a/lib/marc/BilinearInterpolation.cpp
+++ b/lib/marc/BilinearInterpolation.cpp
@@ -54,35 +54,28 @@ MaRC::BilinearInterpolation::interpolate(double const * data,
         || b < this->top_  || t >= this->bottom_)
         return false;
 
-    int count = 0;
-    double tmp = 0;
-
-    if (!std::isnan(data[ob + r]) && !std::isnan(data[ob + l])) {
-        // [0][0]
-        tmp += (data[ob + r] - data[ob + l]) * (x - l) + data[ob + l];
-
-        // [1][1] =
-        tmp += (data[ob + r] - data[ob + l]) * (z - b) + data[ob + r];
-
-        count += 2;
-    }
-
-    if (!std::isnan(data[ot + r]) && !std::isnan(data[ot + l])) {
-        // [0][1]
-        tmp += (data[ot + r] - data[ot + l]) * (x - l) + data[ot + l];
-
-        ++count;
-    }
-
-    if (!std::isnan(data[ot + l]) && !std::isnan(data[ob + l])) {
-        // [1][0]
-        tmp += (data[ot + l] - data[ob + l]) * (z - b) + data[ob + l];
-
-        ++count;
+    // Fractional distance from bottom left pixel.
+    double const fx = x - l;
+    double const fz = z - b;
+
+    double const pixel[]  = { data[ob + l], data[ob + r],
+                              data[ot + l], data[ot + r] };
+    double const weight[] = { (1 - fx) * (1 - fz), fx * (1 - fz),
+                              (1 - fx) * fz,       fx * fz };
+
+    double sum = 0;
+    double weight_sum = 0;
+
+    // Only interpolate between valid data.
+    for (int i = 0; i < 4; ++i) {
+        if (!std::isnan(pixel[i])) {
+            sum        += weight[i] * pixel[i];
+            weight_sum += weight[i];
+        }
     }
 
-    if (count > 0) {
-        datum = tmp / count;
+    if (weight_sum > 0) {
+        datum = sum / weight_sum;
 
         return true;
     }
-- 
2.43.0


From fc4cd4ca7b358dc97286046f2dfb7b3bfdde50f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:56 +0000
Subject: [PATCH 09/38] fix: nibble values larger than the image were accepted

---
 lib/marc/PhotoImageParameters.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/marc/PhotoImageParameters.cpp b/lib/marc/PhotoImageParameters.cpp
index 995fa95..4323cda 100644
--- a/lib/marc/PhotoImageParameters.cpp
+++ b/lib/marc/PhotoImageParameters.cpp
@@ -138,14 +138,16 @@ MaRC::PhotoImageParameters::validate_parameters(std::size_t samples,
                                                 std::size_t lines) const
 {
     // Run some sanity checks on nibbling values
-    if (samples - this->nibble_right_ <= this->nibble_left_) {
+    if (this->nibble_right_ >= samples
+        || samples - this->nibble_right_ <= this->nibble_left_) {
         throw
             std::invalid_argument(
                 "Either the left or right (or both) "
                 "nibble value is too large.");
     }
 
-    if (lines - this->nibble_top_ <= this->nibble_bottom_) {
+    if (this->nibble_top_ >= lines
+        || lines - this->nibble_top_ <= this->nibble_bottom_) {
         throw
             std::invalid_argument(
                 "Either the top or bottom (or both) "
-- 
2.43.0


From 36e109381d81d0f95c536cee57d83353bd570b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:17 +0000
Subject: [PATCH 10/38] fix: line tangent to the body or indeterminate view of
 it aborted the program

---
 lib/marc/OblateSpheroid.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/marc/OblateSpheroid.cpp b/lib/marc/OblateSpheroid.cpp
index 3a021a0..1985379 100644
--- a/lib/marc/OblateSpheroid.cpp
+++ b/lib/marc/OblateSpheroid.cpp
@@ -11,11 +11,10 @@
 #include "OblateSpheroid.h"
 #include "Vector.h"
 #include "Mathematics.h"
-#include "config.h"  // For NDEBUG.
+
 
 #include <stdexcept>
 #include <cmath>
-#include <cassert>
 
 
 namespace
@@ -301,7 +300,9 @@ MaRC::OblateSpheroid::ellipse_intersection(DVector const & vec,
 
     // Use k.second as solution
 
-    assert(k.second < k.first);
+    // Both roots are the same if the line is tangent to the ellipsoid.
+    if (std::isnan(k.second))
+        return 1;  // Indeterminate ... no solution
 
     double const x = vec[0] + k.second * dvec[0];
     double const y = vec[1] + k.second * dvec[1];
-- 
2.43.0


From 616e2c43ec6f83dfaa86bd0533e1121f32b3c613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:46 +0000
Subject: [PATCH 11/38] fix: scale of 64 bit integer virtual image planes was
 recorded as zero

---
 src/MapCommand.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/MapCommand.cpp b/src/MapCommand.cpp
index f86fa5c..ba05d8e 100644
--- a/src/MapCommand.cpp
+++ b/src/MapCommand.cpp
@@ -51,8 +51,7 @@ namespace
             fits_width < double_width ? fits_width : double_width;
 
         // Avoid writing "-0".  It's harmless but rather unsightly.
-        constexpr int epsilons = 1;
-        if (MaRC::almost_zero(value, epsilons))
+        if (value == 0)
             value = 0;
 
         // Work around inability to change precision in
-- 
2.43.0


From b014192a333044d3059db6a8f92eda8fd468443e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:32 +0000
Subject: [PATCH 12/38] fix: scale and offset did not fit the data in the
 integer type

---
 lib/marc/details/scale_and_offset.h | 41 ++++++++++++++++++++++-------
 1 file changed, 32 insertions(+), 9 deletions(-)

diff --git a/lib/marc/details/scale_and_offset.h b/lib/marc/details/scale_and_offset.h
index fb4eb59..705bb0d 100644
--- a/lib/marc/details/scale_and_offset.h
+++ b/lib/marc/details/scale_and_offset.h
@@ -12,6 +12,7 @@
 #ifndef MARC_DETAILS_SCALE_AND_OFFSET_H
 #define MARC_DETAILS_SCALE_AND_OFFSET_H
 
+#include <algorithm>
 #include <limits>
 #include <cmath>
 #include <type_traits>
@@ -110,19 +111,41 @@ namespace MaRC
                     return false;
                 }
 
-                int const exponent =
+                // A single value (zero data range) has no order of
+                // magnitude of its own.
+                int exponent =
                     static_cast<int>(std::numeric_limits<T>::digits10)
-                    - static_cast<int>(std::log10(data_range));
-
-                scale = std::pow(10, exponent);
-
-                if (min * scale < T_lowest)
-                    offset = data_range / 2 * scale;
-                else if (max * scale > T_max)
-                    offset = -data_range / 2 * scale;
+                    - static_cast<int>(
+                        data_range > 0 ? std::log10(data_range) : 0);
+
+                // The scaled data range must not be larger than the
+                // type range.
+                while (exponent > 0
+                       && data_range * std::pow(10, exponent) > type_range)
+                    --exponent;
+
+                scale = std::pow(10, exponent < 0 ? 0 : exponent);
+
+                double const scaled_range = data_range * scale;
+
+                // Center the scaled data about zero if they don't fit
+                // as is, or start at the lowest value the type allows.
+                if (min * scale < T_lowest || max * scale > T_max)
+                    offset =
+                        std::max(static_cast<double>(T_lowest),
+                                 -scaled_range / 2)
+                        - min * scale;
                 else
                     offset = 0;
 
+                // Loss of precision may still prevent the data from
+                // fitting, e.g. if the minimum and maximum are huge.
+                constexpr double upper = static_cast<double>(T_max / 2 + 1) * 2;
+
+                if (min * scale + offset < T_lowest
+                    || max * scale + offset >= upper)
+                    return false;
+
                 return true;
             }
         };
-- 
2.43.0


From c31bd1e5dc6ded91a2d81750e338f9c05dbe07e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:02 +0000
Subject: [PATCH 13/38] fix: 64 bit integer maps converted out of range values

---
 lib/marc/MapFactory_t.cpp | 12 +++++++++++-
 lib/marc/Map_traits.h     | 16 +++++++++++++++-
 2 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/lib/marc/MapFactory_t.cpp b/lib/marc/MapFactory_t.cpp
index f2aa400..e740f95 100644
--- a/lib/marc/MapFactory_t.cpp
+++ b/lib/marc/MapFactory_t.cpp
@@ -90,8 +90,18 @@ MaRC::MapFactory::plot(parameters<T> & p,
     // Clip datum to fit within map data type range, if necessary.
     double datum = 0;
 
+    // The largest 64 bit integer isn't exactly representable as a
+    // double.  Comparing against it would allow 2^63 through.
+    constexpr auto type_max =
+        static_cast<double>(std::numeric_limits<T>::max());
+    constexpr bool exact =
+        !std::is_integral<T>::value
+        || std::numeric_limits<T>::digits
+           <= std::numeric_limits<double>::digits;
+
     bool const found_data =
-        (source.read_data(lat, lon, datum) && e.in_range(datum));
+        (source.read_data(lat, lon, datum) && e.in_range(datum)
+         && (exact || datum < type_max));
 
     if (found_data) {
         map[offset] = static_cast<T>(datum);
diff --git a/lib/marc/Map_traits.h b/lib/marc/Map_traits.h
index 31cd15f..1c21c54 100644
--- a/lib/marc/Map_traits.h
+++ b/lib/marc/Map_traits.h
@@ -81,6 +81,12 @@ namespace MaRC
         {
             constexpr double type_min = std::numeric_limits<T>::lowest();
 
+            constexpr double type_max = std::numeric_limits<T>::max();
+
+            // Avoid conversion of an out of range floating point value.
+            if (m >= type_max)
+                return std::numeric_limits<T>::max();
+
             // Return the larger of the two minimums.
             return std::max(m, type_min);
         }
@@ -105,8 +111,16 @@ namespace MaRC
         {
             constexpr double type_max = std::numeric_limits<T>::max();
 
+            constexpr double type_min = std::numeric_limits<T>::lowest();
+
+            // Avoid conversion of an out of range floating point value,
+            // including a type maximum rounded up upon conversion to
+            // floating point (e.g. 64 bit integers).
+            if (m >= type_max)
+                return std::numeric_limits<T>::max();
+
             // Return the smaller of the two maximums.
-            return std::min(m, type_max);
+            return std::max(m, type_min);
         }
     };
 
-- 
2.43.0


From cd0aab20316c493127191b03d27aedabcb07fbe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:57 +0000
Subject: [PATCH 14/38] fix: cosine out of range by round-off aborted the
 program

---
 lib/marc/CosPhaseImage.cpp | 4 ++++
 lib/marc/Mu0Image.cpp      | 4 ++++
 lib/marc/MuImage.cpp       | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/lib/marc/CosPhaseImage.cpp b/lib/marc/CosPhaseImage.cpp
index 843149f..35deb05 100644
--- a/lib/marc/CosPhaseImage.cpp
+++ b/lib/marc/CosPhaseImage.cpp
@@ -13,6 +13,7 @@
 #include "Constants.h"
 #include "config.h"  // For NDEBUG.
 
+#include <algorithm>
 #include <cassert>
 
 
@@ -51,6 +52,9 @@ MaRC::CosPhaseImage::read_data_i(double lat,
                                   lon,
                                   this->range_);
 
+    // Round-off may push a cosine slightly out of range.
+    data = std::clamp(data, -1.0, 1.0);
+
     assert(data >= -1 && data <= 1);
 
     return true;
diff --git a/lib/marc/Mu0Image.cpp b/lib/marc/Mu0Image.cpp
index a20e060..ef7a872 100644
--- a/lib/marc/Mu0Image.cpp
+++ b/lib/marc/Mu0Image.cpp
@@ -13,6 +13,7 @@
 #include "Constants.h"
 #include "config.h"  // For NDEBUG.
 
+#include <algorithm>
 #include <cassert>
 
 
@@ -42,6 +43,9 @@ MaRC::Mu0Image::read_data_i(double lat, double lon, double & data) const
                             lat,
                             lon);
 
+    // Round-off may push a cosine slightly out of range.
+    data = std::clamp(data, -1.0, 1.0);
+
     assert(data >= -1 && data <= 1);
 
     return true;
diff --git a/lib/marc/MuImage.cpp b/lib/marc/MuImage.cpp
index 9d327ad..4c209a0 100644
--- a/lib/marc/MuImage.cpp
+++ b/lib/marc/MuImage.cpp
@@ -13,6 +13,7 @@
 #include "Constants.h"
 #include "config.h"  // For NDEBUG.
 
+#include <algorithm>
 #include <cassert>
 
 
@@ -45,6 +46,9 @@ MaRC::MuImage::read_data_i(double lat, double lon, double & data) const
                            lon,
                            this->range_);
 
+    // Round-off may push a cosine slightly out of range.
+    data = std::clamp(data, -1.0, 1.0);
+
     assert(data >= -1 && data <= 1);
 
     return true;
-- 
2.43.0


From 596b6696493bd94e5589f234536868bac43b6518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:31 +0000
Subject: [PATCH 15/38] fix: simple cylindrical grid converted negative
 positions and missed longitudes

---
 lib/marc/SimpleCylindrical.cpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/lib/marc/SimpleCylindrical.cpp b/lib/marc/SimpleCylindrical.cpp
index 2a230d8..15342df 100644
--- a/lib/marc/SimpleCylindrical.cpp
+++ b/lib/marc/SimpleCylindrical.cpp
@@ -181,18 +181,22 @@ MaRC::SimpleCylindrical::plot_grid(std::size_t samples,
      */
     // Draw longitude lines.
     for (double m = 360; m > 0; m -= lon_interval) {
-        // lo_lon_2 is a work-around for lo_lon_ > hi_lon_ problems
-        auto lo_lon_2 = lo_lon;
+        // Degrees above the lowest longitude on the map.
+        auto from_lo_lon = m - lo_lon;
 
-        if (m - lo_lon > 360)
-            lo_lon_2 += 360;
+        if (from_lo_lon > 360)
+            from_lo_lon -= 360;
+        else if (from_lo_lon < 0)
+            from_lo_lon += 360;
 
-        decltype(samples) i = std::round((m - lo_lon_2) * sr);
+        auto x = std::round(from_lo_lon * sr);
 
         if (this->body_->prograde())
-            i = samples - i;
+            x = samples - x;
+
+        if (x >= 0 && x < static_cast<decltype(x)>(samples)) {
+            auto const i = static_cast<decltype(samples)>(x);
 
-        if (i < samples) {
             for (std::size_t k = 0; k < lines; ++k)
                 grid[k * samples + i] = white;
         }
-- 
2.43.0


From 91883df75c2fbcdb447ef8f86b60044e83d264dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:36 +0000
Subject: [PATCH 16/38] fix: latitude grid lines of retrograde orthographic
 maps were not on the visible side

---
 lib/marc/Orthographic.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/marc/Orthographic.cpp b/lib/marc/Orthographic.cpp
index c7af384..696d60d 100644
--- a/lib/marc/Orthographic.cpp
+++ b/lib/marc/Orthographic.cpp
@@ -486,7 +486,7 @@ MaRC::Orthographic::plot_lat_lines(std::size_t samples,
                 if (this->body_->prograde())
                     mm = this->sub_observ_lon_ + C::pi - mm;
                 else
-                    mm -= C::pi - this->sub_observ_lon_;
+                    mm -= C::pi + this->sub_observ_lon_;
 
                 DVector const coord = p.body2obs() * DVector(
                      radius * std::cos(nn) * std::sin(mm),
-- 
2.43.0


From 3241c315a19247a4aaa53b6eb86cbb35cab0945a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:12 +0000
Subject: [PATCH 17/38] fix: Polar Stereographic grid did not line up with its
 map

---
 lib/marc/PolarStereographic.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/lib/marc/PolarStereographic.cpp b/lib/marc/PolarStereographic.cpp
index ed1cd60..19b94a6 100644
--- a/lib/marc/PolarStereographic.cpp
+++ b/lib/marc/PolarStereographic.cpp
@@ -248,9 +248,14 @@ MaRC::PolarStereographic::plot_grid(std::size_t samples,
 
     double const rho_max =
         this->stereo_rho(this->body_->graphic_latitude(this->max_lat_));
-    double const min_dim = std::min(samples - 1, lines - 1);
+    auto const min_dim = std::min(samples, lines);
     double const pix_conv_val = 2 * rho_max / min_dim;
 
+    // Whether longitudes increase counter-clockwise in map.
+    bool const ccw =
+        ((this->north_pole_ && this->body_->prograde())
+         || (!this->north_pole_ && !this->body_->prograde()));
+
     static constexpr auto white =
         std::numeric_limits<typename grid_type::value_type>::max();
 
@@ -294,8 +299,9 @@ MaRC::PolarStereographic::plot_grid(std::size_t samples,
         double const mm = m * C::degree;  // Convert to radians
 
         for (std::size_t n = 0; n < imax; ++n) {
+            // Latitudes range from -90 to 90 degrees.
             double const nn =
-                static_cast<double>(n) / imax * C::degree * 360;
+                (static_cast<double>(n) / imax * 180 - 90) * C::degree;
 
             /**
              * @bug Shouldn't we take into account the maximum
@@ -305,7 +311,7 @@ MaRC::PolarStereographic::plot_grid(std::size_t samples,
             double const rho = this->stereo_rho(nn);
 
             double const z = rho * std::cos(mm);
-            double const x = rho * std::sin(mm);
+            double const x = (ccw ? rho : -rho) * std::sin(mm);
 
             // if (z > rho_max || x > rho_max)
             //     continue;
-- 
2.43.0


From b1640f6d49f3fd1512835fb62bfdbf4293c066c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:34 +0000
Subject: [PATCH 18/38] fix: updating unset extrema from other extrema left
 them unset

---
 lib/marc/extrema.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/marc/extrema.h b/lib/marc/extrema.h
index 21e38aa..7e20edf 100644
--- a/lib/marc/extrema.h
+++ b/lib/marc/extrema.h
@@ -182,10 +182,12 @@ namespace MaRC
              * @todo Should we validate @c e.minimum_ and
              *       @c e.maximum_ as is done in the constructor?
              */
-            if (e.minimum_ && *e.minimum_ < this->minimum_)
+            if (e.minimum_
+                && (!this->minimum_ || *e.minimum_ < this->minimum_))
                 this->minimum_ = *e.minimum_;
 
-            if (e.maximum_ && *e.maximum_ > this->maximum_)
+            if (e.maximum_
+                && (!this->maximum_ || *e.maximum_ > this->maximum_))
                 this->maximum_ = *e.maximum_;
         }
 
-- 
2.43.0


From 6af3eac690f42c4ac971eecee0be29b36ccbf3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:42 +0000
Subject: [PATCH 19/38] fix: longitudes of image pixels on retrograde bodies
 were rotated the wrong way

---
 lib/marc/ViewingGeometry.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/marc/ViewingGeometry.cpp b/lib/marc/ViewingGeometry.cpp
index b44a761..436457c 100644
--- a/lib/marc/ViewingGeometry.cpp
+++ b/lib/marc/ViewingGeometry.cpp
@@ -944,7 +944,7 @@ MaRC::ViewingGeometry::pix2latlon(double sample,
         if (this->body_->prograde())
             lon  = this->sub_observ_lon_ - lon;
         else
-            lon -= this->sub_observ_lon_;
+            lon += this->sub_observ_lon_;
     }
 
     return success == 0;
-- 
2.43.0


From 9c5b8ac672597dbf572517cc60870be0c9b679b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:47 +0000
Subject: [PATCH 20/38] fix: reading an image cube passed too few pixel
 coordinates to CFITSIO

---
 src/FITS_file.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/FITS_file.cpp b/src/FITS_file.cpp
index eb1e71e..4345a1a 100644
--- a/src/FITS_file.cpp
+++ b/src/FITS_file.cpp
@@ -424,8 +424,11 @@ MaRC::FITS::input_file::read(std::vector<double> & image,
      * First pixel to be read.
      *
      * @attention First pixel in CFITSIO is {1, 1} not {0, 0}.
+     *
+     * @attention CFITSIO expects one element for each dimension of
+     *            the image, of which there may be more than two.
      */
-    LONGLONG fpixel[] = {1, 1};
+    std::vector<LONGLONG> fpixel(naxis, 1);
 
     // For integer typed FITS images with a BLANK value, set the
     // "blank" value in our floating point converted copy of the image
@@ -438,7 +441,7 @@ MaRC::FITS::input_file::read(std::vector<double> & image,
 
     if (fits_read_pixll(this->fptr_.get(),
                         traits<value_type>::datatype,
-                        fpixel,
+                        fpixel.data(),
                         nelements,
                         &nulval,  // "Blank" value in our image.
                         tmp.data(),
-- 
2.43.0


From 83c383939858647f4312b05b8558147bfbb7a256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:22 +0000
Subject: [PATCH 21/38] fix: user configuration lost its data range and zeroed
 unset grid intervals

---
 src/parse.yy | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/parse.yy b/src/parse.yy
index 5255004..710a143 100644
--- a/src/parse.yy
+++ b/src/parse.yy
@@ -543,13 +543,16 @@ user_file_parse:
           // Reset defaults to those chosen by the user.  If none were
           // chosen by the user, the values will remain unchanged.
 
-          pp.lat_interval = lat_interval;
-          pp.lon_interval = lon_interval;
+          if (lat_interval > 0)
+              pp.lat_interval = lat_interval;
 
-          if (!minimum)
+          if (lon_interval > 0)
+              pp.lon_interval = lon_interval;
+
+          if (minimum)
               pp.minimum = minimum;
 
-          if (!maximum)
+          if (maximum)
               pp.maximum = maximum;
         }
 ;
-- 
2.43.0


From fda6c535866673e8e215d18d46874a57fca125dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:29 +0000
Subject: [PATCH 22/38] fix: GRAPHIC latitude plane changed the latitude type
 of later planes and maps

---
 src/parse.yy | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parse.yy b/src/parse.yy
index 710a143..6dcd41a 100644
--- a/src/parse.yy
+++ b/src/parse.yy
@@ -1380,6 +1380,9 @@ lat_plane: LATITUDE ':' lat_type {
             image_factory =
                 std::make_unique<MaRC::LatitudeImageFactory>(
                     oblate_spheroid, graphic_lat);
+
+            // Reset option
+            graphic_lat = false;
            }
 ;
 
-- 
2.43.0


From ae4b0f25f254c1cac8c427a0804fe95804053519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:03 +0000
Subject: [PATCH 23/38] fix: double root at zero of a quadratic was reported as
 NaN

---
 lib/marc/Mathematics.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/marc/Mathematics.h b/lib/marc/Mathematics.h
index 55569ad..4a7fe26 100644
--- a/lib/marc/Mathematics.h
+++ b/lib/marc/Mathematics.h
@@ -195,7 +195,8 @@ namespace MaRC
             -(b + sgn(b) * std::sqrt(discriminant)) / 2;
 
         roots.first  = q / a;
-        roots.second = c / q;
+        // q is zero only if both roots are zero (b = c = 0).
+        roots.second = (q == 0 ? 0 : c / q);
 
         return true;
     }
-- 
2.43.0


From d0f46f2e95bbead56e9051c8cc26d422996469f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:29 +0000
Subject: [PATCH 24/38] fix: magnitude of one element vectors was signed, that
 of four or more did not compile

---
 lib/marc/details/vector.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/marc/details/vector.h b/lib/marc/details/vector.h
index 21258a1..ef2e2ba 100644
--- a/lib/marc/details/vector.h
+++ b/lib/marc/details/vector.h
@@ -43,7 +43,7 @@ namespace MaRC
         template <typename T, std::size_t M>
         auto magnitude(T const (&v)[M])
         {
-            double const m = 0;
+            double m = 0;
 
             /**
              * @bug This implementation is subject to overflow or
@@ -102,7 +102,7 @@ namespace MaRC
         template <typename T>
         constexpr auto magnitude(T const (&v)[1])
         {
-            return v[0];
+            return v[0] < 0 ? -v[0] : v[0];
         }
     }  // details
 }  // MaRC
-- 
2.43.0


From b7192aa5c6d3ed2ebb926bc4f70ee7be15f24734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:56 +0000
Subject: [PATCH 25/38] fix: root finding gave up when a step ended where the
 derivative is undefined

---
 lib/marc/root_find.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/marc/root_find.cpp b/lib/marc/root_find.cpp
index 1114112..7748d19 100644
--- a/lib/marc/root_find.cpp
+++ b/lib/marc/root_find.cpp
@@ -239,10 +239,10 @@ MaRC::root_find(double y,
 
         double const df = first_derivative(x0, f);
 
-        // Bisect if Newtown-Raphson is out of range or not
-        // decreasing fast enough.
-        if (((x0 - xh) * df - y0 + y) * ((x0 - xl) * df - y0 + y) > 0
-            || std::abs(2 * (y0 - y)) > std::abs(dxold * df)){
+        // Bisect if Newtown-Raphson is out of range, not decreasing
+        // fast enough, or not possible, i.e. NaN.
+        if (!(((x0 - xh) * df - y0 + y) * ((x0 - xl) * df - y0 + y) <= 0
+              && std::abs(2 * (y0 - y)) <= std::abs(dxold * df))) {
             dxold = dx;
             dx = (xh - xl) / 2;
             x0 = xl + dx;
-- 
2.43.0


From 01bfead2c80d9a559dc25a24419e7e79ff9313ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:05 +0000
Subject: [PATCH 26/38] fix: automatically chosen map data type ignored all
 planes but the first

---
 src/MapCommand.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/MapCommand.cpp b/src/MapCommand.cpp
index ba05d8e..ba32577 100644
--- a/src/MapCommand.cpp
+++ b/src/MapCommand.cpp
@@ -403,10 +403,12 @@ MaRC::MapCommand::populate_map_parameters()
      */
 
     // Automatically populated map parameters.
-    map_parameters to_merge;
-
     int plane = 1;
 
+    // Parameters obtained from the planes, not from the user, meaning
+    // the plane number must not be zero.
+    map_parameters to_merge(plane);
+
     for (auto const & image : this->image_factories_) {
         // Automatically populated map plane parameters.
         map_parameters pp(plane++);
-- 
2.43.0


From 4830ab20373619c69275ca6a05ff077dd0614900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:36 +0000
Subject: [PATCH 27/38] fix: parameters of the last photo in a mosaic replaced
 those of the others

---
 src/MosaicImageFactory.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/MosaicImageFactory.cpp b/src/MosaicImageFactory.cpp
index 5c53660..7de5252 100644
--- a/src/MosaicImageFactory.cpp
+++ b/src/MosaicImageFactory.cpp
@@ -9,6 +9,7 @@
  */
 
 #include "MosaicImageFactory.h"
+#include "map_parameters.h"
 
 #include <marc/first_read.h>
 #include <marc/unweighted_average.h>
@@ -64,9 +65,13 @@ MaRC::MosaicImageFactory::populate_parameters(
      *       in this mosaic will plotted to the same map plane, rather
      *       than different planes.
      */
-    for (auto const & image : this->factories_)
-        if (!image->populate_parameters(p))
+    for (auto const & image : this->factories_) {
+        // Non-zero plane number: not user supplied parameters.
+        map_parameters pp(1);
+
+        if (!image->populate_parameters(pp) || !p.merge(pp))
             return false;
+    }
 
     return true;
 }
-- 
2.43.0


From e60fc533673e96cb7bb4572b26a93bce0d8391eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:15 +0000
Subject: [PATCH 28/38] fix: failure to write a map was not reported by the
 exit status

---
 src/FITS_file.cpp    | 32 ++++++++++++++++++++++++++++++++
 src/FITS_file.h      |  8 ++++++++
 src/MapCommand.cpp   |  7 ++++++-
 src/MapCommand_t.cpp |  6 ++++--
 4 files changed, 50 insertions(+), 3 deletions(-)

diff --git a/src/FITS_file.cpp b/src/FITS_file.cpp
index 4345a1a..cda24f0 100644
--- a/src/FITS_file.cpp
+++ b/src/FITS_file.cpp
@@ -13,10 +13,13 @@
 
 #include <marc/Log.h>
 
+#include <cstring>
 #include <limits>
 #include <type_traits>
 #include <stdexcept>
 
+#include <sys/stat.h>
+
 
 namespace MaRC
 {
@@ -339,6 +342,35 @@ MaRC::FITS::output_file::make_image(int bitpix,
                                                extname);
 }
 
+void
+MaRC::FITS::output_file::flush()
+{
+    LONGLONG end = 0;  // End of the last HDU, i.e. of the file.
+    int status = 0;
+
+    char type[FLEN_FILENAME] = { 0 };
+    char name[FLEN_FILENAME] = { 0 };
+
+    fits_flush_file(this->fptr_.get(), &status);
+    fits_get_hduaddrll(this->fptr_.get(),
+                       nullptr,
+                       nullptr,
+                       &end,
+                       &status);
+    fits_url_type(this->fptr_.get(), type, &status);
+    fits_file_name(this->fptr_.get(), name, &status);
+
+    throw_on_error(status);
+
+    // CFITSIO does not report all errors that occur when flushing the
+    // underlying file stream.  Check if all data made it to disk.
+    struct stat st;
+
+    if (std::strcmp(type, "file://") == 0
+        && (stat(name, &st) != 0 || st.st_size < end))
+        throw_on_error(WRITE_ERROR);
+}
+
 
 // ----------------------------------------------------------------
 
diff --git a/src/FITS_file.h b/src/FITS_file.h
index 0ecdc26..ed8ceed 100644
--- a/src/FITS_file.h
+++ b/src/FITS_file.h
@@ -300,6 +300,14 @@ namespace MaRC
                 size_t planes,
                 char const * extname = nullptr);
 
+            /**
+             * @brief Write all buffered data to the %FITS file.
+             *
+             * @throw std::runtime_error Data could not be written to
+             *                           the %FITS file.
+             */
+            void flush();
+
         };
 
         // -------------------------------------------------------
diff --git a/src/MapCommand.cpp b/src/MapCommand.cpp
index ba32577..638a293 100644
--- a/src/MapCommand.cpp
+++ b/src/MapCommand.cpp
@@ -25,6 +25,7 @@
 #include <iostream>
 #include <iomanip>
 #include <memory>
+#include <stdexcept>
 #include <type_traits>  // For sanity check below.
 #include <chrono>
 #include <cassert>
@@ -182,6 +183,9 @@ MaRC::MapCommand::execute()
     // Write the map grid if requested.
     this->write_grid(f);
 
+    // Make sure the map made it to the file.
+    f.flush();
+
     std::cout << "Created map: " << this->filename_ << '\n';
 
     return 0;
@@ -258,7 +262,8 @@ MaRC::MapCommand::write_grid(MaRC::FITS::output_file & map_file)
               << " seconds.\n";
 
     if(!grid_image->template write<grid_type>(grid))
-        MaRC::error("Unable to write grid image to map file.");
+        throw std::runtime_error(
+            "Unable to write grid image to map file.");
 }
 
 void
diff --git a/src/MapCommand_t.cpp b/src/MapCommand_t.cpp
index bd5f819..f6e5dbb 100644
--- a/src/MapCommand_t.cpp
+++ b/src/MapCommand_t.cpp
@@ -21,6 +21,7 @@
 
 #include <marc/details/format.h>
 
+#include <stdexcept>
 #include <type_traits>
 
 #include <fitsio.h>
@@ -167,8 +168,9 @@ MaRC::MapCommand::make_map_planes(MaRC::FITS::output_file & file)
             MaRC::warn("No data mapped for plane {}.", plane_count);
 
         if (!map_image->template write<decltype(map)>(map))
-            MaRC::error("Unable to write plane {} to map file.",
-                        plane_count);
+            throw std::runtime_error(
+                fmt::format("Unable to write plane {} to map file.",
+                            plane_count));
 
         ++plane_count;
     }
-- 
2.43.0


From 0f59a142afd0d5fbd0fd617f96e30fda49a4e74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:20 +0000
Subject: [PATCH 29/38] fix: undefined cosine of an angle aborted the program

---
 lib/marc/CosPhaseImage.cpp | 5 +++++
 lib/marc/Mu0Image.cpp      | 5 +++++
 lib/marc/MuImage.cpp       | 5 +++++
 3 files changed, 15 insertions(+)

diff --git a/lib/marc/CosPhaseImage.cpp b/lib/marc/CosPhaseImage.cpp
index 35deb05..3a1a4e8 100644
--- a/lib/marc/CosPhaseImage.cpp
+++ b/lib/marc/CosPhaseImage.cpp
@@ -15,6 +15,7 @@
 
 #include <algorithm>
 #include <cassert>
+#include <cmath>
 
 
 MaRC::CosPhaseImage::CosPhaseImage(std::shared_ptr<BodyData> body,
@@ -52,6 +53,10 @@ MaRC::CosPhaseImage::read_data_i(double lat,
                                   lon,
                                   this->range_);
 
+    // No data, e.g. radii or distance too large to compute with.
+    if (std::isnan(data))
+        return false;
+
     // Round-off may push a cosine slightly out of range.
     data = std::clamp(data, -1.0, 1.0);
 
diff --git a/lib/marc/Mu0Image.cpp b/lib/marc/Mu0Image.cpp
index ef7a872..046fead 100644
--- a/lib/marc/Mu0Image.cpp
+++ b/lib/marc/Mu0Image.cpp
@@ -15,6 +15,7 @@
 
 #include <algorithm>
 #include <cassert>
+#include <cmath>
 
 
 MaRC::Mu0Image::Mu0Image(std::shared_ptr<BodyData> body,
@@ -43,6 +44,10 @@ MaRC::Mu0Image::read_data_i(double lat, double lon, double & data) const
                             lat,
                             lon);
 
+    // No data, e.g. radii or distance too large to compute with.
+    if (std::isnan(data))
+        return false;
+
     // Round-off may push a cosine slightly out of range.
     data = std::clamp(data, -1.0, 1.0);
 
diff --git a/lib/marc/MuImage.cpp b/lib/marc/MuImage.cpp
index 4c209a0..5e65320 100644
--- a/lib/marc/MuImage.cpp
+++ b/lib/marc/MuImage.cpp
@@ -15,6 +15,7 @@
 
 #include <algorithm>
 #include <cassert>
+#include <cmath>
 
 
 MaRC::MuImage::MuImage(std::shared_ptr<BodyData> body,
@@ -46,6 +47,10 @@ MaRC::MuImage::read_data_i(double lat, double lon, double & data) const
                            lon,
                            this->range_);
 
+    // No data, e.g. radii or distance too large to compute with.
+    if (std::isnan(data))
+        return false;
+
     // Round-off may push a cosine slightly out of range.
     data = std::clamp(data, -1.0, 1.0);
 
-- 
2.43.0


From c85d6d004df5fd4d933bfdd727e38cb17a7851ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:27 +0000
Subject: [PATCH 30/38] fix: undefined or infinite results of expressions were
 accepted

---
 src/parse.yy | 68 ++++++++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 63 insertions(+), 5 deletions(-)

diff --git a/src/parse.yy b/src/parse.yy
index 6dcd41a..1802de2 100644
--- a/src/parse.yy
+++ b/src/parse.yy
@@ -2141,10 +2141,50 @@ expr:   NUM {
         }
         | VAR                   { $$ = $1->value.var;              }
         | VAR '=' expr          { $$ = $3; $1->value.var = $3;     }
-        | FNCT '(' expr ')'     { $$ = (*($1->value.fnctptr))($3); }
-        | expr '+' expr         { $$ = $1 + $3;                    }
-        | expr '-' expr         { $$ = $1 - $3;                    }
-        | expr '*' expr         { $$ = $1 * $3;                    }
+        | FNCT '(' expr ')' {
+            $$ = (*($1->value.fnctptr))($3);
+
+            if (!std::isfinite($$)) {
+                yyerror(&yylloc,
+                        scanner,
+                        pp,
+                        "undefined or infinite result");
+                YYERROR;
+            }
+        }
+        | expr '+' expr {
+            $$ = $1 + $3;
+
+            if (!std::isfinite($$)) {
+                yyerror(&yylloc,
+                        scanner,
+                        pp,
+                        "undefined or infinite result");
+                YYERROR;
+            }
+        }
+        | expr '-' expr {
+            $$ = $1 - $3;
+
+            if (!std::isfinite($$)) {
+                yyerror(&yylloc,
+                        scanner,
+                        pp,
+                        "undefined or infinite result");
+                YYERROR;
+            }
+        }
+        | expr '*' expr {
+            $$ = $1 * $3;
+
+            if (!std::isfinite($$)) {
+                yyerror(&yylloc,
+                        scanner,
+                        pp,
+                        "undefined or infinite result");
+                YYERROR;
+            }
+        }
         | expr '/' expr         {
             if ($3 != 0)
                 $$ = $1 / $3;
@@ -2155,9 +2195,27 @@ expr:   NUM {
                         "division by zero");
                 YYERROR;
             }
+
+            if (!std::isfinite($$)) {
+                yyerror(&yylloc,
+                        scanner,
+                        pp,
+                        "undefined or infinite result");
+                YYERROR;
+            }
         }
         | '-' expr  %prec NEG   { $$ = -$2;                        }
-        | expr '^' expr         { $$ = std::pow($1, $3);           }
+        | expr '^' expr {
+            $$ = std::pow($1, $3);
+
+            if (!std::isfinite($$)) {
+                yyerror(&yylloc,
+                        scanner,
+                        pp,
+                        "undefined or infinite result");
+                YYERROR;
+            }
+        }
         | '(' expr ')'          { $$ = $2;                         }
 ;
 /* ------------------------------------------------------------------------- */
-- 
2.43.0


From bb477fef8706bd57f031d9b0c2112f5fd314e303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:22:19 +0000
Subject: [PATCH 31/38] fix: lines of polar stereographic grids had gaps

---
 lib/marc/PolarStereographic.cpp | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/lib/marc/PolarStereographic.cpp b/lib/marc/PolarStereographic.cpp
index 19b94a6..e2ed46b 100644
--- a/lib/marc/PolarStereographic.cpp
+++ b/lib/marc/PolarStereographic.cpp
@@ -244,13 +244,20 @@ MaRC::PolarStereographic::plot_grid(std::size_t samples,
                                     double lon_interval,
                                     grid_type & grid) const
 {
-    static constexpr std::size_t imax = 2000;
+    // Number of points needed to plot the longest line that fits in the
+    // map, i.e. the circle through its corners, without gaps.
+    std::size_t const imax =
+        std::max<std::size_t>(2000, 4 * (samples + lines));
 
     double const rho_max =
         this->stereo_rho(this->body_->graphic_latitude(this->max_lat_));
     auto const min_dim = std::min(samples, lines);
     double const pix_conv_val = 2 * rho_max / min_dim;
 
+    // Distance from the center of the map to its corners.
+    double const rho_corner =
+        std::hypot(samples, lines) / 2 * pix_conv_val;
+
     // Whether longitudes increase counter-clockwise in map.
     bool const ccw =
         ((this->north_pole_ && this->body_->prograde())
@@ -299,16 +306,10 @@ MaRC::PolarStereographic::plot_grid(std::size_t samples,
         double const mm = m * C::degree;  // Convert to radians
 
         for (std::size_t n = 0; n < imax; ++n) {
-            // Latitudes range from -90 to 90 degrees.
-            double const nn =
-                (static_cast<double>(n) / imax * 180 - 90) * C::degree;
-
-            /**
-             * @bug Shouldn't we take into account the maximum
-             *      latitude of the projection here?
-             */
-
-            double const rho = this->stereo_rho(nn);
+            // Points are evenly spaced in the map rather than in
+            // latitude to avoid gaps.
+            double const rho =
+                static_cast<double>(n) / imax * rho_corner;
 
             double const z = rho * std::cos(mm);
             double const x = (ccw ? rho : -rho) * std::sin(mm);
-- 
2.43.0


From 52be8fb4b1f4aec43596778b55cf9b99c9619b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:25:53 +0000
Subject: [PATCH 32/38] fix: lines of orthographic grids had gaps

---
 lib/marc/Orthographic.cpp | 32 +++++++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/lib/marc/Orthographic.cpp b/lib/marc/Orthographic.cpp
index 696d60d..9d556fa 100644
--- a/lib/marc/Orthographic.cpp
+++ b/lib/marc/Orthographic.cpp
@@ -425,6 +425,31 @@ MaRC::Orthographic::plot_grid(std::size_t samples,
     plot_lon_lines(samples, lines, gp, grid);
 }
 
+namespace
+{
+    /**
+     * @brief Get the number of points to plot along a full circle of
+     *        the grid.
+     *
+     * The longest line in the grid, e.g. the equator, is plotted
+     * without gaps between pixels unless the number of points needed
+     * to do so is excessive, i.e. only a tiny part of the body would
+     * fit in the map.
+     *
+     * @param[in] eq_rad       Equatorial radius of the body.
+     * @param[in] km_per_pixel Kilometers per pixel in the map.
+     */
+    double grid_points(double eq_rad, double km_per_pixel)
+    {
+        constexpr double min_points = 2000;
+        constexpr double max_points = 100000;
+
+        auto const points = std::ceil(C::_2pi * eq_rad / km_per_pixel);
+
+        return std::min(std::max(points, min_points), max_points);
+    }
+}
+
 void
 MaRC::Orthographic::plot_lat_lines(std::size_t samples,
                                    std::size_t lines,
@@ -432,6 +457,7 @@ MaRC::Orthographic::plot_lat_lines(std::size_t samples,
                                    grid_type & grid) const
 {
     auto const & mp = p.parameters();
+    auto const imax = grid_points(this->body_->eq_rad(), mp.km_per_pixel());
 
     // Draw latitude lines
     for (double n = -90; n <= 90; n += p.lat_interval()) {
@@ -473,7 +499,6 @@ MaRC::Orthographic::plot_lat_lines(std::size_t samples,
 
         auto const radius = this->body_->centric_radius(nn);
 
-        constexpr double imax = 2000;
         for (double m = 0; m < imax; ++m) {
             auto mm = m / imax * C::degree * 360;
 
@@ -522,11 +547,12 @@ MaRC::Orthographic::plot_lon_lines(std::size_t samples,
 {
     auto const & mp = p.parameters();
 
+    // Meridians only span half a circle.
+    auto const imax = grid_points(this->body_->eq_rad(), mp.km_per_pixel()) / 2;
+
     for (double m = 0 + p.lon_interval();
          m <= 360;
          m += p.lon_interval()) {
-        constexpr double imax = 1000;
-
         auto const mm = m * C::degree;
 
         for (double n = 0; n < imax; ++n) {
-- 
2.43.0


From 53a15922e8873d94309def85cfd89b47c080e44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:30:38 +0000
Subject: [PATCH 33/38] fix: incorrect checksums of source images were not
 reported

---
 src/FITS_file.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/FITS_file.cpp b/src/FITS_file.cpp
index cda24f0..77e0f5c 100644
--- a/src/FITS_file.cpp
+++ b/src/FITS_file.cpp
@@ -385,7 +385,7 @@ MaRC::FITS::input_file::input_file(char const * filename)
     if (fits_verify_chksum(this->fptr_.get(),
                            &dataok,
                            &hduok,
-                           &status) != 0) {
+                           &status) == 0) {
         if (dataok == -1)  // Incorrect data checksum
             MaRC::warn("Data checksum for FITS file \"{}\" "
                        "is incorrect",
-- 
2.43.0


From 80b8014406b2a2f6ba5d0c83745b2a0e6313f5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:19 +0000
Subject: [PATCH 34/38] fix: orientation of images centred near the optical
 axis was imprecise or lost

---
 lib/marc/ViewingGeometry.cpp | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/lib/marc/ViewingGeometry.cpp b/lib/marc/ViewingGeometry.cpp
index 436457c..b62cbdd 100644
--- a/lib/marc/ViewingGeometry.cpp
+++ b/lib/marc/ViewingGeometry.cpp
@@ -22,6 +22,7 @@
 # include "vector_formatter.h"
 #endif  // NDEBUG
 
+#include <algorithm>
 #include <cmath>
 #include <limits>
 #include <stdexcept>
@@ -372,15 +373,26 @@ MaRC::ViewingGeometry::rot_matrices(DVector const & range_o,
     r_o = rotated;
     DVector const temp2(rotated);
 
+    double const sin_lat = std::sin(this->sub_observ_lat_);
+    double const cos_lat = std::cos(this->sub_observ_lat_);
+
+    // Coefficients of the quadratic equation a*x^2 + 2*b*x + c = 0.
     double const a = r_o[2] * r_o[2] + r_o[1] * r_o[1];
-    double const b = 2 * r_o[1] * std::sin(this->sub_observ_lat_);
-    double const c =
-        std::sin(this->sub_observ_lat_) * std::sin(this->sub_observ_lat_)
-        - r_o[2] * r_o[2];
+    double const b = r_o[1] * sin_lat;
+    double const c = (sin_lat - r_o[2]) * (sin_lat + r_o[2]);
+
+    /*
+      Computing the discriminant as (b*b - a*c) suffers from
+      catastrophic cancellation if the body center is near the optical
+      axis.  Use an equivalent form instead, which relies on r_o being
+      a unit vector.
+    */
+    double const d = (cos_lat - r_o[0]) * (cos_lat + r_o[0]);
+    double const discriminant = r_o[2] * r_o[2] * d;
 
     std::pair<double, double> SubLatModSin;
 
-    if (!MaRC::quadratic_roots(a, b, c, SubLatModSin)) {
+    if (discriminant < -std::numeric_limits<double>::epsilon()) {
         /*
           No real roots.
 
@@ -393,6 +405,13 @@ MaRC::ViewingGeometry::rot_matrices(DVector const & range_o,
         return false;  // Failure
     }
 
+    double const q =
+        -(b + MaRC::sgn(b) * std::sqrt(std::max(discriminant, 0.0)));
+
+    // Do not let round-off push the sines out of their range.
+    SubLatModSin.first  = std::clamp(q / a, -1.0, 1.0);
+    SubLatModSin.second = (q == 0 ? 0 : std::clamp(c / q, -1.0, 1.0));
+
     // ------------- TRY THE FIRST ROOT ------------
     double SubLatMod = std::asin(SubLatModSin.first);
 
-- 
2.43.0


From 70339ec04b1cbf6cba8acee9b6575f727b48b1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:56:54 +0000
Subject: [PATCH 35/38] fix: unit of floating point latitude and longitude maps
 was not written

---
 src/MapCommand.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/MapCommand.cpp b/src/MapCommand.cpp
index 638a293..66e3f77 100644
--- a/src/MapCommand.cpp
+++ b/src/MapCommand.cpp
@@ -301,14 +301,16 @@ MaRC::MapCommand::write_virtual_image_facts(MaRC::FITS::image & map_image,
     if (!v)
         return;  // Not a VirtualImage subclass instance.
 
-    /**
-     * @bug This prevents the BUNIT card from being written for
-     *      floating point virtual images.
-     */
     // bitpix > 0: integer data
     // bitpix < 0: floating point data
-    if (this->parameters_->bitpix() < 0)
+    if (this->parameters_->bitpix() < 0) {
+        // Floating point data isn't scaled.  The unit is all that is
+        // left to write if it applies to the entire map.
+        if (num_planes == 1)
+            map_image.bunit(this->parameters_->bunit());
+
         return;
+    }
 
     // The map contains integer type data meaning data was scaled to
     // maximize significant digits.  Write map plane-specific scaling
-- 
2.43.0


From 9058626c0931d11e469a26655e7f41d30d7d629a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:35:22 +0000
Subject: [PATCH 36/38] fix: write and read descriptive strings longer than one
 FITS card completely

---
 src/FITS_file.cpp  | 28 +++++++++++++++-------------
 src/FITS_image.cpp | 13 +++++++------
 2 files changed, 22 insertions(+), 19 deletions(-)

diff --git a/src/FITS_file.cpp b/src/FITS_file.cpp
index 77e0f5c..50ae32e 100644
--- a/src/FITS_file.cpp
+++ b/src/FITS_file.cpp
@@ -114,23 +114,25 @@ namespace MaRC
         read_fits_string_key(fitsfile * fptr, char const * key)
         {
             int status = 0;
-            char value[FLEN_VALUE] = { '\0' };
+            char * value = nullptr;
+
             std::string str;
+
             /**
-             * @note @c fits_read_key() doesn't support the HEASARC
-             *       continued long string convention.  If needed, use
-             *       a combination of @c fits_get_key_strlen() and
-             *       @c fits_read_string_key(), both introduced in
-             *       CFITSIO 3.39.
+             * @note Strings longer than 68 characters may be
+             *       continued over several %FITS cards.
+             *       @c fits_read_key() would only give the first
+             *       part.
              */
-            if (fits_read_key(fptr,
-                              TSTRING,
-                              key,
-                              value,
-                              nullptr, // comment
-                              &status) == 0)
+            if (fits_read_key_longstr(fptr,
+                                      key,
+                                      &value,
+                                      nullptr, // comment
+                                      &status) == 0) {
                 str = value;
-            else if (status != KEY_NO_EXIST) {
+
+                fits_free_memory(value, &status);
+            } else if (status != KEY_NO_EXIST) {
                 FITS::throw_on_error(status);
             }
 
diff --git a/src/FITS_image.cpp b/src/FITS_image.cpp
index 05eb055..a5a0b20 100644
--- a/src/FITS_image.cpp
+++ b/src/FITS_image.cpp
@@ -196,13 +196,14 @@ MaRC::FITS::image::update_fits_key(fitsfile * fptr,
     if (value.empty())
         return;
 
+    // Strings too long for a single FITS card are continued in
+    // the following ones.
     int status = 0;
-    fits_update_key(fptr,
-                    TSTRING,
-                    key,
-                    const_cast<char *>(value.c_str()),
-                    comment,
-                    &status);
+    fits_update_key_longstr(fptr,
+                            key,
+                            value.c_str(),
+                            comment,
+                            &status);
 
     MaRC::FITS::throw_on_error(status);
 }
-- 
2.43.0


From 361fd427994db57f4848d4967d755b838b33b79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:27:18 +0000
Subject: [PATCH 37/38] fix: accept signs next to operators in expressions

The scanner took a sign as part of the number that follows it, so that
"1000-3" was a syntax error and "-2 ^ 2" was the square of -2.
Leave signs to the parser.
---
 src/lexer.ll |  2 +-
 src/parse.yy | 13 +++++++++++++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/lexer.ll b/src/lexer.ll
index 936f3f5..5925051 100644
--- a/src/lexer.ll
+++ b/src/lexer.ll
@@ -115,7 +115,7 @@ void yyset_column(int, yyscan_t);
         "KM"                            { return KM;  }
         "CW"                            { return CW;  }
         "CCW"                           { return CCW; }
-        [-+]?[[:digit:]]*("."[[:digit:]]*)?(E[-+]?[[:digit:]]{1,3})?  {
+        [[:digit:]]*("."[[:digit:]]*)?(E[-+]?[[:digit:]]{1,3})?  {
             // String to number conversion occurs in the parser.
             yyget_lval(yyscanner)->sval = strdup(yyget_text(yyscanner));
 
diff --git a/src/parse.yy b/src/parse.yy
index 1802de2..e17e701 100644
--- a/src/parse.yy
+++ b/src/parse.yy
@@ -873,6 +873,18 @@ integer: NUM {
             if (!from_string($1, $$))
                 YYERROR;
         }
+        | '+' NUM {
+            auto_free<char> str($2);
+            if (!from_string($2, $$))
+                YYERROR;
+        }
+        | '-' NUM {
+            auto_free<char> str($2);
+            std::string const negative = std::string("-") + $2;
+            if (!from_string(negative.c_str(), $$))
+                YYERROR;
+        }
+;
 
 size:   integer { $$ = $1; }
 ;
@@ -2205,6 +2217,7 @@ expr:   NUM {
             }
         }
         | '-' expr  %prec NEG   { $$ = -$2;                        }
+        | '+' expr  %prec NEG   { $$ = $2;                         }
         | expr '^' expr {
             $$ = std::pow($1, $3);
 
-- 
2.43.0


From 3669c22556c78dae919ec7389736fb4c15f33b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:41 +0000
Subject: [PATCH 38/38] fix: refuse maps whose size in bytes cannot be
 represented

Excessive SAMPLES and LINES values made CFITSIO overflow and abort the
program when the file was closed.
---
 src/parse.yy | 37 +++++++++++++++++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/src/parse.yy b/src/parse.yy
index e17e701..988d5b9 100644
--- a/src/parse.yy
+++ b/src/parse.yy
@@ -217,6 +217,39 @@ namespace
         return blank_verifier<T>::verify(blank, data_type);
     }
 
+    /**
+     * @brief Verify that the size of a map can be represented.
+     *
+     * The number of bytes in the map (and its optional grid), rounded
+     * up to a whole number of %FITS blocks, must fit in the type
+     * CFITSIO uses for file offsets.
+     *
+     * @param[in] samples Number of samples in map, greater than zero.
+     * @param[in] lines   Number of lines   in map, greater than zero.
+     * @param[in] planes  Number of planes  in map.
+     *
+     * @retval true  The map size can be represented.
+     * @retval false The map is too large.
+     */
+    bool
+    verify_map_size(long samples, long lines, std::size_t planes)
+    {
+        constexpr std::size_t maximum =
+            std::numeric_limits<long>::max() / (2 * sizeof(double));
+
+        bool const verified =
+            (maximum / samples / lines / (planes + 1) > 0);
+
+        if (!verified)
+            MaRC::error("map with {} samples, {} lines and {} planes "
+                        "is too large",
+                        samples,
+                        lines,
+                        planes);
+
+        return verified;
+    }
+
     /**
      * @brief Convert string to integer.
      *
@@ -595,6 +628,10 @@ map_setup:
                             image_factories.size(),
                             num_planes);
                 YYERROR;
+            } else if (!verify_map_size(map_samples,
+                                        map_lines,
+                                        image_factories.size())) {
+                YYERROR;
             } else {
                 auto command =
                     std::make_unique<MaRC::MapCommand>(
-- 
2.43.0

