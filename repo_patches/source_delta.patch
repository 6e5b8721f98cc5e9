From 9dc6610b4e9adf07f3afa14302d2b5021e9cc67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:47 +0000
Subject: [PATCH 01/29] fix: a boolean view whose evaluation failed is not
 marked evaluated

value() set evaluated_ before computing the result, so that after an
exception the next use of the same view silently yielded an empty or
partial result.
---
 include/boost/polygon/detail/polygon_45_set_view.hpp | 3 ++-
 include/boost/polygon/detail/polygon_90_set_view.hpp | 3 ++-
 include/boost/polygon/detail/polygon_set_view.hpp    | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/boost/polygon/detail/polygon_45_set_view.hpp b/include/boost/polygon/detail/polygon_45_set_view.hpp
index a0dc046..7dbed0d 100644
--- a/include/boost/polygon/detail/polygon_45_set_view.hpp
+++ b/include/boost/polygon/detail/polygon_45_set_view.hpp
@@ -103,8 +103,9 @@ namespace boost { namespace polygon{
   public:
     const value_type& value() const {
       if(!evaluated_) {
-        evaluated_ = true;
+        output_.clear();
         compute_45_set_value<value_type, ltype, rtype, op_type>::value(output_, lvalue_, rvalue_);
+        evaluated_ = true;
       }
       return output_;
     }
diff --git a/include/boost/polygon/detail/polygon_90_set_view.hpp b/include/boost/polygon/detail/polygon_90_set_view.hpp
index 7e93b03..955cde4 100644
--- a/include/boost/polygon/detail/polygon_90_set_view.hpp
+++ b/include/boost/polygon/detail/polygon_90_set_view.hpp
@@ -145,8 +145,9 @@ namespace boost { namespace polygon{
   private:
     const value_type& value() const {
       if(!evaluated_) {
-        evaluated_ = true;
+        output_.clear();
         compute_90_set_value<value_type, ltype, rtype, op_type>::value(output_, lvalue_, rvalue_, orient_);
+        evaluated_ = true;
       }
       return output_;
     }
diff --git a/include/boost/polygon/detail/polygon_set_view.hpp b/include/boost/polygon/detail/polygon_set_view.hpp
index 7d27091..b88c81b 100644
--- a/include/boost/polygon/detail/polygon_set_view.hpp
+++ b/include/boost/polygon/detail/polygon_set_view.hpp
@@ -144,8 +144,9 @@ namespace boost { namespace polygon{
   public:
     const value_type& value() const {
       if(!evaluated_) {
-        evaluated_ = true;
+        output_.clear();
         execute_boolean_op<value_type, ltype, rtype, op_type>(output_, lvalue_, rvalue_);
+        evaluated_ = true;
       }
       return output_;
     }
-- 
2.43.0


From af40fa6c3ea406d0756b64c79dae654508e4d416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:47 +0000
Subject: [PATCH 02/29] fix: boolean of a geometry object with a polygon_90_set
 of another scanning orientation

The right hand operand's vertices were scanned as if they had the left hand
operand's orientation, which gave a region with x and y swapped.
---
 include/boost/polygon/detail/polygon_90_set_view.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/boost/polygon/detail/polygon_90_set_view.hpp b/include/boost/polygon/detail/polygon_90_set_view.hpp
index 955cde4..457c4fb 100644
--- a/include/boost/polygon/detail/polygon_90_set_view.hpp
+++ b/include/boost/polygon/detail/polygon_90_set_view.hpp
@@ -110,6 +110,13 @@ namespace boost { namespace polygon{
         value_type linput_(orient_);
         orientation_2d orient_l = polygon_90_set_traits<ltype>::orient(lvalue_);
         insert_into_view_arg(linput_, lvalue_, orient_l);
+        if(orient_ != rvalue_.orient()) { // right hand side orientation is different
+          value_type rinput_(orient_);
+          insert_into_view_arg(rinput_, rvalue_, rvalue_.orient());
+          output_.applyBooleanBinaryOp(linput_.begin(), linput_.end(),
+                                       rinput_.begin(), rinput_.end(), boolean_op::BinaryCount<op_type>());
+          return;
+        }
         rvalue_.sort();
         //std::cout << "compute_90_set_value-3 orientations (left, out):\t" << orient_l.to_int()
         //          << "," << orient_.to_int() << std::endl;
-- 
2.43.0


From 46efc14a5ce49816da189cac2a9cd4ea81f138c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:47 +0000
Subject: [PATCH 03/29] fix: compare polygon_90_sets of different scanning
 orientation by region

operator== and equivalence() reported two sets covering the same region as
different whenever their scanning orientations differed.
---
 include/boost/polygon/polygon_90_set_data.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/boost/polygon/polygon_90_set_data.hpp b/include/boost/polygon/polygon_90_set_data.hpp
index 2c640bf..1a113e2 100644
--- a/include/boost/polygon/polygon_90_set_data.hpp
+++ b/include/boost/polygon/polygon_90_set_data.hpp
@@ -203,7 +203,9 @@ namespace boost { namespace polygon{
         p.clean();
         return data_ == p.data_;
       } else {
-        return false;
+        polygon_90_set_data tmp(orient_);
+        tmp.insert(p);
+        return (*this) == tmp;
       }
     }
 
-- 
2.43.0


From 6ad3fc854d166d5a9ab714f1dc0c9c0195ac9ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:59 +0000
Subject: [PATCH 04/29] fix: merging a polygon_90_set keeps the set if memory
 runs out

applyBooleanOr emptied its in/out argument before copying the result into
it; an allocation failure there, inside const clean() or any query, emptied
the polygon set.
---
 include/boost/polygon/detail/boolean_op.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/boost/polygon/detail/boolean_op.hpp b/include/boost/polygon/detail/boolean_op.hpp
index 0c674a2..e4a750f 100644
--- a/include/boost/polygon/detail/boolean_op.hpp
+++ b/include/boost/polygon/detail/boolean_op.hpp
@@ -425,12 +425,12 @@ namespace boolean_op {
         prevY = y;
         count += (*itr).second.second;
       }
+      //do not touch the input before the result is complete and can be stored without failing
       if(output.size() < input.size() / 2) {
-        input = std::vector<std::pair<Unit, std::pair<Unit, int> > >();
+        std::vector<std::pair<Unit, std::pair<Unit, int> > >(output).swap(input);
       } else {
-      input.clear();
+        input.swap(output);
       }
-      input.insert(input.end(), output.begin(), output.end());
     }
   };
 
-- 
2.43.0


From 94b132aa05f9fc1b3fc23821c5b05e96e29dc661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:14 +0000
Subject: [PATCH 05/29] fix: empty() of 45-degree and arbitrary-angle sets
 scans first, as documented

A set whose geometry is completely covered by holes was reported as not
empty until something else happened to scan it.
---
 include/boost/polygon/polygon_45_set_data.hpp | 2 +-
 include/boost/polygon/polygon_set_data.hpp    | 8 +++++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/boost/polygon/polygon_45_set_data.hpp b/include/boost/polygon/polygon_45_set_data.hpp
index 97585f6..e555e1e 100644
--- a/include/boost/polygon/polygon_45_set_data.hpp
+++ b/include/boost/polygon/polygon_45_set_data.hpp
@@ -188,7 +188,7 @@ namespace boost { namespace polygon{
     inline void clear() { data_.clear(); error_data_.clear(); dirty_ = unsorted_ = false; is_manhattan_ = true; }
 
     // find out if Polygon set is empty
-    inline bool empty() const { return data_.empty(); }
+    inline bool empty() const { clean(); return data_.empty(); }
 
     // get the Polygon set size in vertices
     inline std::size_t size() const { clean(); return data_.size(); }
diff --git a/include/boost/polygon/polygon_set_data.hpp b/include/boost/polygon/polygon_set_data.hpp
index 32dd800..b3b6136 100644
--- a/include/boost/polygon/polygon_set_data.hpp
+++ b/include/boost/polygon/polygon_set_data.hpp
@@ -296,7 +296,13 @@ namespace boost { namespace polygon {
     inline void clear() { data_.clear(); dirty_ = unsorted_ = false; }
 
     // find out if Polygon set is empty
-    inline bool empty() const { return data_.empty(); }
+    inline bool empty() const {
+      if(data_.empty() || !dirty_) return data_.empty();
+      //scan a copy, the caller may still want the unscanned data
+      polygon_set_data tmp(*this);
+      tmp.clean();
+      return tmp.data_.empty();
+    }
 
     // get the Polygon set size in vertices
     inline std::size_t size() const { clean(); return data_.size(); }
-- 
2.43.0


From 4561e0d97a78cf40cb7da6aa997c8f30754dc7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:42 +0000
Subject: [PATCH 06/29] fix: insert vertices and Manhattan sets as holes into a
 polygon_45_set

insert_clean() discarded the inverted count, and the polygon_90_set overload
negated only the horizontal edges, so is_hole produced inconsistent vertices.
---
 include/boost/polygon/polygon_45_set_data.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/boost/polygon/polygon_45_set_data.hpp b/include/boost/polygon/polygon_45_set_data.hpp
index e555e1e..9dd9d2f 100644
--- a/include/boost/polygon/polygon_45_set_data.hpp
+++ b/include/boost/polygon/polygon_45_set_data.hpp
@@ -115,7 +115,7 @@ namespace boost { namespace polygon{
     inline void insert_clean(const Vertex45Compact& vertex_45, bool is_hole = false) {
       if(vertex_45.count.is_45()) is_manhattan_ = false;
       data_.push_back(vertex_45);
-      if(is_hole) data_.back().count.invert();
+      if(is_hole) data_.back().count = data_.back().count.invert();
     }
 
     inline void insert(const Vertex45Compact& vertex_45, bool is_hole = false) {
@@ -131,7 +131,6 @@ namespace boost { namespace polygon{
             itr != polygon_set.end(); ++itr) {
           Vertex45Compact vertex_45(point_data<Unit>((*itr).first, (*itr).second.first), 2, (*itr).second.second);
           vertex_45.count[1] = (*itr).second.second;
-          if(is_hole) vertex_45.count[1] *= - 1;
           insert_clean(vertex_45, is_hole);
         }
       } else {
@@ -139,7 +138,6 @@ namespace boost { namespace polygon{
             itr != polygon_set.end(); ++itr) {
           Vertex45Compact vertex_45(point_data<Unit>((*itr).second.first, (*itr).first), 2, (*itr).second.second);
           vertex_45.count[1] = (*itr).second.second;
-          if(is_hole) vertex_45.count[1] *= - 1;
           insert_clean(vertex_45, is_hole);
         }
       }
-- 
2.43.0


From 5fd93d1ba38335707de162d0533383472bb5cb51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:23 +0000
Subject: [PATCH 07/29] fix: polygon_45_set_data::set looks for 45-degree edges
 in the new value

---
 include/boost/polygon/polygon_45_set_data.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/boost/polygon/polygon_45_set_data.hpp b/include/boost/polygon/polygon_45_set_data.hpp
index 9dd9d2f..a438241 100644
--- a/include/boost/polygon/polygon_45_set_data.hpp
+++ b/include/boost/polygon/polygon_45_set_data.hpp
@@ -226,12 +226,14 @@ namespace boost { namespace polygon{
 
     void set_clean(const value_type& value) {
       data_ = value;
+      set_is_manhattan_from_data_();
       dirty_ = false;
       unsorted_ = false;
     }
 
     void set(const value_type& value) {
       data_ = value;
+      set_is_manhattan_from_data_();
       dirty_ = true;
       unsorted_ = true;
     }
@@ -347,6 +349,12 @@ namespace boost { namespace polygon{
 
   private:
     //functions
+    void set_is_manhattan_from_data_() {
+      is_manhattan_ = true;
+      for(iterator_type itr = data_.begin(); itr != data_.end() && is_manhattan_; ++itr) {
+        if((*itr).count.is_45()) is_manhattan_ = false;
+      }
+    }
     template <typename output_container>
     void get_dispatch(output_container& output, polygon_45_concept tag) const {
       get_fracture(output, true, tag);
-- 
2.43.0


From e4a49be3a5d80779b5dc0da05f1ce41f36157887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:37 +0000
Subject: [PATCH 08/29] fix: polygon_90_set_data::shrink leaves no negative
 values behind

---
 include/boost/polygon/polygon_90_set_data.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/boost/polygon/polygon_90_set_data.hpp b/include/boost/polygon/polygon_90_set_data.hpp
index 1a113e2..c8c0851 100644
--- a/include/boost/polygon/polygon_90_set_data.hpp
+++ b/include/boost/polygon/polygon_90_set_data.hpp
@@ -616,6 +616,7 @@ namespace boost { namespace polygon{
           }
         }
       }
+      clean(); //parts shrunk away may have left negative values in the set, as in shrink2
       return *this;
     }
 
-- 
2.43.0


From fd72653daa5e2eda3be2932bfbc92fa7d0117ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:59 +0000
Subject: [PATCH 09/29] fix: polygon_90_set_data::interact does not claim its
 result is clean

---
 include/boost/polygon/polygon_90_set_data.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/boost/polygon/polygon_90_set_data.hpp b/include/boost/polygon/polygon_90_set_data.hpp
index c8c0851..21fa872 100644
--- a/include/boost/polygon/polygon_90_set_data.hpp
+++ b/include/boost/polygon/polygon_90_set_data.hpp
@@ -808,7 +808,6 @@ namespace boost { namespace polygon{
       for(std::set<int>::iterator itr = graph[0].begin(); itr != graph[0].end(); ++itr){
         insert(polys[(*itr)-1]);
       }
-      dirty_ = false;
       return *this;
     }
 
-- 
2.43.0


From 9d99a7080cf4b896733cbf85047b49cca906d840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:11 +0000
Subject: [PATCH 10/29] fix: polygon_90_set_data::interact sorts its operand

---
 include/boost/polygon/polygon_90_set_data.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/polygon/polygon_90_set_data.hpp b/include/boost/polygon/polygon_90_set_data.hpp
index 21fa872..d02b9eb 100644
--- a/include/boost/polygon/polygon_90_set_data.hpp
+++ b/include/boost/polygon/polygon_90_set_data.hpp
@@ -791,7 +791,7 @@ namespace boost { namespace polygon{
 
     inline polygon_90_set_data& interact(const polygon_90_set_data& that) {
       typedef coordinate_type Unit;
-      if(that.dirty_) that.clean();
+      that.clean(); //sorts as well as merges
       typename touch_90_operation<Unit>::TouchSetData tsd;
       touch_90_operation<Unit>::populateTouchSetData(tsd, that.data_, 0);
       std::vector<polygon_90_data<Unit> > polys;
-- 
2.43.0


From 229d0783bf85eb8d80cd86bdae0e66c9274021b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:46 +0000
Subject: [PATCH 11/29] fix: destroy polygons that were formed but not yet
 output when output fails

---
 include/boost/polygon/detail/polygon_formation.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/boost/polygon/detail/polygon_formation.hpp b/include/boost/polygon/detail/polygon_formation.hpp
index f4c0d70..9018e8b 100644
--- a/include/boost/polygon/detail/polygon_formation.hpp
+++ b/include/boost/polygon/detail/polygon_formation.hpp
@@ -1031,8 +1031,11 @@ namespace polygon_formation {
 
   template <typename Unit>
   inline PolyLine<Unit>& PolyLine<Unit>::disconnectTails() {
-    next(TAIL)->state_ &= !TAIL_TO_TAIL;
-    next(TAIL)->tailp_ = 0;
+    //tails are joined when a figure is iterated over, which it is not if output fails before
+    if(next(TAIL)) {
+      next(TAIL)->state_ &= !TAIL_TO_TAIL;
+      next(TAIL)->tailp_ = 0;
+    }
     state_ &= !TAIL_TO_TAIL;
     tailp_ = 0;
     return *this;
-- 
2.43.0


From 81a91bb7656bfdf53d70d6426dab7e9fec38457a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:34 +0000
Subject: [PATCH 12/29] fix: one vertex per point in the result of the
 Manhattan path of polygon_45_set_data

---
 include/boost/polygon/polygon_45_set_data.hpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/include/boost/polygon/polygon_45_set_data.hpp b/include/boost/polygon/polygon_45_set_data.hpp
index a438241..d3b4aa8 100644
--- a/include/boost/polygon/polygon_45_set_data.hpp
+++ b/include/boost/polygon/polygon_45_set_data.hpp
@@ -355,6 +355,21 @@ namespace boost { namespace polygon{
         if((*itr).count.is_45()) is_manhattan_ = false;
       }
     }
+    //one vertex per point, as the 45 degree scan produces; data_ must be sorted
+    void merge_coincident_vertices_() {
+      value_type merged;
+      merged.reserve(data_.size());
+      for(iterator_type itr = data_.begin(); itr != data_.end(); ++itr) {
+        if(!merged.empty() && merged.back().pt == (*itr).pt) {
+          merged.back().count += (*itr).count;
+          if(merged.back().count == typename polygon_45_formation<Unit>::Vertex45Count(0, 0, 0, 0))
+            merged.pop_back();
+        } else {
+          merged.push_back(*itr);
+        }
+      }
+      data_.swap(merged);
+    }
     template <typename output_container>
     void get_dispatch(output_container& output, polygon_45_concept tag) const {
       get_fracture(output, true, tag);
@@ -1578,6 +1593,7 @@ namespace boost { namespace polygon{
 #endif
       result.data_.clear();
       result.insert(output);
+      result.merge_coincident_vertices_();
       result.is_manhattan_ = true;
       result.dirty_ = false;
       result.unsorted_ = false;
@@ -1700,6 +1716,7 @@ namespace boost { namespace polygon{
 #endif
       result.data_.clear();
       result.insert(l90sd);
+      result.merge_coincident_vertices_();
       result.is_manhattan_ = true;
       result.dirty_ = false;
       result.unsorted_ = false;
-- 
2.43.0


From b8ee8db592a2f99bec90dd4314a268690b14d661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:01 +0000
Subject: [PATCH 13/29] fix: sums of products in Voronoi predicates do not wrap
 around at full 32-bit range

---
 include/boost/polygon/detail/voronoi_predicates.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/boost/polygon/detail/voronoi_predicates.hpp b/include/boost/polygon/detail/voronoi_predicates.hpp
index b6314d3..fb94178 100644
--- a/include/boost/polygon/detail/voronoi_predicates.hpp
+++ b/include/boost/polygon/detail/voronoi_predicates.hpp
@@ -48,6 +48,14 @@ class voronoi_predicates {
     return is_vertical(site.point0(), site.point1());
   }
 
+  // Compute the sum of two products, that doesn't have to fit uint_x2_type.
+  // Epsilon relative error is equal to 1EPS.
+  static fpt_type robust_sum(uint_x2_type l, uint_x2_type r) {
+    static to_fpt_converter to_fpt;
+    uint_x2_type sum = l + r;
+    return (sum < l) ? to_fpt(l) + to_fpt(r) : to_fpt(sum);
+  }
+
   // Compute robust cross_product: a1 * b2 - b1 * a2.
   // It was mathematically proven that the result is correct
   // with epsilon relative error equal to 1EPS.
@@ -68,10 +76,10 @@ class voronoi_predicates {
       if (is_neg(a2_) ^ is_neg(b1_))
         return (l > r) ? -to_fpt(l - r) : to_fpt(r - l);
       else
-        return -to_fpt(l + r);
+        return -robust_sum(l, r);
     } else {
       if (is_neg(a2_) ^ is_neg(b1_))
-        return to_fpt(l + r);
+        return robust_sum(l, r);
       else
         return (l < r) ? -to_fpt(r - l) : to_fpt(l - r);
     }
-- 
2.43.0


From ae1f888f7be72df8bd5695611904be086ef03562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:01 +0000
Subject: [PATCH 14/29] fix: voronoi_builder forgets an interrupted
 construction on clear and construct

---
 include/boost/polygon/voronoi_builder.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/boost/polygon/voronoi_builder.hpp b/include/boost/polygon/voronoi_builder.hpp
index 6a3d504..8e8aa6a 100644
--- a/include/boost/polygon/voronoi_builder.hpp
+++ b/include/boost/polygon/voronoi_builder.hpp
@@ -98,6 +98,7 @@ class voronoi_builder {
   template <typename OUTPUT>
   void construct(OUTPUT* output) {
     // Init structures.
+    clear_sweepline();
     output->_reserve(site_events_.size());
     init_sites_queue();
     init_beach_line(output);
@@ -132,6 +133,7 @@ class voronoi_builder {
   void clear() {
     index_ = 0;
     site_events_.clear();
+    clear_sweepline();
   }
 
  private:
@@ -167,6 +169,14 @@ class voronoi_builder {
     circle_event_queue_type;
   typedef std::pair<point_type, beach_line_iterator> end_point_type;
 
+  // Drop whatever an interrupted construction has left behind.
+  void clear_sweepline() {
+    circle_events_.clear();
+    while (!end_points_.empty())
+      end_points_.pop();
+    beach_line_.clear();
+  }
+
   void init_sites_queue() {
     // Sort site events.
     std::sort(site_events_.begin(), site_events_.end(),
-- 
2.43.0


From 6a829d74cc2cffa7a783a0cd7e74acc8967f5d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:15 +0000
Subject: [PATCH 15/29] fix: no false Voronoi circle events for two points and
 a segment

---
 .../polygon/detail/voronoi_predicates.hpp     | 56 +++++++++++++++++++
 1 file changed, 56 insertions(+)

diff --git a/include/boost/polygon/detail/voronoi_predicates.hpp b/include/boost/polygon/detail/voronoi_predicates.hpp
index fb94178..a7266a0 100644
--- a/include/boost/polygon/detail/voronoi_predicates.hpp
+++ b/include/boost/polygon/detail/voronoi_predicates.hpp
@@ -10,6 +10,7 @@
 #ifndef BOOST_POLYGON_DETAIL_VORONOI_PREDICATES
 #define BOOST_POLYGON_DETAIL_VORONOI_PREDICATES
 
+#include <limits>
 #include <utility>
 
 #include "voronoi_robust_fpt.hpp"
@@ -1466,6 +1467,8 @@ class voronoi_predicates {
             if (!circle_existence_predicate_.pps(site1, site2, site3, 3))
               return false;
             circle_formation_functor_.pps(site1, site2, site3, 3, circle);
+            if (belongs_to_other_rotation(site1, site3, circle, false))
+              return false;
           }
         } else {
           if (!site3.is_segment()) {
@@ -1487,6 +1490,8 @@ class voronoi_predicates {
             if (!circle_existence_predicate_.pps(site2, site3, site1, 1))
               return false;
             circle_formation_functor_.pps(site2, site3, site1, 1, circle);
+            if (belongs_to_other_rotation(site3, site1, circle, true))
+              return false;
           } else {
             // (segment, point, segment) sites.
             if (!circle_existence_predicate_.pss(site2, site1, site3, 2))
@@ -1516,6 +1521,57 @@ class voronoi_predicates {
     }
 
    private:
+    // The arcs that meet at a circle event follow one another along the
+    // beach line in the order in which the sites touch the circle, clockwise
+    // from its rightmost point. Triples (segment, point, point) and (point,
+    // point, segment) of the same sites yield the same circle, but only one
+    // of the middle arcs disappears there. Returns true if the outer sites
+    // of the triple clearly touch the circle in the opposite order.
+    bool belongs_to_other_rotation(
+        const site_type& point, const site_type& segment,
+        const circle_type& c, bool segment_is_first) const {
+      typename ot::Orientation side = ot::eval(
+          segment.point0(), segment.point1(), point.point0());
+      if (side == ot::COLLINEAR) {
+        return false;
+      }
+      // Direction from the center of the circle to the segment.
+      fpt_type nx = to_fpt(segment.y1()) - to_fpt(segment.y0());
+      fpt_type ny = to_fpt(segment.x0()) - to_fpt(segment.x1());
+      if (side == ot::RIGHT) {
+        nx = -nx;
+        ny = -ny;
+      }
+      if (is_zero(ny) && is_pos(nx)) {
+        return false;
+      }
+      // Direction from the center of the circle to the point.
+      fpt_type vx = to_fpt(point.x()) - c.x();
+      fpt_type vy = to_fpt(point.y()) - c.y();
+      fpt_type max_error = to_fpt(ULPSx2) *
+          std::numeric_limits<fpt_type>::epsilon() * (abs(c.x()) + abs(c.y()));
+      bool point_is_above = is_pos(vy);
+      bool segment_is_above = is_pos(ny);
+      bool segment_goes_first = !segment_is_above;
+      if (abs(vy) <= max_error) {
+        // The point is either the rightmost or the leftmost one.
+        if (is_pos(vx)) {
+          return false;
+        }
+      } else if (point_is_above == segment_is_above) {
+        fpt_type cross = nx * vy - ny * vx;
+        if (abs(cross) <= max_error * (abs(nx) + abs(ny))) {
+          return false;
+        }
+        segment_goes_first = is_neg(cross);
+      }
+      return segment_goes_first != segment_is_first;
+    }
+
+    fpt_type abs(const fpt_type& that) const {
+      return is_neg(that) ? -that : that;
+    }
+
     bool lies_outside_vertical_segment(
         const circle_type& c, const site_type& s) {
       if (!s.is_segment() || !is_vertical(s)) {
-- 
2.43.0


From 35a590f26f4c475c9bfd0dc9c5bbf48bac54186e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:39 +0000
Subject: [PATCH 16/29] fix: property merge on 45-degree data read its unsorted
 edge data as sorted

---
 include/boost/polygon/detail/property_merge_45.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/polygon/detail/property_merge_45.hpp b/include/boost/polygon/detail/property_merge_45.hpp
index c2feffc..5b78679 100644
--- a/include/boost/polygon/detail/property_merge_45.hpp
+++ b/include/boost/polygon/detail/property_merge_45.hpp
@@ -89,11 +89,11 @@ namespace boost { namespace polygon{
         if(left == right) return;
         if(!left.empty()) {
           //std::cout << pt.x() << " " << pt.y() << " " << rise << " " << edgeType << std::endl;
-          output[left].insert_clean(typename boolean_op_45<Unit>::Vertex45(pt, rise, -edgeType));
+          output[left].insert(typename polygon_45_formation<Unit>::Vertex45Compact(pt, rise, -edgeType));
         }
         if(!right.empty()) {
           //std::cout << pt.x() << " " << pt.y() << " " << rise << " " << -edgeType << std::endl;
-          output[right].insert_clean(typename boolean_op_45<Unit>::Vertex45(pt, rise, edgeType));
+          output[right].insert(typename polygon_45_formation<Unit>::Vertex45Compact(pt, rise, edgeType));
         }
       }
     };
-- 
2.43.0


From 713f9a8ce81d3636e64abb13a01e88a64b82e5e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:39 +0000
Subject: [PATCH 17/29] fix: a second 45-degree property merge or connectivity
 extraction counted coincident vertices twice

---
 include/boost/polygon/detail/polygon_45_touch.hpp  | 4 ++--
 include/boost/polygon/detail/property_merge_45.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/boost/polygon/detail/polygon_45_touch.hpp b/include/boost/polygon/detail/polygon_45_touch.hpp
index 90717e1..2725ede 100644
--- a/include/boost/polygon/detail/polygon_45_touch.hpp
+++ b/include/boost/polygon/detail/polygon_45_touch.hpp
@@ -195,10 +195,10 @@ namespace boost { namespace polygon{
       for(typename TouchSetData::iterator itr = tsd.begin(); itr != tsd.end(); ) {
         typename TouchSetData::iterator itr2 = itr;
         ++itr2;
+        tsd_.push_back(*itr);
         for(; itr2 != tsd.end() && itr2->first == itr->first; ++itr2) {
-          (itr->second) += (itr2->second); //accumulate
+          (tsd_.back().second) += (itr2->second); //accumulate
         }
-        tsd_.push_back(std::make_pair(itr->first, itr->second));
         itr = itr2;
       }
       std::pair<std::pair<Unit, std::map<Unit, std::set<int> > >, graph_type*> output
diff --git a/include/boost/polygon/detail/property_merge_45.hpp b/include/boost/polygon/detail/property_merge_45.hpp
index 5b78679..1a192b8 100644
--- a/include/boost/polygon/detail/property_merge_45.hpp
+++ b/include/boost/polygon/detail/property_merge_45.hpp
@@ -118,10 +118,10 @@ namespace boost { namespace polygon{
       for(typename MergeSetData::iterator itr = tsd.begin(); itr != tsd.end(); ) {
         typename MergeSetData::iterator itr2 = itr;
         ++itr2;
+        tsd_.push_back(*itr);
         for(; itr2 != tsd.end() && itr2->first == itr->first; ++itr2) {
-          (itr->second) += (itr2->second); //accumulate
+          (tsd_.back().second) += (itr2->second); //accumulate
         }
-        tsd_.push_back(std::make_pair(itr->first, itr->second));
         itr = itr2;
       }
       typename boolean_op_45<Unit>::template Scan45<CountMerge, merge_45_output_functor> scanline;
-- 
2.43.0


From b796d930ac68292296148e9637acd7facfdd9973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:48 +0000
Subject: [PATCH 18/29] fix: connectivity extraction with no edges read an
 empty vector

---
 include/boost/polygon/detail/scan_arbitrary.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/boost/polygon/detail/scan_arbitrary.hpp b/include/boost/polygon/detail/scan_arbitrary.hpp
index 86f7778..0b50dea 100644
--- a/include/boost/polygon/detail/scan_arbitrary.hpp
+++ b/include/boost/polygon/detail/scan_arbitrary.hpp
@@ -118,6 +118,7 @@ namespace boost { namespace polygon{
     template <typename iT>
     static inline void validate_scan_divide_and_conquer(std::vector<std::set<Point> >& intersection_points,
                                                         iT begin, iT end) {
+      if(begin == end) return;
       std::vector<std::pair<Unit, std::pair<std::size_t, std::size_t> > > histogram;
       compute_histogram_in_y(begin, end, std::distance(begin, end), histogram);
       std::vector<Unit> y_cuts;
-- 
2.43.0


From fc0d03ff83d416057e80a5987afb06fbb01dc2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:19 +0000
Subject: [PATCH 19/29] fix: connectivity extraction read vertical Manhattan
 sets as if they were horizontal

---
 include/boost/polygon/polygon_90_set_data.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/boost/polygon/polygon_90_set_data.hpp b/include/boost/polygon/polygon_90_set_data.hpp
index d02b9eb..01950d2 100644
--- a/include/boost/polygon/polygon_90_set_data.hpp
+++ b/include/boost/polygon/polygon_90_set_data.hpp
@@ -967,6 +967,12 @@ namespace boost { namespace polygon{
 
     //insert a polygon set graph node, the value returned is the id of the graph node
     inline unsigned int insert(const polygon_90_set_data<coordinate_type>& ps) {
+      //nodes are compared with each other, so all have to be in the same orientation
+      if(ps.orient() != HORIZONTAL) {
+        polygon_90_set_data<coordinate_type> horizontal(HORIZONTAL);
+        horizontal.insert(ps);
+        return insert(horizontal);
+      }
       ps.clean();
       touch_90_operation<coordinate_type>::populateTouchSetData(tsd_, ps.begin(), ps.end(), nodeCount_);
       return nodeCount_++;
-- 
2.43.0


From 1ed27188142dfe5239416a3fdeeb3f2fb74b6662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:59 +0000
Subject: [PATCH 20/29] fix: a failed 45-degree property merge or connectivity
 extraction lost inserted geometry

---
 include/boost/polygon/detail/polygon_45_touch.hpp  | 4 +++-
 include/boost/polygon/detail/property_merge_45.hpp | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/boost/polygon/detail/polygon_45_touch.hpp b/include/boost/polygon/detail/polygon_45_touch.hpp
index 2725ede..4739c50 100644
--- a/include/boost/polygon/detail/polygon_45_touch.hpp
+++ b/include/boost/polygon/detail/polygon_45_touch.hpp
@@ -186,8 +186,10 @@ namespace boost { namespace polygon{
 //     }
 
     template <typename graph_type>
-    static void performTouch(graph_type& graph, TouchSetData& tsd) {
+    static void performTouch(graph_type& graph, const TouchSetData& input) {
 
+      //sorting copies elements, so a failing allocation may lose some: sort a copy
+      TouchSetData tsd(input);
       polygon_sort(tsd.begin(), tsd.end(), lessVertex45Compact());
       typedef std::vector<std::pair<Point, typename boolean_op_45<Unit>::template Scan45CountT<CountTouch> > > TSD;
       TSD tsd_;
diff --git a/include/boost/polygon/detail/property_merge_45.hpp b/include/boost/polygon/detail/property_merge_45.hpp
index 1a192b8..0d0ec26 100644
--- a/include/boost/polygon/detail/property_merge_45.hpp
+++ b/include/boost/polygon/detail/property_merge_45.hpp
@@ -109,8 +109,10 @@ namespace boost { namespace polygon{
     };
 
     template <typename output_type>
-    static void performMerge(output_type& result, MergeSetData& tsd) {
+    static void performMerge(output_type& result, const MergeSetData& input) {
 
+      //sorting copies elements, so a failing allocation may lose some: sort a copy
+      MergeSetData tsd(input);
       polygon_sort(tsd.begin(), tsd.end(), lessVertex45Compact());
       typedef std::vector<std::pair<Point, typename boolean_op_45<Unit>::template Scan45CountT<CountMerge> > > TSD;
       TSD tsd_;
-- 
2.43.0


From 0d0d54a605037c7096c879a45e6381d8a846acb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:36 +0000
Subject: [PATCH 21/29] fix: trapezoid formation closed a slab at the wrong
 edge below zero

An edge's ordinate at the sweep line was truncated towards zero before it
was compared with the next event, so an edge passing a fraction of a unit
below an event with a negative ordinate was skipped and whole trapezoids
were lost.
---
 include/boost/polygon/detail/polygon_arbitrary_formation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/polygon/detail/polygon_arbitrary_formation.hpp b/include/boost/polygon/detail/polygon_arbitrary_formation.hpp
index 5cc387c..82d2597 100644
--- a/include/boost/polygon/detail/polygon_arbitrary_formation.hpp
+++ b/include/boost/polygon/detail/polygon_arbitrary_formation.hpp
@@ -2698,7 +2698,7 @@ namespace boost { namespace polygon{
         verticalTail = result.second;
         if(verticalPair.first != 0 && iter != polygon_arbitrary_formation<Unit>::scanData_.end() &&
            (currentIter == inputEnd || currentIter->pt.x() != polygon_arbitrary_formation<Unit>::x_ ||
-            currentIter->pt.y() > (*iter).first.evalAtX(polygon_arbitrary_formation<Unit>::x_))) {
+            scanline_base<Unit>::on_above_or_below(currentIter->pt, half_edge((*iter).first.pt, (*iter).first.other_pt)) == 1)) {
           //splice vertical pair into edge above
           active_tail_arbitrary* tailabove = (*iter).second;
           Point point(polygon_arbitrary_formation<Unit>::x_,
-- 
2.43.0


From 632805b21b87dc2078361e4d24e39879533c05d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:46 +0000
Subject: [PATCH 22/29] fix: 45-degree merge added one label set's rounding
 corrections to the next

property_merge_45::merge() never cleared the lists of error rectangles
between label sets.
---
 include/boost/polygon/polygon_45_set_data.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/boost/polygon/polygon_45_set_data.hpp b/include/boost/polygon/polygon_45_set_data.hpp
index d3b4aa8..553a3e6 100644
--- a/include/boost/polygon/polygon_45_set_data.hpp
+++ b/include/boost/polygon/polygon_45_set_data.hpp
@@ -1845,6 +1845,8 @@ namespace boost { namespace polygon{
       for(typename std::map<keytype, polygon_45_set_data<big_coord> >::iterator itr = result_big.begin();
           itr != result_big.end(); ++itr) {
         polys.clear();
+        pos_error_rects.clear();
+        neg_error_rects.clear();
         (*itr).second.get(polys);
         for(std::size_t i = 0; i < polys.size(); ++i) {
           get_error_rects(pos_error_rects, neg_error_rects, polys[i]);
-- 
2.43.0


From 6d23e62818dfec39a0163a1d3a61921cfa78d080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:00 +0000
Subject: [PATCH 23/29] fix: memory exhaustion while catching the 45-degree
 precision exception ended the process

The handlers caught the std::string by value; copying it may throw, which
calls std::terminate. Catch by reference and rethrow the original.
---
 include/boost/polygon/polygon_45_set_data.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/boost/polygon/polygon_45_set_data.hpp b/include/boost/polygon/polygon_45_set_data.hpp
index 553a3e6..56965f0 100644
--- a/include/boost/polygon/polygon_45_set_data.hpp
+++ b/include/boost/polygon/polygon_45_set_data.hpp
@@ -1602,7 +1602,7 @@ namespace boost { namespace polygon{
       rvalue.sort();
       try {
         result.is_manhattan_ = applyBoolean45OpOnVectors<Unit, op>(result.data_, data_, rvalue.data_);
-      } catch (std::string str) {
+      } catch (const std::string& str) {
         std::string msg = "GTL 45 Boolean error, precision insufficient to represent edge intersection coordinate value.";
         if(str == msg) {
           result.clear();
@@ -1681,7 +1681,7 @@ namespace boost { namespace polygon{
           result.is_manhattan_ = result_is_manhattan;
           result.dirty_ = false;
           result.unsorted_ = false;
-        } else { throw str; }
+        } else { throw; }
       }
       //std::cout << "DONE SCANNING\n";
     }
@@ -1724,7 +1724,7 @@ namespace boost { namespace polygon{
       sort();
       try {
         result.is_manhattan_ = applyUnary45OpOnVectors<Unit, op>(result.data_, data_);
-      } catch (std::string str) {
+      } catch (const std::string& str) {
         std::string msg = "GTL 45 Boolean error, precision insufficient to represent edge intersection coordinate value.";
         if(str == msg) {
           result.clear();
@@ -1793,7 +1793,7 @@ namespace boost { namespace polygon{
           result.is_manhattan_ = result_is_manhattan;
           result.dirty_ = false;
           result.unsorted_ = false;
-        } else { throw str; }
+        } else { throw; }
       }
       //std::cout << "DONE SCANNING\n";
     }
-- 
2.43.0


From 41e0e55be5731718c2d1d33021027c270c31c358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:14 +0000
Subject: [PATCH 24/29] fix: extracting connectivity keeps the inserted
 geometry as it was

connectivity_extraction::extract replaced the inserted edges by their
intersected, rounded pieces. A region inserted afterwards that touches
such an edge in one point was no longer linked, although the same
insertions without the earlier extraction link it.
---
 include/boost/polygon/detail/scan_arbitrary.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/boost/polygon/detail/scan_arbitrary.hpp b/include/boost/polygon/detail/scan_arbitrary.hpp
index 0b50dea..f747cd9 100644
--- a/include/boost/polygon/detail/scan_arbitrary.hpp
+++ b/include/boost/polygon/detail/scan_arbitrary.hpp
@@ -2813,9 +2813,9 @@ pts.push_back(Point(12344171, 6695983 )); pts.push_back(Point(12287208, 6672388
       }
     };
 
-    inline void sort_property_merge_data() {
+    inline void sort_property_merge_data(property_merge_data& data) {
       less_vertex_data<vertex_property> lvd(&evalAtXforYPack_);
-      polygon_sort(pmd.begin(), pmd.end(), lvd);
+      polygon_sort(data.begin(), data.end(), lvd);
     }
   public:
     inline arbitrary_connectivity_extraction() : pmd(), evalAtXforYPack_() {}
@@ -2826,11 +2826,11 @@ pts.push_back(Point(12344171, 6695983 )); pts.push_back(Point(12287208, 6672388
 
     template <typename result_type>
     inline void execute(result_type& result) {
-      //intersect data
+      //intersect data, the inserted edges are kept as they are because intersecting
+      //rounds them and more geometry may be inserted before the next extraction
       property_merge_data tmp_pmd;
       line_intersection<Unit>::validate_scan(tmp_pmd, pmd.begin(), pmd.end());
-      pmd.swap(tmp_pmd);
-      sort_property_merge_data();
+      sort_property_merge_data(tmp_pmd);
       scanline<Unit, property_type, std::vector<property_type> > sl;
       std::pair<std::pair<Unit, std::map<point_data<Unit>, std::set<property_type> > >,
         result_type*> output
@@ -2840,7 +2840,7 @@ pts.push_back(Point(12344171, 6695983 )); pts.push_back(Point(12287208, 6672388
       connectivity_extraction_output_functor<std::pair<std::pair<Unit,
         std::map<point_data<Unit>, std::set<property_type> > >, result_type*>,
         std::vector<property_type> > ceof;
-      sl.scan(output, ceof, pmd.begin(), pmd.end());
+      sl.scan(output, ceof, tmp_pmd.begin(), tmp_pmd.end());
       process_previous_x(output);
     }
 
-- 
2.43.0


From 077133a5158f15e4d378479576864c9ffcb9a56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:14 +0000
Subject: [PATCH 25/29] fix: polygon_90_set_data constructors use the given
 scanning orientation

The constructor from an orientation and a range ignored the orientation,
and the copy with an orientation change did not compile: it passed three
arguments to an insert that takes two.
---
 include/boost/polygon/polygon_90_set_data.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/boost/polygon/polygon_90_set_data.hpp b/include/boost/polygon/polygon_90_set_data.hpp
index 01950d2..c1e5f13 100644
--- a/include/boost/polygon/polygon_90_set_data.hpp
+++ b/include/boost/polygon/polygon_90_set_data.hpp
@@ -46,8 +46,8 @@ namespace boost { namespace polygon{
 
     // constructor from an iterator pair over vertex data
     template <typename iT>
-    inline polygon_90_set_data(orientation_2d, iT input_begin, iT input_end) :
-      orient_(HORIZONTAL), data_(), dirty_(false), unsorted_(false) {
+    inline polygon_90_set_data(orientation_2d orient, iT input_begin, iT input_end) :
+      orient_(orient), data_(), dirty_(false), unsorted_(false) {
       dirty_ = true;
       unsorted_ = true;
       for( ; input_begin != input_end; ++input_begin) { insert(*input_begin); }
@@ -63,7 +63,7 @@ namespace boost { namespace polygon{
     // copy with orientation change constructor
     inline polygon_90_set_data(orientation_2d orient, const polygon_90_set_data& that) :
       orient_(orient), data_(), dirty_(false), unsorted_(false) {
-      insert(that, false, that.orient_);
+      insert(that);
     }
 
     // destructor
-- 
2.43.0


From 75f976b5c0279527a95e00ff6649d002dac95258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:52 +0000
Subject: [PATCH 26/29] fix: polygon_set_data::scale takes the documented
 single argument and compiles

---
 include/boost/polygon/polygon_set_data.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/boost/polygon/polygon_set_data.hpp b/include/boost/polygon/polygon_set_data.hpp
index b3b6136..15f88f1 100644
--- a/include/boost/polygon/polygon_set_data.hpp
+++ b/include/boost/polygon/polygon_set_data.hpp
@@ -405,9 +405,8 @@ namespace boost { namespace polygon {
     }
 
     template <typename scaling_type>
-    inline polygon_set_data& scale(polygon_set_data&,
-                                   const scaling_type& scaling) {
-      for(typename value_type::iterator itr = begin(); itr != end(); ++itr) {
+    inline polygon_set_data& scale(const scaling_type& scaling) {
+      for(typename value_type::iterator itr = data_.begin(); itr != data_.end(); ++itr) {
         bool vb = (*itr).first.first.x() == (*itr).first.second.x();
         ::boost::polygon::scale((*itr).first.first, scaling);
         ::boost::polygon::scale((*itr).first.second, scaling);
-- 
2.43.0


From d8800867f83eeea6e52a3c0b0d03546ba58d0bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:52 +0000
Subject: [PATCH 27/29] fix: anisotropic_scale_factor scales y by the vertical
 factor

---
 include/boost/polygon/transform.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/polygon/transform.hpp b/include/boost/polygon/transform.hpp
index 1bb0cd9..195393b 100644
--- a/include/boost/polygon/transform.hpp
+++ b/include/boost/polygon/transform.hpp
@@ -329,7 +329,7 @@ class anisotropic_scale_factor {
     x = scaling_policy<coordinate_type>::round(
         (scale_factor_type)x * get(HORIZONTAL));
     y = scaling_policy<coordinate_type>::round(
-        (scale_factor_type)y * get(HORIZONTAL));
+        (scale_factor_type)y * get(VERTICAL));
   }
 
   // invert this scale factor to give the reverse scale factor
-- 
2.43.0


From 52206edec4eda5e1a52a6507abec23095febd808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:52 +0000
Subject: [PATCH 28/29] fix: scaling a polygon_90_set_data marks it for
 cleaning

---
 include/boost/polygon/polygon_90_set_data.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/boost/polygon/polygon_90_set_data.hpp b/include/boost/polygon/polygon_90_set_data.hpp
index c1e5f13..8df6c02 100644
--- a/include/boost/polygon/polygon_90_set_data.hpp
+++ b/include/boost/polygon/polygon_90_set_data.hpp
@@ -730,6 +730,7 @@ namespace boost { namespace polygon{
         (*itr).second.first = scaling_policy<coordinate_type>::round((dt)((*itr).second.first) / (dt)factor);
       }
       unsorted_ = true; //scaling down can make coordinates equal that were not previously equal
+      dirty_ = true;
       return *this;
     }
     template <typename scaling_type>
@@ -742,7 +743,8 @@ namespace boost { namespace polygon{
           scaling.scale((*itr).second.first, (*itr).first);
         }
       }
-      unsorted_ = true;
+      unsorted_ = true; //scaling can make coordinates equal that were not previously equal
+      dirty_ = true;
       return *this;
     }
     template <typename scaling_type>
@@ -755,7 +757,8 @@ namespace boost { namespace polygon{
           scaling.scale((*itr).second.first, (*itr).first);
         }
       }
-      unsorted_ = true;
+      unsorted_ = true; //scaling can make coordinates equal that were not previously equal
+      dirty_ = true;
       return *this;
     }
     polygon_90_set_data& scale(double factor) {
@@ -766,6 +769,7 @@ namespace boost { namespace polygon{
         (*itr).second.first = scaling_policy<coordinate_type>::round((dt)((*itr).second.first) * (dt)factor);
       }
       unsorted_ = true; //scaling make coordinates equal that were not previously equal
+      dirty_ = true;
       return *this;
     }
 
-- 
2.43.0


From 05376b54807643808db7f3b9bbb1f0813b512102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:23 +0000
Subject: [PATCH 29/29] fix: redundant vertices of Manhattan polygons put
 unbalanced edges into sets

---
 .../polygon/detail/iterator_geometry_to_set.hpp  | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/include/boost/polygon/detail/iterator_geometry_to_set.hpp b/include/boost/polygon/detail/iterator_geometry_to_set.hpp
index 6ad371b..a79a74b 100644
--- a/include/boost/polygon/detail/iterator_geometry_to_set.hpp
+++ b/include/boost/polygon/detail/iterator_geometry_to_set.hpp
@@ -182,15 +182,13 @@ public:
   inline void evaluate_() {
     vertex_.first = pts[1].get(orient_.get_perpendicular());
     vertex_.second.first =pts[1].get(orient_);
-    if(pts[1] == pts[2]) {
-      vertex_.second.second = 0;
-    } else if(pts[0].get(HORIZONTAL) != pts[1].get(HORIZONTAL)) {
-      vertex_.second.second = -1;
-    } else if(pts[0].get(VERTICAL) != pts[1].get(VERTICAL)) {
-      vertex_.second.second = 1;
-    } else {
-      vertex_.second.second = 0;
-    }
+    //an edge starts with one sign and ends with the other, so that collinear
+    //and repeated vertices contribute nothing
+    vertex_.second.second = 0;
+    if(pts[1].get(orient_) != pts[2].get(orient_))
+      vertex_.second.second += orient_ == HORIZONTAL ? 1 : -1;
+    if(pts[0].get(orient_) != pts[1].get(orient_))
+      vertex_.second.second += orient_ == HORIZONTAL ? -1 : 1;
     vertex_.second.second *= multiplier_;
   }
 };
-- 
2.43.0

