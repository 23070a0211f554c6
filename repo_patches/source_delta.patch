From 8ad3fbdeaac2cb15fe096ee567dcb0673ecafb6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:26 +0000
Subject: [PATCH 1/7] fix: do not treat cells of the next row as neighbors in
 QuadratureMultipleElements

---
 queso/quadrature/multiple_elements.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/queso/quadrature/multiple_elements.hpp b/queso/quadrature/multiple_elements.hpp
index aa38a2f..c8de661 100644
--- a/queso/quadrature/multiple_elements.hpp
+++ b/queso/quadrature/multiple_elements.hpp
@@ -306,7 +306,9 @@ private:
     /// @return ElementType*
 	/// TODO: Remove this function.
     static ElementType* pNextElement(BackgroundGridType& rElements, IndexType CurrentId, Direction Dir ) {
-        return rElements.template GetNextElement<BackgroundGridType::ElementFilter::untrimmed>(CurrentId, Dir).p_element;
+        const auto result = rElements.template GetNextElement<BackgroundGridType::ElementFilter::untrimmed>(CurrentId, Dir);
+        // At the end of a row/column, the next element is located in another row/column, and thus is not a neighbor.
+        return result.is_end ? nullptr : result.p_element;
     }
 
     /// @brief Helper function to compute the neighbor coefficient using a linear function.
-- 
2.43.0


From 886f74c61e5be6787f43efeefafd2b4cece136d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:08 +0000
Subject: [PATCH 2/7] fix: report duplicate element ids with an exception
 instead of terminating

---
 queso/containers/background_grid.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/queso/containers/background_grid.hpp b/queso/containers/background_grid.hpp
index ad66735..1cc0ca2 100644
--- a/queso/containers/background_grid.hpp
+++ b/queso/containers/background_grid.hpp
@@ -327,9 +327,11 @@ public:
         QuESo_ASSERT(!mElementsLocked, "Cannot add elements after LockElements() was called.");
         auto result = rBuilder.Build(Id, rBounds);
         if (!result) return false;
+        bool id_exists = false;
 #pragma omp critical
-        {
-            QuESo_ERROR_IF(mElementIdMap.contains(Id)) << "Element ID '" << Id << "' already exists.\n";
+        if (mElementIdMap.contains(Id)) {
+            id_exists = true; // Exceptions must not leave the critical section.
+        } else {
             const auto location = [&]() {
                 if constexpr (TBuilderType::Builds == ElementFilter::trimmed) {
                     const IndexType index = mTrimmedElements.size();
@@ -348,6 +350,7 @@ public:
             }();
             mElementIdMap.emplace(Id, location);
         }
+        QuESo_ERROR_IF(id_exists) << "Element ID '" << Id << "' already exists.\n";
         return true;
     }
 
-- 
2.43.0


From 9c8929d33e20ed63533ce400499c56351479c118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:16 +0000
Subject: [PATCH 3/7] fix: do not erase past the end in point elimination if
 there are few points

---
 queso/quadrature/trimmed_element.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/queso/quadrature/trimmed_element.hpp b/queso/quadrature/trimmed_element.hpp
index 3a4ff4c..1ce6ed0 100644
--- a/queso/quadrature/trimmed_element.hpp
+++ b/queso/quadrature/trimmed_element.hpp
@@ -424,10 +424,12 @@ protected:
                     }
                 );
                 // Only keep #number_of_functions integration points.
-                rIntegrationPoint.erase(
-                    rIntegrationPoint.begin() + static_cast<std::ptrdiff_t>(number_of_functions),
-                    rIntegrationPoint.end()
-                );
+                if (rIntegrationPoint.size() > number_of_functions) {
+                    rIntegrationPoint.erase(
+                        rIntegrationPoint.begin() + static_cast<std::ptrdiff_t>(number_of_functions),
+                        rIntegrationPoint.end()
+                    );
+                }
 
                 // Additionally remove all points that are zero.
                 rIntegrationPoint.erase(
-- 
2.43.0


From 6db5c259a56786cb75c50ded9aaf5f78604ab4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:33 +0000
Subject: [PATCH 4/7] fix: do not evaluate hit parameters of triangles parallel
 to the ray

---
 queso/embedding/geometry_query.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/queso/embedding/geometry_query.cpp b/queso/embedding/geometry_query.cpp
index bddc9a0..0a62f25 100644
--- a/queso/embedding/geometry_query.cpp
+++ b/queso/embedding/geometry_query.cpp
@@ -119,6 +119,10 @@ namespace queso {
             // Test for actual intersection, if area is area is not zero.
             if( TriangleUtilities::Area(tri) > 100.0*ZEROTOL
                     && rRay.intersect(tri.P1, tri.P2, tri.P3, t, u, v, back_facing, parallel) ) {
+                if( parallel ){ // Triangle is parallel to ray: t, u and v are not defined.
+                    final_result = std::make_pair(false, false);
+                    return TriangleMeshView::VisitToken::stop_loop;
+                }
                 intersection_count++;
                 const double sum_u_v = u+v;
                 if( t < ZEROTOL ){ // Origin lies on boundary
@@ -130,10 +134,6 @@ namespace queso {
                     final_result = std::make_pair(false, false);
                     return TriangleMeshView::VisitToken::stop_loop;
                 }
-                if( parallel ){ // Triangle is parallel to ray.
-                    final_result = std::make_pair(false, false);
-                    return TriangleMeshView::VisitToken::stop_loop;
-                }
             }
             return TriangleMeshView::VisitToken::continue_loop;
         });
-- 
2.43.0


From 1364f97426b6d8c2972191c57dbcec9b7ad20ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:27 +0000
Subject: [PATCH 5/7] fix: let one thread read the number of threads for the
 flood fill

---
 queso/embedding/flood_fill.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/queso/embedding/flood_fill.cpp b/queso/embedding/flood_fill.cpp
index 8f72f86..ee96ae9 100644
--- a/queso/embedding/flood_fill.cpp
+++ b/queso/embedding/flood_fill.cpp
@@ -68,6 +68,7 @@ Unique<StatusVectorType> FloodFill::ClassifyElements(GroupSetVectorType& rGroups
     std::vector<PartitionBoxType> partitions;
     IndexType num_threads = 1;
     #pragma omp parallel
+    #pragma omp single
     {
         num_threads = static_cast<IndexType>(omp_get_num_threads());
     }
-- 
2.43.0


From 2c86b99b9569ede5a452ea4c686cf7d6b4354a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:55 +0000
Subject: [PATCH 6/7] fix: JsonIO reads settings files with an empty list

The settings written by JsonIO.write_settings contain 'conditions_settings_list : []'
when there are no conditions; reading them back raised an IndexError.
---
 queso/python/scripts/json_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/queso/python/scripts/json_io.py b/queso/python/scripts/json_io.py
index 05dd0e3..c2dc68d 100644
--- a/queso/python/scripts/json_io.py
+++ b/queso/python/scripts/json_io.py
@@ -78,7 +78,7 @@ class JsonIO():
             value (list): The list of values from JSON.
             queso_settings (QuESo.Dictionary): The settings object to modify.
         """
-        if( isinstance(value[0], dict) ):
+        if( len(value) == 0 or isinstance(value[0], dict) ):
             queso_list = queso_settings.GetList(string_key) # Just called to check key, and throw an error if necessary.
             cls._read_conditions_settings_list(value, queso_list)
         else:
-- 
2.43.0


From f912dd1ce3196c920a454e5ab30975f93d17c640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:55 +0000
Subject: [PATCH 7/7] fix: PyQuESo refuses an output directory that is the
 working directory or a parent of it

With an 'output_directory_name' like '', '.' or '..' the constructor removed the
whole working directory (or one of its parents) with shutil.rmtree.
---
 queso/python/PyQuESo.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/queso/python/PyQuESo.py b/queso/python/PyQuESo.py
index 2b1c58e..56e6a7f 100644
--- a/queso/python/PyQuESo.py
+++ b/queso/python/PyQuESo.py
@@ -23,6 +23,11 @@ class PyQuESo:
         output_directory_name = settings["general_settings"].GetString("output_directory_name")
         if write_output_to_file:
             folder_path = "./" + output_directory_name + '/'
+            # The existing folder is removed: never remove the working directory or one of its parents.
+            working_directory, absolute_path = os.path.realpath(os.getcwd()), os.path.realpath(folder_path)
+            if os.path.commonpath([working_directory, absolute_path]) == absolute_path:
+                raise Exception(f"PyQuESo :: Given 'output_directory_name': '{output_directory_name}' is not a folder "
+                                "below or besides the working directory.")
             if os.path.exists(folder_path):
                 shutil.rmtree(folder_path)
             os.mkdir(folder_path)
-- 
2.43.0

