From 53e1ef4163c5353bc46cd67832b74ed1b03329ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:27 +0000
Subject: [PATCH 01/18] fix: report changes made by a CSP pass, so that solving
 reaches the fixpoint

csp_solution_iteration ignored the result of csp_process_pixel and always
reported that nothing changed, hence solve_csp stopped after the first pass
and inconsistent nodes stayed available.
---
 lib/constraint_graph.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/constraint_graph.cpp b/lib/constraint_graph.cpp
index bf868bf..5e03d5c 100644
--- a/lib/constraint_graph.cpp
+++ b/lib/constraint_graph.cpp
@@ -315,7 +315,10 @@ __device__ BOOL csp_solution_iteration(
             ++node.pixel.x
         )
         {
-            csp_process_pixel(graph, node.pixel);
+            if (csp_process_pixel(graph, node.pixel))
+            {
+                changed = TRUE;
+            }
             pixel_available = FALSE;
             for (
                 node.disparity = 0;
-- 
2.43.0


From fc6cc56566dba5a4ed92f7c9e486ee42fd91fee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:39 +0000
Subject: [PATCH 02/18] fix: store node availability in separate memory
 locations

Elements of std::vector<bool> share bytes, hence threads of the OpenMP build
that mark different nodes at the same time lost updates of each other.
---
 include/types.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/types.hpp b/include/types.hpp
index c3952d8..925208e 100644
--- a/include/types.hpp
+++ b/include/types.hpp
@@ -78,8 +78,12 @@ using BOOL = bool;
 /**
  * \brief Boolean array type alias
  * to use the same name on CPU and GPU.
+ *
+ * Threads update different elements of one array at the same time,
+ * so each element should be a separate memory location,
+ * which is not the case for the bit-packed `std::vector<bool>`.
  */
-using BOOL_ARRAY = std::vector<BOOL>;
+using BOOL_ARRAY = std::vector<unsigned char>;
 
 const BOOL TRUE = true;
 const BOOL FALSE = false;
-- 
2.43.0


From 26a0b2b2632a85908cc7cbf8502beffc611e3b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:45 +0000
Subject: [PATCH 03/18] fix: choose the best node when penalties are negative

The -1 sentinel was mistaken for a missing penalty, when reparametrization
makes penalties of nodes negative, so the cheapest node was lost.
---
 lib/labeling_finder.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/labeling_finder.cpp b/lib/labeling_finder.cpp
index eb25e4f..7803ccb 100644
--- a/lib/labeling_finder.cpp
+++ b/lib/labeling_finder.cpp
@@ -265,7 +265,8 @@ __device__ struct ConstraintGraph* choose_best_node(
     struct Node node;
     node.pixel = pixel;
     node.disparity = 0;
-    FLOAT minimal_penalty = -1;
+    FLOAT minimal_penalty = 0;
+    bool penalty_found = false;
     for (
         node.disparity = 0;
         node.pixel.x + node.disparity < graph->disparity_graph->left.width
@@ -278,9 +279,10 @@ __device__ struct ConstraintGraph* choose_best_node(
             continue;
         }
 
-        if (minimal_penalty < 0)
+        if (!penalty_found)
         {
             minimal_penalty = node_penalty(graph->disparity_graph, node);
+            penalty_found = true;
         }
         else {
             minimal_penalty = MIN(
-- 
2.43.0


From 0bd16ee56c03b0f0944db6e82a15afac3475a335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:52 +0000
Subject: [PATCH 04/18] fix: take exactly the existing edges into account in
 neighborhoods

The range of disparities of the right neighbor was used for the left one too,
so some edges to the left neighbor were missed and non-existing ones were
counted, which gave wrong lowest penalties and thresholds.
---
 lib/labeling_finder.cpp  | 7 ++++++-
 lib/lowest_penalties.cpp | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/lib/labeling_finder.cpp b/lib/labeling_finder.cpp
index 7803ccb..4e9f601 100644
--- a/lib/labeling_finder.cpp
+++ b/lib/labeling_finder.cpp
@@ -46,6 +46,7 @@ namespace finder
 {
 
 using sp::graph::disparity::NEIGHBORS_COUNT;
+using sp::indexing::checks::edge_exists;
 using sp::indexing::checks::neighborhood_exists_fast;
 using sp::indexing::neighbor_by_index;
 using sp::indexing::pixel_index;
@@ -116,7 +117,7 @@ __device__ FLOAT_ARRAY fetch_edge_available_penalties(
     {
         if (
             edge.node.disparity <= 1
-            || edge.neighbor.pixel.x == edge.node.pixel.x
+            || edge.neighbor.pixel.x <= edge.node.pixel.x
         )
         {
             initial_disparity = 0;
@@ -132,6 +133,10 @@ __device__ FLOAT_ARRAY fetch_edge_available_penalties(
             ++edge.neighbor.disparity
         )
         {
+            if (!edge_exists(graph, edge))
+            {
+                continue;
+            }
             result.push_back(edge_penalty(graph, edge) - minimal_penalty);
         }
     }
diff --git a/lib/lowest_penalties.cpp b/lib/lowest_penalties.cpp
index 8b3649b..54df3dd 100644
--- a/lib/lowest_penalties.cpp
+++ b/lib/lowest_penalties.cpp
@@ -33,6 +33,7 @@ namespace lowest_penalties
 {
 
 using sp::graph::disparity::NEIGHBORS_COUNT;
+using sp::indexing::checks::edge_exists;
 using sp::indexing::checks::neighborhood_exists_fast;
 using sp::indexing::neighbor_by_index;
 using sp::indexing::neighborhood_index;
@@ -154,7 +155,7 @@ __device__ FLOAT calculate_lowest_neighborhood_penalty_fast(
     {
         if (
             edge.node.disparity <= 1
-            || edge.neighbor.pixel.x == edge.node.pixel.x
+            || edge.neighbor.pixel.x <= edge.node.pixel.x
         )
         {
             initial_disparity = 0;
@@ -170,6 +171,10 @@ __device__ FLOAT calculate_lowest_neighborhood_penalty_fast(
             ++edge.neighbor.disparity
         )
         {
+            if (!edge_exists(graph, edge))
+            {
+                continue;
+            }
             minimal_penalty = MIN(
                 edge_penalty(graph, edge),
                 minimal_penalty
-- 
2.43.0


From 442451c95ba18c604c14762515434c2370e76916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:43 +0000
Subject: [PATCH 05/18] fix: try the next best node when the best one cannot be
 kept

A node of a consistent graph is not always a part of some labeling.
When the best node of a pixel is not, find_labeling failed with
'Cannot find labeling' for problems which do have labelings.
---
 lib/labeling_finder.cpp | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/lib/labeling_finder.cpp b/lib/labeling_finder.cpp
index 4e9f601..0ed2b4d 100644
--- a/lib/labeling_finder.cpp
+++ b/lib/labeling_finder.cpp
@@ -51,6 +51,7 @@ using sp::indexing::checks::neighborhood_exists_fast;
 using sp::indexing::neighbor_by_index;
 using sp::indexing::pixel_index;
 using sp::types::BOOL;
+using sp::types::BOOL_ARRAY;
 using sp::types::Node;
 using sp::types::ULONG;
 using sp::types::ULONG_ARRAY;
@@ -361,13 +362,25 @@ __device__ struct ConstraintGraph* find_labeling(
     {
         for (ULONG y = 0; y < graph->disparity_graph->left.height; ++y)
         {
-            if (choose_best_node(graph, {x, y}) == nullptr)
+            while (true)
             {
-                return nullptr;
-            }
-            if (!solve_csp(graph))
-            {
-                return nullptr;
+                const BOOL_ARRAY nodes_availability
+                    = graph->nodes_availability;
+                if (choose_best_node(graph, {x, y}) == nullptr)
+                {
+                    return nullptr;
+                }
+                struct Node node{{x, y}, 0};
+                while (!is_node_available(graph, node))
+                {
+                    ++node.disparity;
+                }
+                if (solve_csp(graph))
+                {
+                    break;
+                }
+                graph->nodes_availability = nodes_availability;
+                make_node_unavailable(graph, node);
             }
         }
     }
-- 
2.43.0


From 2e4b22839d5525e99e0ee9b28253a5c4de110447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:30 +0000
Subject: [PATCH 06/18] fix: fail the stream on numbers out of range in a PGM
 image

std::out_of_range of std::stoul escaped from the stream operator.
---
 lib/pgm_io.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/lib/pgm_io.cpp b/lib/pgm_io.cpp
index a833bd5..3d82033 100644
--- a/lib/pgm_io.cpp
+++ b/lib/pgm_io.cpp
@@ -44,6 +44,7 @@ using std::isspace;
 using std::make_shared;
 using std::move;
 using std::numeric_limits;
+using std::out_of_range;
 using std::stoul;
 using std::streamsize;
 using std::string;
@@ -166,6 +167,11 @@ istream& operator>>(istream& in, PGM_IO& ppm_io)
         in.setstate(ios_base::failbit);
         return in;
     }
+    catch (out_of_range&)
+    {
+        in.setstate(ios_base::failbit);
+        return in;
+    }
 
     if (image->max_value > PGM_IO::MAX_VALUE_LIMIT)
     {
@@ -188,6 +194,11 @@ istream& operator>>(istream& in, PGM_IO& ppm_io)
                 in.setstate(ios_base::failbit);
                 return in;
             }
+            catch (out_of_range&)
+            {
+                in.setstate(ios_base::failbit);
+                return in;
+            }
         }
     }
 
-- 
2.43.0


From df59b6330cec21ea50ff93030b2f0f766b56ce0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:32 +0000
Subject: [PATCH 07/18] fix: reject PGM images with impossible sizes

The product of width and height overflowed, so the buffer was smaller
than the image and intensities were written out of its bounds,
or std::length_error escaped from the stream operator.
---
 lib/pgm_io.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/pgm_io.cpp b/lib/pgm_io.cpp
index 3d82033..281a36b 100644
--- a/lib/pgm_io.cpp
+++ b/lib/pgm_io.cpp
@@ -178,6 +178,14 @@ istream& operator>>(istream& in, PGM_IO& ppm_io)
         in.setstate(ios_base::failbit);
         return in;
     }
+    if (
+        image->width > 0
+        && image->height > image->data.max_size() / image->width
+    )
+    {
+        in.setstate(ios_base::failbit);
+        return in;
+    }
     image->data.resize(image->width * image->height);
 
     for (ULONG y = 0; y < image->height; ++y)
-- 
2.43.0


From bc552d1292f044d597d7045dc7c91177a65585d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:34 +0000
Subject: [PATCH 08/18] fix: keep the held image when the text after the
 intensities is wrong

The image was replaced even though the stream failed
because of redundant data or a reading error.
---
 lib/pgm_io.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/pgm_io.cpp b/lib/pgm_io.cpp
index 281a36b..f1dc08c 100644
--- a/lib/pgm_io.cpp
+++ b/lib/pgm_io.cpp
@@ -211,6 +211,10 @@ istream& operator>>(istream& in, PGM_IO& ppm_io)
     }
 
     PGM_IO::check_file_end(in);
+    if (in.fail())
+    {
+        return in;
+    }
 
     ppm_io.set_image(image);
 
-- 
2.43.0


From 8701ed2dad32a7ec3f1019137944f11c025d97b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:15 +0000
Subject: [PATCH 09/18] fix: report a failure to write the disparity map

The state of the output stream was never checked, so the program ended
silently and successfully when the output could not be opened or written.
---
 lib/main.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/main.cpp b/lib/main.cpp
index 583277d..77584a5 100644
--- a/lib/main.cpp
+++ b/lib/main.cpp
@@ -240,6 +240,14 @@ int main(int argc, char* argv[]) try
             std::ofstream image_file(vm["output-image"].as<std::string>());
             sp::image::PGM_IO pgm_io{result};
             image_file << pgm_io;
+            image_file.close();
+            if (!image_file)
+            {
+                throw std::runtime_error(
+                    "Unable to write file `"
+                    + vm["output-image"].as<std::string>() + "`."
+                );
+            }
         }
         catch (std::invalid_argument& e)
         {
-- 
2.43.0


From 422cb59064c9df61a7bd0cc3178633a72864eabd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:45 +0000
Subject: [PATCH 10/18] fix: make the OpenCL solution loop independent of the
 work-items schedule

Work-items of a group left the loop after different numbers of barriers,
groups reset the flag of the step of each other, and a late work-item reset
the flag that tells the host that something has been changed.
Leave iterations to the host, which resets the flag before each of them.
---
 lib/gpu_csp.cpp  |  7 ++++---
 lib/solve_csp.cl | 33 ++++-----------------------------
 2 files changed, 8 insertions(+), 32 deletions(-)

diff --git a/lib/gpu_csp.cpp b/lib/gpu_csp.cpp
index 162b818..f98375c 100644
--- a/lib/gpu_csp.cpp
+++ b/lib/gpu_csp.cpp
@@ -69,7 +69,7 @@ BOOL csp_solution_cl(
 
     vector<int> tmp(graph->nodes_availability.begin(), graph->nodes_availability.end());
     compute::vector<int> nodes_availability(tmp, problem->queue);
-    compute::vector<int> changed({0, 0}, problem->queue);
+    compute::vector<int> changed(vector<int>{0}, problem->queue);
 
     kernel csp_iteration = problem->program.create_kernel("csp_iteration");
     csp_iteration.set_args(
@@ -124,6 +124,7 @@ BOOL csp_solution_cl(
 
             do
             {
+                changed[0] = 0;
                 queue.enqueue_1d_range_kernel(
                     csp_iteration,
                     0,
@@ -132,7 +133,7 @@ BOOL csp_solution_cl(
                 );
 
                 queue.finish();
-            } while (changed[1] != 0);
+            } while (changed[0] != 0);
         }
     }
 
@@ -140,7 +141,7 @@ BOOL csp_solution_cl(
         nodes_availability.begin(),
         nodes_availability.end()
     );
-    return changed[1] != 0;
+    return changed[0] != 0;
 }
 
 }
diff --git a/lib/solve_csp.cl b/lib/solve_csp.cl
index 3b8b3c6..02ac0d1 100644
--- a/lib/solve_csp.cl
+++ b/lib/solve_csp.cl
@@ -51,26 +51,6 @@ void populate_structures_gpu(
     constraint_graph->disparity_graph = disparity_graph;
 }
 
-void csp_solution_iteration_gpu(
-    struct ConstraintGraph* constraint_graph,
-    struct Pixel pixel,
-    __global int* changed_step,
-    __global int* changed_any
-)
-{
-    do
-    {
-        *changed_step = 0;
-        barrier(CLK_LOCAL_MEM_FENCE | CLK_GLOBAL_MEM_FENCE);
-        if (csp_process_pixel(constraint_graph, pixel))
-        {
-            *changed_step = 1;
-            *changed_any = 1;
-        }
-        barrier(CLK_LOCAL_MEM_FENCE | CLK_GLOBAL_MEM_FENCE);
-    } while (*changed_step);
-}
-
 __kernel void csp_iteration(
     __global int* nodes_availability,
     __global int* changed,
@@ -113,19 +93,14 @@ __kernel void csp_iteration(
         smoothness
     );
 
-    atomic_and(&changed[0], 0);
-    atomic_and(&changed[1], 0);
-
     struct Pixel pixel;
     pixel.x = thread_id % constraint_graph.disparity_graph->right.width;
     pixel.y = thread_id / constraint_graph.disparity_graph->right.width;
 
-    csp_solution_iteration_gpu(
-        &constraint_graph,
-        pixel,
-        &changed[0],
-        &changed[1]
-    );
+    if (csp_process_pixel(&constraint_graph, pixel))
+    {
+        *changed = 1;
+    }
 }
 
 __kernel void choose_best_node_gpu(
-- 
2.43.0


From 371920ab08110b54ccf174f474e4eb00ba004878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:27 +0000
Subject: [PATCH 11/18] fix: fall back to the CPU when OpenCL chose nodes that
 cannot be kept

A best node which is not a part of any labeling emptied the graph on the
device, and the empty graph was returned as a labeling. Besides, elements of
the graph were overwritten one by one while they were being read from
the device, so a failure in the middle damaged them.
---
 include/gpu_csp.hpp     |  3 +++
 lib/gpu_csp.cpp         | 17 ++++++++++++++---
 lib/labeling_finder.cpp |  5 ++++-
 3 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/include/gpu_csp.hpp b/include/gpu_csp.hpp
index 1427e61..25c6b9a 100644
--- a/include/gpu_csp.hpp
+++ b/include/gpu_csp.hpp
@@ -64,6 +64,9 @@ void prepare_problem(struct ConstraintGraph* graph, struct Problem* problem);
  * and save the nodes availability data
  * (sp::graph::constraint::ConstraintGraph::nodes_availability)
  * into the input sp::graph::constraint::ConstraintGraph.
+ *
+ * If the best nodes are not a part of any labeling,
+ * return `FALSE` and leave the input graph as it was.
  */
 BOOL csp_solution_cl(
     struct ConstraintGraph* graph,
diff --git a/lib/gpu_csp.cpp b/lib/gpu_csp.cpp
index f98375c..54ae84b 100644
--- a/lib/gpu_csp.cpp
+++ b/lib/gpu_csp.cpp
@@ -1,6 +1,7 @@
 #include <compile_cl.hpp>
 #include <gpu_csp.hpp>
 
+#include <algorithm>
 #include <iostream>
 #include <string>
 #include <vector>
@@ -13,8 +14,11 @@ namespace compute = boost::compute;
 using boost::compute::command_queue;
 using boost::compute::kernel;
 using boost::compute::system;
+using sp::types::FALSE;
+using sp::types::TRUE;
 using std::cout;
 using std::endl;
+using std::find;
 using std::string;
 using std::vector;
 
@@ -137,11 +141,18 @@ BOOL csp_solution_cl(
         }
     }
 
-    graph->nodes_availability.assign(
+    compute::copy(
         nodes_availability.begin(),
-        nodes_availability.end()
+        nodes_availability.end(),
+        tmp.begin(),
+        queue
     );
-    return changed[0] != 0;
+    if (find(tmp.begin(), tmp.end(), 1) == tmp.end())
+    {
+        return FALSE;
+    }
+    graph->nodes_availability.assign(tmp.begin(), tmp.end());
+    return TRUE;
 }
 
 }
diff --git a/lib/labeling_finder.cpp b/lib/labeling_finder.cpp
index 0ed2b4d..05dbd9d 100644
--- a/lib/labeling_finder.cpp
+++ b/lib/labeling_finder.cpp
@@ -336,7 +336,10 @@ struct ConstraintGraph* find_labeling_cl(
     struct gpu::Problem problem;
     build_csp_program(&problem);
     prepare_problem(graph, &problem);
-    gpu::csp_solution_cl(graph, &problem);
+    if (!gpu::csp_solution_cl(graph, &problem))
+    {
+        return find_labeling(graph);
+    }
     return graph;
 }
 #endif
-- 
2.43.0


From e4235db84122e16c53bf0d056730372c342d1b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:16 +0000
Subject: [PATCH 12/18] fix: reject PGM numbers with anything but digits

---
 lib/pgm_io.cpp | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/lib/pgm_io.cpp b/lib/pgm_io.cpp
index f1dc08c..755206b 100644
--- a/lib/pgm_io.cpp
+++ b/lib/pgm_io.cpp
@@ -29,11 +29,29 @@
 #include <iostream>
 #include <limits>
 #include <memory>
+#include <stdexcept>
 #include <string>
 
 namespace sp::image
 {
 
+namespace
+{
+
+/**
+ * \brief Convert an instruction consisting of decimal digits only.
+ */
+sp::types::ULONG to_number(const std::string& instruction)
+{
+    if (instruction.find_first_not_of("0123456789") != std::string::npos)
+    {
+        throw std::invalid_argument("Not a number: " + instruction);
+    }
+    return std::stoul(instruction);
+}
+
+}
+
 using sp::indexing::pixel_index;
 using sp::types::ULONG;
 using std::endl;
@@ -45,7 +63,6 @@ using std::make_shared;
 using std::move;
 using std::numeric_limits;
 using std::out_of_range;
-using std::stoul;
 using std::streamsize;
 using std::string;
 
@@ -158,9 +175,9 @@ istream& operator>>(istream& in, PGM_IO& ppm_io)
 
     try
     {
-        image->width = stoul(PGM_IO::read_pgm_instruction(in));
-        image->height = stoul(PGM_IO::read_pgm_instruction(in));
-        image->max_value = stoul(PGM_IO::read_pgm_instruction(in));
+        image->width = to_number(PGM_IO::read_pgm_instruction(in));
+        image->height = to_number(PGM_IO::read_pgm_instruction(in));
+        image->max_value = to_number(PGM_IO::read_pgm_instruction(in));
     }
     catch (invalid_argument&)
     {
@@ -195,7 +212,7 @@ istream& operator>>(istream& in, PGM_IO& ppm_io)
             try
             {
                 image->data[pixel_index(image.get(), {x, y})] =
-                    stoul(PGM_IO::read_pgm_instruction(in));
+                    to_number(PGM_IO::read_pgm_instruction(in));
             }
             catch (invalid_argument&)
             {
-- 
2.43.0


From e219320d328368b70d604004032f1522f1988713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:09 +0000
Subject: [PATCH 13/18] fix: reject PGM images without any pixels

---
 lib/pgm_io.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/pgm_io.cpp b/lib/pgm_io.cpp
index 755206b..eeaabf3 100644
--- a/lib/pgm_io.cpp
+++ b/lib/pgm_io.cpp
@@ -196,8 +196,9 @@ istream& operator>>(istream& in, PGM_IO& ppm_io)
         return in;
     }
     if (
-        image->width > 0
-        && image->height > image->data.max_size() / image->width
+        image->width == 0
+        || image->height == 0
+        || image->height > image->data.max_size() / image->width
     )
     {
         in.setstate(ios_base::failbit);
-- 
2.43.0


From d78ff5c280baf3ded53e8d1288c6afd7532df9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:00 +0000
Subject: [PATCH 14/18] fix: release device buffers when copying data to them
 fails

The copying constructors of boost::compute::vector lose their buffer if
the copy throws. Create the buffer first and copy afterwards; the unused
buffer of the same size goes away.
---
 lib/gpu_csp.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/lib/gpu_csp.cpp b/lib/gpu_csp.cpp
index 54ae84b..93739e6 100644
--- a/lib/gpu_csp.cpp
+++ b/lib/gpu_csp.cpp
@@ -66,14 +66,19 @@ BOOL csp_solution_cl(
 )
 {
     command_queue queue = system::default_queue();
-    compute::vector<int> data(
-        graph->nodes_availability.size(),
+    vector<int> tmp(graph->nodes_availability.begin(), graph->nodes_availability.end());
+    // Constructors that copy data don't release the buffer when copying fails.
+    compute::vector<int> nodes_availability(
+        tmp.size(),
         problem->queue.get_context()
     );
-
-    vector<int> tmp(graph->nodes_availability.begin(), graph->nodes_availability.end());
-    compute::vector<int> nodes_availability(tmp, problem->queue);
-    compute::vector<int> changed(vector<int>{0}, problem->queue);
+    compute::copy(
+        tmp.begin(),
+        tmp.end(),
+        nodes_availability.begin(),
+        problem->queue
+    );
+    compute::vector<int> changed(1, problem->queue.get_context());
 
     kernel csp_iteration = problem->program.create_kernel("csp_iteration");
     csp_iteration.set_args(
-- 
2.43.0


From 971a20323bfcb5d890ccff60c4f3b234329c7d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:09:41 +0000
Subject: [PATCH 15/18] fix: read fractional weights from the command line

Weights were read by std::stoul, so `--smoothness 0.5` meant 0 and
`--cleanness -1` meant 2^64-1 instead of being refused.
---
 lib/main.cpp | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/lib/main.cpp b/lib/main.cpp
index 77584a5..577cafa 100644
--- a/lib/main.cpp
+++ b/lib/main.cpp
@@ -11,6 +11,7 @@
 #include <pgm_io.hpp>
 
 #include <algorithm>
+#include <cmath>
 #include <fstream>
 #include <iostream>
 #include <memory>
@@ -19,6 +20,11 @@
 
 struct sp::image::Image read_image(const std::string& image_path);
 
+/**
+ * \brief Convert a command line argument to a weight.
+ */
+sp::types::FLOAT read_weight(const std::string& argument);
+
 enum Parallelism
 {
     CPU,
@@ -150,14 +156,14 @@ int main(int argc, char* argv[]) try
             sp::types::FLOAT cleanness = 1;
             if (vm.count("cleanness") == 1)
             {
-                cleanness = std::stoul(
+                cleanness = read_weight(
                     vm["cleanness"].as<std::string>()
                 );
             }
             sp::types::FLOAT smoothness = 1;
             if (vm.count("smoothness") == 1)
             {
-                smoothness = std::stoul(
+                smoothness = read_weight(
                     vm["smoothness"].as<std::string>()
                 );
             }
@@ -315,3 +321,15 @@ struct sp::image::Image read_image(const std::string& image_path)
     }
     return *pgm_io.get_image();
 }
+
+sp::types::FLOAT read_weight(const std::string& argument)
+{
+    sp::types::FLOAT weight = std::stod(argument);
+    if (!std::isfinite(weight))
+    {
+        throw std::invalid_argument(
+            "Weight cannot be " + argument + "."
+        );
+    }
+    return weight;
+}
-- 
2.43.0


From 75b288660682eea67ccecdc0b2eabdd23d577359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:12 +0000
Subject: [PATCH 16/18] fix: print help on request and without options

Asking for help was answered with a complaint about missing images.
---
 lib/main.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/main.cpp b/lib/main.cpp
index 577cafa..ed06ab5 100644
--- a/lib/main.cpp
+++ b/lib/main.cpp
@@ -82,6 +82,12 @@ int main(int argc, char* argv[]) try
 
     boost::program_options::notify(vm);
 
+    if (vm.count("help") == 1 || argc == 1)
+    {
+        std::cout << desc;
+        return 0;
+    }
+
     if (
         vm.count("output-image") == 1
         && vm.count("left-image") == 1
-- 
2.43.0


From c8226fd49d180297e3609d9c0e3fcc967e600381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:02:32 +0000
Subject: [PATCH 17/18] fix: write the numbers of an image whatever the
 stream's number format

With hex or oct set, or a locale that groups digits, the text was not that of the image.
---
 lib/pgm_io.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/pgm_io.cpp b/lib/pgm_io.cpp
index eeaabf3..f999f08 100644
--- a/lib/pgm_io.cpp
+++ b/lib/pgm_io.cpp
@@ -65,6 +65,7 @@ using std::numeric_limits;
 using std::out_of_range;
 using std::streamsize;
 using std::string;
+using std::to_string;
 
 PGM_IO::PGM_IO(shared_ptr<struct Image> image) : image{move(image)}
 {
@@ -134,13 +135,13 @@ ostream& operator<<(ostream& out, const PGM_IO& ppm_io)
     }
     shared_ptr<struct Image> image = ppm_io.get_image();
     out << PGM_IO::FORMAT_CODE << endl;
-    out << image->width << " " << image->height << endl;
-    out << image->max_value << endl;
+    out << to_string(image->width) << " " << to_string(image->height) << endl;
+    out << to_string(image->max_value) << endl;
     for (ULONG y = 0; y < image->height; ++y)
     {
         for (ULONG x = 0; x < image->width; ++x)
         {
-            out << image->data[pixel_index(image.get(), {x, y})];
+            out << to_string(image->data[pixel_index(image.get(), {x, y})]);
             if (x == 0 || (x + 1) % PGM_IO::MAX_NUMBERS_PER_ROW != 0)
             {
                 if (x + 1 < image->width)
-- 
2.43.0


From cf7baf6b1c087cdf64b56f1c965ed4c45aff0116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:57 +0000
Subject: [PATCH 18/18] fix: the end of an image does not fail a stream that
 reports failures by exceptions

Looking for the end read past it, which set the failure bit for a moment.
---
 lib/pgm_io.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/pgm_io.cpp b/lib/pgm_io.cpp
index f999f08..64c64cb 100644
--- a/lib/pgm_io.cpp
+++ b/lib/pgm_io.cpp
@@ -108,7 +108,7 @@ string PGM_IO::read_pgm_instruction(istream& in)
 bool PGM_IO::check_file_end(istream& in)
 {
     char current_input;
-    while (in.good() && !in.eof())
+    while (in.good() && in.peek() != istream::traits_type::eof())
     {
         in.get(current_input);
         if (current_input == '#')
-- 
2.43.0

