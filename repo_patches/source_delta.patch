From deace580c6aa72e71b866ff04bbbb533881bc97b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:36 +0000
Subject: [PATCH 01/44] fix: check the interpolation points themselves for
 order, not the moved-from argument

---
 src/Auxillary/InterpolatingVector/InterpolatingVector.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Auxillary/InterpolatingVector/InterpolatingVector.cpp b/src/Auxillary/InterpolatingVector/InterpolatingVector.cpp
index ced377d..f9f805c 100644
--- a/src/Auxillary/InterpolatingVector/InterpolatingVector.cpp
+++ b/src/Auxillary/InterpolatingVector/InterpolatingVector.cpp
@@ -170,7 +170,7 @@ namespace Aux {
       interpolation_points(std::move(_interpolation_points)),
       inner_length(_inner_length) {
     if (not std::is_sorted(
-            _interpolation_points.begin(), _interpolation_points.end())) {
+            interpolation_points.begin(), interpolation_points.end())) {
       gthrow({"Interpolation points for InterpolatingVector were not sorted!"});
     }
   }
-- 
2.43.0


From cb0eff5438c00cf14bd0ec3931903c6446679a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:36 +0000
Subject: [PATCH 02/44] fix: a Newton iteration that ends in a NaN residual is
 no success

---
 src/Newtonsolver/Newtonsolver.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/Newtonsolver/Newtonsolver.cpp b/src/Newtonsolver/Newtonsolver.cpp
index 5831498..13acd84 100644
--- a/src/Newtonsolver/Newtonsolver.cpp
+++ b/src/Newtonsolver/Newtonsolver.cpp
@@ -152,12 +152,8 @@ namespace Solver {
       ++solstruct.used_iterations;
       solstruct.residual = rootvalues.norm();
     }
-    if (solstruct.used_iterations == maximal_iterations
-        and solstruct.residual > tolerance) {
-      solstruct.success = false;
-    } else {
-      solstruct.success = true;
-    }
+    // written such that a residual that is not a number is no success.
+    solstruct.success = (solstruct.residual <= tolerance);
 
     return solstruct;
   }
-- 
2.43.0


From a984b24fa25ac0af01418ad1fd23882d16f66079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:36 +0000
Subject: [PATCH 03/44] fix: compare with the normalized root and stop at the
 end of the shorter path

---
 src/Auxillary/Input_Output/Input_output.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/Auxillary/Input_Output/Input_output.cpp b/src/Auxillary/Input_Output/Input_output.cpp
index 04474d3..ee8d3ca 100644
--- a/src/Auxillary/Input_Output/Input_output.cpp
+++ b/src/Auxillary/Input_Output/Input_output.cpp
@@ -30,11 +30,16 @@ namespace io {
       const fs::path &problem_root_path, const fs::path &filepath) {
     auto absolute_path = (problem_root_path / filepath).lexically_normal();
 
+    auto root_path = problem_root_path.lexically_normal();
+    if (not root_path.has_filename()) {
+      root_path = root_path.parent_path();
+    }
+
     auto [root_end_iterator, ignored_value] = std::mismatch(
-        problem_root_path.begin(), problem_root_path.end(),
-        absolute_path.begin());
+        root_path.begin(), root_path.end(), absolute_path.begin(),
+        absolute_path.end());
 
-    if (root_end_iterator != problem_root_path.end()) {
+    if (root_end_iterator != root_path.end()) {
       return false;
     } else {
       return true;
-- 
2.43.0


From 9413a67547fae1332852b4927ea66c7d64b2108c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:36 +0000
Subject: [PATCH 04/44] fix: compute equidistant time points without
 accumulating rounding errors

---
 src/Auxillary/InterpolatingVector/InterpolatingVector.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Auxillary/InterpolatingVector/InterpolatingVector.cpp b/src/Auxillary/InterpolatingVector/InterpolatingVector.cpp
index f9f805c..fec9290 100644
--- a/src/Auxillary/InterpolatingVector/InterpolatingVector.cpp
+++ b/src/Auxillary/InterpolatingVector/InterpolatingVector.cpp
@@ -115,10 +115,10 @@ namespace Aux {
     auto delta = data.delta;
     auto number_of_entries = data.number_of_entries;
     std::vector<double> interpolation_points;
-    auto currentpoint = startpoint;
     for (size_t index = 0; index != number_of_entries; ++index) {
-      interpolation_points.push_back(currentpoint);
-      currentpoint += delta;
+      // no accumulation, it would let the points drift away from the end.
+      interpolation_points.push_back(
+          startpoint + static_cast<double>(index) * delta);
     }
     assert(interpolation_points.front() == startpoint);
     // check for double equality. Should be an aux function...
-- 
2.43.0


From b1801f7f9a8108d7d239ac56b3aa22fe28244c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:01 +0000
Subject: [PATCH 05/44] fix: reject a single time point between two different
 end points

---
 src/Auxillary/InterpolatingVector/InterpolatingVector.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Auxillary/InterpolatingVector/InterpolatingVector.cpp b/src/Auxillary/InterpolatingVector/InterpolatingVector.cpp
index fec9290..658ed2f 100644
--- a/src/Auxillary/InterpolatingVector/InterpolatingVector.cpp
+++ b/src/Auxillary/InterpolatingVector/InterpolatingVector.cpp
@@ -45,6 +45,11 @@ namespace Aux {
            "Supplied first point: ", std::to_string(first_point), "\n",
            "Supplied last point: ", std::to_string(last_point), "\n"});
     }
+    if (number_of_entries == 1) {
+      gthrow(
+          {"A single entry can't reach from the first to the last point of an "
+           "InterpolatingVector.\n"});
+    }
     size_t number = static_cast<size_t>(number_of_entries);
 
     auto delta = (last_point - first_point) / (number_of_entries - 1);
-- 
2.43.0


From d4e77bc85caa2b8a622562eb406324a2ae5be4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:01 +0000
Subject: [PATCH 06/44] fix: a failed overwrite of a json file restores the old
 file and is reported

---
 src/Auxillary/aux_json/Aux_json.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Auxillary/aux_json/Aux_json.cpp b/src/Auxillary/aux_json/Aux_json.cpp
index df956c4..1968fec 100644
--- a/src/Auxillary/aux_json/Aux_json.cpp
+++ b/src/Auxillary/aux_json/Aux_json.cpp
@@ -120,7 +120,9 @@ namespace aux_json {
 
     try {
       // attempting the overwrite
-      std::ofstream ofs(file_path, std::ofstream::trunc);
+      std::ofstream ofs;
+      ofs.exceptions(std::ofstream::failbit | std::ofstream::badbit);
+      ofs.open(file_path, std::ofstream::trunc);
       ofs << new_json.dump(/*indent=*/1, /*indent_char=*/'\t');
       ofs.close();
     } catch (...) {
@@ -134,6 +136,7 @@ namespace aux_json {
           std::cout << "backup file is missing!" << std::endl;
         }
       }
+      throw;
     }
     // remove backup
     if (had_existed) {
-- 
2.43.0


From f81b5c38c4f83816d8e0a0a8ead402cb97134c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:04 +0000
Subject: [PATCH 07/44] fix: a state cache request may differ in size from the
 cached one

---
 src/Optimization_helpers/ControlStateCache.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/Optimization_helpers/ControlStateCache.cpp b/src/Optimization_helpers/ControlStateCache.cpp
index f57c213..f1e7b51 100644
--- a/src/Optimization_helpers/ControlStateCache.cpp
+++ b/src/Optimization_helpers/ControlStateCache.cpp
@@ -26,6 +26,13 @@ namespace Optimization {
 
   StateCache::~StateCache() = default;
 
+  /** \brief compares vectors, whose sizes may differ. */
+  static bool are_equal(
+      Eigen::Ref<Eigen::VectorXd const> const &first,
+      Eigen::Ref<Eigen::VectorXd const> const &second) {
+    return first.size() == second.size() and first == second;
+  }
+
   ControlStateCache::ControlStateCache(
       std::unique_ptr<Model::Timeevolver> _evolver) :
       evolver(std::move(_evolver)) {}
@@ -60,13 +67,13 @@ namespace Optimization {
       Eigen::Ref<Eigen::VectorXd const> const &state_timepoints,
       Eigen::Ref<Eigen::VectorXd const> const &initial_state) {
     if (failed.control == controls
-        and failed.state_timepoints == state_timepoints
-        && failed.initial_state == initial_state) {
+        and are_equal(failed.state_timepoints, state_timepoints)
+        and are_equal(failed.initial_state, initial_state)) {
       return nullptr;
     }
     if (controls == cache.first.control
-        and initial_state == cache.first.initial_state
-        && state_timepoints == cache.first.state_timepoints) {
+        and are_equal(initial_state, cache.first.initial_state)
+        and are_equal(state_timepoints, cache.first.state_timepoints)) {
       return &cache.second;
     } else {
       Aux::InterpolatingVector states(state_timepoints, initial_state.size());
-- 
2.43.0


From 6cd44de65fabe11d9ee1929a90ba0c0876bbaa76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:04 +0000
Subject: [PATCH 08/44] fix: a time exactly EPSILON after the last control time
 has an index

---
 src/Optimization_helpers/Optimization_helpers.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Optimization_helpers/Optimization_helpers.cpp b/src/Optimization_helpers/Optimization_helpers.cpp
index fdf09e5..5fe6151 100644
--- a/src/Optimization_helpers/Optimization_helpers.cpp
+++ b/src/Optimization_helpers/Optimization_helpers.cpp
@@ -31,7 +31,7 @@ namespace Optimization {
     assert(std::is_sorted(timepoints.begin(), timepoints.end()));
 
     if (time > *(std::prev(timepoints.end()))
-        and time < *(std::prev(timepoints.end())) + Aux::EPSILON) {
+        and time <= *(std::prev(timepoints.end())) + Aux::EPSILON) {
       Eigen::Index i_upper = back_index(timepoints);
       double lambda = 1.0;
       return {i_upper, lambda};
-- 
2.43.0


From 6a1530f839766a1fb80cc98a17abec6d8a7a5480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:04 +0000
Subject: [PATCH 09/44] fix: constraints that start after the first time step

---
 src/IpoptWrapper/ImplicitOptimizer.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/IpoptWrapper/ImplicitOptimizer.cpp b/src/IpoptWrapper/ImplicitOptimizer.cpp
index 68a032b..43cfafd 100644
--- a/src/IpoptWrapper/ImplicitOptimizer.cpp
+++ b/src/IpoptWrapper/ImplicitOptimizer.cpp
@@ -566,8 +566,10 @@ namespace Optimization {
           // constraints:
           // Find out, whether a new constraint appears at this index:
           bool current_step_is_new_constraint_time = false;
-          if (constraint_timepoints[constraint_index - 1]
-              == state_timepoints[state_index]) {
+          // (After the first constraint time there is none left.)
+          if (constraint_index > 0
+              and constraint_timepoints[constraint_index - 1]
+                      == state_timepoints[state_index]) {
             constraints_are_active_at_current_time = true;
             --constraint_index;
             current_step_is_new_constraint_time = true;
-- 
2.43.0


From fd2390b887a4ba215384f3b5a61c106834a2b1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:04 +0000
Subject: [PATCH 10/44] fix: print the actual Ipopt status

---
 src/IpoptWrapper/Wrapper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/IpoptWrapper/Wrapper.cpp b/src/IpoptWrapper/Wrapper.cpp
index f24fec4..1c714a8 100644
--- a/src/IpoptWrapper/Wrapper.cpp
+++ b/src/IpoptWrapper/Wrapper.cpp
@@ -161,7 +161,7 @@ namespace Optimization {
       Ipopt::IpoptCalculatedQuantities * /* ip_cq */) {
     if (status != Ipopt::SUCCESS) {
       std::cout << "\n\n\nFAILED TO FIND AN OPTIMUM:\nIpopt status was: "
-                << static_cast<int>(Ipopt::SUCCESS) << "\n";
+                << static_cast<int>(status) << "\n";
       std::cout << "Compare the values to the enum Ipopt::SUCCESS in the IPOPT "
                    "manual for what "
                    "that means.\n\n\n"
-- 
2.43.0


From f82d9ad5e78bfb7d7bdb24c01bdf4999778ea9f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:04 +0000
Subject: [PATCH 11/44] fix: evaluate cost and penalty at the solution, not at
 the last trial point

---
 src/IpoptWrapper/Wrapper.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/IpoptWrapper/Wrapper.cpp b/src/IpoptWrapper/Wrapper.cpp
index 1c714a8..d133e50 100644
--- a/src/IpoptWrapper/Wrapper.cpp
+++ b/src/IpoptWrapper/Wrapper.cpp
@@ -171,6 +171,8 @@ namespace Optimization {
     Eigen::Map<Eigen::VectorXd const> constraints(g, number_of_constraints);
     best_solution = solution;
     best_objective_value = obj_value;
+    // The last point Ipopt evaluated need not be the solution.
+    optimizer->new_x();
     best_cost_value = 0;
     optimizer->evaluate_cost(solution, best_cost_value);
     best_penalty_value = 0;
-- 
2.43.0


From 5965468717463b90fa65b09ce2a86524e3a223dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:04 +0000
Subject: [PATCH 12/44] fix: the last constraint time is the last state time
 for every step width

---
 src/Grazer/commands.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/Grazer/commands.cpp b/src/Grazer/commands.cpp
index dd5fcbc..17d35d3 100644
--- a/src/Grazer/commands.cpp
+++ b/src/Grazer/commands.cpp
@@ -178,9 +178,8 @@ int grazer::run(std::filesystem::path directory_path) {
 
         constraint_timepoints[index] = state_timepoints[1 + n * index];
       }
-      if (state_timepoints.size() % n != 0) {
-        back(constraint_timepoints) = back(state_timepoints);
-      }
+      // The last time point is always constrained.
+      back(constraint_timepoints) = back(state_timepoints);
 
       auto lower_bounds_json = aux_json::get_json_from_file_path(
           problem_directory / std::filesystem::path("lower_bounds.json"));
-- 
2.43.0


From c4eed7633b11535d8c5d05c09fdab7e4cf8ec2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:21 +0000
Subject: [PATCH 13/44] fix: constrain the pressure at a ConstraintSink
 whatever edge is attached

---
 src/Model/Networkproblem/Gas/ConstraintSink.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/Model/Networkproblem/Gas/ConstraintSink.cpp b/src/Model/Networkproblem/Gas/ConstraintSink.cpp
index f2d2a39..ff5c140 100644
--- a/src/Model/Networkproblem/Gas/ConstraintSink.cpp
+++ b/src/Model/Networkproblem/Gas/ConstraintSink.cpp
@@ -35,22 +35,23 @@ namespace Model::Gas {
       Eigen::Ref<Eigen::VectorXd const> const & /*control*/) const {
     auto first_direction = directed_attached_gas_edges[0].first;
     auto sample_gas_edge = directed_attached_gas_edges[0].second;
-    auto sample_boundary_state
-        = sample_gas_edge->get_boundary_state(first_direction, state);
-    auto sample_pressure = sample_boundary_state[0];
+    auto sample_p_qvol
+        = sample_gas_edge->get_boundary_p_qvol_bar(first_direction, state);
+    auto sample_pressure = sample_p_qvol[0];
 
     constraint_values[get_constraint_startindex()] = sample_pressure;
   }
 
   void ConstraintSink::d_evaluate_constraint_d_state(
       Aux::Matrixhandler &constraint_new_state_jacobian_handler, double,
-      Eigen::Ref<Eigen::VectorXd const> const &,
+      Eigen::Ref<Eigen::VectorXd const> const &state,
       Eigen::Ref<Eigen::VectorXd const> const &) const {
     auto first_direction = directed_attached_gas_edges[0].first;
     auto *sample_gas_edge = directed_attached_gas_edges[0].second;
-    auto index = sample_gas_edge->get_boundary_state_index(first_direction);
-    constraint_new_state_jacobian_handler.add_to_coefficient(
-        get_constraint_startindex(), index, 1.0);
+    Eigen::RowVector2d dconstraint_dpq(1.0, 0.0);
+    sample_gas_edge->dboundary_p_qvol_dstate(
+        first_direction, constraint_new_state_jacobian_handler, dconstraint_dpq,
+        get_constraint_startindex(), state);
   }
 
   void ConstraintSink::d_evaluate_constraint_d_control(
-- 
2.43.0


From 202e03a6635d2322bb27c60ec527cf6399c5ad43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:21 +0000
Subject: [PATCH 14/44] fix: report missing boundary data of the last
 components, too

---
 src/Model/Netfactory/Netfactory.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Model/Netfactory/Netfactory.cpp b/src/Model/Netfactory/Netfactory.cpp
index 3bd4666..d57cfae 100644
--- a/src/Model/Netfactory/Netfactory.cpp
+++ b/src/Model/Netfactory/Netfactory.cpp
@@ -194,6 +194,12 @@ namespace Model {
             ++top_it;
           }
         }
+        if (top_it != topology_vector_json.end()) {
+          gthrow(
+              {"The component with id ", (*top_it)["id"].get<std::string>(),
+               "\n is given in the topology json but no ",
+               name_of_inserted_json, " condition is provided."});
+        }
       }
     }
   }
-- 
2.43.0


From ff6a8443081dd7be59ef03d80e02c5703746892e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:48 +0000
Subject: [PATCH 15/44] fix: report the actual residual also when no Newton
 step was made

---
 src/Newtonsolver/Newtonsolver.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Newtonsolver/Newtonsolver.cpp b/src/Newtonsolver/Newtonsolver.cpp
index 13acd84..faa870b 100644
--- a/src/Newtonsolver/Newtonsolver.cpp
+++ b/src/Newtonsolver/Newtonsolver.cpp
@@ -73,6 +73,7 @@ namespace Solver {
     // compute f(x_k);
     problem.evaluate(
         rootvalues, last_time, new_time, last_state, new_state, control);
+    solstruct.residual = rootvalues.norm();
 
     // check if already there:
     if (rootvalues.norm() <= tolerance) {
-- 
2.43.0


From 80ea60287ff61ffdebfdf85457884a70d763cbfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:56 +0000
Subject: [PATCH 16/44] fix: allow rounding errors relative to the size of time
 points in equidistant grids

---
 .../InterpolatingVector.cpp                   | 27 +++++++++----------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/src/Auxillary/InterpolatingVector/InterpolatingVector.cpp b/src/Auxillary/InterpolatingVector/InterpolatingVector.cpp
index 658ed2f..a186a41 100644
--- a/src/Auxillary/InterpolatingVector/InterpolatingVector.cpp
+++ b/src/Auxillary/InterpolatingVector/InterpolatingVector.cpp
@@ -30,6 +30,14 @@
 
 namespace Aux {
 
+  /// The rounding error of a point in time grows with the point.
+  [[maybe_unused]] static bool
+  are_equal_up_to_rounding(double first, double second) {
+    return std::abs(first - second)
+           <= Aux::EPSILON
+                  * std::max({1.0, std::abs(first), std::abs(second)});
+  }
+
   Interpolation_data make_from_start_number_end(
       double first_point, double last_point, int number_of_entries) {
     if (number_of_entries <= 0) {
@@ -53,12 +61,8 @@ namespace Aux {
     size_t number = static_cast<size_t>(number_of_entries);
 
     auto delta = (last_point - first_point) / (number_of_entries - 1);
-    assert(
-        last_point
-        > first_point + (number_of_entries - 1) * delta - Aux::EPSILON);
-    assert(
-        last_point
-        < first_point + (number_of_entries - 1) * delta + Aux::EPSILON);
+    assert(are_equal_up_to_rounding(
+        last_point, first_point + (number_of_entries - 1) * delta));
     return {first_point, delta, number};
   }
 
@@ -102,14 +106,9 @@ namespace Aux {
     auto delta
         = ((last_point - first_point)
            / (static_cast<double>(number_of_entries - 1)));
-    assert(
-        last_point > first_point
-                         + static_cast<double>(number_of_entries - 1) * delta
-                         - Aux::EPSILON);
-    assert(
-        last_point < first_point
-                         + static_cast<double>(number_of_entries - 1) * delta
-                         + Aux::EPSILON);
+    assert(are_equal_up_to_rounding(
+        last_point,
+        first_point + static_cast<double>(number_of_entries - 1) * delta));
 
     return {first_point, delta, number_of_entries};
   }
-- 
2.43.0


From f16f576fc9a43fdb9f2f735f5baad2e0452cd2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:55 +0000
Subject: [PATCH 17/44] fix: reject time steps that are not positive

---
 src/Auxillary/Timedata/Timedata.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/Auxillary/Timedata/Timedata.cpp b/src/Auxillary/Timedata/Timedata.cpp
index d31e018..ec77502 100644
--- a/src/Auxillary/Timedata/Timedata.cpp
+++ b/src/Auxillary/Timedata/Timedata.cpp
@@ -15,7 +15,9 @@
  *
  */
 #include "Timedata.hpp"
-#include <iostream>
+#include <cmath>
+#include <stdexcept>
+#include <string>
 
 namespace Model {
 
@@ -27,6 +29,11 @@ namespace Model {
       delta_t(init_delta_t()) {}
 
   int Timedata::init_Number_of_timesteps(double desired_delta_t) const {
+    if (not(desired_delta_t > 0)) {
+      throw std::runtime_error(
+          "The desired time step must be positive, but is "
+          + std::to_string(desired_delta_t) + ".");
+    }
     int const _Number_of_timesteps
         = static_cast<int>(std::ceil(get_timeinterval() / desired_delta_t)) + 1;
     return _Number_of_timesteps;
-- 
2.43.0


From c0ba3480cb65004d5d4cb26f72b92f1cdcdc0aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:56 +0000
Subject: [PATCH 18/44] fix: use the number of time steps that was computed for
 the time grids

---
 src/Grazer/commands.cpp | 6 +++---
 src/Grazer/helpers.cpp  | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/Grazer/commands.cpp b/src/Grazer/commands.cpp
index 17d35d3..d967a47 100644
--- a/src/Grazer/commands.cpp
+++ b/src/Grazer/commands.cpp
@@ -90,9 +90,9 @@ int grazer::run(std::filesystem::path directory_path) {
     Eigen::VectorXd initial_state(problem.get_number_of_states());
     problem.set_initial_values(initial_state, initial_json);
 
-    auto states_timehelper = Aux::make_from_start_delta_end(
-        timedata.get_starttime(), timedata.get_delta_t(),
-        timedata.get_endtime());
+    auto states_timehelper = Aux::make_from_start_number_end(
+        timedata.get_starttime(), timedata.get_endtime(),
+        timedata.get_number_of_time_points());
     Aux::InterpolatingVector saved_states(
         states_timehelper, problem.get_number_of_states());
     Eigen::VectorXd state_timepoints = saved_states.get_interpolation_points();
diff --git a/src/Grazer/helpers.cpp b/src/Grazer/helpers.cpp
index 3e16414..deb7844 100644
--- a/src/Grazer/helpers.cpp
+++ b/src/Grazer/helpers.cpp
@@ -57,9 +57,9 @@ void setup_controls(
         throw std::runtime_error(o.str());
       }
     } else {
-      control_timehelper = Aux::make_from_start_delta_end(
-          timedata.get_starttime(), timedata.get_delta_t(),
-          timedata.get_endtime());
+      control_timehelper = Aux::make_from_start_number_end(
+          timedata.get_starttime(), timedata.get_endtime(),
+          timedata.get_number_of_time_points());
     }
     auto control_json = aux_json::get_json_from_file_path(
         problem_directory / std::filesystem::path("control.json"));
-- 
2.43.0


From aeb7d7baaae978b8688654fded36bc189e9f040d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:44 +0000
Subject: [PATCH 19/44] fix: reject unsorted interpolation points given as an
 Eigen vector, too

---
 src/Auxillary/InterpolatingVector/InterpolatingVector.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/Auxillary/InterpolatingVector/InterpolatingVector.cpp b/src/Auxillary/InterpolatingVector/InterpolatingVector.cpp
index a186a41..ca18afd 100644
--- a/src/Auxillary/InterpolatingVector/InterpolatingVector.cpp
+++ b/src/Auxillary/InterpolatingVector/InterpolatingVector.cpp
@@ -164,9 +164,10 @@ namespace Aux {
     //      or ((inner_length == 0) and interpolation_points.empty()))
     //     and "Either inner length and number of interpolation points must be
     //     zero or both must be greater in an InterpolatingVector.");
-    assert(
-        std::is_sorted(interpolation_points.begin(), interpolation_points.end())
-        and "Interpolation points for InterpolatingVector were not sorted!");
+    if (not std::is_sorted(
+            interpolation_points.begin(), interpolation_points.end())) {
+      gthrow({"Interpolation points for InterpolatingVector were not sorted!"});
+    }
   }
 
   InterpolatingVector_Base::InterpolatingVector_Base(
-- 
2.43.0


From fed396ab19573d6263e9bd84fdec50d4f81a96d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:27 +0000
Subject: [PATCH 20/44] fix: an optimization set-up with unfitting time points
 throws instead of aborting

---
 src/IpoptWrapper/ImplicitOptimizer.cpp         |  4 +++-
 .../Optimization_helpers.cpp                   | 18 +++++++++++++-----
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/IpoptWrapper/ImplicitOptimizer.cpp b/src/IpoptWrapper/ImplicitOptimizer.cpp
index 43cfafd..6d8abc5 100644
--- a/src/IpoptWrapper/ImplicitOptimizer.cpp
+++ b/src/IpoptWrapper/ImplicitOptimizer.cpp
@@ -32,7 +32,9 @@ namespace Optimization {
 
   static Eigen::VectorXd make_objective_function_coefficients(
       Eigen::Ref<Eigen::VectorXd const> timepoints) {
-    assert(timepoints.size() > 0);
+    if (timepoints.size() == 0) {
+      gthrow({"There are no state timepoints!"});
+    }
     Eigen::VectorXd coefficients(timepoints.size());
     if (coefficients.size() == 1) {
       front(coefficients) = 1;
diff --git a/src/Optimization_helpers/Optimization_helpers.cpp b/src/Optimization_helpers/Optimization_helpers.cpp
index 5fe6151..5bcd03c 100644
--- a/src/Optimization_helpers/Optimization_helpers.cpp
+++ b/src/Optimization_helpers/Optimization_helpers.cpp
@@ -15,20 +15,28 @@
  *
  */
 #include "Optimization_helpers.hpp"
+#include "Exception.hpp"
 #include "InterpolatingVector.hpp"
 #include "Mathfunctions.hpp"
 #include "Misc.hpp"
 #include "OptimizableObject.hpp"
 #include <algorithm>
-#include <cassert>
+#include <string>
 namespace Optimization {
 
   std::pair<Eigen::Index, double> compute_index_lambda(
       Eigen::Ref<Eigen::VectorXd const> const &timepoints, double time) {
-    assert(timepoints.size() > 0);
-    assert(time >= front(timepoints));
-    assert(time <= back(timepoints) + Aux::EPSILON);
-    assert(std::is_sorted(timepoints.begin(), timepoints.end()));
+    // "front" and "back" throw, if there are no timepoints.
+    if (not(
+            time >= front(timepoints)
+            and time <= back(timepoints) + Aux::EPSILON)) {
+      gthrow(
+          {"The time ", std::to_string(time),
+           " is not inside the span of the timepoints!"});
+    }
+    if (not std::is_sorted(timepoints.begin(), timepoints.end())) {
+      gthrow({"The timepoints are not sorted!"});
+    }
 
     if (time > *(std::prev(timepoints.end()))
         and time <= *(std::prev(timepoints.end())) + Aux::EPSILON) {
-- 
2.43.0


From 787772a2faaf25b3c961d402f7e0456686477569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:53 +0000
Subject: [PATCH 21/44] fix: resampling onto no time points gives an empty
 series instead of a crash

---
 src/Auxillary/InterpolatingVector/InterpolatingVector.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Auxillary/InterpolatingVector/InterpolatingVector.cpp b/src/Auxillary/InterpolatingVector/InterpolatingVector.cpp
index ca18afd..c981087 100644
--- a/src/Auxillary/InterpolatingVector/InterpolatingVector.cpp
+++ b/src/Auxillary/InterpolatingVector/InterpolatingVector.cpp
@@ -229,6 +229,9 @@ namespace Aux {
       InterpolatingVector_Base const &values) {
 
     assert(get_inner_length() == values.get_inner_length());
+    if (size() == 0) {
+      return;
+    }
     assert(
         values.interpolation_point_at_index(0)
         <= interpolation_point_at_index(0));
-- 
2.43.0


From a559eea388532a4d2504d6a120cd5c2782c1f62e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:09 +0000
Subject: [PATCH 22/44] fix: derivative of the Swamee-Jain friction factor
 multiplied by the logarithm's argument instead of dividing by it

---
 src/Model/Balancelaw/Isothermaleulerequation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Model/Balancelaw/Isothermaleulerequation.cpp b/src/Model/Balancelaw/Isothermaleulerequation.cpp
index d1ec721..486223b 100644
--- a/src/Model/Balancelaw/Isothermaleulerequation.cpp
+++ b/src/Model/Balancelaw/Isothermaleulerequation.cpp
@@ -316,7 +316,7 @@ namespace Model::Balancelaw {
     double x = exp(log(Re) * 0.9);
     double a = roughness / (3.7 * diameter) + 5.74 / x;
     double aux = log10(a);
-    double daux_dRe = 1 / log(10) * a * (-5.74 / (x * x)) * 0.9 * x / Re;
+    double daux_dRe = 1 / (log(10) * a) * (-5.74 / (x * x)) * 0.9 * x / Re;
     double dlambda_dRe = -0.5 / (aux * aux * aux) * daux_dRe;
     return dlambda_dRe;
   }
-- 
2.43.0


From c67241f2937aabad8645bf46b123cf22d6e44277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:34 +0000
Subject: [PATCH 23/44] fix: report a stochastic node's power at the saved
 state instead of the last drawn one

---
 src/Model/Networkproblem/Power/StochasticPQnode.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Model/Networkproblem/Power/StochasticPQnode.cpp b/src/Model/Networkproblem/Power/StochasticPQnode.cpp
index a403406..ecad326 100644
--- a/src/Model/Networkproblem/Power/StochasticPQnode.cpp
+++ b/src/Model/Networkproblem/Power/StochasticPQnode.cpp
@@ -149,8 +149,8 @@ namespace Model::Power {
 
   void StochasticPQnode::json_save(
       double time, Eigen::Ref<Eigen::VectorXd const> const &state) {
-    auto P_val = current_P;
-    auto Q_val = current_Q;
+    auto P_val = P(state);
+    auto Q_val = Q(state);
     auto P_deviation = P_val - boundaryvalue(time)[0];
     auto Q_deviation = Q_val - boundaryvalue(time)[1];
 
-- 
2.43.0


From d3ff3f099486c5f4d1afbd45a75a48f4261751e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:04 +0000
Subject: [PATCH 24/44] fix: control and boundary data need at least one entry,
 each with time and values

An empty list was accepted by the schema and then read through front().
---
 src/Auxillary/json_schema/make_schema.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/Auxillary/json_schema/make_schema.cpp b/src/Auxillary/json_schema/make_schema.cpp
index 5b69c18..9b6ee82 100644
--- a/src/Auxillary/json_schema/make_schema.cpp
+++ b/src/Auxillary/json_schema/make_schema.cpp
@@ -160,13 +160,14 @@ namespace Aux::schema {
     })"_json;
 
     nlohmann::json data_element;
-    add_property(data_element, "time", type::number());
-    add_property(
+    add_required(data_element, "time", type::number());
+    add_required(
         data_element, "values",
         make_list_schema_of(
             type::number(),
             {{"minItems", num_values}, {"maxItems", num_values}}));
-    add_property(schema, "data", make_list_schema_of(data_element));
+    add_property(
+        schema, "data", make_list_schema_of(data_element, {{"minItems", 1}}));
     return schema;
   }
 
-- 
2.43.0


From ae9984f8447712af99d7f534d7cd2f7585fefac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:54 +0000
Subject: [PATCH 25/44] fix: accept areas and volumes in m^2 and m^3

The caret was taken as an anchor in the schema's regular expression, so these
units were always rejected; an SI prefix in front of them is raised to the
same power.
---
 .../unit_conversion/unit_conversion.cpp       | 26 +++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/Auxillary/unit_conversion/unit_conversion.cpp b/src/Auxillary/unit_conversion/unit_conversion.cpp
index cdb0505..8afaa78 100644
--- a/src/Auxillary/unit_conversion/unit_conversion.cpp
+++ b/src/Auxillary/unit_conversion/unit_conversion.cpp
@@ -16,6 +16,7 @@
  */
 #include <unit_conversion.hpp>
 
+#include <cmath>
 #include <map>
 #include <schema_validation.hpp>
 #include <sstream>
@@ -127,7 +128,20 @@ namespace Aux::unit {
     std::string unit = measurement["unit"].get<std::string>();
 
     auto [prefix, conv] = parse_unit(unit, this->conversion_map);
-    return conv(measurement["value"].get<double>() * parse_prefix_si(prefix));
+
+    // the power in units like m^2 or m^3 also applies to their SI prefix.
+    std::string symbol = unit.substr(prefix.size());
+    auto caret = symbol.rfind('^');
+    if (caret == std::string::npos) {
+      return conv(measurement["value"].get<double>() * parse_prefix_si(prefix));
+    }
+    int power = std::stoi(symbol.substr(caret + 1));
+    std::map<std::string, Conversion> prefixes;
+    for (auto const &[name, prefix_conv] : si_prefixes) {
+      prefixes.insert({name, std::pow(prefix_conv(1.0), power)});
+    }
+    return conv(
+        measurement["value"].get<double>() * parse_prefix(prefix, prefixes));
   }
 
   const std::tuple<std::string, Conversion> parse_unit(
@@ -172,7 +186,15 @@ namespace Aux::unit {
   std::string re_capture_from_map(std::map<std::string, Conversion> map) {
     std::ostringstream regex_stream;
     regex_stream << "(";
-    for (auto [item, _] : map) { regex_stream << item << "|"; }
+    for (auto const &[item, _] : map) {
+      for (char c : item) {
+        if (c == '^') { // has a meaning of its own in regular expressions
+          regex_stream << '\\';
+        }
+        regex_stream << c;
+      }
+      regex_stream << "|";
+    }
     std::string regex = regex_stream.str();
     regex.pop_back();
     return regex + ")";
-- 
2.43.0


From 375163f5d62d2dbf6712156fcc56923afbc6cec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:57 +0000
Subject: [PATCH 26/44] fix: refilling sets every coefficient of an
 uncompressed matrix to zero

---
 src/Auxillary/Matrixhandler/Matrixhandler.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Auxillary/Matrixhandler/Matrixhandler.cpp b/src/Auxillary/Matrixhandler/Matrixhandler.cpp
index e8b5955..a8485c2 100644
--- a/src/Auxillary/Matrixhandler/Matrixhandler.cpp
+++ b/src/Auxillary/Matrixhandler/Matrixhandler.cpp
@@ -57,7 +57,9 @@ namespace Aux {
   Coeffrefhandler<Transpose>::Coeffrefhandler(
       Eigen::SparseMatrix<double> &_matrix) :
       Matrixhandler(_matrix) {
-    // Set the matrix to zero:
+    // Set the matrix to zero. Only a compressed matrix stores its coefficients
+    // contiguously:
+    _matrix.makeCompressed();
     Eigen::Map<Eigen::VectorXd> coefficients(
         _matrix.valuePtr(), _matrix.nonZeros());
     coefficients.setZero();
-- 
2.43.0


From 1ee9c3ea94d33cafd417684c8d34daa51b39fbfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:03 +0000
Subject: [PATCH 27/44] fix: decide whether a path lies in a relative root by
 the way from the root to it

---
 src/Auxillary/Input_Output/Input_output.cpp | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/Auxillary/Input_Output/Input_output.cpp b/src/Auxillary/Input_Output/Input_output.cpp
index ee8d3ca..a9a40a9 100644
--- a/src/Auxillary/Input_Output/Input_output.cpp
+++ b/src/Auxillary/Input_Output/Input_output.cpp
@@ -31,19 +31,11 @@ namespace io {
     auto absolute_path = (problem_root_path / filepath).lexically_normal();
 
     auto root_path = problem_root_path.lexically_normal();
-    if (not root_path.has_filename()) {
-      root_path = root_path.parent_path();
-    }
-
-    auto [root_end_iterator, ignored_value] = std::mismatch(
-        root_path.begin(), root_path.end(), absolute_path.begin(),
-        absolute_path.end());
 
-    if (root_end_iterator != root_path.end()) {
-      return false;
-    } else {
-      return true;
-    }
+    // The way from the root to the path is empty, if there is none, and starts
+    // with "..", if the path climbs out of the root.
+    auto relative_path = absolute_path.lexically_relative(root_path);
+    return not relative_path.empty() and *relative_path.begin() != "..";
   }
 
   fs::path attach_epoch_count(fs::path const &filename) {
-- 
2.43.0


From 89ef8fe944bb8736617cc927e94b202cbf5412a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:31 +0000
Subject: [PATCH 28/44] fix: overwriting a json file spares files named like
 its backup and leaves no partly written new file

---
 src/Auxillary/aux_json/Aux_json.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/Auxillary/aux_json/Aux_json.cpp b/src/Auxillary/aux_json/Aux_json.cpp
index 1968fec..393730e 100644
--- a/src/Auxillary/aux_json/Aux_json.cpp
+++ b/src/Auxillary/aux_json/Aux_json.cpp
@@ -109,6 +109,10 @@ namespace aux_json {
     // creating a backup if this file existed
     bool had_existed = false;
     std::filesystem::path backup_path = file_path.parent_path() / "tmp_backup";
+    // never use a file that is already there
+    while (std::filesystem::exists(backup_path)) {
+      backup_path += "_";
+    }
     if (std::filesystem::exists(file_path)) {
       had_existed = true;
       std::filesystem::rename(file_path, backup_path);
@@ -135,6 +139,10 @@ namespace aux_json {
         } else {
           std::cout << "backup file is missing!" << std::endl;
         }
+      } else {
+        // leave no partly written file behind
+        std::error_code ignored;
+        std::filesystem::remove(file_path, ignored);
       }
       throw;
     }
-- 
2.43.0


From 4fdad6cc4cfc64e6c8562c32c41c2846dff69f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:41 +0000
Subject: [PATCH 29/44] fix: by default no output files are created in an
 output directory

---
 src/Auxillary/Input_Output/include/Input_output.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Auxillary/Input_Output/include/Input_output.hpp b/src/Auxillary/Input_Output/include/Input_output.hpp
index d4888ab..e28beec 100644
--- a/src/Auxillary/Input_Output/include/Input_output.hpp
+++ b/src/Auxillary/Input_Output/include/Input_output.hpp
@@ -110,5 +110,5 @@ namespace io {
   void prepare_output_directory(
       std::filesystem::path const &output_directory,
       std::filesystem::path const &problem_directory,
-      std::vector<std::string> filenames_to_create = {{}});
+      std::vector<std::string> filenames_to_create = {});
 } // namespace io
-- 
2.43.0


From cc8e8c57cce7d8435fbf3612d19b924edb997bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:30 +0000
Subject: [PATCH 30/44] fix: entries of boundary and control data must be
 objects in their schema

make_boundary_schema left out the type of the elements of the data array,
so that the generated schemas accepted e.g. numbers in their place.
---
 src/Auxillary/json_schema/make_schema.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Auxillary/json_schema/make_schema.cpp b/src/Auxillary/json_schema/make_schema.cpp
index 9b6ee82..a9c54f5 100644
--- a/src/Auxillary/json_schema/make_schema.cpp
+++ b/src/Auxillary/json_schema/make_schema.cpp
@@ -160,6 +160,7 @@ namespace Aux::schema {
     })"_json;
 
     nlohmann::json data_element;
+    data_element["type"] = "object";
     add_required(data_element, "time", type::number());
     add_required(
         data_element, "values",
-- 
2.43.0


From f94e4c07097828363c65b3f9a66eba3c644140f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:30 +0000
Subject: [PATCH 31/44] fix: report property definitions that are not JSON
 objects

The error was constructed but never thrown.
---
 src/Auxillary/json_schema/make_schema.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Auxillary/json_schema/make_schema.cpp b/src/Auxillary/json_schema/make_schema.cpp
index a9c54f5..29183bd 100644
--- a/src/Auxillary/json_schema/make_schema.cpp
+++ b/src/Auxillary/json_schema/make_schema.cpp
@@ -203,7 +203,7 @@ namespace Aux::schema {
         std::ostringstream o;
         o << "Property Definition is not a JSON Object!\n";
         o << "Dump of Properties:\n\n" << properties;
-        std::runtime_error(o.str());
+        throw std::runtime_error(o.str());
       }
       if (not definition.contains("type")) {
         std::ostringstream o;
-- 
2.43.0


From 9f139fa728abc670d3a37ad9e8a1c651b4cd6ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:30 +0000
Subject: [PATCH 32/44] fix: topology, boundary, initial and control data must
 be JSON objects

The generated schemas accepted any data file that holds no object at all.
---
 src/Model/Componentfactory/Componentfactory.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Model/Componentfactory/Componentfactory.cpp b/src/Model/Componentfactory/Componentfactory.cpp
index bcad9d0..0570f53 100644
--- a/src/Model/Componentfactory/Componentfactory.cpp
+++ b/src/Model/Componentfactory/Componentfactory.cpp
@@ -35,6 +35,7 @@ namespace Model::Componentfactory {
       "$schema": "http://json-schema.org/draft-07/schema",
       "title": "Initial Data",
       "description": "Description of the Networks Initial Data",
+      "type": "object",
       "required": ["nodes", "connections"],
       "properties": {
         "nodes": {"type": "object", "additionalProperties": false, "properties": {}},
@@ -73,6 +74,7 @@ namespace Model::Componentfactory {
       "$schema": "http://json-schema.org/draft-07/schema",
       "title": "Control",
       "description": "Description of the Controls of a Component",
+      "type": "object",
       "required": ["nodes", "connections"],
       "properties": {
         "nodes": {"type": "object", "additionalProperties": false, "properties": {}},
@@ -111,6 +113,7 @@ namespace Model::Componentfactory {
       "$schema": "http://json-schema.org/draft-07/schema",
       "title": "Boundary",
       "description": "Description of the Networks Boundary Behaviour",
+      "type": "object",
       "required": ["nodes", "connections"],
       "properties": {
         "nodes": {"type": "object", "additionalProperties": false, "properties": {}},
@@ -150,6 +153,7 @@ namespace Model::Componentfactory {
       "$schema": "http://json-schema.org/draft-07/schema",
       "title": "Topology",
       "description": "Description of the Network Topology",
+      "type": "object",
       "required": ["nodes", "connections"],
       "properties": {
         "nodes": {"type": "object", "additionalProperties": false, "properties": {}},
-- 
2.43.0


From 7eab5cc4142d3589d14b4e43bb248f95778d89c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:46 +0000
Subject: [PATCH 33/44] fix: a seed must have exactly the number of entries the
 generator takes

The schema accepted seeds of any length, although shorter ones cannot be
used and longer ones were cut off silently.
---
 src/Model/Networkproblem/Power/StochasticPQnode.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Model/Networkproblem/Power/StochasticPQnode.cpp b/src/Model/Networkproblem/Power/StochasticPQnode.cpp
index ecad326..2ce2b31 100644
--- a/src/Model/Networkproblem/Power/StochasticPQnode.cpp
+++ b/src/Model/Networkproblem/Power/StochasticPQnode.cpp
@@ -44,7 +44,10 @@ namespace Model::Power {
   nlohmann::json StochasticPQnode::get_boundary_schema() {
     auto boundary_schema = Aux::schema::make_boundary_schema(2);
     auto seed_schema
-        = Aux::schema::make_list_schema_of(Aux::schema::type::number());
+        = Aux::schema::make_list_schema_of(
+            Aux::schema::type::number(),
+            {{"minItems", Aux::pcg_seed_count},
+             {"maxItems", Aux::pcg_seed_count}});
     Aux::schema::add_property(boundary_schema, "seed", seed_schema);
     return boundary_schema;
   }
-- 
2.43.0


From 03c8b50bc0b330636113f7ca0cf01a7ac67db06c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:46 +0000
Subject: [PATCH 34/44] fix: generate schemas for problems with defaults for
 boundary values

Schema generation failed with an exception, because the topology schema
without external data does not know the key boundary_values.
---
 .../include/Componentfactory.hpp              | 20 +++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/Model/Componentfactory/include/Componentfactory.hpp b/src/Model/Componentfactory/include/Componentfactory.hpp
index d175b49..40c3667 100644
--- a/src/Model/Componentfactory/include/Componentfactory.hpp
+++ b/src/Model/Componentfactory/include/Componentfactory.hpp
@@ -260,7 +260,15 @@ namespace Model::Componentfactory {
         //   control_schema);
         // }
       }
-      Aux::schema::add_defaults(schema, defaults);
+      auto component_defaults = defaults;
+      if constexpr (std::is_base_of_v<Boundaryvaluecomponent, ConcreteNode>) {
+        if (not include_external) {
+          // The boundary values are no part of this schema, nor are their
+          // defaults.
+          component_defaults.erase("boundary_values");
+        }
+      }
+      Aux::schema::add_defaults(schema, component_defaults);
       if (not allow_required_defaults) {
         Aux::schema::remove_defaults_from_required(schema);
       }
@@ -363,7 +371,15 @@ namespace Model::Componentfactory {
         //   control_schema);
         // }
       }
-      Aux::schema::add_defaults(schema, defaults);
+      auto component_defaults = defaults;
+      if constexpr (std::is_base_of_v<Boundaryvaluecomponent, ConcreteEdge>) {
+        if (not include_external) {
+          // The boundary values are no part of this schema, nor are their
+          // defaults.
+          component_defaults.erase("boundary_values");
+        }
+      }
+      Aux::schema::add_defaults(schema, component_defaults);
       if (not allow_required_defaults) {
         Aux::schema::remove_defaults_from_required(schema);
       }
-- 
2.43.0


From e768c7d7948d7926b7289a188ca61f493ef9df57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:18 +0000
Subject: [PATCH 35/44] fix: generate a problem data schema for the format
 grazer reads

The generated schema described an old format (initial_values, subproblems)
and rejected every problem_data.json grazer can run.
---
 .../json_schema/schema_generation.cpp         | 82 ++++++-------------
 1 file changed, 26 insertions(+), 56 deletions(-)

diff --git a/src/Auxillary/json_schema/schema_generation.cpp b/src/Auxillary/json_schema/schema_generation.cpp
index 789a9ff..8416a2c 100644
--- a/src/Auxillary/json_schema/schema_generation.cpp
+++ b/src/Auxillary/json_schema/schema_generation.cpp
@@ -48,7 +48,7 @@ namespace Aux::schema {
       } catch (nlohmann::json::out_of_range &e) {
         std::cout << "[Warning] The `problem_data.json` does not have the "
                      "expected structure:\n"
-                  << "  problem_data.subproblems.Network_problem.defaults\n"
+                  << "  problem_data.defaults\n"
                   << "  " << e.what() << "\n"
                   << "Generating Schemas without defaults!" << std::endl;
       }
@@ -119,13 +119,12 @@ namespace Aux::schema {
   }
 
   inline static json get_problem_data_schema() {
-    // see docs/problem_data_schema.json
     return R"(
     {
       "$schema": "http://json-schema.org/draft-07/schema",
       "type": "object",
       "description": "Metadata of the Problem",
-      "required": ["simulation_settings", "initial_values", "problem_data"],
+      "required": ["simulation_settings", "problem_data"],
       "properties": {
         "simulation_settings": {
           "type": "object",
@@ -149,67 +148,38 @@ namespace Aux::schema {
             "desired_delta_t": {"type": "number"}
           }
         },
-        "initial_values": {
+        "problem_data": {
           "type": "object",
-          "description": "holds a file name to an additional initial values json sorted by subproblem",
-          "required": ["subproblems"],
+          "description": "holds the defaults and the topology and boundary data or the names of their files",
+          "required": ["topology_json", "boundary_json"],
           "properties": {
-            "subproblems": {
+            "defaults": {
               "type": "object",
-              "required": ["Network_problem"],
-              "properties": {
-                "Network_problem": {
-                  "type": "object",
-                  "required": ["initial_json"],
-                  "properties": {
-                    "initial_json": {
-                      "type": "string",
-                      "format": "iri-reference",
-                      "description": "Initial Values JSON file"
-                    }
-                  }
-                }
-              }
+              "additionalProperties": {"type": "object"},
+              "description": "Components With default Topology Properties"
+            },
+            "topology_json": {
+              "type": ["string", "object"],
+              "description": "Topology JSON or the name of its file"
+            },
+            "boundary_json": {
+              "type": ["string", "object"],
+              "description": "Boundary JSON or the name of its file"
             }
           }
         },
-        "problem_data": {
+        "optimize": {"type": "boolean"},
+        "control_settings": {
           "type": "object",
-          "description": "holds a file name to an additional initial values json sorted by subproblem",
-          "required": ["subproblems"],
           "properties": {
-            "subproblems": {
-              "type": "object",
-              "required": ["Network_problem"],
-              "properties": {
-                "Network_problem": {
-                  "type": "object",
-                  "required": ["defaults", "topology_json", "boundary_json", "control_json"],
-                  "properties": {
-                    "defaults": {
-                      "type": "object",
-                      "patternProperties": {"^.*$": {"type": "object"}},
-                      "description": "Components With default Topology Properties"
-                    },
-                    "topology_json": {
-                      "type": "string",
-                      "format": "iri-reference",
-                      "description": "Topology JSON file"
-                    },
-                    "boundary_json": {
-                      "type": "string",
-                      "format": "iri-reference",
-                      "description": "Boundary JSON file"
-                    },
-                    "control": {
-                      "type": "string",
-                      "format": "iri-reference",
-                      "description": "Control JSON file"
-                    }
-                  }
-                }
-              }
-            }
+            "desired_delta_t": {"type": "number"},
+            "number_of_steps": {"type": "integer"}
+          }
+        },
+        "constraint_settings": {
+          "type": "object",
+          "properties": {
+            "evaluate_constraints_every_n": {"type": "integer"}
           }
         }
       }
-- 
2.43.0


From 635b27c3a50377d4ee2551cc8e6f608aead77d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:50 +0000
Subject: [PATCH 36/44] fix: report missing time settings as an error instead
 of aborting

---
 src/Auxillary/Timedata/Timedata.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Auxillary/Timedata/Timedata.cpp b/src/Auxillary/Timedata/Timedata.cpp
index ec77502..ea16a1f 100644
--- a/src/Auxillary/Timedata/Timedata.cpp
+++ b/src/Auxillary/Timedata/Timedata.cpp
@@ -22,10 +22,10 @@
 namespace Model {
 
   Timedata::Timedata(nlohmann::json const &simulation_settings) :
-      starttime(simulation_settings["start_time"].get<double>()),
-      endtime(simulation_settings["end_time"].get<double>()),
+      starttime(simulation_settings.at("start_time").get<double>()),
+      endtime(simulation_settings.at("end_time").get<double>()),
       Number_of_timesteps(init_Number_of_timesteps(
-          simulation_settings["desired_delta_t"].get<double>())),
+          simulation_settings.at("desired_delta_t").get<double>())),
       delta_t(init_delta_t()) {}
 
   int Timedata::init_Number_of_timesteps(double desired_delta_t) const {
-- 
2.43.0


From afc95e67ba74b89e7afa43ca14baf9a64a7dbfa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:23 +0000
Subject: [PATCH 37/44] fix: report an error when the results of a run cannot
 be written

---
 src/Grazer/commands.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Grazer/commands.cpp b/src/Grazer/commands.cpp
index d967a47..f96cb1d 100644
--- a/src/Grazer/commands.cpp
+++ b/src/Grazer/commands.cpp
@@ -138,7 +138,9 @@ int grazer::run(std::filesystem::path directory_path) {
         std::cout << std::filesystem::absolute(states_outputfile).string()
                   << std::endl;
         std::ofstream o(states_outputfile);
+        o.exceptions(std::ofstream::failbit | std::ofstream::badbit);
         o << states_output_json.dump(1, '\t');
+        o.close();
       } catch (std::exception &e) {
         std::ostringstream o;
         o << "Printing to files failed with error message:"
@@ -290,7 +292,9 @@ int grazer::run(std::filesystem::path directory_path) {
         std::filesystem::path control_outputfile
             = output_directory / "controls.json";
         std::ofstream o(control_outputfile);
+        o.exceptions(std::ofstream::failbit | std::ofstream::badbit);
         o << control_output_json.dump(1, '\t');
+        o.close();
 
       } catch (std::exception &e) {
         std::ostringstream o;
@@ -309,7 +313,9 @@ int grazer::run(std::filesystem::path directory_path) {
         std::filesystem::path states_outputfile
             = output_directory / "states.json";
         std::ofstream o(states_outputfile);
+        o.exceptions(std::ofstream::failbit | std::ofstream::badbit);
         o << states_output_json.dump(1, '\t');
+        o.close();
       } catch (std::exception &e) {
         std::ostringstream o;
         o << "Printing to state output file failed with error message:"
-- 
2.43.0


From 4262be93b5a54fbc89cdc72d61740bae70cb236b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:44 +0000
Subject: [PATCH 38/44] fix: report an error when an optimization ends without
 usable controls

---
 src/Grazer/commands.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/Grazer/commands.cpp b/src/Grazer/commands.cpp
index f96cb1d..eee75e4 100644
--- a/src/Grazer/commands.cpp
+++ b/src/Grazer/commands.cpp
@@ -226,6 +226,14 @@ int grazer::run(std::filesystem::path directory_path) {
 
       adaptor.optimize();
 
+      auto ipoptcontrols = adaptor.get_solution();
+      Eigen::VectorXd ipoptconstraints(optimizer.get_total_no_constraints());
+      if (not optimizer.evaluate_constraints(ipoptcontrols, ipoptconstraints)) {
+        throw std::runtime_error(
+            "The optimization did not yield controls, for which the states "
+            "can be computed!");
+      }
+
       Eigen::VectorXd storage(optimizer.get_no_nnz_in_jacobian());
 
       Optimization::MappedConstraintJacobian jacmapped(
@@ -249,11 +257,6 @@ int grazer::run(std::filesystem::path directory_path) {
       std::cout << "Overall objective: " << adaptor.get_objective_value()
                 << std::endl;
 
-      auto ipoptcontrols = adaptor.get_solution();
-
-      Eigen::VectorXd ipoptconstraints(optimizer.get_total_no_constraints());
-
-      optimizer.evaluate_constraints(ipoptcontrols, ipoptconstraints);
       auto lower_violation
           = (-(ipoptconstraints - constraint_lower_bounds.get_allvalues()))
                 .maxCoeff();
-- 
2.43.0


From 99325adf5e96ff48675f25488d7c0317e11af01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:15 +0000
Subject: [PATCH 39/44] fix: optimize networks without constraints

---
 src/Grazer/commands.cpp | 51 +++++++++++++++++++++++------------------
 1 file changed, 29 insertions(+), 22 deletions(-)

diff --git a/src/Grazer/commands.cpp b/src/Grazer/commands.cpp
index eee75e4..5ae498d 100644
--- a/src/Grazer/commands.cpp
+++ b/src/Grazer/commands.cpp
@@ -234,37 +234,44 @@ int grazer::run(std::filesystem::path directory_path) {
             "can be computed!");
       }
 
-      Eigen::VectorXd storage(optimizer.get_no_nnz_in_jacobian());
-
-      Optimization::MappedConstraintJacobian jacmapped(
-          storage.data(), storage.size(), optimizer.constraints_per_step(),
-          optimizer.controls_per_step(), constraint_timepoints,
-          control_timepoints);
-      jacmapped = optimizer.get_constraint_jacobian();
-      int count = 0;
-      for (auto entry : storage) {
-        if (std::abs(entry) > 1e-10) {
-          ++count;
+      // Without constraints there is no constraint jacobian.
+      if (optimizer.get_no_nnz_in_jacobian() > 0) {
+        Eigen::VectorXd storage(optimizer.get_no_nnz_in_jacobian());
+
+        Optimization::MappedConstraintJacobian jacmapped(
+            storage.data(), storage.size(), optimizer.constraints_per_step(),
+            optimizer.controls_per_step(), constraint_timepoints,
+            control_timepoints);
+        jacmapped = optimizer.get_constraint_jacobian();
+        int count = 0;
+        for (auto entry : storage) {
+          if (std::abs(entry) > 1e-10) {
+            ++count;
+          }
         }
-      }
 
-      double sparsity
-          = double(count) / double(optimizer.get_no_nnz_in_jacobian());
-      std::cout << "density of the constraint jacobian: " << 100 * sparsity
-                << "%" << std::endl;
+        double sparsity
+            = double(count) / double(optimizer.get_no_nnz_in_jacobian());
+        std::cout << "density of the constraint jacobian: " << 100 * sparsity
+                  << "%" << std::endl;
+      }
       std::cout << "Cost: " << adaptor.get_cost_value() << std::endl;
       std::cout << "Penalty: " << adaptor.get_penalty_value() << std::endl;
       std::cout << "Overall objective: " << adaptor.get_objective_value()
                 << std::endl;
 
-      auto lower_violation
-          = (-(ipoptconstraints - constraint_lower_bounds.get_allvalues()))
-                .maxCoeff();
+      double lower_violation = 0;
+      double upper_violation = 0;
+      if (ipoptconstraints.size() > 0) {
+        lower_violation
+            = (-(ipoptconstraints - constraint_lower_bounds.get_allvalues()))
+                  .maxCoeff();
+        upper_violation
+            = (-(constraint_upper_bounds.get_allvalues() - ipoptconstraints))
+                  .maxCoeff();
+      }
       std::cout << "Maximum lower constraint violation:\n"
                 << std::max(0.0, lower_violation) << std::endl;
-      auto upper_violation
-          = (-(constraint_upper_bounds.get_allvalues() - ipoptconstraints))
-                .maxCoeff();
       std::cout << "Maximum upper constraint violation:\n"
                 << std::max(0.0, upper_violation) << std::endl;
 
-- 
2.43.0


From 42565076e7b7d8530d3b57e9c5effd8e1857fa50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:28 +0000
Subject: [PATCH 40/44] fix: reject topology and boundary files that hold no
 json object

---
 src/Auxillary/aux_json/Aux_json.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/Auxillary/aux_json/Aux_json.cpp b/src/Auxillary/aux_json/Aux_json.cpp
index 393730e..a5f257a 100644
--- a/src/Auxillary/aux_json/Aux_json.cpp
+++ b/src/Auxillary/aux_json/Aux_json.cpp
@@ -40,7 +40,6 @@ namespace aux_json {
       auto json_path = std::filesystem::path(json_pathstring);
       if (json_path.is_absolute()) {
         sub_json = get_json_from_file_path(json_path.string());
-        return;
       } else { // json_path is relative
         if (!super_json.contains("GRAZER_file_directory")) {
           gthrow(
@@ -52,7 +51,11 @@ namespace aux_json {
             super_json["GRAZER_file_directory"].get<std::string>());
         auto json_full_path = directory_path / json_path;
         sub_json = get_json_from_file_path(json_full_path.string());
-        return;
+      }
+      if (not sub_json.is_object()) {
+        gthrow(
+            {"The file ", json_pathstring, ", given at \"", key,
+             "\", does not hold a json object!"});
       }
 
     } else {
-- 
2.43.0


From 8b1c312bb141b5b511ad46b577c8c790942bc876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:52 +0000
Subject: [PATCH 41/44] fix: report a ConstraintSink without edges in an
 optimization as an error instead of crashing

---
 src/Model/Networkproblem/Gas/ConstraintSink.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/Model/Networkproblem/Gas/ConstraintSink.cpp b/src/Model/Networkproblem/Gas/ConstraintSink.cpp
index ff5c140..8d218a6 100644
--- a/src/Model/Networkproblem/Gas/ConstraintSink.cpp
+++ b/src/Model/Networkproblem/Gas/ConstraintSink.cpp
@@ -15,6 +15,7 @@
  *
  */
 #include "ConstraintSink.hpp"
+#include "Exception.hpp"
 #include "Matrixhandler.hpp"
 #include "SimpleConstraintcomponent.hpp"
 #include "make_schema.hpp"
@@ -33,6 +34,11 @@ namespace Model::Gas {
       Eigen::Ref<Eigen::VectorXd> constraint_values, double /*time*/,
       Eigen::Ref<Eigen::VectorXd const> const &state,
       Eigen::Ref<Eigen::VectorXd const> const & /*control*/) const {
+    if (directed_attached_gas_edges.empty()) {
+      gthrow(
+          {"The ConstraintSink ", get_id(),
+           " has no attached gas edge, so there is no pressure to constrain!"});
+    }
     auto first_direction = directed_attached_gas_edges[0].first;
     auto sample_gas_edge = directed_attached_gas_edges[0].second;
     auto sample_p_qvol
@@ -46,6 +52,11 @@ namespace Model::Gas {
       Aux::Matrixhandler &constraint_new_state_jacobian_handler, double,
       Eigen::Ref<Eigen::VectorXd const> const &state,
       Eigen::Ref<Eigen::VectorXd const> const &) const {
+    if (directed_attached_gas_edges.empty()) {
+      gthrow(
+          {"The ConstraintSink ", get_id(),
+           " has no attached gas edge, so there is no pressure to constrain!"});
+    }
     auto first_direction = directed_attached_gas_edges[0].first;
     auto *sample_gas_edge = directed_attached_gas_edges[0].second;
     Eigen::RowVector2d dconstraint_dpq(1.0, 0.0);
-- 
2.43.0


From 0de1e2c8ab3462cfebd8f77a63cbff2fc5947ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:39:22 +0000
Subject: [PATCH 42/44] fix: report schema files that could not be written

---
 src/Auxillary/json_schema/schema_generation.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Auxillary/json_schema/schema_generation.cpp b/src/Auxillary/json_schema/schema_generation.cpp
index 8416a2c..6070d8d 100644
--- a/src/Auxillary/json_schema/schema_generation.cpp
+++ b/src/Auxillary/json_schema/schema_generation.cpp
@@ -85,9 +85,12 @@ namespace Aux::schema {
 
     for (auto const &[name, schema] : schemas) {
       path file = schema_dir / path(name + "_schema.json");
-      std::ofstream ofs(file);
+      std::ofstream ofs;
+      ofs.exceptions(std::ofstream::failbit | std::ofstream::badbit);
+      ofs.open(file);
       ofs << schema.dump(
           /*indent=*/1, /*indent_char=*/'\t');
+      ofs.close();
     }
   }
 
-- 
2.43.0


From f9a535060c63fa7f6923105063bfd234d1ec6c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:39:22 +0000
Subject: [PATCH 43/44] fix: insert no schema key into files that hold no json
 object

---
 src/Auxillary/json_schema/schema_key_insertion.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Auxillary/json_schema/schema_key_insertion.cpp b/src/Auxillary/json_schema/schema_key_insertion.cpp
index c140148..56222cd 100644
--- a/src/Auxillary/json_schema/schema_key_insertion.cpp
+++ b/src/Auxillary/json_schema/schema_key_insertion.cpp
@@ -42,6 +42,12 @@ namespace Aux::schema {
         ordered_json old_json;
         if (std::filesystem::exists(file)) {
           old_json = aux_json::get_ordered_json_from_file_path(file);
+          if (not old_json.is_object()) {
+            throw std::runtime_error(
+                "The file " + file.string()
+                + " does not hold a json object, so no schema key can be "
+                  "inserted. Aborting!");
+          }
         } else {
           old_json = {};
         }
-- 
2.43.0


From d2b1e80d3a22fe3ba403193ab9da5f1041219e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:42:00 +0000
Subject: [PATCH 44/44] fix: reject json files with trailing content

---
 src/Auxillary/aux_json/Aux_json.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Auxillary/aux_json/Aux_json.cpp b/src/Auxillary/aux_json/Aux_json.cpp
index a5f257a..a90eab4 100644
--- a/src/Auxillary/aux_json/Aux_json.cpp
+++ b/src/Auxillary/aux_json/Aux_json.cpp
@@ -77,7 +77,8 @@ namespace aux_json {
     }
     try {
       std::ifstream jsonfilestream(file_path);
-      jsonfilestream >> json_object;
+      // the whole file must be one json value:
+      json_object = nlohmann::json::parse(jsonfilestream);
     } catch (...) {
       std::cout << __FILE__ << ":" << __LINE__
                 << ": Couldn't load json from file: " << file_path << std::endl;
@@ -96,7 +97,8 @@ namespace aux_json {
     }
     try {
       std::ifstream jsonfilestream(file_path);
-      jsonfilestream >> json_object;
+      // the whole file must be one json value:
+      json_object = nlohmann::ordered_json::parse(jsonfilestream);
     } catch (...) {
       std::cout << __FILE__ << ":" << __LINE__
                 << ": Couldn't load json from file: " << file_path << std::endl;
-- 
2.43.0

