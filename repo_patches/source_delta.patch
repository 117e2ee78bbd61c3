From 29d6c501e0f21f1b1be38556ddb9fc4487f820eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:55 +0000
Subject: [PATCH 01/43] fix: derivative of the Swamee-Jain friction law

d log10(a)/da is 1/(log(10) a), not a/log(10).  The wrong value made the
Newton Jacobian wrong for turbulent flow and the transition curve between
laminar and turbulent friction kink at Re = 4000.
---
 src/Model/Balancelaw/Isothermaleulerequation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Model/Balancelaw/Isothermaleulerequation.cpp b/src/Model/Balancelaw/Isothermaleulerequation.cpp
index d1ec721..486223b 100644
--- a/src/Model/Balancelaw/Isothermaleulerequation.cpp
+++ b/src/Model/Balancelaw/Isothermaleulerequation.cpp
@@ -316,7 +316,7 @@ namespace Model::Balancelaw {
     double x = exp(log(Re) * 0.9);
     double a = roughness / (3.7 * diameter) + 5.74 / x;
     double aux = log10(a);
-    double daux_dRe = 1 / log(10) * a * (-5.74 / (x * x)) * 0.9 * x / Re;
+    double daux_dRe = 1 / (log(10) * a) * (-5.74 / (x * x)) * 0.9 * x / Re;
     double dlambda_dRe = -0.5 / (aux * aux * aux) * daux_dRe;
     return dlambda_dRe;
   }
-- 
2.43.0


From 60c6f7cac25baabf1011515c674e3dd87f3d6d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:11 +0000
Subject: [PATCH 02/43] fix: reject unsorted interpolation points

The check looked at the moved-from (empty) argument, so unsorted points
were accepted and interpolated wrongly.
---
 src/Auxillary/InterpolatingVector/InterpolatingVector.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Auxillary/InterpolatingVector/InterpolatingVector.cpp b/src/Auxillary/InterpolatingVector/InterpolatingVector.cpp
index ced377d..f9f805c 100644
--- a/src/Auxillary/InterpolatingVector/InterpolatingVector.cpp
+++ b/src/Auxillary/InterpolatingVector/InterpolatingVector.cpp
@@ -170,7 +170,7 @@ namespace Aux {
       interpolation_points(std::move(_interpolation_points)),
       inner_length(_inner_length) {
     if (not std::is_sorted(
-            _interpolation_points.begin(), _interpolation_points.end())) {
+            interpolation_points.begin(), interpolation_points.end())) {
       gthrow({"Interpolation points for InterpolatingVector were not sorted!"});
     }
   }
-- 
2.43.0


From c7aca37b3b9639d945b8c1ead21b06ec348946ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:01 +0000
Subject: [PATCH 03/43] fix: time grids end exactly at the given end for all
 magnitudes

Summing up the step accumulated rounding errors, so that the last point
could lie beyond the end (and beyond the boundary data) and the absolute
tolerance of the assertions aborted runs with large times or many steps.
A grid of a single point spanning an interval divided by zero.
---
 .../InterpolatingVector.cpp                   | 46 ++++++++-----------
 .../include/InterpolatingVector.hpp           |  1 +
 2 files changed, 19 insertions(+), 28 deletions(-)

diff --git a/src/Auxillary/InterpolatingVector/InterpolatingVector.cpp b/src/Auxillary/InterpolatingVector/InterpolatingVector.cpp
index f9f805c..65dc74c 100644
--- a/src/Auxillary/InterpolatingVector/InterpolatingVector.cpp
+++ b/src/Auxillary/InterpolatingVector/InterpolatingVector.cpp
@@ -45,16 +45,17 @@ namespace Aux {
            "Supplied first point: ", std::to_string(first_point), "\n",
            "Supplied last point: ", std::to_string(last_point), "\n"});
     }
+    if (number_of_entries == 1) {
+      gthrow(
+          {"You can't span an interval of positive length with only one entry "
+           "in an InterpolatingVector.\n",
+           "Supplied first point: ", std::to_string(first_point), "\n",
+           "Supplied last point: ", std::to_string(last_point), "\n"});
+    }
     size_t number = static_cast<size_t>(number_of_entries);
 
     auto delta = (last_point - first_point) / (number_of_entries - 1);
-    assert(
-        last_point
-        > first_point + (number_of_entries - 1) * delta - Aux::EPSILON);
-    assert(
-        last_point
-        < first_point + (number_of_entries - 1) * delta + Aux::EPSILON);
-    return {first_point, delta, number};
+    return {first_point, delta, number, last_point};
   }
 
   Interpolation_data make_from_start_delta_number(
@@ -71,7 +72,9 @@ namespace Aux {
            "InterpolatingVector.\n",
            "Supplied stepsize: ", std::to_string(delta)});
     }
-    return {first_point, delta, static_cast<size_t>(number_of_entries)};
+    return {
+        first_point, delta, static_cast<size_t>(number_of_entries),
+        first_point + (number_of_entries - 1) * delta};
   }
   Interpolation_data make_from_start_delta_end(
       double first_point, double desired_delta, double last_point) {
@@ -97,16 +100,8 @@ namespace Aux {
     auto delta
         = ((last_point - first_point)
            / (static_cast<double>(number_of_entries - 1)));
-    assert(
-        last_point > first_point
-                         + static_cast<double>(number_of_entries - 1) * delta
-                         - Aux::EPSILON);
-    assert(
-        last_point < first_point
-                         + static_cast<double>(number_of_entries - 1) * delta
-                         + Aux::EPSILON);
 
-    return {first_point, delta, number_of_entries};
+    return {first_point, delta, number_of_entries, last_point};
   }
 
   static std::vector<double>
@@ -115,19 +110,14 @@ namespace Aux {
     auto delta = data.delta;
     auto number_of_entries = data.number_of_entries;
     std::vector<double> interpolation_points;
-    auto currentpoint = startpoint;
-    for (size_t index = 0; index != number_of_entries; ++index) {
-      interpolation_points.push_back(currentpoint);
-      currentpoint += delta;
+    // Every point is computed directly, because summing up delta accumulates
+    // rounding errors, and the last point must be exactly the given one.
+    for (size_t index = 0; index + 1 < number_of_entries; ++index) {
+      interpolation_points.push_back(
+          startpoint + static_cast<double>(index) * delta);
     }
+    interpolation_points.push_back(data.last_point);
     assert(interpolation_points.front() == startpoint);
-    // check for double equality. Should be an aux function...
-    assert(
-        (std::abs(
-            interpolation_points.back()
-            - (startpoint
-               + static_cast<double>(number_of_entries - 1) * delta)))
-        < Aux::EPSILON);
     return interpolation_points;
   }
 
diff --git a/src/Auxillary/InterpolatingVector/include/InterpolatingVector.hpp b/src/Auxillary/InterpolatingVector/include/InterpolatingVector.hpp
index f891ac1..742910b 100644
--- a/src/Auxillary/InterpolatingVector/include/InterpolatingVector.hpp
+++ b/src/Auxillary/InterpolatingVector/include/InterpolatingVector.hpp
@@ -26,6 +26,7 @@ namespace Aux {
     double first_point;
     double delta;
     size_t number_of_entries;
+    double last_point;
   };
   Interpolation_data make_from_start_delta_number(
       double first_point, double delta, int number_of_entries);
-- 
2.43.0


From cf68cf6499c37cbb4011b9634d1b6dec9113f429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:10 +0000
Subject: [PATCH 04/43] fix: report empty or incomplete data series instead of
 crashing

Schemas allow an empty data array, and data points without time or values;
both were accessed unconditionally.
---
 .../InterpolatingVector/InterpolatingVector.cpp      | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/Auxillary/InterpolatingVector/InterpolatingVector.cpp b/src/Auxillary/InterpolatingVector/InterpolatingVector.cpp
index 65dc74c..e0b4e49 100644
--- a/src/Auxillary/InterpolatingVector/InterpolatingVector.cpp
+++ b/src/Auxillary/InterpolatingVector/InterpolatingVector.cpp
@@ -434,6 +434,13 @@ namespace Aux {
       nlohmann::json const &json, nlohmann::json const &schema) {
     Aux::schema::validate_json(json, schema);
 
+    if (json["data"].empty()) {
+      gthrow(
+          {"The data of the following json object is empty, but must contain "
+           "at least one entry:\n",
+           json.dump(1, '\t'), "\n"});
+    }
+
     std::vector<double> interpolation_points;
 
     std::string name;
@@ -443,6 +450,11 @@ namespace Aux {
       name = "time";
     }
     for (auto const &[index, entry] : json["data"].items()) {
+      if (not entry.contains(name) or not entry.contains("values")) {
+        gthrow(
+            {"An entry in the data of the following json object lacks \"", name,
+             "\" or \"values\":\n", json.dump(1, '\t'), "\n"});
+      }
       interpolation_points.push_back(entry[name]);
     }
 
-- 
2.43.0


From 017a38449705df3180d7ff8a674e1f03d993fdd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:29 +0000
Subject: [PATCH 05/43] fix: Newton solver no longer reports success for
 non-finite residuals

---
 src/Newtonsolver/Newtonsolver.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/Newtonsolver/Newtonsolver.cpp b/src/Newtonsolver/Newtonsolver.cpp
index 5831498..20f0009 100644
--- a/src/Newtonsolver/Newtonsolver.cpp
+++ b/src/Newtonsolver/Newtonsolver.cpp
@@ -152,12 +152,8 @@ namespace Solver {
       ++solstruct.used_iterations;
       solstruct.residual = rootvalues.norm();
     }
-    if (solstruct.used_iterations == maximal_iterations
-        and solstruct.residual > tolerance) {
-      solstruct.success = false;
-    } else {
-      solstruct.success = true;
-    }
+    // Written this way a residual that is not a number is no success.
+    solstruct.success = (rootvalues.norm() <= tolerance);
 
     return solstruct;
   }
-- 
2.43.0


From 826fa3179351986e476e46e978e3d8f567cef318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:22 +0000
Subject: [PATCH 06/43] fix: stochastic nodes report the power of the reported
 state at every time

---
 src/Model/Networkproblem/Power/StochasticPQnode.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Model/Networkproblem/Power/StochasticPQnode.cpp b/src/Model/Networkproblem/Power/StochasticPQnode.cpp
index a403406..ecad326 100644
--- a/src/Model/Networkproblem/Power/StochasticPQnode.cpp
+++ b/src/Model/Networkproblem/Power/StochasticPQnode.cpp
@@ -149,8 +149,8 @@ namespace Model::Power {
 
   void StochasticPQnode::json_save(
       double time, Eigen::Ref<Eigen::VectorXd const> const &state) {
-    auto P_val = current_P;
-    auto Q_val = current_Q;
+    auto P_val = P(state);
+    auto Q_val = Q(state);
     auto P_deviation = P_val - boundaryvalue(time)[0];
     auto Q_deviation = Q_val - boundaryvalue(time)[1];
 
-- 
2.43.0


From 2a6c367c0896ec560c3e1bddf62fca90c1ca1d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:39 +0000
Subject: [PATCH 07/43] fix: coefficient handler clears matrices that are not
 compressed too

---
 src/Auxillary/Matrixhandler/Matrixhandler.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Auxillary/Matrixhandler/Matrixhandler.cpp b/src/Auxillary/Matrixhandler/Matrixhandler.cpp
index e8b5955..8be1d9f 100644
--- a/src/Auxillary/Matrixhandler/Matrixhandler.cpp
+++ b/src/Auxillary/Matrixhandler/Matrixhandler.cpp
@@ -57,6 +57,8 @@ namespace Aux {
   Coeffrefhandler<Transpose>::Coeffrefhandler(
       Eigen::SparseMatrix<double> &_matrix) :
       Matrixhandler(_matrix) {
+    // Without compression the coefficients are not stored contiguously.
+    _matrix.makeCompressed();
     // Set the matrix to zero:
     Eigen::Map<Eigen::VectorXd> coefficients(
         _matrix.valuePtr(), _matrix.nonZeros());
-- 
2.43.0


From f53c4e047053a70e577f683ee4ea323817a03a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:39 +0000
Subject: [PATCH 08/43] fix: turbulent friction iteration stops only when
 converged

---
 src/Model/Balancelaw/Isothermaleulerequation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Model/Balancelaw/Isothermaleulerequation.cpp b/src/Model/Balancelaw/Isothermaleulerequation.cpp
index 486223b..73aa101 100644
--- a/src/Model/Balancelaw/Isothermaleulerequation.cpp
+++ b/src/Model/Balancelaw/Isothermaleulerequation.cpp
@@ -337,7 +337,7 @@ namespace Model::Balancelaw {
       double f = mu + 2 * log10(inner);
       double df = 1 + 2 / log(10) * dinner_dmu / inner;
       mu = mu - f / df;
-      if (f < 1e-12) {
+      if (std::abs(f) < 1e-12) {
         break;
       }
     }
-- 
2.43.0


From 3af442929b76b3071a02f4c2c4cd3b7258bb9d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:39 +0000
Subject: [PATCH 09/43] fix: containment of paths is decided on normalised
 paths

---
 src/Auxillary/Input_Output/Input_output.cpp | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/Auxillary/Input_Output/Input_output.cpp b/src/Auxillary/Input_Output/Input_output.cpp
index 04474d3..6c32ef2 100644
--- a/src/Auxillary/Input_Output/Input_output.cpp
+++ b/src/Auxillary/Input_Output/Input_output.cpp
@@ -28,17 +28,14 @@ namespace io {
 
   bool absolute_file_path_in_root(
       const fs::path &problem_root_path, const fs::path &filepath) {
-    auto absolute_path = (problem_root_path / filepath).lexically_normal();
-
-    auto [root_end_iterator, ignored_value] = std::mismatch(
-        problem_root_path.begin(), problem_root_path.end(),
-        absolute_path.begin());
-
-    if (root_end_iterator != problem_root_path.end()) {
-      return false;
-    } else {
-      return true;
-    }
+    // Both paths are normalised, so that dots and separators at the end of the
+    // root make no difference.
+    auto relative_path
+        = (problem_root_path / filepath)
+              .lexically_normal()
+              .lexically_relative(problem_root_path.lexically_normal());
+
+    return not relative_path.empty() and *relative_path.begin() != "..";
   }
 
   fs::path attach_epoch_count(fs::path const &filename) {
-- 
2.43.0


From 6735c14c35575775c2280ec7dbc9be5668788ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:50 +0000
Subject: [PATCH 10/43] fix: time stamps have a fixed width

---
 src/Auxillary/Input_Output/Input_output.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Auxillary/Input_Output/Input_output.cpp b/src/Auxillary/Input_Output/Input_output.cpp
index 6c32ef2..f4d5f38 100644
--- a/src/Auxillary/Input_Output/Input_output.cpp
+++ b/src/Auxillary/Input_Output/Input_output.cpp
@@ -17,6 +17,7 @@
 #include "Input_output.hpp"
 #include "Exception.hpp"
 
+#include <algorithm>
 #include <filesystem>
 #include <fstream>
 #include <iostream>
@@ -111,6 +112,8 @@ namespace io {
             nowtime - time_up_to_seconds);
 
     auto ms_string = std::to_string(ms_since_second.count());
+    // Padded, so that the names have a fixed width and sort by time.
+    ms_string.insert(0, 3 - std::min<size_t>(3, ms_string.size()), '0');
     char mbstr[32];
     if (std::strftime(
             mbstr, sizeof(mbstr), "%Y.%m.%d_%H:%M:%S", std::localtime(&t))) {
-- 
2.43.0


From 71c9fe3257050a0cbe7464d66c35a9ac21e9e9f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:03 +0000
Subject: [PATCH 11/43] fix: time settings without a time grid are reported

---
 .../InterpolatingVector.cpp                   |  8 ++++++
 src/Auxillary/Timedata/Timedata.cpp           | 25 ++++++++++++++++---
 2 files changed, 30 insertions(+), 3 deletions(-)

diff --git a/src/Auxillary/InterpolatingVector/InterpolatingVector.cpp b/src/Auxillary/InterpolatingVector/InterpolatingVector.cpp
index e0b4e49..ebbaf7f 100644
--- a/src/Auxillary/InterpolatingVector/InterpolatingVector.cpp
+++ b/src/Auxillary/InterpolatingVector/InterpolatingVector.cpp
@@ -23,6 +23,7 @@
 #include "schema_validation.hpp"
 
 #include <algorithm>
+#include <limits>
 
 #include <stdexcept>
 #include <string>
@@ -95,6 +96,13 @@ namespace Aux {
     auto number_of_entries_double
         = (std::ceil((last_point - first_point) / desired_delta)) + 1;
 
+    if (not(number_of_entries_double < std::numeric_limits<int>::max())) {
+      gthrow(
+          {"The step size is too small for the interval in an "
+           "InterpolatingVector.\n",
+           "Supplied desired stepsize: ", std::to_string(desired_delta)});
+    }
+
     auto number_of_entries = static_cast<size_t>(number_of_entries_double);
 
     auto delta
diff --git a/src/Auxillary/Timedata/Timedata.cpp b/src/Auxillary/Timedata/Timedata.cpp
index d31e018..3dfe329 100644
--- a/src/Auxillary/Timedata/Timedata.cpp
+++ b/src/Auxillary/Timedata/Timedata.cpp
@@ -15,7 +15,11 @@
  *
  */
 #include "Timedata.hpp"
+#include <cmath>
 #include <iostream>
+#include <limits>
+#include <stdexcept>
+#include <string>
 
 namespace Model {
 
@@ -27,9 +31,24 @@ namespace Model {
       delta_t(init_delta_t()) {}
 
   int Timedata::init_Number_of_timesteps(double desired_delta_t) const {
-    int const _Number_of_timesteps
-        = static_cast<int>(std::ceil(get_timeinterval() / desired_delta_t)) + 1;
-    return _Number_of_timesteps;
+    if (not(endtime > starttime) or not(desired_delta_t > 0)) {
+      throw std::runtime_error(
+          "The end time must be greater than the start time and the desired "
+          "time step must be positive.\nSupplied start time: "
+          + std::to_string(starttime)
+          + "\nSupplied end time: " + std::to_string(endtime)
+          + "\nSupplied desired time step: " + std::to_string(desired_delta_t)
+          + "\n");
+    }
+    double const number_of_steps
+        = std::ceil(get_timeinterval() / desired_delta_t);
+    if (not(number_of_steps < std::numeric_limits<int>::max())) {
+      throw std::runtime_error(
+          "The desired time step is too small for the simulated time.\n"
+          "Supplied desired time step: "
+          + std::to_string(desired_delta_t) + "\n");
+    }
+    return static_cast<int>(number_of_steps) + 1;
   }
 
   double Timedata::get_starttime() const { return starttime; }
-- 
2.43.0


From 17ec19987a5ffc370624b10b5e621d6518121bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:26 +0000
Subject: [PATCH 12/43] fix: constraint sinks constrain the pressure, not the
 state of the pipe

---
 src/Model/Networkproblem/Gas/ConstraintSink.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/Model/Networkproblem/Gas/ConstraintSink.cpp b/src/Model/Networkproblem/Gas/ConstraintSink.cpp
index f2d2a39..0ac1f3b 100644
--- a/src/Model/Networkproblem/Gas/ConstraintSink.cpp
+++ b/src/Model/Networkproblem/Gas/ConstraintSink.cpp
@@ -35,22 +35,23 @@ namespace Model::Gas {
       Eigen::Ref<Eigen::VectorXd const> const & /*control*/) const {
     auto first_direction = directed_attached_gas_edges[0].first;
     auto sample_gas_edge = directed_attached_gas_edges[0].second;
-    auto sample_boundary_state
-        = sample_gas_edge->get_boundary_state(first_direction, state);
-    auto sample_pressure = sample_boundary_state[0];
+    auto sample_p_qvol
+        = sample_gas_edge->get_boundary_p_qvol_bar(first_direction, state);
+    auto sample_pressure = sample_p_qvol[0];
 
     constraint_values[get_constraint_startindex()] = sample_pressure;
   }
 
   void ConstraintSink::d_evaluate_constraint_d_state(
       Aux::Matrixhandler &constraint_new_state_jacobian_handler, double,
-      Eigen::Ref<Eigen::VectorXd const> const &,
+      Eigen::Ref<Eigen::VectorXd const> const &state,
       Eigen::Ref<Eigen::VectorXd const> const &) const {
     auto first_direction = directed_attached_gas_edges[0].first;
     auto *sample_gas_edge = directed_attached_gas_edges[0].second;
-    auto index = sample_gas_edge->get_boundary_state_index(first_direction);
-    constraint_new_state_jacobian_handler.add_to_coefficient(
-        get_constraint_startindex(), index, 1.0);
+    Eigen::RowVector2d dconstraint_dpq(1.0, 0.0);
+    sample_gas_edge->dboundary_p_qvol_dstate(
+        first_direction, constraint_new_state_jacobian_handler,
+        dconstraint_dpq, get_constraint_startindex(), state);
   }
 
   void ConstraintSink::d_evaluate_constraint_d_control(
-- 
2.43.0


From c11f970e488d6b553831689940cdff41ac1ecbf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:55 +0000
Subject: [PATCH 13/43] fix: constraining an unattached constraint sink is an
 error

---
 src/Model/Networkproblem/Gas/ConstraintSink.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/Model/Networkproblem/Gas/ConstraintSink.cpp b/src/Model/Networkproblem/Gas/ConstraintSink.cpp
index 0ac1f3b..de0ffea 100644
--- a/src/Model/Networkproblem/Gas/ConstraintSink.cpp
+++ b/src/Model/Networkproblem/Gas/ConstraintSink.cpp
@@ -15,6 +15,7 @@
  *
  */
 #include "ConstraintSink.hpp"
+#include "Exception.hpp"
 #include "Matrixhandler.hpp"
 #include "SimpleConstraintcomponent.hpp"
 #include "make_schema.hpp"
@@ -61,6 +62,12 @@ namespace Model::Gas {
   void ConstraintSink::set_constraint_lower_bounds(
       Aux::InterpolatingVector_Base &full_lower_bound_vector,
       const nlohmann::json &constraint_lower_bounds_json) const {
+    if (directed_attached_gas_edges.empty()) {
+      gthrow(
+          {"The node ", get_id(),
+           " has no attached gas edge, so its pressure can't be "
+           "constrained."});
+    }
     set_simple_constraint_values(
         this, full_lower_bound_vector, constraint_lower_bounds_json,
         get_constraint_schema());
-- 
2.43.0


From da6f05c41bd722096c0a4b557c67361665e80bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:19 +0000
Subject: [PATCH 14/43] fix: first constraint time may be later than the first
 time step

---
 src/IpoptWrapper/ImplicitOptimizer.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/IpoptWrapper/ImplicitOptimizer.cpp b/src/IpoptWrapper/ImplicitOptimizer.cpp
index 68a032b..d565a50 100644
--- a/src/IpoptWrapper/ImplicitOptimizer.cpp
+++ b/src/IpoptWrapper/ImplicitOptimizer.cpp
@@ -566,8 +566,9 @@ namespace Optimization {
           // constraints:
           // Find out, whether a new constraint appears at this index:
           bool current_step_is_new_constraint_time = false;
-          if (constraint_timepoints[constraint_index - 1]
-              == state_timepoints[state_index]) {
+          if (constraint_index > 0
+              and constraint_timepoints[constraint_index - 1]
+                      == state_timepoints[state_index]) {
             constraints_are_active_at_current_time = true;
             --constraint_index;
             current_step_is_new_constraint_time = true;
-- 
2.43.0


From 3d68882f5a1bc1cbc051fb1ba50114019cbd6b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:24 +0000
Subject: [PATCH 15/43] fix: an optimization without states for its result ends
 with an error

---
 src/Grazer/commands.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/Grazer/commands.cpp b/src/Grazer/commands.cpp
index dd5fcbc..d5c98ee 100644
--- a/src/Grazer/commands.cpp
+++ b/src/Grazer/commands.cpp
@@ -252,7 +252,12 @@ int grazer::run(std::filesystem::path directory_path) {
 
       Eigen::VectorXd ipoptconstraints(optimizer.get_total_no_constraints());
 
-      optimizer.evaluate_constraints(ipoptcontrols, ipoptconstraints);
+      optimizer.new_x();
+      if (not optimizer.evaluate_constraints(ipoptcontrols, ipoptconstraints)) {
+        throw std::runtime_error(
+            "The optimization failed: The states belonging to its result could "
+            "not be computed.");
+      }
       auto lower_violation
           = (-(ipoptconstraints - constraint_lower_bounds.get_allvalues()))
                 .maxCoeff();
@@ -265,7 +270,6 @@ int grazer::run(std::filesystem::path directory_path) {
                 << std::max(0.0, upper_violation) << std::endl;
 
       double objective = 0;
-      optimizer.new_x();
       optimizer.evaluate_objective(ipoptcontrols, objective);
       auto &state_solution = optimizer.get_current_full_state();
       Aux::ConstMappedInterpolatingVector const control_solution(
-- 
2.43.0


From bad930004531ae97893aa89068f9e59b44054cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:48 +0000
Subject: [PATCH 16/43] fix: optimizations without constraints can report their
 result

---
 src/Grazer/commands.cpp | 56 ++++++++++++++++++++++-------------------
 1 file changed, 30 insertions(+), 26 deletions(-)

diff --git a/src/Grazer/commands.cpp b/src/Grazer/commands.cpp
index d5c98ee..d06d69d 100644
--- a/src/Grazer/commands.cpp
+++ b/src/Grazer/commands.cpp
@@ -225,24 +225,26 @@ int grazer::run(std::filesystem::path directory_path) {
 
       adaptor.optimize();
 
-      Eigen::VectorXd storage(optimizer.get_no_nnz_in_jacobian());
-
-      Optimization::MappedConstraintJacobian jacmapped(
-          storage.data(), storage.size(), optimizer.constraints_per_step(),
-          optimizer.controls_per_step(), constraint_timepoints,
-          control_timepoints);
-      jacmapped = optimizer.get_constraint_jacobian();
-      int count = 0;
-      for (auto entry : storage) {
-        if (std::abs(entry) > 1e-10) {
-          ++count;
+      if (optimizer.get_no_nnz_in_jacobian() > 0) {
+        Eigen::VectorXd storage(optimizer.get_no_nnz_in_jacobian());
+
+        Optimization::MappedConstraintJacobian jacmapped(
+            storage.data(), storage.size(), optimizer.constraints_per_step(),
+            optimizer.controls_per_step(), constraint_timepoints,
+            control_timepoints);
+        jacmapped = optimizer.get_constraint_jacobian();
+        int count = 0;
+        for (auto entry : storage) {
+          if (std::abs(entry) > 1e-10) {
+            ++count;
+          }
         }
-      }
 
-      double sparsity
-          = double(count) / double(optimizer.get_no_nnz_in_jacobian());
-      std::cout << "density of the constraint jacobian: " << 100 * sparsity
-                << "%" << std::endl;
+        double sparsity
+            = double(count) / double(optimizer.get_no_nnz_in_jacobian());
+        std::cout << "density of the constraint jacobian: " << 100 * sparsity
+                  << "%" << std::endl;
+      }
       std::cout << "Cost: " << adaptor.get_cost_value() << std::endl;
       std::cout << "Penalty: " << adaptor.get_penalty_value() << std::endl;
       std::cout << "Overall objective: " << adaptor.get_objective_value()
@@ -258,16 +260,18 @@ int grazer::run(std::filesystem::path directory_path) {
             "The optimization failed: The states belonging to its result could "
             "not be computed.");
       }
-      auto lower_violation
-          = (-(ipoptconstraints - constraint_lower_bounds.get_allvalues()))
-                .maxCoeff();
-      std::cout << "Maximum lower constraint violation:\n"
-                << std::max(0.0, lower_violation) << std::endl;
-      auto upper_violation
-          = (-(constraint_upper_bounds.get_allvalues() - ipoptconstraints))
-                .maxCoeff();
-      std::cout << "Maximum upper constraint violation:\n"
-                << std::max(0.0, upper_violation) << std::endl;
+      if (ipoptconstraints.size() > 0) {
+        auto lower_violation
+            = (-(ipoptconstraints - constraint_lower_bounds.get_allvalues()))
+                  .maxCoeff();
+        std::cout << "Maximum lower constraint violation:\n"
+                  << std::max(0.0, lower_violation) << std::endl;
+        auto upper_violation
+            = (-(constraint_upper_bounds.get_allvalues() - ipoptconstraints))
+                  .maxCoeff();
+        std::cout << "Maximum upper constraint violation:\n"
+                  << std::max(0.0, upper_violation) << std::endl;
+      }
 
       double objective = 0;
       optimizer.evaluate_objective(ipoptcontrols, objective);
-- 
2.43.0


From 0edda0e878b27534059dd7bc40bd87272b8ceffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:57 +0000
Subject: [PATCH 17/43] fix: optimizing a problem without controls is an error

---
 src/Grazer/commands.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Grazer/commands.cpp b/src/Grazer/commands.cpp
index d06d69d..490f418 100644
--- a/src/Grazer/commands.cpp
+++ b/src/Grazer/commands.cpp
@@ -150,6 +150,10 @@ int grazer::run(std::filesystem::path directory_path) {
       wall_clock_sim_end = Clock::now();
     } else {
       // optimize!
+      if (problem.get_number_of_controls_per_timepoint() == 0) {
+        throw std::runtime_error(
+            "There are no controls to optimize in this problem.");
+      }
       Eigen::Index n = 1;
       if (all_json.contains("constraint_settings")) {
         auto &constraint_settings = all_json["constraint_settings"];
-- 
2.43.0


From 1084419fb10be4fd72f83795c55189d3a5bace73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:57 +0000
Subject: [PATCH 18/43] fix: reported costs belong to the solution of the
 optimization

---
 src/IpoptWrapper/Wrapper.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/IpoptWrapper/Wrapper.cpp b/src/IpoptWrapper/Wrapper.cpp
index f24fec4..16310cd 100644
--- a/src/IpoptWrapper/Wrapper.cpp
+++ b/src/IpoptWrapper/Wrapper.cpp
@@ -161,7 +161,7 @@ namespace Optimization {
       Ipopt::IpoptCalculatedQuantities * /* ip_cq */) {
     if (status != Ipopt::SUCCESS) {
       std::cout << "\n\n\nFAILED TO FIND AN OPTIMUM:\nIpopt status was: "
-                << static_cast<int>(Ipopt::SUCCESS) << "\n";
+                << static_cast<int>(status) << "\n";
       std::cout << "Compare the values to the enum Ipopt::SUCCESS in the IPOPT "
                    "manual for what "
                    "that means.\n\n\n"
@@ -171,6 +171,8 @@ namespace Optimization {
     Eigen::Map<Eigen::VectorXd const> constraints(g, number_of_constraints);
     best_solution = solution;
     best_objective_value = obj_value;
+    // Ipopt may have evaluated other points after the solution.
+    optimizer->new_x();
     best_cost_value = 0;
     optimizer->evaluate_cost(solution, best_cost_value);
     best_penalty_value = 0;
-- 
2.43.0


From 4dc941db1fd3814b1c27f1c472cb955e7bd6466d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:32 +0000
Subject: [PATCH 19/43] fix: failing writes of json files are reported and
 never lose the old contents

---
 src/Auxillary/aux_json/Aux_json.cpp | 46 +++++++++++++----------------
 1 file changed, 21 insertions(+), 25 deletions(-)

diff --git a/src/Auxillary/aux_json/Aux_json.cpp b/src/Auxillary/aux_json/Aux_json.cpp
index df956c4..4bb52ad 100644
--- a/src/Auxillary/aux_json/Aux_json.cpp
+++ b/src/Auxillary/aux_json/Aux_json.cpp
@@ -17,6 +17,8 @@
 #include <Aux_json.hpp>
 #include <Exception.hpp>
 #include <filesystem>
+#include <cerrno>
+#include <cstdio>
 #include <fstream>
 #include <iostream>
 #include <string>
@@ -106,38 +108,32 @@ namespace aux_json {
       std::filesystem::path const &file_path,
       nlohmann::ordered_json const &new_json) {
 
-    // creating a backup if this file existed
-    bool had_existed = false;
-    std::filesystem::path backup_path = file_path.parent_path() / "tmp_backup";
-    if (std::filesystem::exists(file_path)) {
-      had_existed = true;
-      std::filesystem::rename(file_path, backup_path);
-      if (not std::filesystem::exists(backup_path)) {
-        throw std::filesystem::filesystem_error(
-            "backup file could not be created, aborting", std::error_code());
+    // The new contents are written to a file of their own first, so that
+    // at every time either the old or the new contents are present completely.
+    std::filesystem::path new_path;
+    std::FILE *new_file = nullptr;
+    for (int number = 0; new_file == nullptr; ++number) {
+      new_path = file_path;
+      new_path += ".tmp" + std::to_string(number);
+      new_file = std::fopen(new_path.string().c_str(), "wx");
+      if (new_file == nullptr and errno != EEXIST) {
+        gthrow({"Could not create the file ", new_path.string()});
       }
     }
+    std::fclose(new_file);
 
     try {
-      // attempting the overwrite
-      std::ofstream ofs(file_path, std::ofstream::trunc);
+      std::ofstream ofs(new_path, std::ofstream::trunc);
       ofs << new_json.dump(/*indent=*/1, /*indent_char=*/'\t');
       ofs.close();
-    } catch (...) {
-      std::cout << "something went wrong writing the modified json to file"
-                << std::endl;
-      if (had_existed) {
-        if (std::filesystem::exists(backup_path)) {
-          std::cout << "rolling back to old version" << std::endl;
-          std::filesystem::rename(backup_path, file_path);
-        } else {
-          std::cout << "backup file is missing!" << std::endl;
-        }
+      if (not ofs) {
+        gthrow({"Could not write the new contents of ", file_path.string()});
       }
-    }
-    // remove backup
-    if (had_existed) {
-      std::filesystem::remove(backup_path);
+      std::filesystem::rename(new_path, file_path);
+    } catch (...) {
+      std::error_code ignored;
+      std::filesystem::remove(new_path, ignored);
+      throw;
     }
   }
 
-- 
2.43.0


From 081afb592a041cab349f65ce8734b6a97606351f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:32 +0000
Subject: [PATCH 20/43] fix: tagged files get the current schema reference,
 files without an object are refused

---
 src/Auxillary/json_schema/schema_key_insertion.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/Auxillary/json_schema/schema_key_insertion.cpp b/src/Auxillary/json_schema/schema_key_insertion.cpp
index c140148..9669b1f 100644
--- a/src/Auxillary/json_schema/schema_key_insertion.cpp
+++ b/src/Auxillary/json_schema/schema_key_insertion.cpp
@@ -45,10 +45,17 @@ namespace Aux::schema {
         } else {
           old_json = {};
         }
+        if (not old_json.is_object() and not old_json.is_null()) {
+          throw std::runtime_error(
+              "The file " + file.string() + " does not hold a json object!");
+        }
         ordered_json result;
         result["$schema"] = "../schemas/" + type + "_schema.json";
         for (auto &[key, value] : old_json.items()) {
-          result[key] = std::move(value);
+          // a reference that is already present must not replace the new one.
+          if (key != "$schema") {
+            result[key] = std::move(value);
+          }
         }
         aux_json::overwrite_json(file, result);
       } else {
-- 
2.43.0


From bd85e7d3bf5800db2300ab3a0630d8362073c2db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:49 +0000
Subject: [PATCH 21/43] fix: results and schemas that cannot be written
 completely are an error

---
 src/Auxillary/json_schema/schema_generation.cpp |  4 ++++
 src/Grazer/commands.cpp                         | 15 +++++++++++++++
 2 files changed, 19 insertions(+)

diff --git a/src/Auxillary/json_schema/schema_generation.cpp b/src/Auxillary/json_schema/schema_generation.cpp
index 789a9ff..fc75ff8 100644
--- a/src/Auxillary/json_schema/schema_generation.cpp
+++ b/src/Auxillary/json_schema/schema_generation.cpp
@@ -88,6 +88,10 @@ namespace Aux::schema {
       std::ofstream ofs(file);
       ofs << schema.dump(
           /*indent=*/1, /*indent_char=*/'\t');
+      ofs.close();
+      if (not ofs) {
+        gthrow({"Could not write the file ", file.string()});
+      }
     }
   }
 
diff --git a/src/Grazer/commands.cpp b/src/Grazer/commands.cpp
index 490f418..b6a778e 100644
--- a/src/Grazer/commands.cpp
+++ b/src/Grazer/commands.cpp
@@ -139,6 +139,11 @@ int grazer::run(std::filesystem::path directory_path) {
                   << std::endl;
         std::ofstream o(states_outputfile);
         o << states_output_json.dump(1, '\t');
+        o.close();
+        if (not o) {
+          throw std::runtime_error(
+              "Could not write the file " + states_outputfile.string());
+        }
       } catch (std::exception &e) {
         std::ostringstream o;
         o << "Printing to files failed with error message:"
@@ -304,6 +309,11 @@ int grazer::run(std::filesystem::path directory_path) {
             = output_directory / "controls.json";
         std::ofstream o(control_outputfile);
         o << control_output_json.dump(1, '\t');
+        o.close();
+        if (not o) {
+          throw std::runtime_error(
+              "Could not write the file " + control_outputfile.string());
+        }
 
       } catch (std::exception &e) {
         std::ostringstream o;
@@ -323,6 +333,11 @@ int grazer::run(std::filesystem::path directory_path) {
             = output_directory / "states.json";
         std::ofstream o(states_outputfile);
         o << states_output_json.dump(1, '\t');
+        o.close();
+        if (not o) {
+          throw std::runtime_error(
+              "Could not write the file " + states_outputfile.string());
+        }
       } catch (std::exception &e) {
         std::ostringstream o;
         o << "Printing to state output file failed with error message:"
-- 
2.43.0


From bd9d28b9c7e1ac0303e2404684bcfbcddad2efe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:47 +0000
Subject: [PATCH 22/43] fix: schema of the problem data describes the problem
 data the program reads

---
 docs/problem_data_schema.json                 | 162 ++++++++----------
 .../json_schema/schema_generation.cpp         |  94 ++++------
 2 files changed, 108 insertions(+), 148 deletions(-)

diff --git a/docs/problem_data_schema.json b/docs/problem_data_schema.json
index a1467e5..03111fb 100644
--- a/docs/problem_data_schema.json
+++ b/docs/problem_data_schema.json
@@ -1,93 +1,73 @@
 {
-	"$schema": "http://json-schema.org/draft-07/schema",
-	"type": "object",
-	"description": "Metadata of the Problem",
-	"required": ["time_evolution_data", "initial_values", "problem_data"],
-	"properties": {
-		"time_evolution_data": {
-			"type": "object",
-			"description": "provides all data on time and newton solver",
-			"required": [
-				"use_simplified_newton",
-				"maximal_number_of_newton_iterations",
-				"tolerance",
-				"retries",
-				"start_time",
-				"end_time",
-				"desired_delta_t"
-			],
-			"properties": {
-				"use_simplified_newton": {"type": "boolean"},
-				"maximal_number_of_newton_iterations": {"type": "integer", "minimum": 0},
-				"tolerance": {"type": "number"},
-				"retries": {"type": "integer", "minimum": 0},
-				"start_time": {"type": "number"},
-				"end_time": {"type": "number"},
-				"desired_delta_t": {"type": "number"}
-			}
-		},
-		"initial_values": {
-			"type": "object",
-			"description": "holds a file name to an additional initial values json sorted by subproblem",
-			"required": ["subproblems"],
-			"properties": {
-				"subproblems": {
-					"type": "object",
-					"required": ["Network_problem"],
-					"properties": {
-						"Network_problem": {
-							"type": "object",
-							"required": ["initial_json"],
-							"properties": {
-								"initial_json": {
-									"type": "string",
-									"format": "iri-reference",
-									"description": "Initial Values JSON file"
-								}
-							}
-						}
-					}
-				}
-			}
-		},
-		"problem_data": {
-			"type": "object",
-			"description": "holds a file name to an additional initial values json sorted by subproblem",
-			"required": ["subproblems"],
-			"properties": {
-				"subproblems": {
-					"type": "object",
-					"required": ["Network_problem"],
-					"properties": {
-						"Network_problem": {
-							"type": "object",
-							"required": ["defaults", "topology_json", "boundary_json", "control_json"],
-							"properties": {
-								"defaults": {
-									"type": "object",
-									"patternProperties": {"^.*$": {"type": "object"}},
-									"description": "Components With default Topology Properties"
-								},
-								"topology_json": {
-									"type": "string",
-									"format": "iri-reference",
-									"description": "Topology JSON file"
-								},
-								"boundary_json": {
-									"type": "string",
-									"format": "iri-reference",
-									"description": "Boundary JSON file"
-								},
-								"control": {
-									"type": "string",
-									"format": "iri-reference",
-									"description": "Control JSON file"
-								}
-							}
-						}
-					}
-				}
-			}
-		}
-	}
+  "$schema": "http://json-schema.org/draft-07/schema",
+  "type": "object",
+  "description": "Metadata of the Problem",
+  "required": ["simulation_settings", "problem_data"],
+  "properties": {
+    "optimize": {
+      "type": "boolean",
+      "description": "whether to optimize the controls instead of only simulating"
+    },
+    "control_settings": {
+      "type": "object",
+      "description": "the time grid of the controls, by step width or by number of steps",
+      "properties": {
+        "desired_delta_t": {"type": "number"},
+        "number_of_steps": {"type": "integer", "minimum": 1}
+      },
+      "oneOf": [
+        {"required": ["desired_delta_t"]},
+        {"required": ["number_of_steps"]}
+      ]
+    },
+    "constraint_settings": {
+      "type": "object",
+      "description": "the time points at which constraints are evaluated",
+      "properties": {
+        "evaluate_constraints_every_n": {"type": "integer"}
+      }
+    },
+    "simulation_settings": {
+      "type": "object",
+      "description": "provides all data on time and newton solver",
+      "required": [
+        "use_simplified_newton",
+        "maximal_number_of_newton_iterations",
+        "tolerance",
+        "retries",
+        "start_time",
+        "end_time",
+        "desired_delta_t"
+      ],
+      "properties": {
+        "use_simplified_newton": {"type": "boolean"},
+        "maximal_number_of_newton_iterations": {"type": "integer", "minimum": 0},
+        "tolerance": {"type": "number"},
+        "retries": {"type": "integer", "minimum": 0},
+        "start_time": {"type": "number"},
+        "end_time": {"type": "number"},
+        "desired_delta_t": {"type": "number"}
+      }
+    },
+    "problem_data": {
+      "type": "object",
+      "description": "holds the topology and the boundary values, usually as names of their files",
+      "required": ["topology_json", "boundary_json"],
+      "properties": {
+        "defaults": {
+          "type": "object",
+          "patternProperties": {"^.*$": {"type": "object"}},
+          "description": "Components With default Topology Properties"
+        },
+        "topology_json": {
+          "type": ["string", "object"],
+          "description": "Topology JSON file or the topology itself"
+        },
+        "boundary_json": {
+          "type": ["string", "object"],
+          "description": "Boundary JSON file or the boundary values themselves"
+        }
+      }
+    }
+  }
 }
diff --git a/src/Auxillary/json_schema/schema_generation.cpp b/src/Auxillary/json_schema/schema_generation.cpp
index fc75ff8..709a062 100644
--- a/src/Auxillary/json_schema/schema_generation.cpp
+++ b/src/Auxillary/json_schema/schema_generation.cpp
@@ -129,8 +129,31 @@ namespace Aux::schema {
       "$schema": "http://json-schema.org/draft-07/schema",
       "type": "object",
       "description": "Metadata of the Problem",
-      "required": ["simulation_settings", "initial_values", "problem_data"],
+      "required": ["simulation_settings", "problem_data"],
       "properties": {
+        "optimize": {
+          "type": "boolean",
+          "description": "whether to optimize the controls instead of only simulating"
+        },
+        "control_settings": {
+          "type": "object",
+          "description": "the time grid of the controls, by step width or by number of steps",
+          "properties": {
+            "desired_delta_t": {"type": "number"},
+            "number_of_steps": {"type": "integer", "minimum": 1}
+          },
+          "oneOf": [
+            {"required": ["desired_delta_t"]},
+            {"required": ["number_of_steps"]}
+          ]
+        },
+        "constraint_settings": {
+          "type": "object",
+          "description": "the time points at which constraints are evaluated",
+          "properties": {
+            "evaluate_constraints_every_n": {"type": "integer"}
+          }
+        },
         "simulation_settings": {
           "type": "object",
           "description": "provides all data on time and newton solver",
@@ -153,66 +176,23 @@ namespace Aux::schema {
             "desired_delta_t": {"type": "number"}
           }
         },
-        "initial_values": {
-          "type": "object",
-          "description": "holds a file name to an additional initial values json sorted by subproblem",
-          "required": ["subproblems"],
-          "properties": {
-            "subproblems": {
-              "type": "object",
-              "required": ["Network_problem"],
-              "properties": {
-                "Network_problem": {
-                  "type": "object",
-                  "required": ["initial_json"],
-                  "properties": {
-                    "initial_json": {
-                      "type": "string",
-                      "format": "iri-reference",
-                      "description": "Initial Values JSON file"
-                    }
-                  }
-                }
-              }
-            }
-          }
-        },
         "problem_data": {
           "type": "object",
-          "description": "holds a file name to an additional initial values json sorted by subproblem",
-          "required": ["subproblems"],
+          "description": "holds the topology and the boundary values, usually as names of their files",
+          "required": ["topology_json", "boundary_json"],
           "properties": {
-            "subproblems": {
+            "defaults": {
               "type": "object",
-              "required": ["Network_problem"],
-              "properties": {
-                "Network_problem": {
-                  "type": "object",
-                  "required": ["defaults", "topology_json", "boundary_json", "control_json"],
-                  "properties": {
-                    "defaults": {
-                      "type": "object",
-                      "patternProperties": {"^.*$": {"type": "object"}},
-                      "description": "Components With default Topology Properties"
-                    },
-                    "topology_json": {
-                      "type": "string",
-                      "format": "iri-reference",
-                      "description": "Topology JSON file"
-                    },
-                    "boundary_json": {
-                      "type": "string",
-                      "format": "iri-reference",
-                      "description": "Boundary JSON file"
-                    },
-                    "control": {
-                      "type": "string",
-                      "format": "iri-reference",
-                      "description": "Control JSON file"
-                    }
-                  }
-                }
-              }
+              "patternProperties": {"^.*$": {"type": "object"}},
+              "description": "Components With default Topology Properties"
+            },
+            "topology_json": {
+              "type": ["string", "object"],
+              "description": "Topology JSON file or the topology itself"
+            },
+            "boundary_json": {
+              "type": ["string", "object"],
+              "description": "Boundary JSON file or the boundary values themselves"
             }
           }
         }
-- 
2.43.0


From 1faab06c4006ab9609cb97095b0f674cf5c0f8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:54 +0000
Subject: [PATCH 23/43] fix: schemas do not require kinds of components a
 problem does not have

---
 src/Model/Componentfactory/Componentfactory.cpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/Model/Componentfactory/Componentfactory.cpp b/src/Model/Componentfactory/Componentfactory.cpp
index bcad9d0..a10cb1f 100644
--- a/src/Model/Componentfactory/Componentfactory.cpp
+++ b/src/Model/Componentfactory/Componentfactory.cpp
@@ -35,7 +35,6 @@ namespace Model::Componentfactory {
       "$schema": "http://json-schema.org/draft-07/schema",
       "title": "Initial Data",
       "description": "Description of the Networks Initial Data",
-      "required": ["nodes", "connections"],
       "properties": {
         "nodes": {"type": "object", "additionalProperties": false, "properties": {}},
         "connections": {"type": "object", "additionalProperties": false, "properties": {}}
@@ -73,7 +72,6 @@ namespace Model::Componentfactory {
       "$schema": "http://json-schema.org/draft-07/schema",
       "title": "Control",
       "description": "Description of the Controls of a Component",
-      "required": ["nodes", "connections"],
       "properties": {
         "nodes": {"type": "object", "additionalProperties": false, "properties": {}},
         "connections": {"type": "object", "additionalProperties": false, "properties": {}}
@@ -111,7 +109,6 @@ namespace Model::Componentfactory {
       "$schema": "http://json-schema.org/draft-07/schema",
       "title": "Boundary",
       "description": "Description of the Networks Boundary Behaviour",
-      "required": ["nodes", "connections"],
       "properties": {
         "nodes": {"type": "object", "additionalProperties": false, "properties": {}},
         "connections": {"type": "object", "additionalProperties": false, "properties": {}}
@@ -150,7 +147,6 @@ namespace Model::Componentfactory {
       "$schema": "http://json-schema.org/draft-07/schema",
       "title": "Topology",
       "description": "Description of the Network Topology",
-      "required": ["nodes", "connections"],
       "properties": {
         "nodes": {"type": "object", "additionalProperties": false, "properties": {}},
         "connections": {"type": "object", "additionalProperties": false, "properties": {}}
-- 
2.43.0


From 5d366c73c3cd1bceac0c20f1251eebbfb52c9efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:55 +0000
Subject: [PATCH 24/43] fix: schemas demand time and values of boundary and
 control points

---
 src/Auxillary/json_schema/make_schema.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Auxillary/json_schema/make_schema.cpp b/src/Auxillary/json_schema/make_schema.cpp
index 5b69c18..83e0bfa 100644
--- a/src/Auxillary/json_schema/make_schema.cpp
+++ b/src/Auxillary/json_schema/make_schema.cpp
@@ -159,9 +159,9 @@ namespace Aux::schema {
       }
     })"_json;
 
-    nlohmann::json data_element;
-    add_property(data_element, "time", type::number());
-    add_property(
+    nlohmann::json data_element = type::simple("object");
+    add_required(data_element, "time", type::number());
+    add_required(
         data_element, "values",
         make_list_schema_of(
             type::number(),
-- 
2.43.0


From 7eee071a648213d6c1239ed411b80d39e65a3c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:00 +0000
Subject: [PATCH 25/43] fix: missing time settings are reported

---
 src/Auxillary/Timedata/Timedata.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Auxillary/Timedata/Timedata.cpp b/src/Auxillary/Timedata/Timedata.cpp
index 3dfe329..d8d1d1c 100644
--- a/src/Auxillary/Timedata/Timedata.cpp
+++ b/src/Auxillary/Timedata/Timedata.cpp
@@ -24,10 +24,10 @@
 namespace Model {
 
   Timedata::Timedata(nlohmann::json const &simulation_settings) :
-      starttime(simulation_settings["start_time"].get<double>()),
-      endtime(simulation_settings["end_time"].get<double>()),
+      starttime(simulation_settings.at("start_time").get<double>()),
+      endtime(simulation_settings.at("end_time").get<double>()),
       Number_of_timesteps(init_Number_of_timesteps(
-          simulation_settings["desired_delta_t"].get<double>())),
+          simulation_settings.at("desired_delta_t").get<double>())),
       delta_t(init_delta_t()) {}
 
   int Timedata::init_Number_of_timesteps(double desired_delta_t) const {
-- 
2.43.0


From 29507a9fb7f3244ba742e735fa325d52b16a4044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:07 +0000
Subject: [PATCH 26/43] fix: ids that appear twice in initial, control or
 bounds data are refused

---
 src/Model/Networkproblem/Networkproblem.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Model/Networkproblem/Networkproblem.cpp b/src/Model/Networkproblem/Networkproblem.cpp
index 0667343..7d932cc 100644
--- a/src/Model/Networkproblem/Networkproblem.cpp
+++ b/src/Model/Networkproblem/Networkproblem.cpp
@@ -63,6 +63,7 @@ namespace Model {
 
     auto ids = get_ids_of_objects(components);
     std::sort(ids.begin(), ids.end());
+    Aux::check_for_duplicates(json, key);
     auto json_ids = Aux::get_sorted_ids_of_json(json, key);
 
     size_t json_index = 0;
-- 
2.43.0


From 9c919d9541a2445dff788f6899faefc71ad3f4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:28 +0000
Subject: [PATCH 27/43] fix: optimizing controls that are fixed and cannot be
 simulated ends with an error

---
 src/Grazer/commands.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/Grazer/commands.cpp b/src/Grazer/commands.cpp
index b6a778e..93f479c 100644
--- a/src/Grazer/commands.cpp
+++ b/src/Grazer/commands.cpp
@@ -232,6 +232,18 @@ int grazer::run(std::filesystem::path directory_path) {
       Optimization::IpoptAdaptor adaptor(std::move(optimizer_ptr));
       // std::cout << optimizer.get_initial_controls() << std::endl;
 
+      // If all controls are fixed, Ipopt evaluates them without expecting that
+      // this can fail.
+      if (optimizer.get_lower_bounds() == optimizer.get_upper_bounds()) {
+        double fixed_objective = 0;
+        if (not optimizer.evaluate_objective(
+                optimizer.get_lower_bounds(), fixed_objective)) {
+          throw std::runtime_error(
+              "The optimization failed: The states belonging to the controls, "
+              "which are fixed by their bounds, could not be computed.");
+        }
+      }
+
       adaptor.optimize();
 
       if (optimizer.get_no_nnz_in_jacobian() > 0) {
-- 
2.43.0


From f062beb004e493f61a0cdc8f6d814fccf4fd568d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:39 +0000
Subject: [PATCH 28/43] fix: transmission lines that do not join power nodes
 are an error

---
 src/Model/Networkproblem/Power/Powernode.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/Model/Networkproblem/Power/Powernode.cpp b/src/Model/Networkproblem/Power/Powernode.cpp
index b3960ad..7b42194 100644
--- a/src/Model/Networkproblem/Power/Powernode.cpp
+++ b/src/Model/Networkproblem/Power/Powernode.cpp
@@ -82,6 +82,11 @@ namespace Model::Power {
         continue;
       }
       auto *endnode = line->get_ending_powernode();
+      if (!endnode) {
+        gthrow(
+            {"The transmission line ", line->get_id(),
+             " does not end at a power node."});
+      }
 
       auto line_G = line->get_G();
       auto line_B = line->get_B();
@@ -95,6 +100,11 @@ namespace Model::Power {
         continue;
       }
       auto *startnode = line->get_starting_powernode();
+      if (!startnode) {
+        gthrow(
+            {"The transmission line ", line->get_id(),
+             " does not start at a power node."});
+      }
 
       auto line_G = line->get_G();
       auto line_B = line->get_B();
-- 
2.43.0


From 33335e9d892dec423349ede9bf3eb1f8d9b86f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:47 +0000
Subject: [PATCH 29/43] fix: pipes without a positive number of cells are an
 error

---
 src/Model/Networkproblem/Gas/Pipe.cpp | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/Model/Networkproblem/Gas/Pipe.cpp b/src/Model/Networkproblem/Gas/Pipe.cpp
index 2cd4e2a..73cdc0a 100644
--- a/src/Model/Networkproblem/Gas/Pipe.cpp
+++ b/src/Model/Networkproblem/Gas/Pipe.cpp
@@ -32,6 +32,7 @@
 #include <cmath>
 #include <fstream>
 #include <iostream>
+#include <limits>
 #include <memory>
 #include <optional>
 #include <string>
@@ -70,15 +71,27 @@ namespace Model::Gas {
         interpol_points, Pipe::init_vals_per_interpol_point(), contains_x);
   }
 
+  static int compute_number_of_points(nlohmann::json const &topology) {
+    double const length = unit::length.parse_to_si(topology["length"]);
+    double const desired_delta_x = topology["desired_delta_x"].get<double>();
+    double const number_of_cells = std::ceil(length / desired_delta_x);
+    // Written such that NaN is refused, too.
+    if (not(length > 0) or not(desired_delta_x > 0)
+        or not(number_of_cells >= 1)
+        or not(number_of_cells < std::numeric_limits<int>::max())) {
+      gthrow(
+          {"The pipe ", topology["id"].get<std::string>(),
+           " needs a positive length and a positive desired_delta_x, which is "
+           "not too small for the length."});
+    }
+    return static_cast<int>(number_of_cells) + 1;
+  }
+
   Pipe::Pipe(
       nlohmann::json const &topology,
       std::vector<std::unique_ptr<Network::Node>> &nodes) :
       Network::Edge(topology, nodes),
-      number_of_points(
-          static_cast<int>(std::ceil(
-              unit::length.parse_to_si(topology["length"])
-              / topology["desired_delta_x"].get<double>()))
-          + 1),
+      number_of_points(compute_number_of_points(topology)),
       Delta_x(
           unit::length.parse_to_si(topology["length"])
           / (number_of_points - 1)),
-- 
2.43.0


From a6c92eb43b3f6d0f15148de6f3d6ae340fbbdaab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:39 +0000
Subject: [PATCH 30/43] fix: numbers that do not fit the integers they are
 meant for are refused

---
 src/Auxillary/Stochastics/Stochastic.cpp            | 13 ++++++++++---
 src/Auxillary/json_schema/include/make_schema.hpp   |  2 ++
 src/Auxillary/json_schema/make_schema.cpp           |  8 ++++++++
 src/Grazer/helpers.cpp                              | 12 ++++++++++--
 src/Model/Networkproblem/Power/StochasticPQnode.cpp |  9 ++++++---
 src/Model/Problemlayer/Timeevolver.cpp              |  5 +++--
 6 files changed, 39 insertions(+), 10 deletions(-)

diff --git a/src/Auxillary/Stochastics/Stochastic.cpp b/src/Auxillary/Stochastics/Stochastic.cpp
index 1e17eaa..3ee4166 100644
--- a/src/Auxillary/Stochastics/Stochastic.cpp
+++ b/src/Auxillary/Stochastics/Stochastic.cpp
@@ -16,6 +16,7 @@
  */
 #include "Stochastic.hpp"
 #include "Exception.hpp"
+#include <limits>
 #include <string>
 
 namespace Aux {
@@ -43,9 +44,15 @@ namespace Aux {
     }
 
     if (theta * stochastic_stepsize >= stability_parameter) {
-      number_of_stochastic_steps
-          = static_cast<int>(std::ceil(theta * delta_t / (stability_parameter)))
-            + 1;
+      double const stable_number
+          = std::ceil(theta * delta_t / (stability_parameter));
+      if (not(stable_number < std::numeric_limits<int>::max())) {
+        gthrow(
+            {"The parameter theta is too large for the time step. Actual "
+             "value: ",
+             std::to_string(theta)});
+      }
+      number_of_stochastic_steps = static_cast<int>(stable_number) + 1;
     }
     return number_of_stochastic_steps;
   }
diff --git a/src/Auxillary/json_schema/include/make_schema.hpp b/src/Auxillary/json_schema/include/make_schema.hpp
index ea5c141..6cbbfb9 100644
--- a/src/Auxillary/json_schema/include/make_schema.hpp
+++ b/src/Auxillary/json_schema/include/make_schema.hpp
@@ -27,6 +27,8 @@ namespace Aux::schema {
     json number();
     json number(std::string description);
     json number(std::string title, std::string description);
+    /// a number that can be converted to int
+    json int_number();
     json string();
     json string(std::string description);
     json string(std::string title, std::string description);
diff --git a/src/Auxillary/json_schema/make_schema.cpp b/src/Auxillary/json_schema/make_schema.cpp
index 83e0bfa..308d687 100644
--- a/src/Auxillary/json_schema/make_schema.cpp
+++ b/src/Auxillary/json_schema/make_schema.cpp
@@ -17,6 +17,7 @@
 #include "make_schema.hpp"
 #include "Exception.hpp"
 #include "unit_conversion.hpp"
+#include <limits>
 #include <stdexcept>
 
 namespace Aux::schema {
@@ -51,6 +52,13 @@ namespace Aux::schema {
     return type::simple("number", title, description);
   }
 
+  json type::int_number() {
+    json type_schema = type::number();
+    type_schema["minimum"] = std::numeric_limits<int>::min();
+    type_schema["maximum"] = std::numeric_limits<int>::max();
+    return type_schema;
+  }
+
   json type::string() { return type::simple("string"); }
   json type::string(std::string description) {
     return type::simple("string", description);
diff --git a/src/Grazer/helpers.cpp b/src/Grazer/helpers.cpp
index 3e16414..e91fe35 100644
--- a/src/Grazer/helpers.cpp
+++ b/src/Grazer/helpers.cpp
@@ -19,6 +19,7 @@
 #include "InterpolatingVector.hpp"
 #include "OptimizableObject.hpp"
 #include "Timedata.hpp"
+#include <limits>
 #include <nlohmann/json.hpp>
 #include <sstream>
 void setup_controls(
@@ -43,8 +44,15 @@ void setup_controls(
         control_timehelper = Aux::make_from_start_delta_end(
             timedata.get_starttime(), control_delta_t, timedata.get_endtime());
       } else if (control_settings.contains("number_of_steps")) {
-        auto number_of_controls
-            = control_settings["number_of_steps"].get<int>();
+        auto const number_of_steps
+            = control_settings["number_of_steps"].get<double>();
+        if (not(number_of_steps >= 0)
+            or not(number_of_steps <= std::numeric_limits<int>::max())) {
+          throw std::runtime_error(
+              "\"number_of_steps\" in \"control_settings\" is not a valid "
+              "number of steps.");
+        }
+        auto number_of_controls = static_cast<int>(number_of_steps);
         control_timehelper = Aux::make_from_start_number_end(
             timedata.get_starttime(), timedata.get_endtime(),
             number_of_controls);
diff --git a/src/Model/Networkproblem/Power/StochasticPQnode.cpp b/src/Model/Networkproblem/Power/StochasticPQnode.cpp
index ecad326..3524b5a 100644
--- a/src/Model/Networkproblem/Power/StochasticPQnode.cpp
+++ b/src/Model/Networkproblem/Power/StochasticPQnode.cpp
@@ -19,6 +19,7 @@
 #include "Stochastic.hpp"
 #include "make_schema.hpp"
 #include <fstream>
+#include <limits>
 
 namespace Model::Power {
 
@@ -37,14 +38,16 @@ namespace Model::Power {
     Aux::schema::add_required(schema, "sigma_Q", Aux::schema::type::number());
     Aux::schema::add_required(schema, "theta_Q", Aux::schema::type::number());
     Aux::schema::add_required(
-        schema, "number_of_stochastic_steps", Aux::schema::type::number());
+        schema, "number_of_stochastic_steps", Aux::schema::type::int_number());
     return schema;
   }
 
   nlohmann::json StochasticPQnode::get_boundary_schema() {
     auto boundary_schema = Aux::schema::make_boundary_schema(2);
-    auto seed_schema
-        = Aux::schema::make_list_schema_of(Aux::schema::type::number());
+    auto seed_element_schema = Aux::schema::type::number();
+    seed_element_schema["minimum"] = std::numeric_limits<uint32_t>::min();
+    seed_element_schema["maximum"] = std::numeric_limits<uint32_t>::max();
+    auto seed_schema = Aux::schema::make_list_schema_of(seed_element_schema);
     Aux::schema::add_property(boundary_schema, "seed", seed_schema);
     return boundary_schema;
   }
diff --git a/src/Model/Problemlayer/Timeevolver.cpp b/src/Model/Problemlayer/Timeevolver.cpp
index 4286452..07ef89f 100644
--- a/src/Model/Problemlayer/Timeevolver.cpp
+++ b/src/Model/Problemlayer/Timeevolver.cpp
@@ -36,8 +36,9 @@ namespace Model {
     Aux::schema::add_required(schema, "tolerance", Aux::schema::type::number());
     Aux::schema::add_required(
         schema, "maximal_number_of_newton_iterations",
-        Aux::schema::type::number());
-    Aux::schema::add_required(schema, "retries", Aux::schema::type::number());
+        Aux::schema::type::int_number());
+    Aux::schema::add_required(
+        schema, "retries", Aux::schema::type::int_number());
     Aux::schema::add_required(
         schema, "use_simplified_newton", Aux::schema::type::boolean());
 
-- 
2.43.0


From 617194ee94cf4425ffae33a3fe072bac9d6a736a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:58 +0000
Subject: [PATCH 31/43] fix: time grids of tiny intervals have both ends

---
 src/Auxillary/InterpolatingVector/InterpolatingVector.cpp | 4 +++-
 src/Auxillary/Timedata/Timedata.cpp                       | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/Auxillary/InterpolatingVector/InterpolatingVector.cpp b/src/Auxillary/InterpolatingVector/InterpolatingVector.cpp
index ebbaf7f..39a9811 100644
--- a/src/Auxillary/InterpolatingVector/InterpolatingVector.cpp
+++ b/src/Auxillary/InterpolatingVector/InterpolatingVector.cpp
@@ -93,8 +93,10 @@ namespace Aux {
            "Supplied desired stepsize: ", std::to_string(desired_delta)});
     }
 
+    // The quotient may underflow, but there is at least one interval.
     auto number_of_entries_double
-        = (std::ceil((last_point - first_point) / desired_delta)) + 1;
+        = std::max(1.0, std::ceil((last_point - first_point) / desired_delta))
+          + 1;
 
     if (not(number_of_entries_double < std::numeric_limits<int>::max())) {
       gthrow(
diff --git a/src/Auxillary/Timedata/Timedata.cpp b/src/Auxillary/Timedata/Timedata.cpp
index d8d1d1c..d8882ba 100644
--- a/src/Auxillary/Timedata/Timedata.cpp
+++ b/src/Auxillary/Timedata/Timedata.cpp
@@ -15,6 +15,7 @@
  *
  */
 #include "Timedata.hpp"
+#include <algorithm>
 #include <cmath>
 #include <iostream>
 #include <limits>
@@ -41,7 +42,7 @@ namespace Model {
           + "\n");
     }
     double const number_of_steps
-        = std::ceil(get_timeinterval() / desired_delta_t);
+        = std::max(1.0, std::ceil(get_timeinterval() / desired_delta_t));
     if (not(number_of_steps < std::numeric_limits<int>::max())) {
       throw std::runtime_error(
           "The desired time step is too small for the simulated time.\n"
-- 
2.43.0


From b203f30fad6ecd4dfa1b05b705c69dd211c51f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:26 +0000
Subject: [PATCH 32/43] fix: huge numbers of retries or pipe points do not
 overflow

---
 src/Model/Networkproblem/Gas/Pipe.cpp  | 2 +-
 src/Model/Problemlayer/Timeevolver.cpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Model/Networkproblem/Gas/Pipe.cpp b/src/Model/Networkproblem/Gas/Pipe.cpp
index 73cdc0a..ca42445 100644
--- a/src/Model/Networkproblem/Gas/Pipe.cpp
+++ b/src/Model/Networkproblem/Gas/Pipe.cpp
@@ -78,7 +78,7 @@ namespace Model::Gas {
     // Written such that NaN is refused, too.
     if (not(length > 0) or not(desired_delta_x > 0)
         or not(number_of_cells >= 1)
-        or not(number_of_cells < std::numeric_limits<int>::max())) {
+        or not(number_of_cells < std::numeric_limits<int>::max() / 4)) {
       gthrow(
           {"The pipe ", topology["id"].get<std::string>(),
            " needs a positive length and a positive desired_delta_x, which is "
diff --git a/src/Model/Problemlayer/Timeevolver.cpp b/src/Model/Problemlayer/Timeevolver.cpp
index 07ef89f..9aad193 100644
--- a/src/Model/Problemlayer/Timeevolver.cpp
+++ b/src/Model/Problemlayer/Timeevolver.cpp
@@ -163,14 +163,14 @@ namespace Model {
         std::cout << "Switching to updated Jacobian in every step."
                   << std::endl;
       }
-      if (retry > 2 * retries) {
+      if (retry > 2 * static_cast<long long>(retries)) {
         gthrow({"Failed timestep irrevocably!", std::to_string(new_time)});
       }
 
       ++retry;
       if (use_simplified_newton and retry == 1) {
         std::cout << "\nretrying timestep " << new_time << std::endl;
-      } else if (not use_simplified_newton and retry == retries + 1) {
+      } else if (not use_simplified_newton and retry - 1 == retries) {
         std::cout << "\nretrying timestep " << new_time << std::endl;
       }
       if (retry > 0) {
-- 
2.43.0


From a81a95f87657ff32f07040163bf36b76808c17a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:02 +0000
Subject: [PATCH 33/43] fix: initial conditions are extracted at the requested
 time, not one step before

---
 helper_functions/extract_new_initial_condition.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/helper_functions/extract_new_initial_condition.cpp b/helper_functions/extract_new_initial_condition.cpp
index 018359b..8b9df35 100644
--- a/helper_functions/extract_new_initial_condition.cpp
+++ b/helper_functions/extract_new_initial_condition.cpp
@@ -70,7 +70,8 @@ int main(int argc, char **argv) {
         auto it = std::lower_bound(
             component["data"].begin(), component["data"].end(),
             time_compare_value, less_time);
-        if (it != component["data"].begin()) {
+        if (it == component["data"].end()
+            and it != component["data"].begin()) {
           --it;
         }
         json initialdata;
-- 
2.43.0


From 47265e443d94a97ca45d27149a9c6a6a32870737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:03 +0000
Subject: [PATCH 34/43] fix: changing the inflow leaves files alone that it
 cannot scale

---
 helper_functions/change_inflow.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/helper_functions/change_inflow.cpp b/helper_functions/change_inflow.cpp
index dc35314..343bf8f 100644
--- a/helper_functions/change_inflow.cpp
+++ b/helper_functions/change_inflow.cpp
@@ -46,11 +46,18 @@ int main(int argc, char **argv) {
     }
   } catch (std::exception &e) {
     std::cout << "Error: " << e.what() << std::endl;
+    return 1;
   } catch (...) {
     std::cout << "Unknown error, aborting!" << std::endl;
     return 1;
   }
 
+  if (old_summed_input == 0.0) {
+    std::cout << "Error: there is no gas input that could be scaled!"
+              << std::endl;
+    return 1;
+  }
+
   try {
     for (auto &source : results["nodes"]["Source"]) {
       source["data"][0]["values"][0]
@@ -62,6 +69,7 @@ int main(int argc, char **argv) {
     }
   } catch (std::exception &e) {
     std::cout << "Error: " << e.what() << std::endl;
+    return 1;
   } catch (...) {
     std::cout << "Unknown error, aborting!" << std::endl;
     return 1;
-- 
2.43.0


From 5316b6fe15746a11130463a3822cef25865b46ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:03 +0000
Subject: [PATCH 35/43] fix: increasing the pressure changes nothing but
 pressures

---
 helper_functions/increase_pressure.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/helper_functions/increase_pressure.cpp b/helper_functions/increase_pressure.cpp
index e63bc84..ddd2ba1 100644
--- a/helper_functions/increase_pressure.cpp
+++ b/helper_functions/increase_pressure.cpp
@@ -50,7 +50,8 @@ int main(int argc, char **argv) {
          "Gaspowerconnection"};
   try {
     for (auto const &type : gastypes) {
-      if (not results["connections"].contains(type)) {
+      if (not results.contains("connections")
+          or not results["connections"].contains(type)) {
         continue;
       }
       for (auto &gastype : results["connections"][type]) {
@@ -63,6 +64,7 @@ int main(int argc, char **argv) {
     }
   } catch (std::exception &e) {
     std::cout << "Error: " << e.what() << std::endl;
+    return 1;
   } catch (...) {
     std::cout << "Unknown error, aborting!" << std::endl;
     return 1;
-- 
2.43.0


From 5640be20a0c1c35f7bb528950cb56f4dde79f2db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:03 +0000
Subject: [PATCH 36/43] fix: a missing position is reported for the last
 component of a type too

---
 helper_functions/insert_positions.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/helper_functions/insert_positions.cpp b/helper_functions/insert_positions.cpp
index 4861054..227701c 100644
--- a/helper_functions/insert_positions.cpp
+++ b/helper_functions/insert_positions.cpp
@@ -101,6 +101,12 @@ void insert_positions(json &topology, json &second_json) {
           ++top_it;
         }
       }
+      if (top_it != topology_vector_json.end()) {
+        gthrow(
+            {"The component with id ", (*top_it)["id"].get<std::string>(),
+             "\n is given in the topology json but no ", "positions",
+             " condition is provided."});
+      }
     }
   }
 }
-- 
2.43.0


From f82e2e4a789a3daa3bb6cbc9c099ce3d6b010608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:29 +0000
Subject: [PATCH 37/43] fix: csv files that cannot be written are an error

---
 helper_functions/generate_control_printing_csv.cpp | 4 ++++
 helper_functions/generate_printing_csv.cpp         | 8 ++++++++
 2 files changed, 12 insertions(+)

diff --git a/helper_functions/generate_control_printing_csv.cpp b/helper_functions/generate_control_printing_csv.cpp
index f85a778..261551f 100644
--- a/helper_functions/generate_control_printing_csv.cpp
+++ b/helper_functions/generate_control_printing_csv.cpp
@@ -92,6 +92,10 @@ int main(int argc, char **argv) {
 
     std::cout << "Creating or overwriting " << outpath.string() << std::endl;
     std::ofstream outstream(outpath);
+    if (not outstream) {
+      throw std::runtime_error(
+          "the file " + outpath.string() + " cannot be written!");
+    }
 
     outstream << "time";
     if (not object["data"][0]["values"].is_array()) {
diff --git a/helper_functions/generate_printing_csv.cpp b/helper_functions/generate_printing_csv.cpp
index 4e0d084..3aeecb7 100644
--- a/helper_functions/generate_printing_csv.cpp
+++ b/helper_functions/generate_printing_csv.cpp
@@ -130,6 +130,10 @@ void write_power_csv(std::string id, json object) {
 
   std::cout << "Creating or overwriting " << outpath.string() << std::endl;
   std::ofstream outstream(outpath);
+  if (not outstream) {
+    throw std::runtime_error(
+        "the file " + outpath.string() + " cannot be written!");
+  }
 
   outstream << "time";
   for (auto const &[key, value] : object["data"][0].items()) {
@@ -180,6 +184,10 @@ void write_gas_csv(std::string id, json object) {
         + " is not in the current working directory!\nProbably the id is wrong.");
     }
     std::ofstream outstream(outpath);
+    if (not outstream) {
+      throw std::runtime_error(
+          "the file " + outpath.string() + " cannot be written!");
+    }
     outstream << "t-x";
     for (auto &valuepair : first_step[key]) {
       outstream << ",   " << valuepair["x"];
-- 
2.43.0


From c673f25d9775206c6877c5c698827bbd0ff410b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:54 +0000
Subject: [PATCH 38/43] fix: the cache of states compares time grids of
 different lengths

---
 src/Optimization_helpers/ControlStateCache.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/Optimization_helpers/ControlStateCache.cpp b/src/Optimization_helpers/ControlStateCache.cpp
index f57c213..882ab11 100644
--- a/src/Optimization_helpers/ControlStateCache.cpp
+++ b/src/Optimization_helpers/ControlStateCache.cpp
@@ -59,14 +59,18 @@ namespace Optimization {
       Aux::InterpolatingVector_Base const &controls,
       Eigen::Ref<Eigen::VectorXd const> const &state_timepoints,
       Eigen::Ref<Eigen::VectorXd const> const &initial_state) {
-    if (failed.control == controls
-        and failed.state_timepoints == state_timepoints
-        && failed.initial_state == initial_state) {
+    // vectors of different lengths cannot be compared with ==.
+    auto const is_entry_of = [&](Cacheentry const &entry) {
+      return entry.control == controls
+             and entry.state_timepoints.size() == state_timepoints.size()
+             and entry.initial_state.size() == initial_state.size()
+             and entry.state_timepoints == state_timepoints
+             and entry.initial_state == initial_state;
+    };
+    if (is_entry_of(failed)) {
       return nullptr;
     }
-    if (controls == cache.first.control
-        and initial_state == cache.first.initial_state
-        && state_timepoints == cache.first.state_timepoints) {
+    if (is_entry_of(cache.first)) {
       return &cache.second;
     } else {
       Aux::InterpolatingVector states(state_timepoints, initial_state.size());
-- 
2.43.0


From f80ab698bb89e44eb86c007ca3d750a2d8494e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:25:42 +0000
Subject: [PATCH 39/43] fix: keep links and permissions of files whose schema
 reference is set

---
 src/Auxillary/aux_json/Aux_json.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/Auxillary/aux_json/Aux_json.cpp b/src/Auxillary/aux_json/Aux_json.cpp
index 4bb52ad..c6780a1 100644
--- a/src/Auxillary/aux_json/Aux_json.cpp
+++ b/src/Auxillary/aux_json/Aux_json.cpp
@@ -110,10 +110,14 @@ namespace aux_json {
 
     // The new contents are written to a file of their own first, so that
     // at every time either the old or the new contents are present completely.
+    // If the file is a link, the file it points to is replaced.
+    bool const is_present = std::filesystem::exists(file_path);
+    auto const real_path
+        = is_present ? std::filesystem::canonical(file_path) : file_path;
     std::filesystem::path new_path;
     std::FILE *new_file = nullptr;
     for (int number = 0; new_file == nullptr; ++number) {
-      new_path = file_path;
+      new_path = real_path;
       new_path += ".tmp" + std::to_string(number);
       new_file = std::fopen(new_path.string().c_str(), "wx");
       if (new_file == nullptr and errno != EEXIST) {
@@ -129,7 +133,11 @@ namespace aux_json {
       if (not ofs) {
         gthrow({"Could not write the new contents of ", file_path.string()});
       }
-      std::filesystem::rename(new_path, file_path);
+      if (is_present) {
+        std::filesystem::permissions(
+            new_path, std::filesystem::status(real_path).permissions());
+      }
+      std::filesystem::rename(new_path, real_path);
     } catch (...) {
       std::error_code ignored;
       std::filesystem::remove(new_path, ignored);
-- 
2.43.0


From 815bd8d689f5f287172c47682b90e1ac11e18de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:59 +0000
Subject: [PATCH 40/43] fix: refuse input files that are nested too deeply to
 be handled

---
 src/Auxillary/aux_json/Aux_json.cpp | 35 +++++++++++++++++++++++++++--
 1 file changed, 33 insertions(+), 2 deletions(-)

diff --git a/src/Auxillary/aux_json/Aux_json.cpp b/src/Auxillary/aux_json/Aux_json.cpp
index c6780a1..05fa5a6 100644
--- a/src/Auxillary/aux_json/Aux_json.cpp
+++ b/src/Auxillary/aux_json/Aux_json.cpp
@@ -21,9 +21,40 @@
 #include <cstdio>
 #include <fstream>
 #include <iostream>
+#include <iterator>
+#include <sstream>
 #include <string>
 namespace aux_json {
 
+  /// Reads everything and throws, if the json is nested so deeply, that
+  /// handling it recursively could exhaust the stack.
+  static std::istringstream read_moderately_nested(std::istream &stream) {
+    std::string const text(std::istreambuf_iterator<char>(stream), {});
+    int const allowed_depth = 1000;
+    int depth = 0;
+    bool in_string = false;
+    for (size_t index = 0; index < text.size(); ++index) {
+      char const c = text[index];
+      if (c == '"') {
+        in_string = not in_string;
+      } else if (in_string) {
+        if (c == '\\') {
+          ++index; // The next character is escaped.
+        }
+      } else if (c == '[' or c == '{') {
+        ++depth;
+        if (depth > allowed_depth) {
+          gthrow(
+              {"The json is nested more than ", std::to_string(allowed_depth),
+               " levels deep."});
+        }
+      } else if (c == ']' or c == '}') {
+        --depth;
+      }
+    }
+    return std::istringstream(text);
+  }
+
   void replace_entry_with_json_from_file(
       nlohmann::json &super_json, std::string const &key) {
 
@@ -76,7 +107,7 @@ namespace aux_json {
     }
     try {
       std::ifstream jsonfilestream(file_path);
-      jsonfilestream >> json_object;
+      read_moderately_nested(jsonfilestream) >> json_object;
     } catch (...) {
       std::cout << __FILE__ << ":" << __LINE__
                 << ": Couldn't load json from file: " << file_path << std::endl;
@@ -95,7 +126,7 @@ namespace aux_json {
     }
     try {
       std::ifstream jsonfilestream(file_path);
-      jsonfilestream >> json_object;
+      read_moderately_nested(jsonfilestream) >> json_object;
     } catch (...) {
       std::cout << __FILE__ << ":" << __LINE__
                 << ": Couldn't load json from file: " << file_path << std::endl;
-- 
2.43.0


From 631a9fc14b8b77ac99205534d9f4c314fbbe7b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:50:30 +0000
Subject: [PATCH 41/43] fix: the greatest number of retries does not overflow
 their counter

---
 src/Model/Problemlayer/Timeevolver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Model/Problemlayer/Timeevolver.cpp b/src/Model/Problemlayer/Timeevolver.cpp
index 9aad193..64c5588 100644
--- a/src/Model/Problemlayer/Timeevolver.cpp
+++ b/src/Model/Problemlayer/Timeevolver.cpp
@@ -129,7 +129,7 @@ namespace Model {
       Eigen::Ref<Eigen::VectorXd const> const &control,
       Controlcomponent &problem) {
     Solver::Solutionstruct solstruct;
-    int retry = 0;
+    long long retry = 0;
     if (use_simplified_newton) {
       retry = 0;
     } else {
-- 
2.43.0


From 416d6a18db9d376c7a2f3e80aeba010069e28aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:17:43 +0000
Subject: [PATCH 42/43] fix: negative tolerances are refused instead of
 dividing by zero without states

---
 src/Auxillary/json_schema/schema_generation.cpp | 2 +-
 src/Model/Problemlayer/Timeevolver.cpp          | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/Auxillary/json_schema/schema_generation.cpp b/src/Auxillary/json_schema/schema_generation.cpp
index 709a062..a1838cd 100644
--- a/src/Auxillary/json_schema/schema_generation.cpp
+++ b/src/Auxillary/json_schema/schema_generation.cpp
@@ -169,7 +169,7 @@ namespace Aux::schema {
           "properties": {
             "use_simplified_newton": {"type": "boolean"},
             "maximal_number_of_newton_iterations": {"type": "integer", "minimum": 0},
-            "tolerance": {"type": "number"},
+            "tolerance": {"type": "number", "minimum": 0},
             "retries": {"type": "integer", "minimum": 0},
             "start_time": {"type": "number"},
             "end_time": {"type": "number"},
diff --git a/src/Model/Problemlayer/Timeevolver.cpp b/src/Model/Problemlayer/Timeevolver.cpp
index 64c5588..1bfea1e 100644
--- a/src/Model/Problemlayer/Timeevolver.cpp
+++ b/src/Model/Problemlayer/Timeevolver.cpp
@@ -33,7 +33,10 @@ namespace Model {
   nlohmann::json Timeevolver::get_schema() {
     nlohmann::json schema;
     schema["type"] = "object";
-    Aux::schema::add_required(schema, "tolerance", Aux::schema::type::number());
+    // A residual is never less than zero.
+    auto tolerance_schema = Aux::schema::type::number();
+    tolerance_schema["minimum"] = 0;
+    Aux::schema::add_required(schema, "tolerance", tolerance_schema);
     Aux::schema::add_required(
         schema, "maximal_number_of_newton_iterations",
         Aux::schema::type::int_number());
-- 
2.43.0


From 54e0304ff0beb7fb2e830339da252ef0691ed992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:17:49 +0000
Subject: [PATCH 43/43] fix: negative numbers of iterations and retries are
 refused, as their schema says

---
 src/Model/Problemlayer/Timeevolver.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Model/Problemlayer/Timeevolver.cpp b/src/Model/Problemlayer/Timeevolver.cpp
index 1bfea1e..792101a 100644
--- a/src/Model/Problemlayer/Timeevolver.cpp
+++ b/src/Model/Problemlayer/Timeevolver.cpp
@@ -37,11 +37,11 @@ namespace Model {
     auto tolerance_schema = Aux::schema::type::number();
     tolerance_schema["minimum"] = 0;
     Aux::schema::add_required(schema, "tolerance", tolerance_schema);
+    auto count_schema = Aux::schema::type::int_number();
+    count_schema["minimum"] = 0;
     Aux::schema::add_required(
-        schema, "maximal_number_of_newton_iterations",
-        Aux::schema::type::int_number());
-    Aux::schema::add_required(
-        schema, "retries", Aux::schema::type::int_number());
+        schema, "maximal_number_of_newton_iterations", count_schema);
+    Aux::schema::add_required(schema, "retries", count_schema);
     Aux::schema::add_required(
         schema, "use_simplified_newton", Aux::schema::type::boolean());
 
-- 
2.43.0

