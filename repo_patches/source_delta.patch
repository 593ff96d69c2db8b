From b702f7c8e1d563b991fb93e3c9e395dbda84186e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:50 +0000
Subject: [PATCH 01/25] fix: reject boolean literals followed by other text

---
 openscenario/openscenario_interpreter/src/syntax/boolean.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/openscenario/openscenario_interpreter/src/syntax/boolean.cpp b/openscenario/openscenario_interpreter/src/syntax/boolean.cpp
index bef6f81..7c8a830 100644
--- a/openscenario/openscenario_interpreter/src/syntax/boolean.cpp
+++ b/openscenario/openscenario_interpreter/src/syntax/boolean.cpp
@@ -32,7 +32,9 @@ Boolean::Boolean(const std::string & target)
 {
   std::stringstream interpreter;
 
-  if (!(interpreter << target && interpreter >> std::boolalpha >> data)) {
+  if (
+    !(interpreter << target && interpreter >> std::boolalpha >> data) ||
+    interpreter.peek() != std::stringstream::traits_type::eof()) {
     throw INVALID_NUMERIC_LITERAL_SPECIFIED(target);
   }
 }
-- 
2.43.0


From c113d4e4d79283cbe8efc259d57a5f58ac971942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:50 +0000
Subject: [PATCH 02/25] fix: reject negative literals of unsigned types instead
 of wrapping them around

---
 .../src/syntax/unsigned_integer.cpp              | 16 ++++++++++++++--
 .../src/syntax/unsigned_short.cpp                | 16 ++++++++++++++--
 2 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/openscenario/openscenario_interpreter/src/syntax/unsigned_integer.cpp b/openscenario/openscenario_interpreter/src/syntax/unsigned_integer.cpp
index 4a2094c..7d70b75 100644
--- a/openscenario/openscenario_interpreter/src/syntax/unsigned_integer.cpp
+++ b/openscenario/openscenario_interpreter/src/syntax/unsigned_integer.cpp
@@ -13,6 +13,7 @@
 // limitations under the License.
 
 #include <openscenario_interpreter/syntax/unsigned_integer.hpp>
+#include <string>
 
 namespace openscenario_interpreter
 {
@@ -27,7 +28,7 @@ UnsignedInteger::UnsignedInteger(value_type value) { data = value; }
 UnsignedInteger::UnsignedInteger(const std::string & s)
 {
   try {
-    data = boost::lexical_cast<value_type>(s);
+    data = boost::lexical_cast<UnsignedInteger>(s).data;
   } catch (const boost::bad_lexical_cast &) {
     throw INVALID_NUMERIC_LITERAL_SPECIFIED(s);
   }
@@ -55,7 +56,18 @@ UnsignedInteger::operator value_type() const noexcept { return data; }
 
 auto operator>>(std::istream & is, UnsignedInteger & datum) -> std::istream &
 {
-  return is >> datum.data;
+  std::string token;
+
+  is >> token;
+
+  // NOTE: boost::lexical_cast wraps a negative literal around instead of rejecting it.
+  if (not token.empty() and token.front() == '-') {
+    throw boost::bad_lexical_cast();
+  }
+
+  datum.data = boost::lexical_cast<UnsignedInteger::value_type>(token);
+
+  return is;
 }
 
 auto operator<<(std::ostream & os, const UnsignedInteger & datum) -> std::ostream &
diff --git a/openscenario/openscenario_interpreter/src/syntax/unsigned_short.cpp b/openscenario/openscenario_interpreter/src/syntax/unsigned_short.cpp
index bfc23d9..2d97d42 100644
--- a/openscenario/openscenario_interpreter/src/syntax/unsigned_short.cpp
+++ b/openscenario/openscenario_interpreter/src/syntax/unsigned_short.cpp
@@ -15,6 +15,7 @@
 #include <boost/lexical_cast.hpp>
 #include <openscenario_interpreter/error.hpp>
 #include <openscenario_interpreter/syntax/unsigned_short.hpp>
+#include <string>
 
 namespace openscenario_interpreter
 {
@@ -29,7 +30,7 @@ UnsignedShort::UnsignedShort(value_type value) { data = value; }
 UnsignedShort::UnsignedShort(const std::string & s)
 {
   try {
-    data = boost::lexical_cast<value_type>(s);
+    data = boost::lexical_cast<UnsignedShort>(s).data;
   } catch (const boost::bad_lexical_cast &) {
     throw INVALID_NUMERIC_LITERAL_SPECIFIED(s);
   }
@@ -57,7 +58,18 @@ UnsignedShort::operator value_type() const noexcept { return data; }
 
 auto operator>>(std::istream & is, UnsignedShort & datum) -> std::istream &
 {
-  return is >> datum.data;
+  std::string token;
+
+  is >> token;
+
+  // NOTE: boost::lexical_cast wraps a negative literal around instead of rejecting it.
+  if (not token.empty() and token.front() == '-') {
+    throw boost::bad_lexical_cast();
+  }
+
+  datum.data = boost::lexical_cast<UnsignedShort::value_type>(token);
+
+  return is;
 }
 
 auto operator<<(std::ostream & os, const UnsignedShort & datum) -> std::ostream &
-- 
2.43.0


From b52fe6960737178b5a1d3afd41a245d8fb3a6032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:31 +0000
Subject: [PATCH 03/25] fix: start grid traversal from the cell that contains
 the start point

---
 .../occupancy_grid/grid_traversal.cpp                  | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/simulation/simple_sensor_simulator/src/sensor_simulation/occupancy_grid/grid_traversal.cpp b/simulation/simple_sensor_simulator/src/sensor_simulation/occupancy_grid/grid_traversal.cpp
index 39e56d4..e667abf 100644
--- a/simulation/simple_sensor_simulator/src/sensor_simulation/occupancy_grid/grid_traversal.cpp
+++ b/simulation/simple_sensor_simulator/src/sensor_simulation/occupancy_grid/grid_traversal.cpp
@@ -33,11 +33,15 @@ GridTraversal::GridTraversal(double start_x, double start_y, double end_x, doubl
 
 auto GridTraversal::begin() const -> Iterator
 {
-  double tx = vx_ > 0 ? std::ceil(start_x_) : std::floor(start_x_);
-  double ty = vy_ > 0 ? std::ceil(start_y_) : std::floor(start_y_);
+  // Boundaries where the ray leaves the first cell. Note that std::ceil(start) is the boundary where
+  // the ray enters it if the start point is on the boundary.
+  const double x = std::floor(start_x_);
+  const double y = std::floor(start_y_);
+  double tx = vx_ > 0 ? x + 1 : x;
+  double ty = vy_ > 0 ? y + 1 : y;
   tx = vx_ != 0 ? (tx - start_x_) / vx_ : tdx_;
   ty = vy_ != 0 ? (ty - start_y_) / vy_ : tdy_;
-  return {this, tx, ty, int32_t(start_x_), int32_t(start_y_)};
+  return {this, tx, ty, int32_t(x), int32_t(y)};
 }
 
 auto GridTraversal::end() const -> Sentinel { return {}; }
-- 
2.43.0


From 5df31ebe23257db1aa4c9c8df6645d2e3e789e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:10 +0000
Subject: [PATCH 04/25] fix: find the real root of cubic equations with a
 triple or nearly triple root

With q = 0 (or slightly negative) the three-real-roots branch divided by
sqrt(q^3), which is zero (or NaN), and every solution was lost.
---
 common/math/geometry/src/solver/polynomial_solver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/math/geometry/src/solver/polynomial_solver.cpp b/common/math/geometry/src/solver/polynomial_solver.cpp
index 17eddcc..c71a9fd 100644
--- a/common/math/geometry/src/solver/polynomial_solver.cpp
+++ b/common/math/geometry/src/solver/polynomial_solver.cpp
@@ -189,7 +189,7 @@ auto PolynomialSolver::solveMonicCubicEquationWithComplex(
     // clang-format off
     [this, a](const auto q, const auto r) -> std::vector<std::complex<double>> {
     // clang-format on
-    if (const double q3 = q * q * q; r * r <= (q3 + tolerance)) {
+    if (const double q3 = q * q * q; 0 < q3 and r * r <= (q3 + tolerance)) {
       /**
        * @note If 3 real solutions are found.
        * The URL specified in @sa is a reference material for developers who wish to follow the formulas,
-- 
2.43.0


From 18c672da00db1b135646e8280d88a1bc028faa23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:36 +0000
Subject: [PATCH 05/25] fix: name the routing graph of vehicles with road
 shoulder

---
 .../traffic_simulator/src/data_type/routing_graph_type.cpp      | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/simulation/traffic_simulator/src/data_type/routing_graph_type.cpp b/simulation/traffic_simulator/src/data_type/routing_graph_type.cpp
index 519b3de..e9df59e 100644
--- a/simulation/traffic_simulator/src/data_type/routing_graph_type.cpp
+++ b/simulation/traffic_simulator/src/data_type/routing_graph_type.cpp
@@ -25,6 +25,8 @@ char const * to_string(const RoutingGraphType & type)
       return "VEHICLE";
     case RoutingGraphType::PEDESTRIAN:
       return "PEDESTRIAN";
+    case RoutingGraphType::VEHICLE_WITH_ROAD_SHOULDER:
+      return "VEHICLE_WITH_ROAD_SHOULDER";
     default:
       return "UNKNOWN";
   }
-- 
2.43.0


From e7be0ea69553e460f05934fa2628f1d33b20c23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:36 +0000
Subject: [PATCH 06/25] fix: print clothoid and NURBS trajectory requests by
 their names

---
 simulation/traffic_simulator/src/data_type/behavior.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/simulation/traffic_simulator/src/data_type/behavior.cpp b/simulation/traffic_simulator/src/data_type/behavior.cpp
index 74b8cc9..28f1531 100644
--- a/simulation/traffic_simulator/src/data_type/behavior.cpp
+++ b/simulation/traffic_simulator/src/data_type/behavior.cpp
@@ -30,6 +30,10 @@ std::ostream & operator<<(std::ostream & stream, const Request & value)
       return stream << "FOLLOW_LANE";
     case Request::FOLLOW_POLYLINE_TRAJECTORY:
       return stream << "FOLLOW_POLYLINE_TRAJECTORY";
+    case Request::FOLLOW_CLOTHOID_TRAJECTORY:
+      return stream << "FOLLOW_CLOTHOID_TRAJECTORY";
+    case Request::FOLLOW_NURBS_TRAJECTORY:
+      return stream << "FOLLOW_NURBS_TRAJECTORY";
     case Request::WALK_STRAIGHT:
       return stream << "WALK_STRAIGHT";
   }
-- 
2.43.0


From 4e5aa1a16c36c7406ba39ff064cf517e413b8114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:04 +0000
Subject: [PATCH 07/25] fix: leave a completed storyboard element complete when
 its stop trigger holds or it is overridden

---
 .../openscenario_interpreter/syntax/storyboard_element.hpp     | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/storyboard_element.hpp b/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/storyboard_element.hpp
index 060506e..2d34060 100644
--- a/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/storyboard_element.hpp
+++ b/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/storyboard_element.hpp
@@ -90,7 +90,8 @@ public:
   {
     if (
       not is<StoryboardElementState::standbyState>() and
-      not is<StoryboardElementState::stopTransition>()) {
+      not is<StoryboardElementState::stopTransition>() and
+      not is<StoryboardElementState::completeState>()) {
       transitionTo(stop_transition);
     }
     return current_state;
-- 
2.43.0


From 96b3c149817c3b6a60cab796aab83e68e4f3ced2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:04 +0000
Subject: [PATCH 08/25] fix: do not stop the event that overrides the other
 events of its maneuver

---
 .../openscenario_interpreter/src/syntax/maneuver.cpp         | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/openscenario/openscenario_interpreter/src/syntax/maneuver.cpp b/openscenario/openscenario_interpreter/src/syntax/maneuver.cpp
index 8bd3fc4..a9573aa 100644
--- a/openscenario/openscenario_interpreter/src/syntax/maneuver.cpp
+++ b/openscenario/openscenario_interpreter/src/syntax/maneuver.cpp
@@ -48,7 +48,10 @@ auto Maneuver::overrideEvents() -> void
 {
   for (auto && element : elements) {
     assert(element.is<Event>());
-    element.as<Event>().override();
+    // NOTE: The event in startTransition is the overriding one.
+    if (not element.as<Event>().is<StoryboardElementState::startTransition>()) {
+      element.as<Event>().override();
+    }
   }
 }
 
-- 
2.43.0


From b54e25f713a864c680c93881424759e1149439c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:23 +0000
Subject: [PATCH 09/25] fix: stop the waiting children of a stopped storyboard
 element instead of starting them

---
 .../syntax/storyboard_element.hpp                    | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/storyboard_element.hpp b/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/storyboard_element.hpp
index 2d34060..0720a97 100644
--- a/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/storyboard_element.hpp
+++ b/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/storyboard_element.hpp
@@ -121,8 +121,16 @@ private:
   {
     for (auto && element : elements) {
       assert(element.is_also<StoryboardElement>());
-      element.as<StoryboardElement>().override();
-      element.evaluate();
+      if (auto & child = element.as<StoryboardElement>();
+          child.is<StoryboardElementState::standbyState>()) {
+        // NOTE: Do not evaluate a child in standbyState, because that may start it.
+        child.transitionTo(stop_transition);
+        child.stop();
+        child.transitionTo(complete_state);
+      } else {
+        child.override();
+        element.evaluate();
+      }
     }
   }
 
-- 
2.43.0


From ecd403ded3a6054dc4df0d6e95849ed396c697ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:10 +0000
Subject: [PATCH 10/25] fix: reject references with an undeclared prefix and
 resolve prefixes in the outermost scope

---
 .../openscenario_interpreter/src/scope.cpp    | 29 ++++++++++---------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/openscenario/openscenario_interpreter/src/scope.cpp b/openscenario/openscenario_interpreter/src/scope.cpp
index 9aa255b..24aae37 100644
--- a/openscenario/openscenario_interpreter/src/scope.cpp
+++ b/openscenario/openscenario_interpreter/src/scope.cpp
@@ -69,22 +69,23 @@ auto EnvironmentFrame::lookupFrame(const Prefixed<Name> & prefixed_name) const
 {
   assert(not prefixed_name.prefixes.empty());
 
-  if (isOutermost()) {
-    return this;
-  } else {
-    auto sibling_scope = outer_frame->resolvePrefix(prefixed_name);
-    switch (sibling_scope.size()) {
-      case 0:
-        assert(outer_frame);
-        return outer_frame->lookupFrame(prefixed_name);
-      case 1:
-        assert(sibling_scope.front());
-        return sibling_scope.front();
-      default:
+  // NOTE: The outermost frame has no siblings, but contains the outermost named frames.
+  auto sibling_scope = (isOutermost() ? this : outer_frame)->resolvePrefix(prefixed_name);
+  switch (sibling_scope.size()) {
+    case 0:
+      if (isOutermost()) {
         throw SyntaxError(
-          "There are multiple StoryboardElements that can be referenced by the name ",
+          "There is no StoryboardElement that can be referenced by the name ",
           std::quoted(boost::lexical_cast<std::string>(prefixed_name)), ".");
-    }
+      }
+      return outer_frame->lookupFrame(prefixed_name);
+    case 1:
+      assert(sibling_scope.front());
+      return sibling_scope.front();
+    default:
+      throw SyntaxError(
+        "There are multiple StoryboardElements that can be referenced by the name ",
+        std::quoted(boost::lexical_cast<std::string>(prefixed_name)), ".");
   }
 }
 
-- 
2.43.0


From 996d3b6ca2b2bcb68ac75a94a284ae592c2f2221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:27 +0000
Subject: [PATCH 11/25] fix: a storyboard element state condition no longer
 holds forever after the element left the state

---
 .../syntax/storyboard_element_state_condition.hpp  |  2 ++
 .../syntax/storyboard_element_state_condition.cpp  | 14 ++++++++------
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/storyboard_element_state_condition.hpp b/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/storyboard_element_state_condition.hpp
index fde34c8..79284be 100644
--- a/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/storyboard_element_state_condition.hpp
+++ b/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/storyboard_element_state_condition.hpp
@@ -43,6 +43,8 @@ struct StoryboardElementStateCondition : private Scope
 
   StoryboardElementState current_state;
 
+  bool transitioned = false;
+
   explicit StoryboardElementStateCondition(const pugi::xml_node &, const Scope &);
 
   auto description() const -> String;
diff --git a/openscenario/openscenario_interpreter/src/syntax/storyboard_element_state_condition.cpp b/openscenario/openscenario_interpreter/src/syntax/storyboard_element_state_condition.cpp
index 5d8758f..97d2e61 100644
--- a/openscenario/openscenario_interpreter/src/syntax/storyboard_element_state_condition.cpp
+++ b/openscenario/openscenario_interpreter/src/syntax/storyboard_element_state_condition.cpp
@@ -16,6 +16,7 @@
 #include <openscenario_interpreter/syntax/storyboard.hpp>
 #include <openscenario_interpreter/syntax/storyboard_element.hpp>
 #include <openscenario_interpreter/syntax/storyboard_element_state_condition.hpp>
+#include <utility>
 
 namespace openscenario_interpreter
 {
@@ -47,6 +48,7 @@ StoryboardElementStateCondition::StoryboardElementStateCondition(
       .ref<StoryboardElement>(storyboard_element_ref)
       .addTransitionCallback(state, [this](auto && storyboard_element) {
         current_state = storyboard_element.state().template as<StoryboardElementState>();
+        transitioned = true;
       });
   };
 
@@ -79,13 +81,13 @@ auto StoryboardElementStateCondition::evaluate() -> Object
      have transitioned to a different state than the one recorded in
      current_state.
 
-     Therefore, we must first check to see if the callback function has updated
-     current_state (= has the StoryboardElement transitioned to the monitored
-     state at least once since the last time evaluate was called), and then
-     check to see if the current StoryboardElement state is indeed the state
-     being monitored.
+     Therefore, we must check to see if the callback function has been called
+     (= has the StoryboardElement transitioned to the monitored state at least
+     once since the last time evaluate was called), and then check to see if the
+     current StoryboardElement state is indeed the state being monitored.
   */
-  return asBoolean(current_state == state or update() == state);
+  const auto has_transitioned = std::exchange(transitioned, false);
+  return asBoolean(update() == state or has_transitioned);
 }
 }  // namespace syntax
 }  // namespace openscenario_interpreter
-- 
2.43.0


From ac420a877e64ad701b4d598cc679bac75f78814b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:22 +0000
Subject: [PATCH 12/25] fix: do not truncate the cycle time of a traffic signal
 controller to whole seconds

---
 .../src/syntax/traffic_signal_controller.cpp                | 2 +-
 .../openscenario_interpreter/src/syntax/traffic_signals.cpp | 6 +++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/openscenario/openscenario_interpreter/src/syntax/traffic_signal_controller.cpp b/openscenario/openscenario_interpreter/src/syntax/traffic_signal_controller.cpp
index e40ead1..aacbf40 100644
--- a/openscenario/openscenario_interpreter/src/syntax/traffic_signal_controller.cpp
+++ b/openscenario/openscenario_interpreter/src/syntax/traffic_signal_controller.cpp
@@ -100,7 +100,7 @@ auto TrafficSignalController::currentPhaseSince() const -> double
 auto TrafficSignalController::cycleTime() const -> double
 {
   return std::accumulate(
-    std::cbegin(phases), std::cend(phases), 0,
+    std::cbegin(phases), std::cend(phases), 0.0,
     [](const auto & sum, const auto & phase) { return sum + phase.duration; });
 }
 
diff --git a/openscenario/openscenario_interpreter/src/syntax/traffic_signals.cpp b/openscenario/openscenario_interpreter/src/syntax/traffic_signals.cpp
index 855b03d..55927cd 100644
--- a/openscenario/openscenario_interpreter/src/syntax/traffic_signals.cpp
+++ b/openscenario/openscenario_interpreter/src/syntax/traffic_signals.cpp
@@ -12,6 +12,8 @@
 // See the License for the specific language governing permissions and
 // limitations under the License.
 
+#include <cmath>
+#include <limits>
 #include <openscenario_interpreter/error.hpp>
 #include <openscenario_interpreter/reader/element.hpp>
 #include <openscenario_interpreter/simulator_core.hpp>
@@ -48,7 +50,9 @@ auto TrafficSignals::resolve_reference(Scope & scope) -> void
     if (not each->reference.empty()) {
       try {
         auto & reference = scope.ref<TrafficSignalController>(each->reference);
-        if (each->cycleTime() != reference.cycleTime()) {
+        if (
+          std::abs(each->cycleTime() - reference.cycleTime()) >
+          std::numeric_limits<float>::epsilon()) {
           THROW_SEMANTIC_ERROR(
             "The cycle time of ", each->name, "(", each->cycleTime(), " sec) and ", each->reference,
             "(", reference.cycleTime(), " sec) is different");
-- 
2.43.0


From bea8ab1f497baf3c5088ff25e94b4bee0535f943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:55 +0000
Subject: [PATCH 13/25] fix: a traffic signal controller whose first phase has
 not begun has no current phase name to read

---
 .../src/syntax/traffic_signal_controller.cpp                   | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openscenario/openscenario_interpreter/src/syntax/traffic_signal_controller.cpp b/openscenario/openscenario_interpreter/src/syntax/traffic_signal_controller.cpp
index aacbf40..11b64bc 100644
--- a/openscenario/openscenario_interpreter/src/syntax/traffic_signal_controller.cpp
+++ b/openscenario/openscenario_interpreter/src/syntax/traffic_signal_controller.cpp
@@ -89,7 +89,8 @@ auto TrafficSignalController::currentPhaseExceeded() const -> bool
 
 auto TrafficSignalController::currentPhaseName() const -> const String &
 {
-  return (*current_phase).name;
+  static const String no_phase = "";  // the first phase has not begun yet
+  return current_phase != std::end(phases) ? (*current_phase).name : no_phase;
 }
 
 auto TrafficSignalController::currentPhaseSince() const -> double
-- 
2.43.0


From 26897a77f578e5249cabf7f5484d615bcada4136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:41 +0000
Subject: [PATCH 14/25] fix: empty names are relative references, not absolute
 ones without a name

---
 .../include/openscenario_interpreter/name.hpp                   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openscenario/openscenario_interpreter/include/openscenario_interpreter/name.hpp b/openscenario/openscenario_interpreter/include/openscenario_interpreter/name.hpp
index 299f613..7ea8d08 100644
--- a/openscenario/openscenario_interpreter/include/openscenario_interpreter/name.hpp
+++ b/openscenario/openscenario_interpreter/include/openscenario_interpreter/name.hpp
@@ -57,7 +57,7 @@ struct Prefixed  // NOTE: 1.4.5. Naming conventions for OpenSCENARIO references
   }
 
   explicit Prefixed(const std::vector<std::string> given)
-  : absolute(not given.empty() and given.front().empty()),
+  : absolute(given.size() > 1 and given.front().empty()),
     prefixes(
       absolute ? std::next(std::begin(given)) : std::begin(given), std::prev(std::end(given))),
     name(given.back())
-- 
2.43.0


From 375c7a1aff74e9eeb3398ab810f5c1d910f79e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:49 +0000
Subject: [PATCH 15/25] fix: actions of a selection end when all selected
 entities are done, whichever is done first

LaneChangeAction and FollowTrajectoryAction ended when one entity of the selection had finished, and never for an
empty selection. An actor that reached its goal was not noticed while another one, looked at before it, had not.
---
 .../src/syntax/follow_trajectory_action.cpp   | 31 ++++++++++---------
 .../src/syntax/lane_change_action.cpp         | 19 +++++++-----
 .../src/syntax/speed_action.cpp               |  8 +++--
 3 files changed, 34 insertions(+), 24 deletions(-)

diff --git a/openscenario/openscenario_interpreter/src/syntax/follow_trajectory_action.cpp b/openscenario/openscenario_interpreter/src/syntax/follow_trajectory_action.cpp
index 23bee1c..2612d30 100644
--- a/openscenario/openscenario_interpreter/src/syntax/follow_trajectory_action.cpp
+++ b/openscenario/openscenario_interpreter/src/syntax/follow_trajectory_action.cpp
@@ -51,21 +51,24 @@ auto FollowTrajectoryAction::accomplished() -> bool
     }
     return false;
   } else {
+    auto is_running = [this](const auto & actor) {
+      if (trajectory_ref.trajectory.as<Trajectory>().shape.is<Polyline>()) {
+        auto evaluation = actor.apply([&](const auto & object) {
+          return evaluateCurrentState(object) == "follow_polyline_trajectory";
+        });
+        return evaluation.size() and evaluation.max();
+      } else {
+        return false;
+      }
+    };
+
+    for (auto && accomplishment : accomplishments) {
+      accomplishment.second = accomplishment.second or not is_running(accomplishment.first);
+    }
+
     return std::all_of(
-      std::begin(accomplishments), std::end(accomplishments), [this](auto && accomplishment) {
-        auto is_running = [this](const auto & actor) {
-          if (trajectory_ref.trajectory.as<Trajectory>().shape.is<Polyline>()) {
-            auto evaluation = actor.apply([&](const auto & object) {
-              return evaluateCurrentState(object) == "follow_polyline_trajectory";
-            });
-            return not evaluation.size() or evaluation.min();
-          } else {
-            return false;
-          }
-        };
-        return accomplishment.second or
-               (accomplishment.second = not is_running(accomplishment.first));
-      });
+      std::begin(accomplishments), std::end(accomplishments),
+      [](auto && accomplishment) { return accomplishment.second; });
   }
 }
 
diff --git a/openscenario/openscenario_interpreter/src/syntax/lane_change_action.cpp b/openscenario/openscenario_interpreter/src/syntax/lane_change_action.cpp
index aa44293..1c5dd5b 100644
--- a/openscenario/openscenario_interpreter/src/syntax/lane_change_action.cpp
+++ b/openscenario/openscenario_interpreter/src/syntax/lane_change_action.cpp
@@ -45,13 +45,18 @@ LaneChangeAction::LaneChangeAction(const pugi::xml_node & node, Scope & scope)
 
 auto LaneChangeAction::accomplished() -> bool
 {
-  return std::all_of(std::begin(accomplishments), std::end(accomplishments), [&](auto & each) {
-    const auto is_lane_changing = [&](const auto & actor) {
-      auto evaluation = actor.apply(
-        [&](const auto & object) { return evaluateCurrentState(object) == "lane_change"; });
-      return not evaluation.size() or evaluation.min();
-    };
-    return each.second or (each.second = not is_lane_changing(each.first));
+  const auto is_lane_changing = [&](const auto & actor) {
+    auto evaluation = actor.apply(
+      [&](const auto & object) { return evaluateCurrentState(object) == "lane_change"; });
+    return evaluation.size() and evaluation.max();
+  };
+
+  for (auto && each : accomplishments) {
+    each.second = each.second or not is_lane_changing(each.first);
+  }
+
+  return std::all_of(std::begin(accomplishments), std::end(accomplishments), [](auto && each) {
+    return each.second;
   });
 }
 
diff --git a/openscenario/openscenario_interpreter/src/syntax/speed_action.cpp b/openscenario/openscenario_interpreter/src/syntax/speed_action.cpp
index 935d62e..f7cd681 100644
--- a/openscenario/openscenario_interpreter/src/syntax/speed_action.cpp
+++ b/openscenario/openscenario_interpreter/src/syntax/speed_action.cpp
@@ -92,10 +92,12 @@ auto SpeedAction::accomplished() -> bool
   if (endsImmediately()) {
     return true;
   } else if (ends_on_reaching_the_speed()) {
+    for (auto && accomplishment : accomplishments) {
+      accomplishment.second = accomplishment.second or check(accomplishment.first);
+    }
     return std::all_of(
-      std::begin(accomplishments), std::end(accomplishments), [&](auto && accomplishment) {
-        return accomplishment.second = accomplishment.second or check(accomplishment.first);
-      });
+      std::begin(accomplishments), std::end(accomplishments),
+      [](auto && accomplishment) { return accomplishment.second; });
   } else if (there_is_no_regular_ending()) {
     return false;  // no regular ending
   } else {
-- 
2.43.0


From 9a583ddbb7c40a27b7b00d5cac160d48449e6b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:05 +0000
Subject: [PATCH 16/25] fix: each entity of a selection follows a trajectory of
 its own, from its own pose

---
 .../include/openscenario_interpreter/simulator_core.hpp      | 5 ++++-
 .../src/syntax/follow_trajectory_action.cpp                  | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/openscenario/openscenario_interpreter/include/openscenario_interpreter/simulator_core.hpp b/openscenario/openscenario_interpreter/include/openscenario_interpreter/simulator_core.hpp
index bd7cdd7..6f6475d 100644
--- a/openscenario/openscenario_interpreter/include/openscenario_interpreter/simulator_core.hpp
+++ b/openscenario/openscenario_interpreter/include/openscenario_interpreter/simulator_core.hpp
@@ -495,8 +495,11 @@ public:
     template <typename... Ts>
     static auto applyFollowTrajectoryAction(
       const std::string & entity_ref,
-      const std::shared_ptr<traffic_simulator_msgs::msg::PolylineTrajectory> & parameter)
+      const traffic_simulator_msgs::msg::PolylineTrajectory & trajectory)
     {
+      /// @note each entity gets a trajectory of its own, as it is modified while being followed
+      const auto parameter =
+        std::make_shared<traffic_simulator_msgs::msg::PolylineTrajectory>(trajectory);
       /// @note add current entity pose as the first waypoint in the trajectory
       traffic_simulator_msgs::msg::Vertex initial_vertex;
       initial_vertex.time = std::numeric_limits<double>::quiet_NaN();
diff --git a/openscenario/openscenario_interpreter/src/syntax/follow_trajectory_action.cpp b/openscenario/openscenario_interpreter/src/syntax/follow_trajectory_action.cpp
index 2612d30..3cf28af 100644
--- a/openscenario/openscenario_interpreter/src/syntax/follow_trajectory_action.cpp
+++ b/openscenario/openscenario_interpreter/src/syntax/follow_trajectory_action.cpp
@@ -117,7 +117,7 @@ auto FollowTrajectoryAction::start() -> void
     parameter->closed = trajectory_ref.trajectory.as<Trajectory>().closed;
     parameter->shape = repack_trajectory();
 
-    actor.apply([&](const auto & object) { applyFollowTrajectoryAction(object, parameter); });
+    actor.apply([&](const auto & object) { applyFollowTrajectoryAction(object, *parameter); });
   }
 }
 }  // namespace syntax
-- 
2.43.0


From f63c0ae43d7d07bb15dd3f72ecf245e15ad32a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:05 +0000
Subject: [PATCH 17/25] fix: FollowTrajectoryAction ignores times instead of
 failing when its TimeReference is None

---
 .../src/syntax/follow_trajectory_action.cpp           | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/openscenario/openscenario_interpreter/src/syntax/follow_trajectory_action.cpp b/openscenario/openscenario_interpreter/src/syntax/follow_trajectory_action.cpp
index 3cf28af..83390e3 100644
--- a/openscenario/openscenario_interpreter/src/syntax/follow_trajectory_action.cpp
+++ b/openscenario/openscenario_interpreter/src/syntax/follow_trajectory_action.cpp
@@ -93,9 +93,13 @@ auto FollowTrajectoryAction::start() -> void
              This was deliberately chosen because of the convenience of nan's
              behavior of always returning false for any comparison and
              propagating the value even if a quadratic operation is performed.
+
+             If TimeReference is None, times are ignored.
           */
-          message.time =
-            time_reference.as<Timing>().offset + time_reference.as<Timing>().scale * vertex.time;
+          message.time = time_reference.is<Timing>()
+                           ? time_reference.as<Timing>().offset +
+                               time_reference.as<Timing>().scale * vertex.time
+                           : std::numeric_limits<double>::quiet_NaN();
           message.position = static_cast<geometry_msgs::msg::Pose>(vertex.position);
           polyline.vertices.push_back(message);
         }
@@ -111,7 +115,8 @@ auto FollowTrajectoryAction::start() -> void
     parameter->dynamic_constraints_ignorable =
       trajectory_following_mode.following_mode == FollowingMode::position;
     parameter->base_time =
-      time_reference.as<Timing>().domain_absolute_relative == ReferenceContext::absolute
+      not time_reference.is<Timing>() or
+          time_reference.as<Timing>().domain_absolute_relative == ReferenceContext::absolute
         ? std::numeric_limits<double>::quiet_NaN()
         : evaluateSimulationTime();
     parameter->closed = trajectory_ref.trajectory.as<Trajectory>().closed;
-- 
2.43.0


From afd53d8eb4ad9a32d49cddf56698f8fb7d9420dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:16 +0000
Subject: [PATCH 18/25] fix: adding to and multiplying unsigned parameters does
 not truncate the operand

---
 .../openscenario_interpreter/syntax/unsigned_integer.hpp      | 4 ++--
 .../openscenario_interpreter/syntax/unsigned_short.hpp        | 4 ++--
 .../openscenario_interpreter/src/syntax/unsigned_integer.cpp  | 4 ++--
 .../openscenario_interpreter/src/syntax/unsigned_short.cpp    | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/unsigned_integer.hpp b/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/unsigned_integer.hpp
index 8e05247..71ae575 100644
--- a/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/unsigned_integer.hpp
+++ b/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/unsigned_integer.hpp
@@ -37,9 +37,9 @@ struct UnsignedInteger
 
   auto operator++() noexcept -> UnsignedInteger &;
 
-  auto operator+=(const value_type &) -> UnsignedInteger &;
+  auto operator+=(const double &) -> UnsignedInteger &;
 
-  auto operator*=(const value_type &) -> UnsignedInteger &;
+  auto operator*=(const double &) -> UnsignedInteger &;
 
   operator value_type() const noexcept;
 };
diff --git a/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/unsigned_short.hpp b/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/unsigned_short.hpp
index 958076e..9d95245 100644
--- a/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/unsigned_short.hpp
+++ b/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/unsigned_short.hpp
@@ -36,9 +36,9 @@ struct UnsignedShort
 
   auto operator++() noexcept -> UnsignedShort &;
 
-  auto operator+=(const value_type &) -> UnsignedShort &;
+  auto operator+=(const double &) -> UnsignedShort &;
 
-  auto operator*=(const value_type &) -> UnsignedShort &;
+  auto operator*=(const double &) -> UnsignedShort &;
 
   operator value_type() const noexcept;
 };
diff --git a/openscenario/openscenario_interpreter/src/syntax/unsigned_integer.cpp b/openscenario/openscenario_interpreter/src/syntax/unsigned_integer.cpp
index 7d70b75..81a34df 100644
--- a/openscenario/openscenario_interpreter/src/syntax/unsigned_integer.cpp
+++ b/openscenario/openscenario_interpreter/src/syntax/unsigned_integer.cpp
@@ -40,13 +40,13 @@ auto UnsignedInteger::operator++() noexcept -> UnsignedInteger &
   return *this;
 }
 
-auto UnsignedInteger::operator+=(const value_type & rhs) -> UnsignedInteger &
+auto UnsignedInteger::operator+=(const double & rhs) -> UnsignedInteger &
 {
   data += rhs;
   return *this;
 }
 
-auto UnsignedInteger::operator*=(const value_type & rhs) -> UnsignedInteger &
+auto UnsignedInteger::operator*=(const double & rhs) -> UnsignedInteger &
 {
   data *= rhs;
   return *this;
diff --git a/openscenario/openscenario_interpreter/src/syntax/unsigned_short.cpp b/openscenario/openscenario_interpreter/src/syntax/unsigned_short.cpp
index 2d97d42..183d8db 100644
--- a/openscenario/openscenario_interpreter/src/syntax/unsigned_short.cpp
+++ b/openscenario/openscenario_interpreter/src/syntax/unsigned_short.cpp
@@ -42,13 +42,13 @@ auto UnsignedShort::operator++() noexcept -> UnsignedShort &
   return *this;
 }
 
-auto UnsignedShort::operator+=(const value_type & rhs) -> UnsignedShort &
+auto UnsignedShort::operator+=(const double & rhs) -> UnsignedShort &
 {
   data += rhs;
   return *this;
 }
 
-auto UnsignedShort::operator*=(const value_type & rhs) -> UnsignedShort &
+auto UnsignedShort::operator*=(const double & rhs) -> UnsignedShort &
 {
   data *= rhs;
   return *this;
-- 
2.43.0


From 3294e22e65e42ff4fa56667d8555b7a46a695426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:31 +0000
Subject: [PATCH 19/25] fix: a deleted entity is no longer regarded as added

Conditions on it failed looking it up in the simulator, and it could not be added again.
---
 .../syntax/delete_entity_action.hpp                      | 9 ++++-----
 .../src/syntax/delete_entity_action.cpp                  | 5 +++++
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/delete_entity_action.hpp b/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/delete_entity_action.hpp
index e27ad6d..a906999 100644
--- a/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/delete_entity_action.hpp
+++ b/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/delete_entity_action.hpp
@@ -15,8 +15,10 @@
 #ifndef OPENSCENARIO_INTERPRETER__SYNTAX__DELETE_ENTITY_ACTION_HPP_
 #define OPENSCENARIO_INTERPRETER__SYNTAX__DELETE_ENTITY_ACTION_HPP_
 
+#include <openscenario_interpreter/scope.hpp>
 #include <openscenario_interpreter/simulator_core.hpp>
 #include <openscenario_interpreter/syntax/entity_ref.hpp>
+#include <pugixml.hpp>
 
 namespace openscenario_interpreter
 {
@@ -27,12 +29,9 @@ inline namespace syntax
  *  <xsd:complexType name="DeleteEntityAction"/>
  *
  * -------------------------------------------------------------------------- */
-struct DeleteEntityAction : private SimulatorCore::ActionApplication
+struct DeleteEntityAction : private Scope, private SimulatorCore::ActionApplication
 {
-  template <typename... Ts>
-  explicit DeleteEntityAction(Ts &&...)
-  {
-  }
+  explicit DeleteEntityAction(const pugi::xml_node &, Scope &);
 
   auto operator()(const EntityRef &) const -> void;
 };
diff --git a/openscenario/openscenario_interpreter/src/syntax/delete_entity_action.cpp b/openscenario/openscenario_interpreter/src/syntax/delete_entity_action.cpp
index 60b346a..bb1bb11 100644
--- a/openscenario/openscenario_interpreter/src/syntax/delete_entity_action.cpp
+++ b/openscenario/openscenario_interpreter/src/syntax/delete_entity_action.cpp
@@ -14,14 +14,19 @@
 
 #include <openscenario_interpreter/simulator_core.hpp>
 #include <openscenario_interpreter/syntax/delete_entity_action.hpp>
+#include <openscenario_interpreter/syntax/entities.hpp>
+#include <openscenario_interpreter/syntax/scenario_object.hpp>
 
 namespace openscenario_interpreter
 {
 inline namespace syntax
 {
+DeleteEntityAction::DeleteEntityAction(const pugi::xml_node &, Scope & scope) : Scope(scope) {}
+
 auto DeleteEntityAction::operator()(const EntityRef & entity_ref) const -> void
 {
   applyDeleteEntityAction(entity_ref);
+  global().entities->ref(entity_ref).as<ScenarioObject>().is_added = false;
 }
 }  // namespace syntax
 }  // namespace openscenario_interpreter
-- 
2.43.0


From b6c779157d63e7829b49972323f57284d4b2ec63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:59 +0000
Subject: [PATCH 20/25] fix: folding from the left returns the result, not a
 reference to a temporary

---
 .../include/scenario_simulator_exception/fold.hpp               | 2 +-
 .../include/openscenario_interpreter/functional/fold.hpp        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/scenario_simulator_exception/include/scenario_simulator_exception/fold.hpp b/common/scenario_simulator_exception/include/scenario_simulator_exception/fold.hpp
index 13ec28b..271798b 100644
--- a/common/scenario_simulator_exception/include/scenario_simulator_exception/fold.hpp
+++ b/common/scenario_simulator_exception/include/scenario_simulator_exception/fold.hpp
@@ -23,7 +23,7 @@ namespace common
 inline namespace scenario_simulator_exception
 {
 template <typename F, typename T>
-constexpr decltype(auto) fold_left(F &&, T && x)
+constexpr T fold_left(F &&, T && x)
 {
   return std::forward<decltype(x)>(x);
 }
diff --git a/openscenario/openscenario_interpreter/include/openscenario_interpreter/functional/fold.hpp b/openscenario/openscenario_interpreter/include/openscenario_interpreter/functional/fold.hpp
index 86f5d27..8c556b8 100644
--- a/openscenario/openscenario_interpreter/include/openscenario_interpreter/functional/fold.hpp
+++ b/openscenario/openscenario_interpreter/include/openscenario_interpreter/functional/fold.hpp
@@ -23,7 +23,7 @@ namespace openscenario_interpreter
 inline namespace functional
 {
 template <typename F, typename T>
-constexpr decltype(auto) fold_left(F &&, T && x)
+constexpr T fold_left(F &&, T && x)
 {
   return std::forward<decltype(x)>(x);
 }
-- 
2.43.0


From 2747f14346887649512bba348e7b55c6c567a698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:00 +0000
Subject: [PATCH 21/25] fix: a point transformed into the frame of a sensor is
 moved in that frame, not in the world's

---
 common/math/geometry/src/transform.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/common/math/geometry/src/transform.cpp b/common/math/geometry/src/transform.cpp
index d730bf4..c2ffe7c 100644
--- a/common/math/geometry/src/transform.cpp
+++ b/common/math/geometry/src/transform.cpp
@@ -92,9 +92,15 @@ const geometry_msgs::msg::Point transformPoint(
   v(1) = point.y;
   v(2) = point.z;
   v = mat * v;
-  v(0) = v(0) + pose.position.x - sensor_pose.position.x;
-  v(1) = v(1) + pose.position.y - sensor_pose.position.y;
-  v(2) = v(2) + pose.position.z - sensor_pose.position.z;
+  // the offset between the origins is given in the world frame, so turn it into the sensor frame
+  Eigen::VectorXd offset(3);
+  offset(0) = pose.position.x - sensor_pose.position.x;
+  offset(1) = pose.position.y - sensor_pose.position.y;
+  offset(2) = pose.position.z - sensor_pose.position.z;
+  offset = math::geometry::getRotationMatrix(sensor_pose.orientation).transpose() * offset;
+  v(0) = v(0) + offset(0);
+  v(1) = v(1) + offset(1);
+  v(2) = v(2) + offset(2);
   geometry_msgs::msg::Point ret;
   ret.x = v(0);
   ret.y = v(1);
-- 
2.43.0


From 5f3bf4e817a076381b54deea71c3d93ce526bc20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:00 +0000
Subject: [PATCH 22/25] fix: a segment directed towards negative x has a slope

---
 common/math/geometry/src/polygon/line_segment.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/math/geometry/src/polygon/line_segment.cpp b/common/math/geometry/src/polygon/line_segment.cpp
index 791fb8f..d1f87e0 100644
--- a/common/math/geometry/src/polygon/line_segment.cpp
+++ b/common/math/geometry/src/polygon/line_segment.cpp
@@ -225,7 +225,7 @@ auto LineSegment::getNormalVector() const -> geometry_msgs::msg::Vector3
 
 auto LineSegment::get2DVectorSlope() const -> double
 {
-  if (vector_2d.x <= std::numeric_limits<double>::epsilon()) {
+  if (std::abs(vector_2d.x) <= std::numeric_limits<double>::epsilon()) {
     THROW_SIMULATION_ERROR("Slope of a vertical line is undefined");
   } else {
     return vector_2d.y / vector_2d.x;
-- 
2.43.0


From 380871f1267ee8f1ec17ae8d0ae3f6cd1f1d6815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:29 +0000
Subject: [PATCH 23/25] fix: a Catmull-Rom spline of two control points keeps
 the length of its line segment

---
 common/math/geometry/src/spline/catmull_rom_spline.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/common/math/geometry/src/spline/catmull_rom_spline.cpp b/common/math/geometry/src/spline/catmull_rom_spline.cpp
index 5006b35..b55cfac 100644
--- a/common/math/geometry/src/spline/catmull_rom_spline.cpp
+++ b/common/math/geometry/src/spline/catmull_rom_spline.cpp
@@ -206,6 +206,7 @@ CatmullRomSpline::CatmullRomSpline(
     /// @note In this case, spline is interpreted as line segment.
     case 2:
       total_length_ = line_segments_[0].length;
+      length_list_.emplace_back(total_length_);
       break;
     /// @note In this case, spline is interpreted as curve.
     default:
-- 
2.43.0


From 3f4d7e7edc62ca8988f0647192490b25d0e2b66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:29 +0000
Subject: [PATCH 24/25] fix: the altitude range of a subspline without control
 points is unbounded below, not positive

---
 common/math/geometry/src/spline/catmull_rom_subspline.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/math/geometry/src/spline/catmull_rom_subspline.cpp b/common/math/geometry/src/spline/catmull_rom_subspline.cpp
index fcb412b..27ee0dd 100644
--- a/common/math/geometry/src/spline/catmull_rom_subspline.cpp
+++ b/common/math/geometry/src/spline/catmull_rom_subspline.cpp
@@ -54,10 +54,10 @@ std::pair<double, double> CatmullRomSubspline::getAltitudeRange() const
     }
 
     return {
-      min_altitude.value_or(std::numeric_limits<double>::min()),
+      min_altitude.value_or(std::numeric_limits<double>::lowest()),
       max_altitude.value_or(std::numeric_limits<double>::max())};
   } else {
-    return {std::numeric_limits<double>::min(), std::numeric_limits<double>::max()};
+    return {std::numeric_limits<double>::lowest(), std::numeric_limits<double>::max()};
   }
 }
 
-- 
2.43.0


From e0589eb0ddfe0f05952dd76f067efcde9c134976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:29 +0000
Subject: [PATCH 25/25] fix: control commands keep control_time and is_defined
 flags through their conversions

---
 simulation/simulation_interface/src/conversions.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/simulation/simulation_interface/src/conversions.cpp b/simulation/simulation_interface/src/conversions.cpp
index 5d006d3..fd1f13d 100644
--- a/simulation/simulation_interface/src/conversions.cpp
+++ b/simulation/simulation_interface/src/conversions.cpp
@@ -493,16 +493,21 @@ void toProto(
   const autoware_control_msgs::msg::Lateral & message, autoware_control_msgs::Lateral & proto)
 {
   toProto(message.stamp, *proto.mutable_stamp());
+  toProto(message.control_time, *proto.mutable_control_time());
   proto.set_steering_tire_angle(message.steering_tire_angle);
   proto.set_steering_tire_rotation_rate(message.steering_tire_rotation_rate);
+  proto.set_is_defined_steering_tire_rotation_rate(
+    message.is_defined_steering_tire_rotation_rate);
 }
 
 void toMsg(
   const autoware_control_msgs::Lateral & proto, autoware_control_msgs::msg::Lateral & message)
 {
   toMsg(proto.stamp(), message.stamp);
+  toMsg(proto.control_time(), message.control_time);
   message.steering_tire_angle = proto.steering_tire_angle();
   message.steering_tire_rotation_rate = proto.steering_tire_rotation_rate();
+  message.is_defined_steering_tire_rotation_rate = proto.is_defined_steering_tire_rotation_rate();
 }
 
 void toProto(
@@ -510,9 +515,12 @@ void toProto(
   autoware_control_msgs::Longitudinal & proto)
 {
   toProto(message.stamp, *proto.mutable_stamp());
+  toProto(message.control_time, *proto.mutable_control_time());
   proto.set_velocity(message.velocity);
   proto.set_acceleration(message.acceleration);
   proto.set_jerk(message.jerk);
+  proto.set_is_defined_acceleration(message.is_defined_acceleration);
+  proto.set_is_defined_jerk(message.is_defined_jerk);
 }
 
 void toMsg(
@@ -520,15 +528,19 @@ void toMsg(
   autoware_control_msgs::msg::Longitudinal & message)
 {
   toMsg(proto.stamp(), message.stamp);
+  toMsg(proto.control_time(), message.control_time);
   message.velocity = proto.velocity();
   message.acceleration = proto.acceleration();
   message.jerk = proto.jerk();
+  message.is_defined_acceleration = proto.is_defined_acceleration();
+  message.is_defined_jerk = proto.is_defined_jerk();
 }
 
 void toProto(
   const autoware_control_msgs::msg::Control & message, autoware_control_msgs::Control & proto)
 {
   toProto(message.stamp, *proto.mutable_stamp());
+  toProto(message.control_time, *proto.mutable_control_time());
   toProto(message.lateral, *proto.mutable_lateral());
   toProto(message.longitudinal, *proto.mutable_longitudinal());
 }
@@ -537,6 +549,7 @@ void toMsg(
   const autoware_control_msgs::Control & proto, autoware_control_msgs::msg::Control & message)
 {
   toMsg(proto.stamp(), message.stamp);
+  toMsg(proto.control_time(), message.control_time);
   toMsg(proto.lateral(), message.lateral);
   toMsg(proto.longitudinal(), message.longitudinal);
 }
-- 
2.43.0

