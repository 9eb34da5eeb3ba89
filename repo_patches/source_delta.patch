From 860c29459bb2cc8b8b5dec6a4e4c08bd6e155a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:42 +0000
Subject: [PATCH 01/18] fix: removing a model that is not in the graph
 dereferenced end()

---
 include/adevs/graph.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/adevs/graph.h b/include/adevs/graph.h
index bb7c7f9..e75f347 100644
--- a/include/adevs/graph.h
+++ b/include/adevs/graph.h
@@ -316,6 +316,10 @@ void Graph<ValueType, TimeType>::remove_atomic(std::shared_ptr<Atomic<ValueType,
         return;
     }
     auto instance_iter = atomic_instance_count.find(model.get());
+    if (instance_iter == atomic_instance_count.end()) {
+        // The model is not part of the graph.
+        return;
+    }
     // Decrease the instance count and return.
     (*instance_iter).second--;
     if ((*instance_iter).second > 0) {
-- 
2.43.0


From d5dfa6d0ea656bb5c906d1158a0c6339c01c63ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:42 +0000
Subject: [PATCH 02/18] fix: removing a coupled model added its pin couplings
 instead of removing them

---
 include/adevs/models.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/adevs/models.h b/include/adevs/models.h
index af25b54..14848b0 100644
--- a/include/adevs/models.h
+++ b/include/adevs/models.h
@@ -567,7 +567,7 @@ void Coupled<ValueType, TimeType>::remove_from_graph() {
         g->disconnect(coupling.first, coupling.second);
     }
     for (auto coupling : pin_to_pin) {
-        g->connect(coupling.first, coupling.second);
+        g->disconnect(coupling.first, coupling.second);
     }
     for (auto coupled : coupled_components) {
         coupled->remove_from_graph();
-- 
2.43.0


From b5efeafe1b469cb74998c7f6c46be5cc0b274d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:42 +0000
Subject: [PATCH 03/18] fix: Coupled::remove_atomic left the couplings to the
 removed model

---
 include/adevs/models.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/adevs/models.h b/include/adevs/models.h
index 14848b0..fac21d6 100644
--- a/include/adevs/models.h
+++ b/include/adevs/models.h
@@ -586,6 +586,16 @@ template <typename ValueType, typename TimeType>
 void Coupled<ValueType, TimeType>::remove_atomic(
     std::shared_ptr<Atomic<ValueType, TimeType>> model) {
     atomic_components.erase(model);
+    for (auto iter = pin_to_atomic.begin(); iter != pin_to_atomic.end();) {
+        if (iter->second != model) {
+            iter++;
+            continue;
+        }
+        if (g != nullptr) {
+            g->disconnect(iter->first, model);
+        }
+        iter = pin_to_atomic.erase(iter);
+    }
     if (g != nullptr) {
         g->remove_atomic(model);
     }
-- 
2.43.0


From ed954588eb9c138a93bc53ac1388f1a78f963dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:42 +0000
Subject: [PATCH 04/18] fix: a coupled model removed from a simulation kept
 changing its graph

---
 include/adevs/models.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/adevs/models.h b/include/adevs/models.h
index fac21d6..2e2ac38 100644
--- a/include/adevs/models.h
+++ b/include/adevs/models.h
@@ -405,7 +405,7 @@ class Coupled {
     /**
      * @brief Constructor creates a model without components or couplings.
      */
-    Coupled() : g(nullptr) {}
+    Coupled() : g(nullptr), g_count(0) {}
     /**
      * @brief Destructor
      *
@@ -496,6 +496,8 @@ class Coupled {
     friend class Simulator<ValueType, TimeType>;
 
     Graph<ValueType, TimeType>* g;
+    /// Number of times this model has been assigned to the graph
+    int g_count;
     std::set<std::shared_ptr<Atomic<ValueType, TimeType>>> atomic_components;
     std::set<std::shared_ptr<Coupled<ValueType, TimeType>>> coupled_components;
     /// Pins that provide input to the Atomic models
@@ -543,6 +545,7 @@ void Coupled<ValueType, TimeType>::remove_coupling(pin_t src, pin_t dst) {
 
 template <typename ValueType, typename TimeType>
 void Coupled<ValueType, TimeType>::assign_to_graph(Graph<ValueType, TimeType>* graph) {
+    g_count = (g == graph) ? g_count + 1 : 1;
     g = graph;
     for (auto atomic : atomic_components) {
         g->add_atomic(atomic);
@@ -572,6 +575,10 @@ void Coupled<ValueType, TimeType>::remove_from_graph() {
     for (auto coupled : coupled_components) {
         coupled->remove_from_graph();
     }
+    // Stop changing the graph when the last instance has left it
+    if (--g_count == 0) {
+        g = nullptr;
+    }
 }
 
 template <typename ValueType, typename TimeType>
-- 
2.43.0


From f243830f72f0927724d09b74cec44dd7ba72d3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:42 +0000
Subject: [PATCH 05/18] fix: adding or removing a repeated instance of a model
 changed its schedule

---
 include/adevs/simulator.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/adevs/simulator.h b/include/adevs/simulator.h
index 1159619..8a8b238 100644
--- a/include/adevs/simulator.h
+++ b/include/adevs/simulator.h
@@ -561,12 +561,18 @@ TimeType Simulator<ValueType, TimeType>::computeNextState() {
         pending.pop_front();
         switch (op.op) {
             case Graph<ValueType, TimeType>::ADD_ATOMIC:
+                // Do not disturb the schedule of a model that is already present
+                if (graph->get_atomics().find(op.model) == graph->get_atomics().end()) {
+                    schedule(op.model.get(), t);
+                }
                 graph->add_atomic(op.model);
-                schedule(op.model.get(), t);
                 break;
             case Graph<ValueType, TimeType>::REMOVE_ATOMIC:
-                sched.schedule(op.model.get(), adevs_inf<TimeType>());
                 graph->remove_atomic(op.model);
+                // The model is done when its last instance leaves
+                if (graph->get_atomics().find(op.model) == graph->get_atomics().end()) {
+                    sched.schedule(op.model.get(), adevs_inf<TimeType>());
+                }
                 break;
             case Graph<ValueType, TimeType>::REMOVE_PIN:
                 graph->remove_pin(op.pin[0]);
-- 
2.43.0


From 3d5ec4f3ce6ebc221564040eb59042144ac4a712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:42 +0000
Subject: [PATCH 06/18] fix: a Mealy model whose input was withdrawn made an
 internal transition

---
 include/adevs/simulator.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/adevs/simulator.h b/include/adevs/simulator.h
index 8a8b238..556ba37 100644
--- a/include/adevs/simulator.h
+++ b/include/adevs/simulator.h
@@ -528,6 +528,10 @@ TimeType Simulator<ValueType, TimeType>::computeNextState() {
     PinValue<ValueType> x;
     TimeType t = tNext + adevs_epsilon<TimeType>();
     for (auto model : active) {
+        // A Mealy model whose input was retracted has nothing to do
+        if (model->inputs.empty() && !(model->tN == tNext)) {
+            continue;
+        }
         // Notify listeners of input events
         for (auto x : model->inputs) {
             for (auto listener : listeners) {
-- 
2.43.0


From af5c1c0edf750b6e9b78fb6a30ec982b292856ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:42 +0000
Subject: [PATCH 07/18] fix: rk_45 leaked its trial solution

---
 include/adevs/solvers/rk_45.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/adevs/solvers/rk_45.h b/include/adevs/solvers/rk_45.h
index 5a362a6..c5f4a98 100644
--- a/include/adevs/solvers/rk_45.h
+++ b/include/adevs/solvers/rk_45.h
@@ -120,6 +120,7 @@ rk_45<ValueType>::rk_45(ode_system<ValueType>* sys, double err_tol, double h_max
 template <typename ValueType>
 rk_45<ValueType>::~rk_45() {
     delete[] dq;
+    delete[] qq;
     delete[] t;
     for (int i = 0; i < 6; i++) {
         delete[] k[i];
-- 
2.43.0


From a33828049b3ea1a3512ecbb835cf5b9164591906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:42 +0000
Subject: [PATCH 08/18] fix: columns of the FMU jacobian overlapped when there
 is more than one state

---
 include/adevs/solvers/fmi.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/adevs/solvers/fmi.h b/include/adevs/solvers/fmi.h
index 23976ab..e790bc6 100644
--- a/include/adevs/solvers/fmi.h
+++ b/include/adevs/solvers/fmi.h
@@ -359,7 +359,7 @@ bool ModelExchange<ValueType>::get_jacobian(double const* q, double* J) {
     // API state_var and jac_col would be in reversed positions.
     for (fmi2_value_reference_t state_var = 0; state_var < N; state_var++) {
         status = fmi2_import_get_directional_derivative(fmu, &state_var, 1, jac_col, N, jac_v,
-                                                        J + state_var * N);
+                                                        J + state_var * (N + 1));
         assert(status == fmi2_status_ok);
     }
     // Partial of time is 1 and nobody else depends on it. This, of course, may
-- 
2.43.0


From 16932ae22fa3dd905be84865baa882c4b205d452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:38 +0000
Subject: [PATCH 09/18] fix: Hybrid left its event flags uninitialized

---
 include/adevs/solvers/hybrid.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/adevs/solvers/hybrid.h b/include/adevs/solvers/hybrid.h
index 1534813..524039e 100644
--- a/include/adevs/solvers/hybrid.h
+++ b/include/adevs/solvers/hybrid.h
@@ -418,7 +418,10 @@ class Hybrid : public Atomic<ValueType, TimeType> {
         q = new double[sys->numVars()];
         q_trial = new double[sys->numVars()];
         event = new bool[sys->numEvents() + 1];
-        event_exists = false;
+        for (int i = 0; i <= sys->numEvents(); i++) {
+            event[i] = false;
+        }
+        event_exists = event_happened = false;
         sys->init(q_trial);  // Get the initial state of the model
         for (int i = 0; i < sys->numVars(); i++) {
             q[i] = q_trial[i];
-- 
2.43.0


From 98cb2ba9b538959bb35ef7c20ef7b70189788149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:38 +0000
Subject: [PATCH 10/18] fix: Hybrid did not delete the objects it adopts nor
 its own arrays

---
 include/adevs/solvers/hybrid.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/adevs/solvers/hybrid.h b/include/adevs/solvers/hybrid.h
index 524039e..3ddb909 100644
--- a/include/adevs/solvers/hybrid.h
+++ b/include/adevs/solvers/hybrid.h
@@ -429,6 +429,16 @@ class Hybrid : public Atomic<ValueType, TimeType> {
         tentative_step();  // Take the first tentative step
     }
 
+    /// @brief Destroy the model and the objects that it adopted
+    ~Hybrid() {
+        delete[] q;
+        delete[] q_trial;
+        delete[] event;
+        delete event_finder;
+        delete solver;
+        delete sys;
+    }
+
     /**
      * @brief Get the value of the kth continuous state variable
      *
-- 
2.43.0


From 21e26bcc524cd27f2bc3ed7fc37b30ad1f58d6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:38 +0000
Subject: [PATCH 11/18] fix: Hybrid lost elapsed time when the locator shrank
 an interval without an event

---
 include/adevs/solvers/hybrid.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/adevs/solvers/hybrid.h b/include/adevs/solvers/hybrid.h
index 3ddb909..9c1b539 100644
--- a/include/adevs/solvers/hybrid.h
+++ b/include/adevs/solvers/hybrid.h
@@ -521,7 +521,9 @@ class Hybrid : public Atomic<ValueType, TimeType> {
                 q_trial[i] = q[i];
             }
             solver->advance(q_trial, e);
-            state_event_exists = event_finder->find_events(event, q, q_trial, solver, e);
+            // The locator may shrink its copy of the elapsed time
+            double h = e;
+            state_event_exists = event_finder->find_events(event, q, q_trial, solver, h);
             // We missed an event
             if (state_event_exists) {
                 output_func(missedOutput);
-- 
2.43.0


From e58bf37d0829cbf1aae2331b8b914e3af4afe8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:38 +0000
Subject: [PATCH 12/18] fix: Hybrid flagged a time event that had not been
 reached at a missed state event

---
 include/adevs/solvers/hybrid.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/adevs/solvers/hybrid.h b/include/adevs/solvers/hybrid.h
index 9c1b539..9f64566 100644
--- a/include/adevs/solvers/hybrid.h
+++ b/include/adevs/solvers/hybrid.h
@@ -526,6 +526,8 @@ class Hybrid : public Atomic<ValueType, TimeType> {
             state_event_exists = event_finder->find_events(event, q, q_trial, solver, h);
             // We missed an event
             if (state_event_exists) {
+                // The time event, if any, is still to come
+                event[sys->numEvents()] = false;
                 output_func(missedOutput);
                 sys->confluent_event(q_trial, event, xb);
                 for (int i = 0; i < sys->numVars(); i++) {
-- 
2.43.0


From 5a62a68cbe2e5d3ecb508bf454633d99ba5f9b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:38 +0000
Subject: [PATCH 13/18] fix: Hybrid repeated the output of an event that
 coincides with a missed output

---
 include/adevs/solvers/hybrid.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/adevs/solvers/hybrid.h b/include/adevs/solvers/hybrid.h
index 9f64566..0b443fe 100644
--- a/include/adevs/solvers/hybrid.h
+++ b/include/adevs/solvers/hybrid.h
@@ -489,7 +489,9 @@ class Hybrid : public Atomic<ValueType, TimeType> {
     void delta_int() {
         if (!missedOutput.empty()) {
             missedOutput.clear();
-            return;
+            if (sigma > 0.0) {
+                return;
+            }
         }
         e_accum += ta();
         // Execute any discrete events
-- 
2.43.0


From 30bce05bc24bd16cb03ad793cd4bc1718ec76f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:38 +0000
Subject: [PATCH 14/18] fix: Hybrid advanced its state without elapsed time at
 an input after a missed output

---
 include/adevs/solvers/hybrid.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/adevs/solvers/hybrid.h b/include/adevs/solvers/hybrid.h
index 0b443fe..f38ee6d 100644
--- a/include/adevs/solvers/hybrid.h
+++ b/include/adevs/solvers/hybrid.h
@@ -563,7 +563,12 @@ class Hybrid : public Atomic<ValueType, TimeType> {
         if (!missedOutput.empty()) {
             missedOutput.clear();
             if (sigma > 0.0) {
+                // The input arrives in the current state with no time elapsed
                 event_exists = false;
+                sigma = 0.0;
+                for (int i = 0; i < sys->numVars(); i++) {
+                    q_trial[i] = q[i];
+                }
             }
         }
         // Execute any discrete events
-- 
2.43.0


From 945968250d23b0ea86dbcc2a9577ef58fc3cb031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:44 +0000
Subject: [PATCH 15/18] fix: classes that own raw resources could be copied and
 release them twice

---
 include/adevs/sched.h                   | 2 ++
 include/adevs/solvers/corrected_euler.h | 2 ++
 include/adevs/solvers/cvode.h           | 2 ++
 include/adevs/solvers/event_locators.h  | 4 ++++
 include/adevs/solvers/fmi.h             | 2 ++
 include/adevs/solvers/hybrid.h          | 2 ++
 include/adevs/solvers/rk_45.h           | 2 ++
 include/adevs/solvers/spline.h          | 2 ++
 include/adevs/solvers/trap.h            | 2 ++
 9 files changed, 20 insertions(+)

diff --git a/include/adevs/sched.h b/include/adevs/sched.h
index cec025d..4cfe685 100644
--- a/include/adevs/sched.h
+++ b/include/adevs/sched.h
@@ -55,6 +55,8 @@ class Schedule {
         : capacity(capacity), size(0), heap(new heap_element[capacity]) {
         heap[0].priority = adevs_sentinel<TimeType>();  // This is a sentinel value
     }
+    Schedule(Schedule const &) = delete;
+    Schedule &operator=(Schedule const &) = delete;
     /// Get the model at the front of the queue.
     Atomic<ValueType, TimeType>* getMinimum() const { return heap[1].item; }
     /// Get the time of the next event.
diff --git a/include/adevs/solvers/corrected_euler.h b/include/adevs/solvers/corrected_euler.h
index 9ce6be3..d7490a8 100644
--- a/include/adevs/solvers/corrected_euler.h
+++ b/include/adevs/solvers/corrected_euler.h
@@ -63,6 +63,8 @@ class corrected_euler : public ode_solver<ValueType> {
      * @param h_max The maximum allowable step size in time
      */
     corrected_euler(ode_system<ValueType>* sys, double err_tol, double h_max);
+    corrected_euler(corrected_euler const &) = delete;
+    corrected_euler &operator=(corrected_euler const &) = delete;
     /**
      * @brief Destructor
      * 
diff --git a/include/adevs/solvers/cvode.h b/include/adevs/solvers/cvode.h
index 3bddfa7..28c0dec 100644
--- a/include/adevs/solvers/cvode.h
+++ b/include/adevs/solvers/cvode.h
@@ -65,6 +65,8 @@ class CVODE : public Atomic<ValueType> {
    * and assign the initial state vector.
    */
     CVODE();
+    CVODE(CVODE const &) = delete;
+    CVODE &operator=(CVODE const &) = delete;
     /**
      * @brief Destructor
      * 
diff --git a/include/adevs/solvers/event_locators.h b/include/adevs/solvers/event_locators.h
index cd8986b..c3deaae 100644
--- a/include/adevs/solvers/event_locators.h
+++ b/include/adevs/solvers/event_locators.h
@@ -77,6 +77,8 @@ class event_locator_impl : public event_locator<ValueType> {
      * @param mode The event localization method to be used
      */
     event_locator_impl(ode_system<ValueType>* sys, double err_tol, Mode mode);
+    event_locator_impl(event_locator_impl const &) = delete;
+    event_locator_impl &operator=(event_locator_impl const &) = delete;
     /// @brief Destructor leaves the ode_system object intact
     ~event_locator_impl();
     /**
@@ -301,6 +303,8 @@ class fast_event_locator : public event_locator<ValueType> {
      * directly using the solver while performing the event localization.
      */
     fast_event_locator(ode_system<ValueType>* sys, double err_tol, bool interpolate = false);
+    fast_event_locator(fast_event_locator const &) = delete;
+    fast_event_locator &operator=(fast_event_locator const &) = delete;
     bool find_events(bool* events, double const* qstart, double* qend,
                      ode_solver<ValueType>* solver, double &h);
     ~fast_event_locator();
diff --git a/include/adevs/solvers/fmi.h b/include/adevs/solvers/fmi.h
index e790bc6..89daa66 100644
--- a/include/adevs/solvers/fmi.h
+++ b/include/adevs/solvers/fmi.h
@@ -70,6 +70,8 @@ class ModelExchange : public ode_system<ValueType> {
      * inside the FMU
      */
     ModelExchange(char const* const fmu, double tolerance);
+    ModelExchange(ModelExchange const &) = delete;
+    ModelExchange &operator=(ModelExchange const &) = delete;
     /// @brief Destructor
     virtual ~ModelExchange();
     /// @brief Copy the initial state of the model to q
diff --git a/include/adevs/solvers/hybrid.h b/include/adevs/solvers/hybrid.h
index f38ee6d..35b4153 100644
--- a/include/adevs/solvers/hybrid.h
+++ b/include/adevs/solvers/hybrid.h
@@ -429,6 +429,8 @@ class Hybrid : public Atomic<ValueType, TimeType> {
         tentative_step();  // Take the first tentative step
     }
 
+    Hybrid(Hybrid const &) = delete;
+    Hybrid &operator=(Hybrid const &) = delete;
     /// @brief Destroy the model and the objects that it adopted
     ~Hybrid() {
         delete[] q;
diff --git a/include/adevs/solvers/rk_45.h b/include/adevs/solvers/rk_45.h
index c5f4a98..a8a0a5d 100644
--- a/include/adevs/solvers/rk_45.h
+++ b/include/adevs/solvers/rk_45.h
@@ -65,6 +65,8 @@ class rk_45 : public ode_solver<ValueType> {
      * @param h_max The largest allowable step size
      */
     rk_45(ode_system<ValueType>* sys, double err_tol, double h_max);
+    rk_45(rk_45 const &) = delete;
+    rk_45 &operator=(rk_45 const &) = delete;
     /**
      * @brief Destructor
      * 
diff --git a/include/adevs/solvers/spline.h b/include/adevs/solvers/spline.h
index 4b9372c..37afc4c 100644
--- a/include/adevs/solvers/spline.h
+++ b/include/adevs/solvers/spline.h
@@ -45,6 +45,8 @@ class spline {
     spline(int const N)
         : N(N), a(new double[N]), b(new double[N]), c(new double[N]), d(new double[N]) {}
 
+    spline(spline const &) = delete;
+    spline &operator=(spline const &) = delete;
     /*
      * Create a spline that interpolates over the interval h from q0
      * to qh.
diff --git a/include/adevs/solvers/trap.h b/include/adevs/solvers/trap.h
index c26a2d4..37708a6 100644
--- a/include/adevs/solvers/trap.h
+++ b/include/adevs/solvers/trap.h
@@ -77,6 +77,8 @@ class trap : public ode_solver<ValueType> {
      * The default value is false.
      */
     trap(ode_system<ValueType>* sys, double err_tol, double h_max, bool silent = false);
+    trap(trap const &) = delete;
+    trap &operator=(trap const &) = delete;
     /**
      * @brief Destructor
      * 
-- 
2.43.0


From 848d5ce8fc546b9935a2c39fdab66e2b2ff94edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:44 +0000
Subject: [PATCH 16/18] fix: a small initial capacity left no room for the
 first entry of the schedule

---
 include/adevs/sched.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/adevs/sched.h b/include/adevs/sched.h
index 4cfe685..96cfa62 100644
--- a/include/adevs/sched.h
+++ b/include/adevs/sched.h
@@ -52,7 +52,7 @@ class Schedule {
   public:
     /// Creates a scheduler with the default or specified initial capacity.
     Schedule(unsigned int capacity = 100)
-        : capacity(capacity), size(0), heap(new heap_element[capacity]) {
+        : capacity(capacity < 2 ? 2 : capacity), size(0), heap(new heap_element[this->capacity]) {
         heap[0].priority = adevs_sentinel<TimeType>();  // This is a sentinel value
     }
     Schedule(Schedule const &) = delete;
-- 
2.43.0


From e09f421e15af377f3b5b307c41a6340e6073ac5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:42 +0000
Subject: [PATCH 17/18] fix: double_fcmp values could compare both equal and
 not equal

---
 include/adevs/time.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/adevs/time.h b/include/adevs/time.h
index c0f9636..60a9e88 100644
--- a/include/adevs/time.h
+++ b/include/adevs/time.h
@@ -214,6 +214,10 @@ class double_fcmp {
     bool operator==(double rhs) const { return (fcmp(d, rhs, epsilon) == 0); }
     /// @brief Equality
     bool operator==(double_fcmp const &rhs) const { return (fcmp(d, rhs.d, epsilon) == 0); }
+    /// @brief Not equal
+    bool operator!=(double rhs) const { return !(*this == rhs); }
+    /// @brief Not equal
+    bool operator!=(double_fcmp const &rhs) const { return !(*this == rhs); }
     /// @brief Advance this value by a step size t2
     double_fcmp operator+(double_fcmp const &t2) const { return double_fcmp(d + t2.d); }
     /// @brief Advance this value by a step size t2
-- 
2.43.0


From 64847a5353fb1acfad4311e3d892cbce3c3ece26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:19 +0000
Subject: [PATCH 18/18] fix: Jacobian of an FMU has a zero entry for the
 constant derivative of time

---
 include/adevs/solvers/fmi.h | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/include/adevs/solvers/fmi.h b/include/adevs/solvers/fmi.h
index 89daa66..102172c 100644
--- a/include/adevs/solvers/fmi.h
+++ b/include/adevs/solvers/fmi.h
@@ -364,11 +364,10 @@ bool ModelExchange<ValueType>::get_jacobian(double const* q, double* J) {
                                                         J + state_var * (N + 1));
         assert(status == fmi2_status_ok);
     }
-    // Partial of time is 1 and nobody else depends on it. This, of course, may
-    // be wrong but FMU does not appear to support partials of f with respect to
-    // time. If you really need this, add dtau/dt = 1 to your equation set and use
-    // tau as your time variable.
-    J[(N + 1) * (N + 1) - 1] = 1.0;
+    // The derivative of time is constant and nobody else depends on it, so its
+    // row and column stay zero. This, of course, may be wrong but FMU does not
+    // appear to support partials of f with respect to time. If you really need
+    // this, add dtau/dt = 1 to your equation set and use tau as your time variable.
     return true;
 }
 
-- 
2.43.0

