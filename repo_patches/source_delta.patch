From 719c7178fc3fedd65f43350261ddad2008e05486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:49 +0000
Subject: [PATCH 01/42] fix: integrate_n_steps with dense output ends at the
 n-th step for negative dt and returns its state

---
 .../numeric/odeint/integrate/detail/integrate_n_steps.hpp  | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/boost/numeric/odeint/integrate/detail/integrate_n_steps.hpp b/include/boost/numeric/odeint/integrate/detail/integrate_n_steps.hpp
index 2ef490d..418b37f 100644
--- a/include/boost/numeric/odeint/integrate/detail/integrate_n_steps.hpp
+++ b/include/boost/numeric/odeint/integrate/detail/integrate_n_steps.hpp
@@ -22,6 +22,7 @@
 #include <boost/numeric/odeint/stepper/stepper_categories.hpp>
 #include <boost/numeric/odeint/integrate/detail/integrate_adaptive.hpp>
 #include <boost/numeric/odeint/util/unit_helper.hpp>
+#include <boost/numeric/odeint/util/copy.hpp>
 
 #include <boost/numeric/odeint/util/detail/less_with_sign.hpp>
 
@@ -112,7 +113,7 @@ Time integrate_n_steps(
 
     while( step < num_of_steps )
     {
-        while( less_with_sign( time , st.current_time() , st.current_time_step() ) )
+        while( step < num_of_steps && less_with_sign( time , st.current_time() , st.current_time_step() ) )
         {
             st.calc_state( time , start_state );
             obs( start_state , time );
@@ -137,7 +138,7 @@ Time integrate_n_steps(
     }
 
     // make sure we really end exactly where we should end
-    while( st.current_time() < end_time )
+    while( less_with_sign( st.current_time() , end_time , dt ) )
     {
         if( less_with_sign( end_time ,
                             static_cast<Time>(st.current_time()+st.current_time_step()) ,
@@ -148,6 +149,8 @@ Time integrate_n_steps(
 
     // observation at final point
     obs( st.current_state() , end_time );
+    // overwrite start_state with the final point
+    boost::numeric::odeint::copy( st.current_state() , start_state );
 
     return time;
 }
-- 
2.43.0


From f7acbfb3444d8f68109a880f52fd74a76d60f9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:49 +0000
Subject: [PATCH 02/42] fix: integrate_const with dense output never
 interpolates outside the steps made or steps past the end

---
 .../integrate/detail/integrate_const.hpp      | 40 ++++++-------------
 1 file changed, 12 insertions(+), 28 deletions(-)

diff --git a/include/boost/numeric/odeint/integrate/detail/integrate_const.hpp b/include/boost/numeric/odeint/integrate/detail/integrate_const.hpp
index 7a86b32..c63e2e5 100644
--- a/include/boost/numeric/odeint/integrate/detail/integrate_const.hpp
+++ b/include/boost/numeric/odeint/integrate/detail/integrate_const.hpp
@@ -120,42 +120,26 @@ size_t integrate_const(
     int obs_step( 1 );
     int real_step( 0 );
     
-    while( less_eq_with_sign( static_cast<Time>(time+dt) , end_time , dt ) )
+    while( less_eq_with_sign( time , end_time , dt ) )
     {
-        while( less_eq_with_sign( time , st.current_time() , dt ) )
-        {
-            st.calc_state( time , start_state );
-            obs( start_state , time );
-            ++obs_step;
-            // direct computation of the time avoids error propagation happening when using time += dt
-            // we need clumsy type analysis to get boost units working here
-            time = start_time + static_cast< typename unit_value_type<Time>::type >(obs_step) * dt;
-        }
-        // we have not reached the end, do another real step
-        if( less_with_sign( static_cast<Time>(st.current_time()+st.current_time_step()) ,
-                            end_time ,
-                            st.current_time_step() ) )
+        // make real steps until the stepper has reached the next observation time
+        while( less_with_sign( st.current_time() , time , dt ) )
         {
-            while( less_eq_with_sign( st.current_time() , time , dt ) )
-            {
-                st.do_step( system );
-                ++real_step;
+            if( less_with_sign( end_time ,
+                                static_cast<Time>(st.current_time()+st.current_time_step()) ,
+                                st.current_time_step() ) )
+            { // do not step beyond the end point
+                st.initialize( st.current_state() , st.current_time() , static_cast<Time>(end_time - st.current_time()) );
             }
-        }
-        else if( less_with_sign( st.current_time() , end_time , st.current_time_step() ) )
-        { // do the last step ending exactly on the end point
-            st.initialize( st.current_state() , st.current_time() , end_time - st.current_time() );
             st.do_step( system );
             ++real_step;
         }
-        
-    }
-    // last observation, if we are still in observation interval
-    // might happen due to finite precision problems when computing the the time
-    if( less_eq_with_sign( time , end_time , dt ) )
-    {
         st.calc_state( time , start_state );
         obs( start_state , time );
+        ++obs_step;
+        // direct computation of the time avoids error propagation happening when using time += dt
+        // we need clumsy type analysis to get boost units working here
+        time = start_time + static_cast< typename unit_value_type<Time>::type >(obs_step) * dt;
     }
     
     return real_step;
-- 
2.43.0


From 750cb2f74d90a4203140093e4d48a770e73a4fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:49 +0000
Subject: [PATCH 03/42] fix: integrate_adaptive with dense output terminates
 when rounding makes the last step miss the end

---
 .../integrate/detail/integrate_adaptive.hpp   | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/include/boost/numeric/odeint/integrate/detail/integrate_adaptive.hpp b/include/boost/numeric/odeint/integrate/detail/integrate_adaptive.hpp
index 7516d44..56724d1 100644
--- a/include/boost/numeric/odeint/integrate/detail/integrate_adaptive.hpp
+++ b/include/boost/numeric/odeint/integrate/detail/integrate_adaptive.hpp
@@ -130,18 +130,17 @@ size_t integrate_adaptive(
     size_t count = 0;
     st.initialize( start_state , start_time , dt );
 
-    while( less_with_sign( st.current_time() , end_time , st.current_time_step() ) )
+    while( less_with_sign( st.current_time() , end_time , dt ) )
     {
-        while( less_eq_with_sign( static_cast<Time>(st.current_time() + st.current_time_step()) ,
-               end_time ,
-               st.current_time_step() ) )
-        {   //make sure we don't go beyond the end_time
-            obs( st.current_state() , st.current_time() );
-            st.do_step( system );
-            ++count;
+        if( less_with_sign( end_time ,
+                            static_cast<Time>(st.current_time() + st.current_time_step()) ,
+                            st.current_time_step() ) )
+        {   // make sure we don't go beyond the end_time but arrive exactly there
+            st.initialize( st.current_state() , st.current_time() , static_cast<Time>(end_time - st.current_time()) );
         }
-        // calculate time step to arrive exactly at end time
-        st.initialize( st.current_state() , st.current_time() , static_cast<Time>(end_time - st.current_time()) );
+        obs( st.current_state() , st.current_time() );
+        st.do_step( system );
+        ++count;
     }
     obs( st.current_state() , st.current_time() );
     // overwrite start_state with the final point
-- 
2.43.0


From f7f20c67d7b84c54ed2295996bbd29e90512f7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:30 +0000
Subject: [PATCH 04/42] fix: observation times that repeat the start time with
 dense output

---
 .../numeric/odeint/integrate/detail/integrate_times.hpp    | 7 ++++++-
 .../numeric/odeint/iterator/impl/times_iterator_impl.hpp   | 5 +++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/boost/numeric/odeint/integrate/detail/integrate_times.hpp b/include/boost/numeric/odeint/integrate/detail/integrate_times.hpp
index 2e27990..691dac5 100644
--- a/include/boost/numeric/odeint/integrate/detail/integrate_times.hpp
+++ b/include/boost/numeric/odeint/integrate/detail/integrate_times.hpp
@@ -139,7 +139,12 @@ size_t integrate_times(
     Time last_time_point = static_cast<time_type>(*last_time_iterator);
 
     st.initialize( start_state , *start_time , dt );
-    obs( start_state , *start_time++ );
+    // the initial state is observed at all leading time points that equal the start time
+    do
+    {
+        obs( start_state , *start_time++ );
+    }
+    while( ( start_time != end_time ) && less_eq_with_sign( static_cast<time_type>(*start_time) , st.current_time() , dt ) );
 
     size_t count = 0;
     while( start_time != end_time )
diff --git a/include/boost/numeric/odeint/iterator/impl/times_iterator_impl.hpp b/include/boost/numeric/odeint/iterator/impl/times_iterator_impl.hpp
index 7a2b48d..83c9d1a 100644
--- a/include/boost/numeric/odeint/iterator/impl/times_iterator_impl.hpp
+++ b/include/boost/numeric/odeint/iterator/impl/times_iterator_impl.hpp
@@ -333,6 +333,11 @@ namespace odeint {
             unwrapped_stepper_type &st = this->m_stepper;
             if( ++m_t_start != m_t_end )
             {
+                if( !detail::less_with_sign( this->m_t , static_cast<time_type>(*m_t_start) , this->m_dt ) )
+                {
+                    // repeated time point, the state already belongs to it
+                    return;
+                }
                 this->m_t = static_cast<time_type>(*m_t_start);
                 while( detail::less_with_sign( st.current_time() , this->m_t , this->m_dt ) )
                 {
-- 
2.43.0


From a7eef284345f2154b17eb2fe1d25e2a4e9e1a315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:38 +0000
Subject: [PATCH 05/42] fix: bulirsch_stoer_dense_out can integrate backward

---
 .../boost/numeric/odeint/stepper/bulirsch_stoer_dense_out.hpp   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/numeric/odeint/stepper/bulirsch_stoer_dense_out.hpp b/include/boost/numeric/odeint/stepper/bulirsch_stoer_dense_out.hpp
index 22eb373..6393b88 100644
--- a/include/boost/numeric/odeint/stepper/bulirsch_stoer_dense_out.hpp
+++ b/include/boost/numeric/odeint/stepper/bulirsch_stoer_dense_out.hpp
@@ -291,7 +291,7 @@ public:
             }
         }
         //set next stepsize
-        if( !m_last_step_rejected || (new_h < dt) )
+        if( !m_last_step_rejected || detail::less_with_sign(new_h, dt, dt) )
         {
             // limit step size
             if( m_max_dt != static_cast<time_type>(0) )
-- 
2.43.0


From 943088feff15f7df2dfefd125681be93d485ea2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:38 +0000
Subject: [PATCH 06/42] fix: a failed initial resize is repeated by the next
 call

---
 include/boost/numeric/odeint/util/resizer.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/boost/numeric/odeint/util/resizer.hpp b/include/boost/numeric/odeint/util/resizer.hpp
index fd969ec..f6f9b4f 100644
--- a/include/boost/numeric/odeint/util/resizer.hpp
+++ b/include/boost/numeric/odeint/util/resizer.hpp
@@ -68,8 +68,10 @@ struct initially_resizer
     {
         if( !m_initialized )
         {
+            const bool resized = f( x );
+            // only now, f might have failed to allocate memory
             m_initialized = true;
-            return f( x );
+            return resized;
         } else
             return false;
     }
-- 
2.43.0


From e02adf15d3e13454aa9188b2a44493ab42e033c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:07 +0000
Subject: [PATCH 07/42] fix: in-place steps of extrapolation_stepper read the
 initial state after overwriting it

---
 .../boost/numeric/odeint/stepper/extrapolation_stepper.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/boost/numeric/odeint/stepper/extrapolation_stepper.hpp b/include/boost/numeric/odeint/stepper/extrapolation_stepper.hpp
index 3b688e9..1a430ff 100644
--- a/include/boost/numeric/odeint/stepper/extrapolation_stepper.hpp
+++ b/include/boost/numeric/odeint/stepper/extrapolation_stepper.hpp
@@ -37,6 +37,7 @@
 #include <boost/numeric/odeint/util/state_wrapper.hpp>
 #include <boost/numeric/odeint/util/is_resizeable.hpp>
 #include <boost/numeric/odeint/util/resizer.hpp>
+#include <boost/numeric/odeint/util/same_instance.hpp>
 #include <boost/numeric/odeint/util/unit_helper.hpp>
 #include <boost/numeric/odeint/util/detail/less_with_sign.hpp>
 
@@ -172,6 +173,12 @@ class extrapolation_stepper : public explicit_error_stepper_base
     void do_step_impl( System system, const StateIn &in, const DerivIn &dxdt,
                        time_type t, StateOut &out, time_type dt )
     {
+        if ( same_instance( in, out ) )
+        {
+            // in is needed until the last extrapolation, so it must not be overwritten
+            do_step_impl_io( system, out, dxdt, t, dt );
+            return;
+        }
         m_resizer.adjust_size(
             in, detail::bind( &stepper_type::template resize_impl< StateIn >,
                               detail::ref( *this ), detail::_1 ) );
-- 
2.43.0


From 7c5d480c8ed86d40642e8a21003d98dfd2f02820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:41 +0000
Subject: [PATCH 08/42] fix: cached derivatives are not used after the system
 function threw while computing them

---
 .../odeint/stepper/base/explicit_error_stepper_fsal_base.hpp     | 1 +
 include/boost/numeric/odeint/stepper/controlled_runge_kutta.hpp  | 1 +
 include/boost/numeric/odeint/stepper/velocity_verlet.hpp         | 1 +
 3 files changed, 3 insertions(+)

diff --git a/include/boost/numeric/odeint/stepper/base/explicit_error_stepper_fsal_base.hpp b/include/boost/numeric/odeint/stepper/base/explicit_error_stepper_fsal_base.hpp
index b1d751a..16f4b74 100644
--- a/include/boost/numeric/odeint/stepper/base/explicit_error_stepper_fsal_base.hpp
+++ b/include/boost/numeric/odeint/stepper/base/explicit_error_stepper_fsal_base.hpp
@@ -294,6 +294,7 @@ public:
     void initialize( System system , const StateIn &x , time_type t )
     {
         typename odeint::unwrap_reference< System >::type &sys = system;
+        m_first_call = true; // m_dxdt is not valid if the system function throws
         sys( x , m_dxdt.m_v , t );
         m_first_call = false;
     }
diff --git a/include/boost/numeric/odeint/stepper/controlled_runge_kutta.hpp b/include/boost/numeric/odeint/stepper/controlled_runge_kutta.hpp
index be00827..50b27b3 100644
--- a/include/boost/numeric/odeint/stepper/controlled_runge_kutta.hpp
+++ b/include/boost/numeric/odeint/stepper/controlled_runge_kutta.hpp
@@ -815,6 +815,7 @@ public:
     void initialize( System system , const StateIn &x , time_type t )
     {
         typename odeint::unwrap_reference< System >::type &sys = system;
+        m_first_call = true; // m_dxdt is not valid if the system function throws
         sys( x , m_dxdt.m_v , t );
         m_first_call = false;
     }
diff --git a/include/boost/numeric/odeint/stepper/velocity_verlet.hpp b/include/boost/numeric/odeint/stepper/velocity_verlet.hpp
index 3a20fc2..217e32b 100644
--- a/include/boost/numeric/odeint/stepper/velocity_verlet.hpp
+++ b/include/boost/numeric/odeint/stepper/velocity_verlet.hpp
@@ -178,6 +178,7 @@ private:
     void initialize_acc( System system , const CoorIn & qin , const VelocityIn & pin , time_type t )
     {
         typename odeint::unwrap_reference< System >::type & sys = system;
+        m_first_call = true; // the acceleration is not valid if the system function throws
         sys( qin , pin , get_current_acc() , t );
         m_first_call = false;
     }
-- 
2.43.0


From d821e8d42e730312035176ab8d645942afbfb9cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:01 +0000
Subject: [PATCH 09/42] fix: controlled_adams_bashforth_moulton::reset forgets
 the error history

---
 .../stepper/controlled_adams_bashforth_moulton.hpp       | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp b/include/boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp
index 85ee4d0..a4767cc 100644
--- a/include/boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp
+++ b/include/boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp
@@ -157,7 +157,7 @@ public:
     controlled_adams_bashforth_moulton(step_adjuster_type step_adjuster = step_adjuster_type())
     :m_stepper(),
     m_dxdt_resizer(), m_xerr_resizer(), m_xnew_resizer(),
-    m_step_adjuster( step_adjuster ), m_order_adjuster()
+    m_step_adjuster( step_adjuster ), m_initial_step_adjuster( step_adjuster ), m_order_adjuster()
     {};
 
     template< class ExplicitStepper, class System >
@@ -276,7 +276,11 @@ public:
         }
     };
 
-    void reset() { m_stepper.reset(); };
+    void reset()
+    {
+        m_stepper.reset();
+        m_step_adjuster = m_initial_step_adjuster; // forget the errors and step sizes of previous steps
+    };
 
 private:
     template< class StateType >
@@ -312,6 +316,7 @@ private:
     resizer_type m_xnew_resizer;
 
     step_adjuster_type m_step_adjuster;
+    step_adjuster_type m_initial_step_adjuster;
     order_adjuster_type m_order_adjuster;
 };
 
-- 
2.43.0


From f009ca91163883a66fb3681fdf0ac52223190fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:02 +0000
Subject: [PATCH 10/42] fix: bulirsch_stoer_dense_out::reset forgets the order
 of the previous integration

---
 .../boost/numeric/odeint/stepper/bulirsch_stoer_dense_out.hpp   | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/boost/numeric/odeint/stepper/bulirsch_stoer_dense_out.hpp b/include/boost/numeric/odeint/stepper/bulirsch_stoer_dense_out.hpp
index 6393b88..259e775 100644
--- a/include/boost/numeric/odeint/stepper/bulirsch_stoer_dense_out.hpp
+++ b/include/boost/numeric/odeint/stepper/bulirsch_stoer_dense_out.hpp
@@ -381,6 +381,8 @@ public:
     {
         m_first = true;
         m_last_step_rejected = false;
+        // crude estimate of optimal order
+        m_current_k_opt = 4;
     }
 
     template< class StateIn >
-- 
2.43.0


From 9f89aeafe7a17d91d03282b91cfd854904756466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:58 +0000
Subject: [PATCH 11/42] fix: adams_bashforth_moulton restarts its history when
 the state is resized

---
 .../numeric/odeint/stepper/adams_bashforth_moulton.hpp    | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/boost/numeric/odeint/stepper/adams_bashforth_moulton.hpp b/include/boost/numeric/odeint/stepper/adams_bashforth_moulton.hpp
index f3edce1..df185dd 100644
--- a/include/boost/numeric/odeint/stepper/adams_bashforth_moulton.hpp
+++ b/include/boost/numeric/odeint/stepper/adams_bashforth_moulton.hpp
@@ -139,6 +139,7 @@ public :
     template< class ExplicitStepper , class System , class StateIn >
     void initialize( ExplicitStepper explicit_stepper , System system , StateIn &x , time_type &t , time_type dt )
     {
+        m_resizer.adjust_size( x , detail::bind( &stepper_type::template resize_impl< StateIn > , detail::ref( *this ) , detail::_1 ) );
         m_adams_bashforth.initialize( explicit_stepper , system , x , t , dt );
     }
 
@@ -146,6 +147,7 @@ public :
     template< class System , class StateIn >
     void initialize( System system , StateIn &x , time_type &t , time_type dt )
     {
+        m_resizer.adjust_size( x , detail::bind( &stepper_type::template resize_impl< StateIn > , detail::ref( *this ) , detail::_1 ) );
         m_adams_bashforth.initialize( system , x , t , dt );
     }
 
@@ -162,9 +164,10 @@ private:
     template< typename System , typename StateInOut >
     void do_step_impl1( System system , StateInOut &x , time_type t , time_type dt )
     {
+        if( m_resizer.adjust_size( x , detail::bind( &stepper_type::template resize_impl< StateInOut > , detail::ref( *this ) , detail::_1 ) ) )
+            m_adams_bashforth.reset(); // the history of another size can not be used
         if( m_adams_bashforth.is_initialized() )
         {
-            m_resizer.adjust_size( x , detail::bind( &stepper_type::template resize_impl< StateInOut > , detail::ref( *this ) , detail::_1 ) );
             m_adams_bashforth.do_step( system , x , t , m_x.m_v , dt );
             m_adams_moulton.do_step( system , x , m_x.m_v , t+dt , x , dt , m_adams_bashforth.step_storage() );
         }
@@ -177,9 +180,10 @@ private:
     template< typename System , typename StateIn , typename StateInOut >
     void do_step_impl2( System system , StateIn const &in , time_type t , StateInOut & out , time_type dt )
     {
+        if( m_resizer.adjust_size( in , detail::bind( &stepper_type::template resize_impl< StateInOut > , detail::ref( *this ) , detail::_1 ) ) )
+            m_adams_bashforth.reset(); // the history of another size can not be used
         if( m_adams_bashforth.is_initialized() )
         {
-            m_resizer.adjust_size( in , detail::bind( &stepper_type::template resize_impl< StateInOut > , detail::ref( *this ) , detail::_1 ) );        
             m_adams_bashforth.do_step( system , in , t , m_x.m_v , dt );
             m_adams_moulton.do_step( system , in , m_x.m_v , t+dt , out , dt , m_adams_bashforth.step_storage() );
         }
-- 
2.43.0


From 1be68cc918970df392f0449b023667f1e3163eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:57 +0000
Subject: [PATCH 12/42] fix: bulirsch_stoer_dense_out keeps its order when the
 system throws at the end of a step

---
 .../odeint/stepper/bulirsch_stoer_dense_out.hpp      | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/boost/numeric/odeint/stepper/bulirsch_stoer_dense_out.hpp b/include/boost/numeric/odeint/stepper/bulirsch_stoer_dense_out.hpp
index 259e775..e68127d 100644
--- a/include/boost/numeric/odeint/stepper/bulirsch_stoer_dense_out.hpp
+++ b/include/boost/numeric/odeint/stepper/bulirsch_stoer_dense_out.hpp
@@ -178,6 +178,7 @@ public:
         inv_time_vector work( m_k_max+1 );
 
         m_k_final = 0;
+        const size_t old_k_opt = m_current_k_opt;
         time_type new_h = dt;
 
         //std::cout << "t=" << t <<", dt=" << dt << ", k_opt=" << m_current_k_opt << ", first: " << m_first << std::endl;
@@ -277,7 +278,16 @@ public:
 
             //calculate dxdt for next step and dense output
             typename odeint::unwrap_reference< System >::type &sys = system;
-            sys( out , dxdt_new , t+dt );
+            try
+            {
+                sys( out , dxdt_new , t+dt );
+            }
+            catch( ... )
+            {
+                // the step is not made, the order must not change
+                m_current_k_opt = old_k_opt;
+                throw;
+            }
 
             //prepare dense output
             value_type error = prepare_dense_output( m_k_final , in , dxdt , out , dxdt_new , dt );
-- 
2.43.0


From 3b35b4500efa6808266a69c3ef907413893c3136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:19 +0000
Subject: [PATCH 13/42] fix: controlled_adams_bashforth_moulton does not use an
 error estimate it has not computed

---
 .../odeint/stepper/controlled_adams_bashforth_moulton.hpp   | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp b/include/boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp
index a4767cc..5980dfb 100644
--- a/include/boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp
+++ b/include/boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp
@@ -264,6 +264,12 @@ public:
                 m_algebra.for_each2(m_xerr[3].m_v, coeff.phi[1][eo+1].m_v, 
                     typename operations_type::template scale_sum1<double>(factor*dt*(coeff.gs[eo+1])));
             }
+            else if(eo < order_value)
+            {
+                // not available yet, do not use an old (or uninitialized) value
+                m_algebra.for_each2(m_xerr[3].m_v, coeff.phi[1][eo].m_v, 
+                    typename operations_type::template scale_sum1<double>(0.0));
+            }
 
             // adjust order
             coeff.m_eo = m_order_adjuster.adjust_order(coeff.m_eo, coeff.m_steps_init-1, m_xerr);
-- 
2.43.0


From dfa49b333f0cf1a036879fe2463edf56c4632233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:37 +0000
Subject: [PATCH 14/42] fix: implicit_euler factorizes the matrix of its Newton
 iteration only once

---
 include/boost/numeric/odeint/stepper/implicit_euler.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/boost/numeric/odeint/stepper/implicit_euler.hpp b/include/boost/numeric/odeint/stepper/implicit_euler.hpp
index f301988..f05ac4a 100644
--- a/include/boost/numeric/odeint/stepper/implicit_euler.hpp
+++ b/include/boost/numeric/odeint/stepper/implicit_euler.hpp
@@ -96,6 +96,7 @@ public:
         m_jacobi.m_v *= dt;
         m_jacobi.m_v -= boost::numeric::ublas::identity_matrix< value_type >( x.size() );
 
+        factorize( m_jacobi.m_v );
         solve( m_b.m_v , m_jacobi.m_v );
 
         m_x.m_v = x - m_b.m_v;
@@ -141,10 +142,15 @@ private:
     }
 
 
-    void solve( state_type &x , matrix_type &m )
+    void factorize( matrix_type &m )
     {
         int res = boost::numeric::ublas::lu_factorize( m , m_pm.m_v );
         if( res != 0 ) exit(0);
+    }
+
+    void solve( state_type &x , const matrix_type &m )
+    {
+        // m is already factorized
         boost::numeric::ublas::lu_substitute( m , m_pm.m_v , x );
     }
 
-- 
2.43.0


From 99f444426fe4be4734ee16eee3341a314ed5bf14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:37 +0000
Subject: [PATCH 15/42] fix: implicit_euler throws instead of leaving the
 process when the Newton matrix is singular

---
 include/boost/numeric/odeint/stepper/implicit_euler.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/boost/numeric/odeint/stepper/implicit_euler.hpp b/include/boost/numeric/odeint/stepper/implicit_euler.hpp
index f05ac4a..ddcefe3 100644
--- a/include/boost/numeric/odeint/stepper/implicit_euler.hpp
+++ b/include/boost/numeric/odeint/stepper/implicit_euler.hpp
@@ -22,7 +22,10 @@
 
 #include <utility>
 
+#include <boost/throw_exception.hpp>
+
 #include <boost/numeric/odeint/util/bind.hpp>
+#include <boost/numeric/odeint/util/odeint_error.hpp>
 #include <boost/numeric/odeint/util/unwrap_reference.hpp>
 #include <boost/numeric/odeint/stepper/stepper_categories.hpp>
 
@@ -145,7 +148,8 @@ private:
     void factorize( matrix_type &m )
     {
         int res = boost::numeric::ublas::lu_factorize( m , m_pm.m_v );
-        if( res != 0 ) exit(0);
+        if( res != 0 )
+            BOOST_THROW_EXCEPTION( odeint_error( "implicit_euler: the matrix of the Newton iteration is singular" ) );
     }
 
     void solve( state_type &x , const matrix_type &m )
-- 
2.43.0


From 13bae039e07cae50cce6a5df09bbeb0f4a32010a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:55 +0000
Subject: [PATCH 16/42] fix: adams_moulton holds its algebra by value so that
 copies do not refer to the algebra of the source

---
 include/boost/numeric/odeint/stepper/adams_moulton.hpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/include/boost/numeric/odeint/stepper/adams_moulton.hpp b/include/boost/numeric/odeint/stepper/adams_moulton.hpp
index 05b4277..509a627 100644
--- a/include/boost/numeric/odeint/stepper/adams_moulton.hpp
+++ b/include/boost/numeric/odeint/stepper/adams_moulton.hpp
@@ -89,12 +89,12 @@ public :
 
     adams_moulton( )
     : m_coefficients() , m_dxdt() , m_resizer() ,
-      m_algebra_instance() , m_algebra( m_algebra_instance )
+      m_algebra()
     { }
 
-    adams_moulton( algebra_type &algebra )
+    adams_moulton( const algebra_type &algebra )
     : m_coefficients() , m_dxdt() , m_resizer() ,
-      m_algebra_instance() , m_algebra( algebra )
+      m_algebra( algebra )
     { }
 
     adams_moulton& operator=( const adams_moulton &stepper )
@@ -185,8 +185,7 @@ private:
 
 protected:
 
-    algebra_type m_algebra_instance;
-    algebra_type &m_algebra;
+    algebra_type m_algebra;
 };
 
 
-- 
2.43.0


From e71bee726e457f9900b1afefa82ee8ce4fa67948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:31 +0000
Subject: [PATCH 17/42] fix: sign of the coefficient d4 of the Rosenbrock
 stepper

With the wrong sign the stepper was only of first order for systems that
depend explicitly on time.
---
 include/boost/numeric/odeint/stepper/rosenbrock4.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/numeric/odeint/stepper/rosenbrock4.hpp b/include/boost/numeric/odeint/stepper/rosenbrock4.hpp
index 8613698..7f475d0 100644
--- a/include/boost/numeric/odeint/stepper/rosenbrock4.hpp
+++ b/include/boost/numeric/odeint/stepper/rosenbrock4.hpp
@@ -63,7 +63,7 @@ struct default_rosenbrock_coefficients
       d1 ( static_cast< value_type >( 0.25 ) ) ,
       d2 ( static_cast< value_type >( -0.1043 ) ) ,
       d3 ( static_cast< value_type >( 0.1035 ) ) ,
-      d4 ( static_cast< value_type >( 0.3620000000000023e-01 ) ) ,
+      d4 ( static_cast< value_type >( -0.3620000000000023e-01 ) ) ,
       c2 ( static_cast< value_type >( 0.386 ) ) ,
       c3 ( static_cast< value_type >( 0.21 ) ) ,
       c4 ( static_cast< value_type >( 0.63 ) ) ,
-- 
2.43.0


From a6cab7b36cf709f81a82dd681e09b8f6a683329a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:25 +0000
Subject: [PATCH 18/42] fix: enforce the step size limit of the controlled
 Adams stepper backward in time

With a negative time step the limit was never reached (positive limit) or
the step size jumped to the limit regardless of the error (negative limit).
---
 .../numeric/odeint/stepper/detail/pid_step_adjuster.hpp      | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/boost/numeric/odeint/stepper/detail/pid_step_adjuster.hpp b/include/boost/numeric/odeint/stepper/detail/pid_step_adjuster.hpp
index 7c0f258..6a92d10 100644
--- a/include/boost/numeric/odeint/stepper/detail/pid_step_adjuster.hpp
+++ b/include/boost/numeric/odeint/stepper/detail/pid_step_adjuster.hpp
@@ -157,9 +157,10 @@ public:
         value_type kappa = 1.0;
         ratio = 1.0 + kappa*atan((ratio - 1) / kappa);
 
-        if(ratio*dt >= m_dtmax)
+        // the limit holds in both directions of integration
+        if(abs(ratio*dt) >= abs(m_dtmax))
         {
-            ratio = m_dtmax / dt;
+            ratio = abs(m_dtmax / dt);
         }
 
         if(ratio >= threshold())
-- 
2.43.0


From f7bdb63fc84fc2bdbced7a95b7a776a80561475a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:42 +0000
Subject: [PATCH 19/42] fix: initialize_controlled of the controlled Adams
 stepper records the times of the steps made

---
 .../odeint/stepper/controlled_adams_bashforth_moulton.hpp     | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp b/include/boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp
index 5980dfb..7354627 100644
--- a/include/boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp
+++ b/include/boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp
@@ -184,6 +184,8 @@ public:
 
         for( size_t i=0 ; i<order_value; ++i )
         {
+            const time_type tPrev = t; // try_step changes t and proposes a new dt
+
             do
             {
                 res = stepper.try_step( system, inOut, t, dt );
@@ -192,7 +194,7 @@ public:
 
             system( inOut , m_dxdt.m_v , t );
             
-            coeff.predict(t-dt, dt);
+            coeff.predict(tPrev, t-tPrev);
             coeff.do_step(m_dxdt.m_v);
             coeff.confirm();
 
-- 
2.43.0


From 7f2d1eff89c416dfb9d2941cd66360b315155589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:16 +0000
Subject: [PATCH 20/42] fix: copying an openmp_state copies every block

copy_impl copied each block to the iterator of the outer vector, which does not
compile, so no stepper that copies states (controlled, dense output, ...) could
be used with openmp_state.
---
 include/boost/numeric/odeint/external/openmp/openmp_state.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/numeric/odeint/external/openmp/openmp_state.hpp b/include/boost/numeric/odeint/external/openmp/openmp_state.hpp
index 83bbc19..b8d697e 100644
--- a/include/boost/numeric/odeint/external/openmp/openmp_state.hpp
+++ b/include/boost/numeric/odeint/external/openmp/openmp_state.hpp
@@ -93,7 +93,7 @@ struct copy_impl< openmp_state< T >, openmp_state< T > >
     {
 #       pragma omp parallel for schedule(dynamic)
         for(size_t i = 0 ; i < from.size() ; i++)
-            std::copy( from[i].begin() , from[i].end() , to.begin() );
+            std::copy( from[i].begin() , from[i].end() , to[i].begin() );
     }
 };
 
-- 
2.43.0


From d6498697eb3d79a77a8a927874346eed765d0f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:01 +0000
Subject: [PATCH 21/42] fix: steppers use the communicator of the mpi_state
 they are given

The internal states of a stepper stayed on the world communicator, so with a
state on a sub-communicator same_size and norm_inf waited for nodes that do
not take part (deadlock), or mixed with their collective operations.
---
 include/boost/numeric/odeint/external/mpi/mpi_state.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/boost/numeric/odeint/external/mpi/mpi_state.hpp b/include/boost/numeric/odeint/external/mpi/mpi_state.hpp
index aba179c..536f821 100644
--- a/include/boost/numeric/odeint/external/mpi/mpi_state.hpp
+++ b/include/boost/numeric/odeint/external/mpi/mpi_state.hpp
@@ -65,6 +65,8 @@ struct same_size_impl< mpi_state< InnerState1 > , mpi_state< InnerState2 > >
 {
     static bool same_size( const mpi_state< InnerState1 > &x , const mpi_state< InnerState2 > &y )
     {
+        // states on different communicators always need a resize, see below
+        if( x.world != y.world ) return false;
         const bool local = boost::numeric::odeint::same_size(x(), y());
         return boost::mpi::all_reduce(x.world, local, mpi::bitwise_and<bool>());
     }
@@ -76,6 +78,9 @@ struct resize_impl< mpi_state< InnerState1 > , mpi_state< InnerState2 > >
 {
     static void resize( mpi_state< InnerState1 > &x , const mpi_state< InnerState2 > &y )
     {
+        // internal states of the steppers start on the world communicator, but
+        // have to communicate with the nodes that share y.
+        x.world = y.world;
         // resize local parts on each node.
         boost::numeric::odeint::resize(x(), y());
     }
-- 
2.43.0


From 06a33869eb39938dd63c8ea098bc0b25cd93485e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:01 +0000
Subject: [PATCH 22/42] fix: gsl state_wrapper copies by value instead of
 freeing garbage or sharing the vector

---
 include/boost/numeric/odeint/external/gsl/gsl_wrapper.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/boost/numeric/odeint/external/gsl/gsl_wrapper.hpp b/include/boost/numeric/odeint/external/gsl/gsl_wrapper.hpp
index a856f6e..f5dfedb 100644
--- a/include/boost/numeric/odeint/external/gsl/gsl_wrapper.hpp
+++ b/include/boost/numeric/odeint/external/gsl/gsl_wrapper.hpp
@@ -207,10 +207,16 @@ struct state_wrapper< gsl_vector* >
 
     state_wrapper( const state_wrapper_type &x )
     {
-        resize( m_v , x.m_v );
+        m_v = gsl_vector_alloc( x.m_v->size );
         gsl_vector_memcpy( m_v , x.m_v );
     }
 
+    state_wrapper_type& operator=( const state_wrapper_type &x )
+    {
+        if( m_v->size != x.m_v->size ) resize( m_v , x.m_v );
+        gsl_vector_memcpy( m_v , x.m_v );
+        return *this;
+    }
 
     ~state_wrapper()
     {
-- 
2.43.0


From 92675ed7087b7c44d34510a8b01a72c3ce9867fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:17 +0000
Subject: [PATCH 23/42] fix: copying a gsl_vector state copies the elements,
 not the pointer

---
 .../boost/numeric/odeint/external/gsl/gsl_wrapper.hpp    | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/boost/numeric/odeint/external/gsl/gsl_wrapper.hpp b/include/boost/numeric/odeint/external/gsl/gsl_wrapper.hpp
index f5dfedb..4cffe5d 100644
--- a/include/boost/numeric/odeint/external/gsl/gsl_wrapper.hpp
+++ b/include/boost/numeric/odeint/external/gsl/gsl_wrapper.hpp
@@ -191,6 +191,15 @@ struct resize_impl< gsl_vector* , gsl_vector* >
     }
 };
 
+template <>
+struct copy_impl< gsl_vector* , gsl_vector* >
+{
+    static void copy( const gsl_vector* from , gsl_vector* to )
+    {
+        gsl_vector_memcpy( to , from );
+    }
+};
+
 template<>
 struct state_wrapper< gsl_vector* >
 {
-- 
2.43.0


From 66e0b20e02a1fdb5ef077d47bd50d098f6a85a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:01 +0000
Subject: [PATCH 24/42] fix: integrate_times and the times iterators do not
 dereference an empty time range

---
 .../numeric/odeint/integrate/detail/integrate_times.hpp   | 6 ++++++
 .../numeric/odeint/iterator/impl/times_iterator_impl.hpp  | 8 ++++----
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/boost/numeric/odeint/integrate/detail/integrate_times.hpp b/include/boost/numeric/odeint/integrate/detail/integrate_times.hpp
index 691dac5..578d035 100644
--- a/include/boost/numeric/odeint/integrate/detail/integrate_times.hpp
+++ b/include/boost/numeric/odeint/integrate/detail/integrate_times.hpp
@@ -53,6 +53,9 @@ size_t integrate_times(
     observer_type &obs = observer;
     typedef typename unit_value_type<Time>::type time_type;
 
+    if( start_time == end_time )
+        return 0;
+
     size_t steps = 0;
     Time current_dt = dt;
     while( true )
@@ -86,6 +89,9 @@ size_t integrate_times(
     typename odeint::unwrap_reference< Stepper >::type &st = stepper;
     typedef typename unit_value_type<Time>::type time_type;
 
+    if( start_time == end_time )
+        return 0;
+
     failed_step_checker fail_checker;  // to throw a runtime_error if step size adjustment fails
     size_t steps = 0;
     while( true )
diff --git a/include/boost/numeric/odeint/iterator/impl/times_iterator_impl.hpp b/include/boost/numeric/odeint/iterator/impl/times_iterator_impl.hpp
index 83c9d1a..5ed770d 100644
--- a/include/boost/numeric/odeint/iterator/impl/times_iterator_impl.hpp
+++ b/include/boost/numeric/odeint/iterator/impl/times_iterator_impl.hpp
@@ -83,7 +83,7 @@ namespace odeint {
          */
         times_iterator_impl( stepper_type stepper , system_type sys , state_type &s ,
                              time_iterator_type t_start , time_iterator_type t_end , time_type dt )
-            : base_type( stepper , sys , *t_start , dt ) ,
+            : base_type( stepper , sys , t_start != t_end ? static_cast< time_type >( *t_start ) : time_type() , dt ) ,
               m_t_start( t_start ) , m_t_end( t_end ) , m_state( &s )
         {
             if( t_start == t_end )
@@ -181,7 +181,7 @@ namespace odeint {
          */
         times_iterator_impl( stepper_type stepper , system_type sys , state_type &s ,
                              time_iterator_type t_start , time_iterator_type t_end , time_type dt )
-            : base_type( stepper , sys , *t_start , dt ) ,
+            : base_type( stepper , sys , t_start != t_end ? static_cast< time_type >( *t_start ) : time_type() , dt ) ,
               m_t_start( t_start ) , m_t_end( t_end ) , m_state( &s )
         {
             if( t_start == t_end )
@@ -301,8 +301,8 @@ namespace odeint {
          */
         times_iterator_impl( stepper_type stepper , system_type sys , state_type &s ,
                              time_iterator_type t_start , time_iterator_type t_end , time_type dt )
-            : base_type( stepper , sys , *t_start , dt ) ,
-              m_t_start( t_start ) , m_t_end( t_end ) , m_final_time( *(t_end-1) ) ,
+            : base_type( stepper , sys , t_start != t_end ? static_cast< time_type >( *t_start ) : time_type() , dt ) ,
+              m_t_start( t_start ) , m_t_end( t_end ) , m_final_time( t_start != t_end ? static_cast< time_type >( *(t_end-1) ) : time_type() ) ,
               m_state( &s )
         {
             if( t_start != t_end )
-- 
2.43.0


From 557519a496450d8353cc237114b40ad6768646e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:36 +0000
Subject: [PATCH 25/42] fix: initialize() of first-same-as-last steppers
 allocates the stored derivative

---
 .../odeint/stepper/base/explicit_error_stepper_fsal_base.hpp    | 2 ++
 include/boost/numeric/odeint/stepper/controlled_runge_kutta.hpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/include/boost/numeric/odeint/stepper/base/explicit_error_stepper_fsal_base.hpp b/include/boost/numeric/odeint/stepper/base/explicit_error_stepper_fsal_base.hpp
index 16f4b74..340b118 100644
--- a/include/boost/numeric/odeint/stepper/base/explicit_error_stepper_fsal_base.hpp
+++ b/include/boost/numeric/odeint/stepper/base/explicit_error_stepper_fsal_base.hpp
@@ -286,6 +286,7 @@ public:
     template< class DerivIn >
     void initialize( const DerivIn &deriv )
     {
+        m_resizer.adjust_size( deriv , detail::bind( &internal_stepper_base_type::template resize_impl< DerivIn > , detail::ref( *this ) , detail::_1 ) );
         boost::numeric::odeint::copy( deriv , m_dxdt.m_v );
         m_first_call = false;
     }
@@ -295,6 +296,7 @@ public:
     {
         typename odeint::unwrap_reference< System >::type &sys = system;
         m_first_call = true; // m_dxdt is not valid if the system function throws
+        m_resizer.adjust_size( x , detail::bind( &internal_stepper_base_type::template resize_impl< StateIn > , detail::ref( *this ) , detail::_1 ) );
         sys( x , m_dxdt.m_v , t );
         m_first_call = false;
     }
diff --git a/include/boost/numeric/odeint/stepper/controlled_runge_kutta.hpp b/include/boost/numeric/odeint/stepper/controlled_runge_kutta.hpp
index 50b27b3..81d9141 100644
--- a/include/boost/numeric/odeint/stepper/controlled_runge_kutta.hpp
+++ b/include/boost/numeric/odeint/stepper/controlled_runge_kutta.hpp
@@ -799,6 +799,7 @@ public:
     template< class DerivIn >
     void initialize( const DerivIn &deriv )
     {
+        m_dxdt_resizer.adjust_size( deriv , detail::bind( &controlled_runge_kutta::template resize_m_dxdt_impl< DerivIn > , detail::ref( *this ) , detail::_1 ) );
         boost::numeric::odeint::copy( deriv , m_dxdt.m_v );
         m_first_call = false;
     }
@@ -816,6 +817,7 @@ public:
     {
         typename odeint::unwrap_reference< System >::type &sys = system;
         m_first_call = true; // m_dxdt is not valid if the system function throws
+        m_dxdt_resizer.adjust_size( x , detail::bind( &controlled_runge_kutta::template resize_m_dxdt_impl< StateIn > , detail::ref( *this ) , detail::_1 ) );
         sys( x , m_dxdt.m_v , t );
         m_first_call = false;
     }
-- 
2.43.0


From 89533ad84db82c11e2c4844f0addd504e6ea5edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:38 +0000
Subject: [PATCH 26/42] fix: adjust_size of the dense-output Runge-Kutta
 steppers compiles

---
 .../boost/numeric/odeint/stepper/dense_output_runge_kutta.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/numeric/odeint/stepper/dense_output_runge_kutta.hpp b/include/boost/numeric/odeint/stepper/dense_output_runge_kutta.hpp
index 83982dc..9254fd4 100644
--- a/include/boost/numeric/odeint/stepper/dense_output_runge_kutta.hpp
+++ b/include/boost/numeric/odeint/stepper/dense_output_runge_kutta.hpp
@@ -169,7 +169,7 @@ public:
     void adjust_size( const StateType &x )
     {
         resize_impl( x );
-        m_stepper.stepper().resize( x );
+        m_stepper.adjust_size( x );
     }
 
     /**
@@ -379,7 +379,7 @@ public:
     void adjust_size( const StateType &x )
     {
         resize( x );
-        m_stepper.stepper().resize( x );
+        m_stepper.adjust_size( x );
     }
 
     const state_type& current_state( void ) const
-- 
2.43.0


From c3e9eb28553cc33809a8f29e18f9797afae25e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:38 +0000
Subject: [PATCH 27/42] fix: adjust_size of extrapolation_stepper adjusts all
 temporaries

---
 include/boost/numeric/odeint/stepper/extrapolation_stepper.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/boost/numeric/odeint/stepper/extrapolation_stepper.hpp b/include/boost/numeric/odeint/stepper/extrapolation_stepper.hpp
index 1a430ff..e5cba3e 100644
--- a/include/boost/numeric/odeint/stepper/extrapolation_stepper.hpp
+++ b/include/boost/numeric/odeint/stepper/extrapolation_stepper.hpp
@@ -225,7 +225,9 @@ class extrapolation_stepper : public explicit_error_stepper_base
     template < class StateIn > void adjust_size( const StateIn &x )
     {
         resize_impl( x );
+        resize_m_xout( x );
         m_midpoint.adjust_size( x );
+        stepper_base_type::adjust_size( x );
     }
 
   private:
-- 
2.43.0


From 3259155fdf06de90a777026a4d362da7d04e8355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:38 +0000
Subject: [PATCH 28/42] fix: adjust_size of the controlled FSAL stepper adjusts
 the stepper and drops the stored derivative

---
 .../boost/numeric/odeint/stepper/controlled_runge_kutta.hpp   | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/boost/numeric/odeint/stepper/controlled_runge_kutta.hpp b/include/boost/numeric/odeint/stepper/controlled_runge_kutta.hpp
index 81d9141..7130fbc 100644
--- a/include/boost/numeric/odeint/stepper/controlled_runge_kutta.hpp
+++ b/include/boost/numeric/odeint/stepper/controlled_runge_kutta.hpp
@@ -841,9 +841,11 @@ public:
     void adjust_size( const StateType &x )
     {
         resize_m_xerr_impl( x );
-        resize_m_dxdt_impl( x );
+        if( resize_m_dxdt_impl( x ) )
+            m_first_call = true; // the derivative of another size can not be used
         resize_m_dxdt_new_impl( x );
         resize_m_xnew_impl( x );
+        m_stepper.adjust_size( x );
     }
 
 
-- 
2.43.0


From cf22097307cad1d00a6a5288be6a40ac285cf057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:38 +0000
Subject: [PATCH 29/42] fix: adjust_size of FSAL steppers drops the stored
 derivative of another size

---
 .../odeint/stepper/base/explicit_error_stepper_fsal_base.hpp   | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/numeric/odeint/stepper/base/explicit_error_stepper_fsal_base.hpp b/include/boost/numeric/odeint/stepper/base/explicit_error_stepper_fsal_base.hpp
index 340b118..b1c8c8d 100644
--- a/include/boost/numeric/odeint/stepper/base/explicit_error_stepper_fsal_base.hpp
+++ b/include/boost/numeric/odeint/stepper/base/explicit_error_stepper_fsal_base.hpp
@@ -275,7 +275,8 @@ public:
     template< class StateIn >
     void adjust_size( const StateIn &x )
     {
-        resize_impl( x );
+        if( resize_impl( x ) )
+            m_first_call = true; // the derivative of another size can not be used
     }
 
     void reset( void )
-- 
2.43.0


From fd1d2e4cce631533749fba215b5183bda56914b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:38 +0000
Subject: [PATCH 30/42] fix: adjust_size of adams_bashforth adjusts the
 initializing stepper and drops the history of another size

---
 include/boost/numeric/odeint/stepper/adams_bashforth.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/boost/numeric/odeint/stepper/adams_bashforth.hpp b/include/boost/numeric/odeint/stepper/adams_bashforth.hpp
index 5ff1e83..cae0454 100644
--- a/include/boost/numeric/odeint/stepper/adams_bashforth.hpp
+++ b/include/boost/numeric/odeint/stepper/adams_bashforth.hpp
@@ -176,7 +176,9 @@ public :
     template< class StateType >
     void adjust_size( const StateType &x )
     {
-        resize_impl( x );
+        if( resize_impl( x ) )
+            m_steps_initialized = 0; // the history of another size can not be used
+        m_initializing_stepper.adjust_size( x );
     }
 
     const step_storage_type& step_storage( void ) const
-- 
2.43.0


From 84f02bcf58e3c67cc47c0369f154e0bfb29cc205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:38 +0000
Subject: [PATCH 31/42] fix: adjust_size of rosenbrock4_controller adjusts the
 stepper

---
 include/boost/numeric/odeint/stepper/rosenbrock4_controller.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/boost/numeric/odeint/stepper/rosenbrock4_controller.hpp b/include/boost/numeric/odeint/stepper/rosenbrock4_controller.hpp
index 5ad1600..b8a1256 100644
--- a/include/boost/numeric/odeint/stepper/rosenbrock4_controller.hpp
+++ b/include/boost/numeric/odeint/stepper/rosenbrock4_controller.hpp
@@ -183,6 +183,7 @@ public:
     {
         resize_m_xerr( x );
         resize_m_xnew( x );
+        m_stepper.adjust_size( x );
     }
 
 
-- 
2.43.0


From 8184c7caae6b73618aee0521a8ad0e73aac96b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:30 +0000
Subject: [PATCH 32/42] fix: make_controlled takes the step size limit in the
 time type of the stepper

---
 .../generation_controlled_adams_bashforth_moulton.hpp           | 2 +-
 .../stepper/generation/generation_controlled_runge_kutta.hpp    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/numeric/odeint/stepper/generation/generation_controlled_adams_bashforth_moulton.hpp b/include/boost/numeric/odeint/stepper/generation/generation_controlled_adams_bashforth_moulton.hpp
index ca95a1f..1026651 100644
--- a/include/boost/numeric/odeint/stepper/generation/generation_controlled_adams_bashforth_moulton.hpp
+++ b/include/boost/numeric/odeint/stepper/generation/generation_controlled_adams_bashforth_moulton.hpp
@@ -38,7 +38,7 @@ struct controller_factory< Stepper , controlled_adams_bashforth_moulton< Stepper
     typedef controlled_adams_bashforth_moulton< stepper_type > controller_type;
     typedef typename controller_type::step_adjuster_type step_adjuster_type;
     typedef typename stepper_type::value_type value_type;
-    typedef typename stepper_type::value_type time_type;
+    typedef typename stepper_type::time_type time_type;
 
     controller_type operator()( value_type abs_error , value_type rel_error , const stepper_type &stepper )
     {
diff --git a/include/boost/numeric/odeint/stepper/generation/generation_controlled_runge_kutta.hpp b/include/boost/numeric/odeint/stepper/generation/generation_controlled_runge_kutta.hpp
index bad2bed..6c2c65c 100644
--- a/include/boost/numeric/odeint/stepper/generation/generation_controlled_runge_kutta.hpp
+++ b/include/boost/numeric/odeint/stepper/generation/generation_controlled_runge_kutta.hpp
@@ -36,7 +36,7 @@ struct controller_factory< Stepper , controlled_runge_kutta< Stepper > >
     typedef typename controller_type::error_checker_type error_checker_type;
     typedef typename controller_type::step_adjuster_type step_adjuster_type;
     typedef typename stepper_type::value_type value_type;
-    typedef typename stepper_type::value_type time_type;
+    typedef typename stepper_type::time_type time_type;
 
     controller_type operator()( value_type abs_error , value_type rel_error , const stepper_type &stepper )
     {
-- 
2.43.0


From c33f2f92424c12adf9238e608370a957189afc3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:12 +0000
Subject: [PATCH 33/42] fix: integrate_const with a null observer and a step
 checker ends on the grid like the other forms

---
 .../odeint/integrate/integrate_const.hpp      | 58 ++++++-------------
 1 file changed, 19 insertions(+), 39 deletions(-)

diff --git a/include/boost/numeric/odeint/integrate/integrate_const.hpp b/include/boost/numeric/odeint/integrate/integrate_const.hpp
index fae683f..9a31955 100644
--- a/include/boost/numeric/odeint/integrate/integrate_const.hpp
+++ b/include/boost/numeric/odeint/integrate/integrate_const.hpp
@@ -42,26 +42,16 @@ size_t integrate_const(
         Observer observer, StepOverflowChecker checker
 ) {
     typedef typename odeint::unwrap_reference<Stepper>::type::stepper_category stepper_category;
-    // we want to get as fast as possible to the end
-    // no overflow checks needed
-    if (boost::is_same<null_observer, Observer>::value) {
-        return detail::integrate_adaptive(
-                stepper, system, start_state,
-                start_time, end_time, dt,
-                observer, stepper_category());
-    }
-    else {
-        // unwrap references
-        typedef typename odeint::unwrap_reference< Stepper >::type stepper_type;
-        typedef typename odeint::unwrap_reference< Observer >::type observer_type;
-        typedef typename odeint::unwrap_reference< StepOverflowChecker >::type checker_type;
-
-        return detail::integrate_const(checked_stepper<stepper_type, checker_type>(stepper, checker),
-                                       system, start_state,
-                                       start_time, end_time, dt,
-                                       checked_observer<observer_type, checker_type>(observer, checker),
-                                       stepper_category());
-    }
+    // unwrap references
+    typedef typename odeint::unwrap_reference< Stepper >::type stepper_type;
+    typedef typename odeint::unwrap_reference< Observer >::type observer_type;
+    typedef typename odeint::unwrap_reference< StepOverflowChecker >::type checker_type;
+
+    return detail::integrate_const(checked_stepper<stepper_type, checker_type>(stepper, checker),
+                                   system, start_state,
+                                   start_time, end_time, dt,
+                                   checked_observer<observer_type, checker_type>(observer, checker),
+                                   stepper_category());
 }
 
 /**
@@ -75,25 +65,15 @@ size_t integrate_const(
         Observer observer, StepOverflowChecker checker
 ) {
     typedef typename odeint::unwrap_reference<Stepper>::type::stepper_category stepper_category;
-    // we want to get as fast as possible to the end
-
-    if (boost::is_same<null_observer, Observer>::value) {
-        return detail::integrate_adaptive(
-                stepper, system, start_state,
-                start_time, end_time, dt,
-                observer, stepper_category());
-    }
-    else {
-        typedef typename odeint::unwrap_reference< Stepper >::type stepper_type;
-        typedef typename odeint::unwrap_reference< Observer >::type observer_type;
-        typedef typename odeint::unwrap_reference< StepOverflowChecker >::type checker_type;
-
-        return detail::integrate_const(checked_stepper<stepper_type, checker_type>(stepper, checker),
-                                       system, start_state,
-                                       start_time, end_time, dt,
-                                       checked_observer<observer_type, checker_type>(observer, checker),
-                                       stepper_category());
-    }
+    typedef typename odeint::unwrap_reference< Stepper >::type stepper_type;
+    typedef typename odeint::unwrap_reference< Observer >::type observer_type;
+    typedef typename odeint::unwrap_reference< StepOverflowChecker >::type checker_type;
+
+    return detail::integrate_const(checked_stepper<stepper_type, checker_type>(stepper, checker),
+                                   system, start_state,
+                                   start_time, end_time, dt,
+                                   checked_observer<observer_type, checker_type>(observer, checker),
+                                   stepper_category());
 }
 
 
-- 
2.43.0


From bbda785b02e6406764318c8bfdc45976debde6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:33 +0000
Subject: [PATCH 34/42] fix: adaptive and controlled Adams-Bashforth-Moulton
 steppers accept systems and starters given by reference

---
 .../adaptive_adams_bashforth_moulton.hpp       | 18 ++++++++++++------
 .../controlled_adams_bashforth_moulton.hpp     | 11 ++++++++---
 2 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/include/boost/numeric/odeint/stepper/adaptive_adams_bashforth_moulton.hpp b/include/boost/numeric/odeint/stepper/adaptive_adams_bashforth_moulton.hpp
index 0d3d0c1..c5ab5ad 100644
--- a/include/boost/numeric/odeint/stepper/adaptive_adams_bashforth_moulton.hpp
+++ b/include/boost/numeric/odeint/stepper/adaptive_adams_bashforth_moulton.hpp
@@ -110,9 +110,11 @@ public:
     template< class System >
     void do_step(System system, const state_type &in, time_type t, state_type &out, time_type dt , state_type &xerr)
     {
+        typename odeint::unwrap_reference< System >::type &sys = system;
+
         do_step_impl(system, in, t, out, dt, xerr);
         
-        system(out, m_dxdt.m_v, t+dt);
+        sys(out, m_dxdt.m_v, t+dt);
         m_coeff.do_step(m_dxdt.m_v);
         m_coeff.confirm();
 
@@ -125,17 +127,20 @@ public:
     template< class ExplicitStepper, class System >
     void initialize(ExplicitStepper stepper, System system, state_type &inOut, time_type &t, time_type dt)
     {
+        typename odeint::unwrap_reference< ExplicitStepper >::type &explicit_stepper = stepper;
+        typename odeint::unwrap_reference< System >::type &sys = system;
+
         reset();
         dt = dt/static_cast< time_type >(order_value);
 
         m_dxdt_resizer.adjust_size( inOut , detail::bind( &stepper_type::template resize_dxdt_impl< state_type > , detail::ref( *this ) , detail::_1 ) );
 
-        system( inOut , m_dxdt.m_v , t );
+        sys( inOut , m_dxdt.m_v , t );
         for( size_t i=0 ; i<order_value; ++i )
         {
-            stepper.do_step_dxdt_impl( system, inOut, m_dxdt.m_v, t, dt );
+            explicit_stepper.do_step_dxdt_impl( system, inOut, m_dxdt.m_v, t, dt );
             
-            system( inOut , m_dxdt.m_v , t + dt);
+            sys( inOut , m_dxdt.m_v , t + dt);
             
             m_coeff.predict(t, dt);
             m_coeff.do_step(m_dxdt.m_v);
@@ -166,6 +171,7 @@ public:
     template< class System >
     void do_step_impl(System system, const state_type & in, time_type t, state_type & out, time_type &dt, state_type &xerr)
     {
+        typename odeint::unwrap_reference< System >::type &sys = system;
         size_t eO = m_coeff.m_eo;
 
         m_xerr_resizer.adjust_size( in , detail::bind( &stepper_type::template resize_xerr_impl< state_type > , detail::ref( *this ) , detail::_1 ) );
@@ -174,7 +180,7 @@ public:
         m_coeff.predict(t, dt);
         if (m_coeff.m_steps_init == 1)
         {
-            system(in, m_dxdt.m_v, t);
+            sys(in, m_dxdt.m_v, t);
             m_coeff.do_step(m_dxdt.m_v, 1);
         }
 
@@ -185,7 +191,7 @@ public:
                 typename Operations::template scale_sum2<double, double>(1.0, dt*m_coeff.g[i]*m_coeff.beta[0][i]));
         }
 
-        system(out, m_dxdt.m_v, t+dt);
+        sys(out, m_dxdt.m_v, t+dt);
         m_coeff.do_step(m_dxdt.m_v);
 
         this->m_algebra.for_each3(out, out, m_coeff.phi[0][eO].m_v,
diff --git a/include/boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp b/include/boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp
index 7354627..f290b58 100644
--- a/include/boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp
+++ b/include/boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp
@@ -175,6 +175,9 @@ public:
     template< class ExplicitStepper, class System >
     void initialize_controlled(ExplicitStepper stepper, System system, state_type &inOut, time_type &t, time_type &dt)
     {
+        typename odeint::unwrap_reference< ExplicitStepper >::type &explicit_stepper = stepper;
+        typename odeint::unwrap_reference< System >::type &sys = system;
+
         reset();
         coeff_type &coeff = m_stepper.coeff();
 
@@ -188,11 +191,11 @@ public:
 
             do
             {
-                res = stepper.try_step( system, inOut, t, dt );
+                res = explicit_stepper.try_step( system, inOut, t, dt );
             }
             while(res != success);
 
-            system( inOut , m_dxdt.m_v , t );
+            sys( inOut , m_dxdt.m_v , t );
             
             coeff.predict(tPrev, t-tPrev);
             coeff.do_step(m_dxdt.m_v);
@@ -223,6 +226,8 @@ public:
     template< class System >
     controlled_step_result try_step(System system, const state_type & in, time_type &t, state_type & out, time_type &dt)
     {
+        typename odeint::unwrap_reference< System >::type &sys = system;
+
         m_xerr_resizer.adjust_size( in , detail::bind( &controlled_stepper_type::template resize_xerr_impl< state_type > , detail::ref( *this ) , detail::_1 ) );
         m_dxdt_resizer.adjust_size( in , detail::bind( &controlled_stepper_type::template resize_dxdt_impl< state_type > , detail::ref( *this ) , detail::_1 ) );
 
@@ -235,7 +240,7 @@ public:
 
         if(dt / dtPrev >= step_adjuster_type::threshold())
         {
-            system(out, m_dxdt.m_v, t+dtPrev);
+            sys(out, m_dxdt.m_v, t+dtPrev);
 
             coeff.do_step(m_dxdt.m_v);
             coeff.confirm();
-- 
2.43.0


From 44f344490fba39017b9cebf7ed4bb772434d2bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:31 +0000
Subject: [PATCH 35/42] fix: integrate_const and integrate_n_steps keep one
 controlled stepper over all intervals

---
 .../boost/numeric/odeint/integrate/detail/integrate_const.hpp | 4 +++-
 .../numeric/odeint/integrate/detail/integrate_n_steps.hpp     | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/boost/numeric/odeint/integrate/detail/integrate_const.hpp b/include/boost/numeric/odeint/integrate/detail/integrate_const.hpp
index c63e2e5..57e629e 100644
--- a/include/boost/numeric/odeint/integrate/detail/integrate_const.hpp
+++ b/include/boost/numeric/odeint/integrate/detail/integrate_const.hpp
@@ -77,6 +77,7 @@ size_t integrate_const(
 )
 {
     typename odeint::unwrap_reference< Observer >::type &obs = observer;
+    typename odeint::unwrap_reference< Stepper >::type &st = stepper;
 
     Time time = start_time;
     const Time time_step = dt;
@@ -87,7 +88,8 @@ size_t integrate_const(
     {
         obs( start_state , time );
         // integrate_adaptive_checked uses the given checker to throw if an overflow occurs
-        real_steps += detail::integrate_adaptive(stepper, system, start_state, time,
+        // the stepper goes by reference, every interval continues with what it knows from the one before
+        real_steps += detail::integrate_adaptive(detail::ref(st), system, start_state, time,
                                                  static_cast<Time>(time + time_step), dt,
                                                  null_observer(), controlled_stepper_tag());
         // direct computation of the time avoids error propagation happening when using time += dt
diff --git a/include/boost/numeric/odeint/integrate/detail/integrate_n_steps.hpp b/include/boost/numeric/odeint/integrate/detail/integrate_n_steps.hpp
index 418b37f..544637d 100644
--- a/include/boost/numeric/odeint/integrate/detail/integrate_n_steps.hpp
+++ b/include/boost/numeric/odeint/integrate/detail/integrate_n_steps.hpp
@@ -74,6 +74,7 @@ Time integrate_n_steps(
         Observer observer , controlled_stepper_tag )
 {
     typename odeint::unwrap_reference< Observer >::type &obs = observer;
+    typename odeint::unwrap_reference< Stepper >::type &st = stepper;
 
     Time time = start_time;
     Time time_step = dt;
@@ -82,7 +83,8 @@ Time integrate_n_steps(
     {
         obs( start_state , time );
         // integrate_adaptive_checked uses the given checker to throw if an overflow occurs
-        detail::integrate_adaptive(stepper, system, start_state, time, static_cast<Time>(time + time_step), dt,
+        // the stepper goes by reference, every interval continues with what it knows from the one before
+        detail::integrate_adaptive(detail::ref(st), system, start_state, time, static_cast<Time>(time + time_step), dt,
                                    null_observer(), controlled_stepper_tag());
         // direct computation of the time avoids error propagation happening when using time += dt
         // we need clumsy type analysis to get boost units working here
-- 
2.43.0


From 6af10da2886138169ed39575eb59056f6f2a93ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:11 +0000
Subject: [PATCH 36/42] fix: integrate_adaptive makes its last step with the
 FSAL stepper that made the others

---
 .../integrate/detail/integrate_adaptive.hpp    | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/include/boost/numeric/odeint/integrate/detail/integrate_adaptive.hpp b/include/boost/numeric/odeint/integrate/detail/integrate_adaptive.hpp
index 56724d1..c5f1f11 100644
--- a/include/boost/numeric/odeint/integrate/detail/integrate_adaptive.hpp
+++ b/include/boost/numeric/odeint/integrate/detail/integrate_adaptive.hpp
@@ -74,6 +74,24 @@ size_t integrate_adaptive(
 }
 
 
+/*
+ * integrate_adaptive for simple stepper with the first-same-as-last property, the last step uses the derivative
+ * of the step before, hence integrate_const has to work on the same stepper
+ */
+template< class Stepper , class System , class State , class Time , class Observer >
+size_t integrate_adaptive(
+        Stepper stepper , System system , State &start_state ,
+        Time start_time , Time end_time , Time dt ,
+        Observer observer , explicit_error_stepper_fsal_tag
+)
+{
+    typename odeint::unwrap_reference< Stepper >::type &st = stepper;
+
+    return detail::integrate_adaptive( detail::ref( st ) , system , start_state , start_time ,
+                                       end_time , dt , observer , stepper_tag() );
+}
+
+
 /*
  * integrate adaptive for controlled stepper
  */
-- 
2.43.0


From 8389eabdd30c6e82415678a1c218e8cfebb5ec07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:06 +0000
Subject: [PATCH 37/42] fix: out-of-place Adams-Bashforth-Moulton step into an
 output of another type did not compile

---
 .../boost/numeric/odeint/stepper/adams_bashforth_moulton.hpp    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/numeric/odeint/stepper/adams_bashforth_moulton.hpp b/include/boost/numeric/odeint/stepper/adams_bashforth_moulton.hpp
index df185dd..3e831b3 100644
--- a/include/boost/numeric/odeint/stepper/adams_bashforth_moulton.hpp
+++ b/include/boost/numeric/odeint/stepper/adams_bashforth_moulton.hpp
@@ -180,7 +180,7 @@ private:
     template< typename System , typename StateIn , typename StateInOut >
     void do_step_impl2( System system , StateIn const &in , time_type t , StateInOut & out , time_type dt )
     {
-        if( m_resizer.adjust_size( in , detail::bind( &stepper_type::template resize_impl< StateInOut > , detail::ref( *this ) , detail::_1 ) ) )
+        if( m_resizer.adjust_size( in , detail::bind( &stepper_type::template resize_impl< StateIn > , detail::ref( *this ) , detail::_1 ) ) )
             m_adams_bashforth.reset(); // the history of another size can not be used
         if( m_adams_bashforth.is_initialized() )
         {
-- 
2.43.0


From a57c2030ceca0fdaa609c985aeb3474de15044be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:06 +0000
Subject: [PATCH 38/42] fix: five-term error sum of generic Runge-Kutta
 steppers did not compile when coefficients and time have different types

---
 .../numeric/odeint/stepper/detail/generic_rk_operations.hpp     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/numeric/odeint/stepper/detail/generic_rk_operations.hpp b/include/boost/numeric/odeint/stepper/detail/generic_rk_operations.hpp
index 2cce3f4..53ce883 100644
--- a/include/boost/numeric/odeint/stepper/detail/generic_rk_operations.hpp
+++ b/include/boost/numeric/odeint/stepper/detail/generic_rk_operations.hpp
@@ -209,7 +209,7 @@ struct generic_rk_scale_sum_err< 4 , Operations , Fac , Time > : public Operatio
 };
 
 template< class Operations , class Fac , class Time >
-struct generic_rk_scale_sum_err< 5 , Operations , Fac , Time > : public Operations::template scale_sum5< Fac >
+struct generic_rk_scale_sum_err< 5 , Operations , Fac , Time > : public Operations::template scale_sum5< Time >
 {
     generic_rk_scale_sum_err( const boost::array<Fac,5> &a , Time dt )
                     : Operations::template scale_sum5< Time >( a[0]*dt , a[1]*dt , a[2]*dt , a[3]*dt , a[4]*dt )
-- 
2.43.0


From 32e6af4a05c7e3c600bc33355c8fd182ffc8e0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:37 +0000
Subject: [PATCH 39/42] fix: iterator based integrate_const without an observer
 ends on the grid like with one

---
 .../iterator/integrate/integrate_const.hpp    | 34 ++++---------------
 1 file changed, 6 insertions(+), 28 deletions(-)

diff --git a/include/boost/numeric/odeint/iterator/integrate/integrate_const.hpp b/include/boost/numeric/odeint/iterator/integrate/integrate_const.hpp
index ffcea6c..13dfe9a 100644
--- a/include/boost/numeric/odeint/iterator/integrate/integrate_const.hpp
+++ b/include/boost/numeric/odeint/iterator/integrate/integrate_const.hpp
@@ -45,20 +45,9 @@ size_t integrate_const(
 )
 {
     typedef typename odeint::unwrap_reference< Stepper >::type::stepper_category stepper_category;
-    // we want to get as fast as possible to the end
-    if( boost::is_same< null_observer , Observer >::value )
-    {
-        return detail::integrate_adaptive(
-                stepper , system , start_state ,
-                start_time , end_time  , dt ,
-                observer , stepper_category() );
-    }
-    else
-    {
-        return detail::integrate_const( stepper , system , start_state , 
-                                        start_time , end_time , dt ,
-                                        observer , stepper_category() );
-      }
+    return detail::integrate_const( stepper , system , start_state , 
+                                    start_time , end_time , dt ,
+                                    observer , stepper_category() );
 }
 
 /**
@@ -73,20 +62,9 @@ size_t integrate_const(
 )
 {
     typedef typename odeint::unwrap_reference< Stepper >::type::stepper_category stepper_category;
-    // we want to get as fast as possible to the end
-    if( boost::is_same< null_observer , Observer >::value )
-    {
-        return detail::integrate_adaptive(
-                stepper , system , start_state ,
-                start_time , end_time  , dt ,
-                observer , stepper_category() );
-    }
-    else
-    {
-        return detail::integrate_const( stepper , system , start_state , 
-                                        start_time , end_time , dt ,
-                                        observer , stepper_category() );
-    }
+    return detail::integrate_const( stepper , system , start_state , 
+                                    start_time , end_time , dt ,
+                                    observer , stepper_category() );
 }
 
 
-- 
2.43.0


From 21799062adcb5ed9b55b8ee832f5683dc26fe725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:37 +0000
Subject: [PATCH 40/42] fix: iterator based integrate_adaptive with dense
 output leaves the result in the caller's state

---
 .../iterator/integrate/detail/integrate_adaptive.hpp   | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/boost/numeric/odeint/iterator/integrate/detail/integrate_adaptive.hpp b/include/boost/numeric/odeint/iterator/integrate/detail/integrate_adaptive.hpp
index ccbbf49..d74a629 100644
--- a/include/boost/numeric/odeint/iterator/integrate/detail/integrate_adaptive.hpp
+++ b/include/boost/numeric/odeint/iterator/integrate/detail/integrate_adaptive.hpp
@@ -20,6 +20,8 @@
 
 #include <stdexcept>
 
+#include <boost/ref.hpp>
+
 #include <boost/numeric/odeint/stepper/stepper_categories.hpp>
 #include <boost/numeric/odeint/stepper/controlled_step_result.hpp>
 #include <boost/numeric/odeint/iterator/integrate/detail/integrate_const.hpp>
@@ -102,10 +104,16 @@ size_t integrate_adaptive(
 {
     size_t obs_calls = 0;
 
-    boost::for_each( make_adaptive_time_range( stepper , system , start_state ,
+    // the iterators work on this stepper so that the result can be taken from it afterwards
+    typename odeint::unwrap_reference< Stepper >::type &st = stepper;
+    boost::for_each( make_adaptive_time_range( boost::ref( st ) , system , start_state ,
                                                start_time , end_time , dt ) ,
                      obs_caller< Observer >( obs_calls , observer ) );
 
+    // overwrite start_state with the final point
+    if( obs_calls > 0 )
+        boost::numeric::odeint::copy( st.current_state() , start_state );
+
     return obs_calls-1;
 }
 
-- 
2.43.0


From 0247d6287086dee248253f10bf86d1e47a79f5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:46 +0000
Subject: [PATCH 41/42] fix: iterator based integrate functions return zero
 steps for an empty sequence of times

---
 .../odeint/iterator/integrate/detail/integrate_adaptive.hpp   | 4 ++--
 .../odeint/iterator/integrate/detail/integrate_const.hpp      | 4 ++--
 .../odeint/iterator/integrate/detail/integrate_times.hpp      | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/boost/numeric/odeint/iterator/integrate/detail/integrate_adaptive.hpp b/include/boost/numeric/odeint/iterator/integrate/detail/integrate_adaptive.hpp
index d74a629..fa49836 100644
--- a/include/boost/numeric/odeint/iterator/integrate/detail/integrate_adaptive.hpp
+++ b/include/boost/numeric/odeint/iterator/integrate/detail/integrate_adaptive.hpp
@@ -87,7 +87,7 @@ size_t integrate_adaptive(
                                                start_time , end_time , dt ) ,
                      obs_caller< Observer >( obs_calls , observer ) );
 
-    return obs_calls-1;
+    return ( obs_calls > 0 ) ? obs_calls-1 : 0;
 }
 
 
@@ -114,7 +114,7 @@ size_t integrate_adaptive(
     if( obs_calls > 0 )
         boost::numeric::odeint::copy( st.current_state() , start_state );
 
-    return obs_calls-1;
+    return ( obs_calls > 0 ) ? obs_calls-1 : 0;
 }
 
 
diff --git a/include/boost/numeric/odeint/iterator/integrate/detail/integrate_const.hpp b/include/boost/numeric/odeint/iterator/integrate/detail/integrate_const.hpp
index 1065036..ec9ca89 100644
--- a/include/boost/numeric/odeint/iterator/integrate/detail/integrate_const.hpp
+++ b/include/boost/numeric/odeint/iterator/integrate/detail/integrate_const.hpp
@@ -56,7 +56,7 @@ size_t integrate_const(
                      obs_caller< Observer >( obs_calls , observer ) );
 
     // step integration steps gives step+1 observer calls
-    return obs_calls-1;
+    return ( obs_calls > 0 ) ? obs_calls-1 : 0;
 }
 
 
@@ -102,7 +102,7 @@ size_t integrate_const(
     boost::for_each( make_const_step_time_range( stepper , system , start_state ,
                                                  start_time , end_time , dt ) ,
                      obs_caller< Observer >( obs_calls , observer ) );
-    return obs_calls-1;
+    return ( obs_calls > 0 ) ? obs_calls-1 : 0;
 }
 
 
diff --git a/include/boost/numeric/odeint/iterator/integrate/detail/integrate_times.hpp b/include/boost/numeric/odeint/iterator/integrate/detail/integrate_times.hpp
index bccc7c6..582eea3 100644
--- a/include/boost/numeric/odeint/iterator/integrate/detail/integrate_times.hpp
+++ b/include/boost/numeric/odeint/iterator/integrate/detail/integrate_times.hpp
@@ -53,8 +53,8 @@ size_t integrate_times(
                          // should we use traits<Stepper>::state_type here instead of State? NO!
                      obs_caller< Observer >( obs_calls , observer ) );
 
-        // step integration steps gives step+1 observer calls
-    return obs_calls-1;
+        // step integration steps gives step+1 observer calls, none if there was nothing to observe
+    return ( obs_calls > 0 ) ? obs_calls-1 : 0;
 }
 
 
-- 
2.43.0


From f1a2ffa789a0a1b75ce5dfa346a6b0ed43ae7c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:47 +0000
Subject: [PATCH 42/42] fix: iterator based integrate functions make all steps
 with one stepper

---
 .../integrate/detail/integrate_adaptive.hpp    | 18 ++++++++++++++++++
 .../integrate/detail/integrate_const.hpp       |  5 ++++-
 .../integrate/detail/integrate_n_steps.hpp     |  6 +++++-
 3 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/include/boost/numeric/odeint/iterator/integrate/detail/integrate_adaptive.hpp b/include/boost/numeric/odeint/iterator/integrate/detail/integrate_adaptive.hpp
index fa49836..0b72480 100644
--- a/include/boost/numeric/odeint/iterator/integrate/detail/integrate_adaptive.hpp
+++ b/include/boost/numeric/odeint/iterator/integrate/detail/integrate_adaptive.hpp
@@ -71,6 +71,24 @@ size_t integrate_adaptive(
 }
 
 
+/*
+ * integrate_adaptive for simple stepper with the first-same-as-last property, the last step uses the derivative
+ * of the step before, hence integrate_const has to work on the same stepper
+ */
+template< class Stepper , class System , class State , class Time , class Observer >
+size_t integrate_adaptive(
+        Stepper stepper , System system , State &start_state ,
+        Time start_time , Time end_time , Time dt ,
+        Observer observer , explicit_error_stepper_fsal_tag
+)
+{
+    typename odeint::unwrap_reference< Stepper >::type &st = stepper;
+
+    return detail::integrate_adaptive( boost::ref( st ) , system , start_state , start_time ,
+                                       end_time , dt , observer , stepper_tag() );
+}
+
+
 /*
  * classical integrate adaptive
  */
diff --git a/include/boost/numeric/odeint/iterator/integrate/detail/integrate_const.hpp b/include/boost/numeric/odeint/iterator/integrate/detail/integrate_const.hpp
index ec9ca89..7906c47 100644
--- a/include/boost/numeric/odeint/iterator/integrate/detail/integrate_const.hpp
+++ b/include/boost/numeric/odeint/iterator/integrate/detail/integrate_const.hpp
@@ -17,6 +17,7 @@
 #ifndef BOOST_NUMERIC_ODEINT_INTEGRATE_DETAIL_INTEGRATE_CONST_HPP_INCLUDED
 #define BOOST_NUMERIC_ODEINT_INTEGRATE_DETAIL_INTEGRATE_CONST_HPP_INCLUDED
 
+#include <boost/ref.hpp>
 #include <boost/range/algorithm/for_each.hpp>
 
 #include <boost/numeric/odeint/util/unwrap_reference.hpp>
@@ -69,6 +70,7 @@ size_t integrate_const(
 )
 {
     typename odeint::unwrap_reference< Observer >::type &obs = observer;
+    typename odeint::unwrap_reference< Stepper >::type &st = stepper;
     
     Time time = start_time;
     const Time time_step = dt;
@@ -77,7 +79,8 @@ size_t integrate_const(
     while( less_eq_with_sign( static_cast<Time>(time+time_step) , end_time , dt ) )
     {
         obs( start_state , time );
-        detail::integrate_adaptive( stepper , system , start_state , time , time+time_step , dt ,
+        // the stepper goes by reference, every interval continues with what it knows from the one before
+        detail::integrate_adaptive( boost::ref( st ) , system , start_state , time , time+time_step , dt ,
                                     null_observer() , controlled_stepper_tag() );
         // direct computation of the time avoids error propagation happening when using time += dt
         // we need clumsy type analysis to get boost units working here
diff --git a/include/boost/numeric/odeint/iterator/integrate/detail/integrate_n_steps.hpp b/include/boost/numeric/odeint/iterator/integrate/detail/integrate_n_steps.hpp
index f90f887..5cee123 100644
--- a/include/boost/numeric/odeint/iterator/integrate/detail/integrate_n_steps.hpp
+++ b/include/boost/numeric/odeint/iterator/integrate/detail/integrate_n_steps.hpp
@@ -17,6 +17,8 @@
 #ifndef BOOST_NUMERIC_ODEINT_INTEGRATE_DETAIL_INTEGRATE_N_STEPS_HPP_INCLUDED
 #define BOOST_NUMERIC_ODEINT_INTEGRATE_DETAIL_INTEGRATE_N_STEPS_HPP_INCLUDED
 
+#include <boost/ref.hpp>
+
 #include <boost/numeric/odeint/util/unwrap_reference.hpp>
 #include <boost/numeric/odeint/stepper/stepper_categories.hpp>
 #include <boost/numeric/odeint/iterator/integrate/detail/integrate_adaptive.hpp>
@@ -64,6 +66,7 @@ Time integrate_n_steps(
         Observer observer , controlled_stepper_tag )
 {
     typename odeint::unwrap_reference< Observer >::type &obs = observer;
+    typename odeint::unwrap_reference< Stepper >::type &st = stepper;
 
     Time time = start_time;
     Time time_step = dt;
@@ -71,7 +74,8 @@ Time integrate_n_steps(
     for( size_t step = 0; step < num_of_steps ; ++step )
     {
         obs( start_state , time );
-        detail::integrate_adaptive( stepper , system , start_state , time , static_cast<Time>(time+time_step) , dt ,
+        // the stepper goes by reference, every interval continues with what it knows from the one before
+        detail::integrate_adaptive( boost::ref( st ) , system , start_state , time , static_cast<Time>(time+time_step) , dt ,
                 null_observer() , controlled_stepper_tag() );
         // direct computation of the time avoids error propagation happening when using time += dt
         // we need clumsy type analysis to get boost units working here
-- 
2.43.0

