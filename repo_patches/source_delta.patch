From aaeb8e29c1eeb511aa56561051fbd6674698a2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:39 +0000
Subject: [PATCH 01/40] fix: round, not truncate, user supplied seconds to tics

Times such as 0.0145 s at 1000000 tics/s were truncated to the tic before
(14499), so jobs, freezes, stops, frames, AMF cycles and checkpoints
happened one tic early.
---
 .../CheckPointRestart/CheckPointRestart.cpp        |  5 +++--
 trick_source/sim_services/Executive/Executive.cpp  | 14 +++++++-------
 .../Executive/Executive_add_jobs_to_queue.cpp      |  4 ++--
 .../sim_services/Executive/Executive_freeze.cpp    |  3 ++-
 .../Executive/Executive_set_time_tic_value.cpp     |  4 ++--
 .../Executive/Threads_set_amf_cycle_tics.cpp       |  4 ++--
 .../VariableServer/VariableServerSession.cpp       |  3 ++-
 .../VariableServerSession_commands.cpp             |  3 ++-
 8 files changed, 22 insertions(+), 18 deletions(-)

diff --git a/trick_source/sim_services/CheckPointRestart/CheckPointRestart.cpp b/trick_source/sim_services/CheckPointRestart/CheckPointRestart.cpp
index 0259abe..60a42ff 100644
--- a/trick_source/sim_services/CheckPointRestart/CheckPointRestart.cpp
+++ b/trick_source/sim_services/CheckPointRestart/CheckPointRestart.cpp
@@ -1,4 +1,5 @@
 
+#include <math.h>
 #include <iostream>
 #include <iomanip>
 #include <sstream>
@@ -117,7 +118,7 @@ int Trick::CheckPointRestart::checkpoint(double in_time) {
     long long curr_time = exec_get_time_tics() ;
     long long new_time ;
 
-    new_time = (long long)(in_time * exec_get_time_tic_value()) ;
+    new_time = (long long)round(in_time * exec_get_time_tic_value()) ;
 
     if (new_time >= curr_time ) {
         checkpoint_times.push(new_time) ;
@@ -137,7 +138,7 @@ int Trick::CheckPointRestart::set_safestore_time(double in_time) {
 
     long long software_frame_tics ;
 
-    safestore_period = (long long)(in_time * exec_get_time_tic_value()) ;
+    safestore_period = (long long)round(in_time * exec_get_time_tic_value()) ;
     software_frame_tics = exec_get_software_frame_tics() ;
 
     if ( safestore_period % software_frame_tics ) {
diff --git a/trick_source/sim_services/Executive/Executive.cpp b/trick_source/sim_services/Executive/Executive.cpp
index 55c43b8..c939e4d 100644
--- a/trick_source/sim_services/Executive/Executive.cpp
+++ b/trick_source/sim_services/Executive/Executive.cpp
@@ -85,10 +85,10 @@ Trick::Executive::Executive() {
     num_all_jobs = 0 ;
     all_jobs_for_checkpoint = NULL ;
 
-    software_frame_tics = (long long)(software_frame * time_tic_value) ;
+    software_frame_tics = (long long)round(software_frame * time_tic_value) ;
     next_frame_check_tics = software_frame_tics ;
 
-    freeze_frame_tics = (long long)(freeze_frame * time_tic_value) ;
+    freeze_frame_tics = (long long)round(freeze_frame * time_tic_value) ;
     next_freeze_frame_check_tics = freeze_frame_tics ;
 
     freeze_job = NULL ;
@@ -358,7 +358,7 @@ int Trick::Executive::set_freeze_on_frame_boundary(bool on_off) {
 
 int Trick::Executive::set_freeze_frame(double in_frame) {
     freeze_frame = in_frame ;
-    freeze_frame_tics = (long long)(freeze_frame * time_tic_value) ;
+    freeze_frame_tics = (long long)round(freeze_frame * time_tic_value) ;
     return(0) ;
 }
 
@@ -369,8 +369,8 @@ int Trick::Executive::set_rt_nap(bool on_off) {
 
 int Trick::Executive::set_software_frame(double in_frame) {
     software_frame = in_frame ;
-    software_frame_tics = (long long)(software_frame * time_tic_value) ;
-    next_frame_check_tics = (long long)((sim_start * time_tic_value) + software_frame_tics) ;
+    software_frame_tics = (long long)round(software_frame * time_tic_value) ;
+    next_frame_check_tics = (long long)round(sim_start * time_tic_value) + software_frame_tics ;
     return(0) ;
 }
 
@@ -380,12 +380,12 @@ int Trick::Executive::set_stack_trace(bool on_off) {
 }
 
 int Trick::Executive::set_terminate_time(double in_time) {
-    terminate_time = (long long)(in_time * time_tic_value) ;
+    terminate_time = (long long)round(in_time * time_tic_value) ;
     return(0) ;
 }
 
 int Trick::Executive::set_time(double in_time) {
-    time_tics = (long long)(in_time * time_tic_value) ;
+    time_tics = (long long)round(in_time * time_tic_value) ;
     for (unsigned int ii = 0 ; ii < threads.size() ; ii++ ) {
        threads[ii]->curr_time_tics = time_tics ;
     }
diff --git a/trick_source/sim_services/Executive/Executive_add_jobs_to_queue.cpp b/trick_source/sim_services/Executive/Executive_add_jobs_to_queue.cpp
index eadbb8d..477a64a 100644
--- a/trick_source/sim_services/Executive/Executive_add_jobs_to_queue.cpp
+++ b/trick_source/sim_services/Executive/Executive_add_jobs_to_queue.cpp
@@ -99,7 +99,7 @@ int Trick::Executive::add_jobs_to_queue( Trick::SimObject * in_sim_object , bool
                 temp_job->disabled = true ;
                 temp_job->start_tics = TRICK_MAX_LONG_LONG ;
             } else {
-                temp_job->start_tics = (long long)(temp_job->start * time_tic_value) ;
+                temp_job->start_tics = (long long)round(temp_job->start * time_tic_value) ;
             }
 
             if ( temp_job->stop > max_time ) {
@@ -107,7 +107,7 @@ int Trick::Executive::add_jobs_to_queue( Trick::SimObject * in_sim_object , bool
             } else if ( temp_job->stop < temp_job->start ) {
                 temp_job->disabled = true ;
             } else {
-                temp_job->stop_tics = (long long)(temp_job->stop * time_tic_value) ;
+                temp_job->stop_tics = (long long)round(temp_job->stop * time_tic_value) ;
             }
 
             if ( temp_job->disabled == false ) {
diff --git a/trick_source/sim_services/Executive/Executive_freeze.cpp b/trick_source/sim_services/Executive/Executive_freeze.cpp
index 736b543..2da627d 100644
--- a/trick_source/sim_services/Executive/Executive_freeze.cpp
+++ b/trick_source/sim_services/Executive/Executive_freeze.cpp
@@ -1,4 +1,5 @@
 
+#include <math.h>
 #include <iostream>
 #include <sstream>
 
@@ -34,7 +35,7 @@ int Trick::Executive::freeze() {
 int Trick::Executive::freeze(double in_time) {
 
     long long new_time ;
-    new_time = (long long)(in_time * time_tic_value) ;
+    new_time = (long long)round(in_time * time_tic_value) ;
 
     if (new_time > time_tics ) {
         freeze_times.push(new_time) ;
diff --git a/trick_source/sim_services/Executive/Executive_set_time_tic_value.cpp b/trick_source/sim_services/Executive/Executive_set_time_tic_value.cpp
index 0806c78..a169686 100644
--- a/trick_source/sim_services/Executive/Executive_set_time_tic_value.cpp
+++ b/trick_source/sim_services/Executive/Executive_set_time_tic_value.cpp
@@ -23,8 +23,8 @@ int Trick::Executive::set_time_tic_value(int in_tics) {
     time_tics = (long long)round((double)time_tics / old_time_tic_value * time_tic_value) ;
 
     /* reset software frames */
-    software_frame_tics = (long long)(software_frame * time_tic_value) ;
-    freeze_frame_tics = (long long)(freeze_frame * time_tic_value) ;
+    software_frame_tics = (long long)round(software_frame * time_tic_value) ;
+    freeze_frame_tics = (long long)round(freeze_frame * time_tic_value) ;
 
     /* reset job times */
     reset_job_cycle_times() ;
diff --git a/trick_source/sim_services/Executive/Threads_set_amf_cycle_tics.cpp b/trick_source/sim_services/Executive/Threads_set_amf_cycle_tics.cpp
index cfa2922..b59ca3b 100644
--- a/trick_source/sim_services/Executive/Threads_set_amf_cycle_tics.cpp
+++ b/trick_source/sim_services/Executive/Threads_set_amf_cycle_tics.cpp
@@ -10,7 +10,7 @@
 */
 int Trick::Threads::set_amf_cycle(double in_cycle , long long time_tic_value) {
     amf_cycle = in_cycle ;
-    amf_cycle_tics = (long long)(in_cycle * time_tic_value) ;
+    amf_cycle_tics = (long long)round(in_cycle * time_tic_value) ;
     return(0) ;
 }
 
@@ -22,7 +22,7 @@ int Trick::Threads::set_amf_cycle(double in_cycle , long long time_tic_value) {
 -# return successful 0
 */
 int Trick::Threads::time_tic_changed(long long old_time_tic_value , long long time_tic_value) {
-    amf_cycle_tics = (long long)(amf_cycle * time_tic_value) ;
+    amf_cycle_tics = (long long)round(amf_cycle * time_tic_value) ;
     amf_next_tics = (long long)round((amf_next_tics / old_time_tic_value) * time_tic_value) ;
     return(0) ;
 }
diff --git a/trick_source/sim_services/VariableServer/VariableServerSession.cpp b/trick_source/sim_services/VariableServer/VariableServerSession.cpp
index e932967..2fd1b05 100644
--- a/trick_source/sim_services/VariableServer/VariableServerSession.cpp
+++ b/trick_source/sim_services/VariableServer/VariableServerSession.cpp
@@ -1,3 +1,4 @@
+#include <math.h>
 #include "trick/VariableServerSession.hh"
 #include "trick/TrickConstant.hh"
 #include "trick/exec_proto.h"
@@ -23,7 +24,7 @@ Trick::VariableServerSession::VariableServerSession() {
     _freeze_frame_multiple = 1 ;
     _freeze_frame_offset = 0 ;
     _update_rate = 0.1 ;
-    _cycle_tics = (long long)(_update_rate * exec_get_time_tic_value()) ;
+    _cycle_tics = (long long)round(_update_rate * exec_get_time_tic_value()) ;
     if (_cycle_tics == 0) {
         _cycle_tics = 1;
     }
diff --git a/trick_source/sim_services/VariableServer/VariableServerSession_commands.cpp b/trick_source/sim_services/VariableServer/VariableServerSession_commands.cpp
index 77c0e88..f7d7966 100644
--- a/trick_source/sim_services/VariableServer/VariableServerSession_commands.cpp
+++ b/trick_source/sim_services/VariableServer/VariableServerSession_commands.cpp
@@ -1,4 +1,5 @@
 
+#include <math.h>
 #include <string.h>
 #include <iostream>
 #include <sstream>
@@ -229,7 +230,7 @@ int Trick::VariableServerSession::var_send() {
 
 int Trick::VariableServerSession::var_cycle(double in_rate) {
     _update_rate = in_rate ;
-    _cycle_tics = (long long)(_update_rate * exec_get_time_tic_value()) ;
+    _cycle_tics = (long long)round(_update_rate * exec_get_time_tic_value()) ;
     return(0) ;
 }
 
-- 
2.43.0


From de0cb51a782bff5d85a3940739d759706e9278b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:16 +0000
Subject: [PATCH 02/40] fix: rescale stop, freeze, event and AMF times when the
 time tic value changes

The conversion divided integers, which dropped the fractional second of
freeze(), stop() and event times, and job stop times were not converted.
---
 .../sim_services/EventManager/EventManager.cpp       |  5 ++++-
 trick_source/sim_services/Executive/Executive.cpp    |  2 +-
 .../Executive/Executive_set_time_tic_value.cpp       | 12 +++++++++---
 .../Executive/Threads_set_amf_cycle_tics.cpp         |  4 ++--
 4 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/trick_source/sim_services/EventManager/EventManager.cpp b/trick_source/sim_services/EventManager/EventManager.cpp
index a3d1856..22e949d 100644
--- a/trick_source/sim_services/EventManager/EventManager.cpp
+++ b/trick_source/sim_services/EventManager/EventManager.cpp
@@ -13,6 +13,7 @@
 #include <string>
 #include <cmath>
 
+#include "trick/TrickConstant.hh"
 #include "trick/EventManager.hh"
 #include "trick/EventInstrument.hh"
 #include "trick/memorymanager_c_intf.h"
@@ -257,7 +258,9 @@ int Trick::EventManager::time_tic_changed() {
     tt = exec_get_time_tic_value() ;
 
     for ( ii = 0 ; ii < num_active_events ; ii++ ) {
-        active_events[ii]->set_next_tics((long long)round((active_events[ii]->get_next_tics() / old_tt) * tt)) ;
+        if ( active_events[ii]->get_next_tics() != TRICK_MAX_LONG_LONG ) {
+            active_events[ii]->set_next_tics((long long)round(((double)active_events[ii]->get_next_tics() / old_tt) * tt)) ;
+        }
     }
 
     return 0 ;
diff --git a/trick_source/sim_services/Executive/Executive.cpp b/trick_source/sim_services/Executive/Executive.cpp
index c939e4d..d6ec054 100644
--- a/trick_source/sim_services/Executive/Executive.cpp
+++ b/trick_source/sim_services/Executive/Executive.cpp
@@ -268,7 +268,7 @@ double Trick::Executive::get_thread_amf_cycle_time(unsigned int thread_id) {
 }
 
 double Trick::Executive::get_terminate_time() {
-    return(terminate_time / time_tic_value) ;
+    return((double)terminate_time / time_tic_value) ;
 }
 
 int Trick::Executive::get_time_tic_value() {
diff --git a/trick_source/sim_services/Executive/Executive_set_time_tic_value.cpp b/trick_source/sim_services/Executive/Executive_set_time_tic_value.cpp
index a169686..6b0f665 100644
--- a/trick_source/sim_services/Executive/Executive_set_time_tic_value.cpp
+++ b/trick_source/sim_services/Executive/Executive_set_time_tic_value.cpp
@@ -29,23 +29,29 @@ int Trick::Executive::set_time_tic_value(int in_tics) {
     /* reset job times */
     reset_job_cycle_times() ;
     reset_job_call_times() ;
+    for ( unsigned int jj = 0 ; jj < all_jobs_vector.size() ; jj++ ) {
+        Trick::JobData * temp_job = all_jobs_vector[jj] ;
+        if ( temp_job->stop_tics != TRICK_MAX_LONG_LONG ) {
+            temp_job->stop_tics = (long long)round((double)temp_job->stop_tics / old_time_tic_value * time_tic_value) ;
+        }
+    }
 
     /* reset freeze times */
     while ( ! freeze_times.empty() ) {
-        new_freeze_times.push( (long long)round((freeze_times.top() / old_time_tic_value ) * time_tic_value) ) ;
+        new_freeze_times.push( (long long)round(((double)freeze_times.top() / old_time_tic_value ) * time_tic_value) ) ;
         freeze_times.pop() ;
     }
     freeze_times = new_freeze_times ;
 
     if ( freeze_job != NULL ) {
         if ( freeze_job->next_tics != TRICK_MAX_LONG_LONG ) {
-            freeze_job->next_tics =  (long long)round((freeze_job->next_tics / old_time_tic_value) * time_tic_value) ;
+            freeze_job->next_tics =  (long long)round(((double)freeze_job->next_tics / old_time_tic_value) * time_tic_value) ;
         }
     }
 
     /* reset stop time */
     if ( terminate_time != TRICK_MAX_LONG_LONG-1 ) {
-        terminate_time = (long long)round((terminate_time / old_time_tic_value) * time_tic_value) ;
+        terminate_time = (long long)round(((double)terminate_time / old_time_tic_value) * time_tic_value) ;
     }
 
     /* call jobs for other objects that need to know the time_tic changed. */
diff --git a/trick_source/sim_services/Executive/Threads_set_amf_cycle_tics.cpp b/trick_source/sim_services/Executive/Threads_set_amf_cycle_tics.cpp
index b59ca3b..3bd983e 100644
--- a/trick_source/sim_services/Executive/Threads_set_amf_cycle_tics.cpp
+++ b/trick_source/sim_services/Executive/Threads_set_amf_cycle_tics.cpp
@@ -18,11 +18,11 @@ int Trick::Threads::set_amf_cycle(double in_cycle , long long time_tic_value) {
 /*
 @design
 -# recalculate amf_cycle_tics using new time_tic_value
--# recalculate amf_next_tics = (amf_next_tics / old_time_tic_value) * time_tic_value
+-# recalculate amf_next_tics = ((double)amf_next_tics / old_time_tic_value) * time_tic_value
 -# return successful 0
 */
 int Trick::Threads::time_tic_changed(long long old_time_tic_value , long long time_tic_value) {
     amf_cycle_tics = (long long)round(amf_cycle * time_tic_value) ;
-    amf_next_tics = (long long)round((amf_next_tics / old_time_tic_value) * time_tic_value) ;
+    amf_next_tics = (long long)round(((double)amf_next_tics / old_time_tic_value) * time_tic_value) ;
     return(0) ;
 }
-- 
2.43.0


From 941c9607ce2ea3c2662a72e7e141d52a37c5a2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:16 +0000
Subject: [PATCH 03/40] fix: do not lose or invent thread triggers

A futex trigger fired before the child slept was lost and the simulation
hung; a spurious wake up of the mutex trigger's condition variable let the
child run on its own and report the step complete early.
---
 include/trick/ThreadTrigger.hh                   |  2 ++
 .../sim_services/Executive/ThreadTrigger.cpp     | 16 ++++++++++++----
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/include/trick/ThreadTrigger.hh b/include/trick/ThreadTrigger.hh
index 6ce7763..303407f 100644
--- a/include/trick/ThreadTrigger.hh
+++ b/include/trick/ThreadTrigger.hh
@@ -41,6 +41,8 @@ namespace Trick {
             pthread_cond_t go_cv;           /**< trick_io(**) */
             /** Mutex to control start of thread processing */
             pthread_mutex_t go_mutex;       /**< trick_io(**) */
+            /** True from fire() until the thread takes the trigger */
+            bool go_flag;                   /**< trick_io(**) */
     } ;
 
     class ThreadTriggerFlag : public Trick::ThreadTriggerBase {
diff --git a/trick_source/sim_services/Executive/ThreadTrigger.cpp b/trick_source/sim_services/Executive/ThreadTrigger.cpp
index bbfd051..6de7d74 100644
--- a/trick_source/sim_services/Executive/ThreadTrigger.cpp
+++ b/trick_source/sim_services/Executive/ThreadTrigger.cpp
@@ -8,7 +8,7 @@ Trick::ThreadTriggerBase::~ThreadTriggerBase() {}
 void Trick::ThreadTriggerBase::init() {}
 
 /* ThreadTriggerMutex */
-Trick::ThreadTriggerMutex::ThreadTriggerMutex() : ThreadTriggerBase(TT_MUTEX) {
+Trick::ThreadTriggerMutex::ThreadTriggerMutex() : ThreadTriggerBase(TT_MUTEX), go_flag(false) {
     pthread_cond_init(&go_cv, NULL);
     pthread_mutex_init(&go_mutex, NULL);
 }
@@ -19,12 +19,17 @@ void Trick::ThreadTriggerMutex::init() {
 
 void Trick::ThreadTriggerMutex::fire() {
     pthread_mutex_lock(&go_mutex);
+    go_flag = true ;
     pthread_cond_signal(&go_cv);
     pthread_mutex_unlock(&go_mutex);
 }
 
 void Trick::ThreadTriggerMutex::wait() {
-    pthread_cond_wait(&go_cv, &go_mutex);
+    /* go_flag filters spurious wake ups of the condition variable */
+    while ( !go_flag ) {
+        pthread_cond_wait(&go_cv, &go_mutex);
+    }
+    go_flag = false ;
 }
 
 void Trick::ThreadTriggerMutex::dump(std::ostream & oss) {
@@ -78,12 +83,15 @@ void Trick::ThreadTriggerEventFD::dump(std::ostream & oss) {
 Trick::ThreadTriggerFutex::ThreadTriggerFutex() : ThreadTriggerBase(TT_FUTEX), futex_addr(0) {}
 
 void Trick::ThreadTriggerFutex::fire() {
+    __atomic_store_n(&futex_addr, 1, __ATOMIC_SEQ_CST);
     syscall(SYS_futex, &futex_addr, FUTEX_WAKE, 1, NULL, NULL, 0);
 }
 
 void Trick::ThreadTriggerFutex::wait() {
-    futex_addr = 0;
-    syscall(SYS_futex, &futex_addr, FUTEX_WAIT, 0, NULL, NULL, 0);
+    /* A fire() that comes before the wait leaves futex_addr at 1, it is not lost. */
+    while ( __atomic_exchange_n(&futex_addr, 0, __ATOMIC_SEQ_CST) == 0 ) {
+        syscall(SYS_futex, &futex_addr, FUTEX_WAIT, 0, NULL, NULL, 0);
+    }
 }
 
 void Trick::ThreadTriggerFutex::dump(std::ostream & oss) {
-- 
2.43.0


From 9c3cc7c9b6b828d1b649a3b14180d70b13c9a0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:22 +0000
Subject: [PATCH 04/40] fix: an asynchronous thread does not run a job past its
 stop time

Catching up skipped frames moved next_tics over stop_tics, after which the
job ran until the end of the simulation.
---
 trick_source/sim_services/Executive/Threads_child.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/trick_source/sim_services/Executive/Threads_child.cpp b/trick_source/sim_services/Executive/Threads_child.cpp
index baf094d..25c1735 100644
--- a/trick_source/sim_services/Executive/Threads_child.cpp
+++ b/trick_source/sim_services/Executive/Threads_child.cpp
@@ -169,6 +169,9 @@ void * Trick::Threads::thread_body() {
                             while ( curr_job->next_tics < start_frame ) {
                                 curr_job->next_tics += curr_job->cycle_tics ;
                             }
+                            if ( curr_job->next_tics > curr_job->stop_tics ) {
+                                curr_job->next_tics = TRICK_MAX_LONG_LONG ;
+                            }
                         }
 
                         // New behavior, run a mini scheduler.
-- 
2.43.0


From e73b367f58e8c268916412550dcffab422a2a690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:26 +0000
Subject: [PATCH 05/40] fix: wait for a job dependency with an atomic load

The plain bool was hoisted out of the spin loop by an optimising compiler
when rt_nap is off, and the simulation waited for ever.
---
 .../sim_services/Executive/Executive_loop_multi_thread.cpp    | 4 ++--
 trick_source/sim_services/Executive/Threads_child.cpp         | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/trick_source/sim_services/Executive/Executive_loop_multi_thread.cpp b/trick_source/sim_services/Executive/Executive_loop_multi_thread.cpp
index 34e348c..8e23600 100644
--- a/trick_source/sim_services/Executive/Executive_loop_multi_thread.cpp
+++ b/trick_source/sim_services/Executive/Executive_loop_multi_thread.cpp
@@ -144,7 +144,7 @@ int Trick::Executive::loop_multi_thread() {
             /* Wait for all jobs that the current job depends on to complete. */
             for ( ii = 0 ; ii < curr_job->depends.size() ; ii++ ) {
                 depend_job = curr_job->depends[ii] ;
-                while (! depend_job->complete) {
+                while (! __atomic_load_n(&depend_job->complete, __ATOMIC_ACQUIRE)) {
                     if (rt_nap == true) {
                         RELEASE();
                     }
@@ -161,7 +161,7 @@ int Trick::Executive::loop_multi_thread() {
             if ( curr_job->system_job_class ) {
                 main_sched_queue->test_next_job_call_time(curr_job , time_tics) ;
             }
-            curr_job->complete = true ;
+            __atomic_store_n(&curr_job->complete, true, __ATOMIC_RELEASE) ;
         }
 
         /* Call Executive::exec_terminate_with_return(int , const char * , int , const char *)
diff --git a/trick_source/sim_services/Executive/Threads_child.cpp b/trick_source/sim_services/Executive/Threads_child.cpp
index 25c1735..18f371b 100644
--- a/trick_source/sim_services/Executive/Threads_child.cpp
+++ b/trick_source/sim_services/Executive/Threads_child.cpp
@@ -48,7 +48,7 @@ static int call_next_job(Trick::JobData * curr_job, Trick::ScheduledJobQueue & j
     /* Wait for all jobs that the current job depends on to complete. */
     for ( ii = 0 ; ii < curr_job->depends.size() ; ii++ ) {
         depend_job = curr_job->depends[ii] ;
-        while (! depend_job->complete) {
+        while (! __atomic_load_n(&depend_job->complete, __ATOMIC_ACQUIRE)) {
             if (rt_nap == true) {
                 RELEASE();
             }
@@ -67,7 +67,7 @@ static int call_next_job(Trick::JobData * curr_job, Trick::ScheduledJobQueue & j
         job_queue.test_next_job_call_time(curr_job , curr_time_tics) ;
     }
 
-    curr_job->complete = true ;
+    __atomic_store_n(&curr_job->complete, true, __ATOMIC_RELEASE) ;
 
     return 0 ;
 }
-- 
2.43.0


From 1c7b2709d6b28ca2a3c23cb899422fcef5721566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:14 +0000
Subject: [PATCH 06/40] fix: turning a sim object off twice keeps its jobs'
 saved states

The second call saved 'disabled' for every job, so the jobs stayed off
for good when the object was turned on again.
---
 .../sim_services/Executive/Executive_set_simobject_onoff.cpp  | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trick_source/sim_services/Executive/Executive_set_simobject_onoff.cpp b/trick_source/sim_services/Executive/Executive_set_simobject_onoff.cpp
index 60dd5c1..ad4c86c 100644
--- a/trick_source/sim_services/Executive/Executive_set_simobject_onoff.cpp
+++ b/trick_source/sim_services/Executive/Executive_set_simobject_onoff.cpp
@@ -42,8 +42,8 @@ int Trick::Executive::set_sim_object_onoff(std::string sim_object_name, int on)
         sim_object->saved_job_states.clear();
     } else {
         for ( int i = 0 ; i < sim_object->jobs.size() ; i++ ) {
-            // Save state, turn off
-            sim_object->saved_job_states[sim_object->jobs[i]] = sim_object->jobs[i]->disabled;
+            // Save state, turn off.  A state saved by an earlier call is kept.
+            sim_object->saved_job_states.insert(std::make_pair(sim_object->jobs[i], sim_object->jobs[i]->disabled));
             sim_object->jobs[i]->disabled = true ;
         }
     }
-- 
2.43.0


From e9c5c5969e59db1f20393cf0a167387199759a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:24 +0000
Subject: [PATCH 07/40] fix: do not wait for ever for a job that is turned off

A job turned off at the very time it is due had its complete flag cleared
but never set again, and the jobs that depend on it waited for ever.
---
 .../sim_services/ScheduledJobQueue/ScheduledJobQueue.cpp        | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/trick_source/sim_services/ScheduledJobQueue/ScheduledJobQueue.cpp b/trick_source/sim_services/ScheduledJobQueue/ScheduledJobQueue.cpp
index 4566024..ddbc6d7 100644
--- a/trick_source/sim_services/ScheduledJobQueue/ScheduledJobQueue.cpp
+++ b/trick_source/sim_services/ScheduledJobQueue/ScheduledJobQueue.cpp
@@ -328,6 +328,8 @@ Trick::JobData * Trick::ScheduledJobQueue::find_next_job(long long time_tics ) {
             if ( !curr_job->disabled ) {
                 return(curr_job) ;
             }
+            /* A job that is turned off does not run at this time, jobs that depend on it must not wait for it. */
+            __atomic_store_n(&curr_job->complete, true, __ATOMIC_RELEASE) ;
         } else {
             /* Track next lowest job call time after the current time for jobs that do not match the current time */
             if ( curr_job->next_tics > time_tics && curr_job->next_tics < next_job_time ) {
-- 
2.43.0


From b5c8274aa233bdd69d310c2f8795e7ee8589e2cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:56 +0000
Subject: [PATCH 08/40] fix: keep variable server values within their buffers,
 byteswap strings and containers correctly

A string longer than the staging buffer overran it, and byteswapped values were
written with the wrong size, type or element count (strings, wide strings,
arrays, STL elements).
---
 include/trick/VariableReference.hh            |  1 +
 .../VariableServer/VariableReference.cpp      | 76 +++++++++++--------
 2 files changed, 47 insertions(+), 30 deletions(-)

diff --git a/include/trick/VariableReference.hh b/include/trick/VariableReference.hh
index caca0ec..5e0cbb8 100644
--- a/include/trick/VariableReference.hh
+++ b/include/trick/VariableReference.hh
@@ -74,6 +74,7 @@ namespace Trick {
         REF2 * _var_info;  
         void * _address;                      // -- address of data copied to buffer
         int    _size;                         // -- size of data copied to buffer
+        int    _write_size;                   // -- size of data in the write buffer
         bool   _deref;                        // -- indicates whether variable is pointer that needs to be dereferenced
         cv_converter * _conversion_factor ;  // ** udunits conversion factor
         TRICK_TYPE _trick_type ;             // -- Trick type of this variable
diff --git a/trick_source/sim_services/VariableServer/VariableReference.cpp b/trick_source/sim_services/VariableServer/VariableReference.cpp
index 626eb59..50f50d6 100644
--- a/trick_source/sim_services/VariableServer/VariableReference.cpp
+++ b/trick_source/sim_services/VariableServer/VariableReference.cpp
@@ -62,7 +62,7 @@ REF2* make_time_ref(double * time) {
     return new_ref;
 }
 
-Trick::VariableReference::VariableReference(std::string var_name, double* time) : _staged(false), _write_ready(false) {
+Trick::VariableReference::VariableReference(std::string var_name, double* time) : _used_stl_indexing(false), _staged(false), _write_ready(false) {
     if (var_name != "time") {
         ASSERT(0);
     }
@@ -80,6 +80,7 @@ Trick::VariableReference::VariableReference(std::string var_name, double* time)
     // Allocate stage and write buffers
     _stage_buffer = calloc(_size, 1) ;
     _write_buffer = calloc(_size, 1) ;
+    _write_size = _size ;
 
     _conversion_factor = cv_get_trivial();
     _base_units = _var_info->attr->units;
@@ -168,9 +169,10 @@ Trick::VariableReference::VariableReference(std::string var_name) : _staged(fals
         _size = MAX_ARRAY_LENGTH ;
     }
 
-    // Allocate stage and write buffers
-    _stage_buffer = calloc(_size, 1) ;
-    _write_buffer = calloc(_size, 1) ;
+    // Allocate stage and write buffers, with room for a terminating null after character data that has none
+    _stage_buffer = calloc(_size + sizeof(wchar_t), 1) ;
+    _write_buffer = calloc(_size + sizeof(wchar_t), 1) ;
+    _write_size = _size ;
 
     _conversion_factor = cv_get_trivial();
     _base_units = _var_info->attr->units;
@@ -203,7 +205,7 @@ std::string Trick::VariableReference::getName() const {
 }
 
 int Trick::VariableReference::getSizeBinary() const {
-    return _size;
+    return _write_ready ? _write_size : _size;
 }
 
 TRICK_TYPE Trick::VariableReference::getType() const {
@@ -292,8 +294,6 @@ int Trick::VariableReference::setRequestedUnits(std::string units_name) {
 }
 
 int Trick::VariableReference::stageValue(bool validate_address) {
-    _write_ready = false;
-
     // Copy <size> bytes from <address> to staging_point.
 
     // Try to recreate connection if it has been broken
@@ -358,6 +358,10 @@ int Trick::VariableReference::stageValue(bool validate_address) {
             _size = (wcslen((wchar_t *)_address) + 1) * sizeof(wchar_t);
         }
     }
+    // a string that does not fit in the buffer is cut off
+    if ((( _trick_type == TRICK_STRING ) || ( _trick_type == TRICK_WSTRING )) && (_size > MAX_ARRAY_LENGTH)) {
+        _size = MAX_ARRAY_LENGTH ;
+    }
     if(_address != NULL) {
         memcpy( _stage_buffer , _address , _size ) ;
     }
@@ -436,7 +440,7 @@ int Trick::VariableReference::writeValueAscii( std::ostream& out ) const {
 
     int bytes_written = 0;
     void * buf_ptr = _write_buffer ;
-    while (bytes_written < _size) {
+    while (bytes_written < _write_size) {
         bytes_written += _var_info->attr->size ;
 
         switch (local_type) {
@@ -448,7 +452,7 @@ int Trick::VariableReference::writeValueAscii( std::ostream& out ) const {
             } else {
                 // All but last dim specified, leaves a char array 
                 write_escaped_string(out, (const char *) buf_ptr);
-                bytes_written = _size ;
+                bytes_written = _write_size ;
             }
             break;
         case TRICK_UNSIGNED_CHARACTER:
@@ -458,7 +462,7 @@ int Trick::VariableReference::writeValueAscii( std::ostream& out ) const {
             } else {
                 // All but last dim specified, leaves a char array 
                 write_escaped_string(out, (const char *) buf_ptr);
-                bytes_written = _size ;
+                bytes_written = _write_size ;
             }
             break;
 
@@ -472,7 +476,7 @@ int Trick::VariableReference::writeValueAscii( std::ostream& out ) const {
                     char temp_buf[len];
                     wcs_to_ncs((wchar_t *) buf_ptr, temp_buf, len);
                     out << temp_buf;
-                    bytes_written = _size ;
+                    bytes_written = _write_size ;
                 }
             }
             break;
@@ -480,7 +484,7 @@ int Trick::VariableReference::writeValueAscii( std::ostream& out ) const {
         case TRICK_STRING:
             if ((char *) buf_ptr != NULL) {
                 write_escaped_string(out, (const char *) buf_ptr);
-                bytes_written = _size ;
+                bytes_written = _write_size ;
             } else {
                 out << '\0';
             }
@@ -494,7 +498,7 @@ int Trick::VariableReference::writeValueAscii( std::ostream& out ) const {
                 char temp_buf[len];
                 wcs_to_ncs(  (wchar_t *) buf_ptr, temp_buf, len);
                 out << temp_buf;
-                bytes_written = _size ;
+                bytes_written = _write_size ;
             } else {
                 out << '\0';
             }
@@ -582,7 +586,7 @@ int Trick::VariableReference::writeValueAscii( std::ostream& out ) const {
         }
         } // end switch
 
-        if (bytes_written < _size) {
+        if (bytes_written < _write_size) {
         // if returning an array, continue array as comma separated values
             out << ",";
             buf_ptr = (void*) ((long)buf_ptr + _var_info->attr->size) ;
@@ -616,6 +620,7 @@ int Trick::VariableReference::prepareForWrite() {
     void * temp_p = _stage_buffer;
     _stage_buffer = _write_buffer;
     _write_buffer = temp_p;
+    _write_size = _size;
 
     _staged = false;
     _write_ready = true;
@@ -641,7 +646,7 @@ int Trick::VariableReference::writeTypeBinary( std::ostream& out, bool byteswap
 }
 
 int Trick::VariableReference::writeSizeBinary( std::ostream& out, bool byteswap ) const {
-    int local_size = _size;
+    int local_size = getSizeBinary();
     if (byteswap) {
         local_size = trick_byteswap_int(local_size);
     }
@@ -676,14 +681,25 @@ void Trick::VariableReference::byteswap_var (char * out, char * in) const {
 
 void Trick::VariableReference::byteswap_var (char * out, char * in, const VariableReference& ref) {
     ATTRIBUTES * attr = ref._var_info->attr;
-    int array_size = 1;
 
-    // Determine how many elements are in this array if it is an array
-    for (int j = 0; j < ref._var_info->attr->num_index; j++) {
-        array_size *= attr->index[j].size;
+    // Strings have no byte order.
+    if (ref._trick_type == TRICK_STRING) {
+        memcpy(out, in, ref._write_size);
+        return;
+    }
+
+    // attr describes the whole container when the reference is an element of an STL container
+    int element_size = attr->size;
+    if (ref._trick_type == TRICK_WSTRING) {
+        element_size = sizeof(wchar_t);
+    } else if (ref._used_stl_indexing) {
+        element_size = ref._write_size;
     }
 
-    switch (attr->size) {
+    // Determine how many elements the reference covers. It may be a single element of an array.
+    int array_size = ref._write_size / element_size;
+
+    switch (element_size) {
         case 1:
             // If these are just characters, no need to byteswap
             for (int j = 0; j < array_size; j++) {
@@ -736,35 +752,35 @@ int Trick::VariableReference::writeValueBinary( std::ostream& out, bool byteswap
     if ( local_type == TRICK_BITFIELD ) {
         int temp_i = GET_BITFIELD(_write_buffer , _var_info->attr->size ,
             _var_info->attr->index[0].start, _var_info->attr->index[0].size) ;
-        out.write((char *)(&temp_i), _size);
-        return _size;
+        out.write((char *)(&temp_i), _write_size);
+        return _write_size;
     }
 
     if ( local_type == TRICK_UNSIGNED_BITFIELD ) {
         int temp_unsigned = GET_UNSIGNED_BITFIELD(_write_buffer , _var_info->attr->size ,
                 _var_info->attr->index[0].start, _var_info->attr->index[0].size) ;
-        out.write((char *)(&temp_unsigned), _size);
-        return _size;
+        out.write((char *)(&temp_unsigned), _write_size);
+        return _write_size;
     }
 
     if (local_type ==  TRICK_NUMBER_OF_TYPES) {
         // TRICK_NUMBER_OF_TYPES is an error case
         int temp_zero = 0 ;
-        out.write((char *)(&temp_zero), _size);
-        return _size;
+        out.write((char *)(&temp_zero), _write_size);
+        return _write_size;
     }
 
     if (byteswap) {
-        char * byteswap_buf = (char *) calloc (_size, 1);
+        char * byteswap_buf = (char *) calloc (_write_size, 1);
         byteswap_var(byteswap_buf, (char *) _write_buffer);
-        out.write(byteswap_buf, _size);
+        out.write(byteswap_buf, _write_size);
         free (byteswap_buf);
     }
     else {
-        out.write((char *) _write_buffer, _size);
+        out.write((char *) _write_buffer, _write_size);
     }
 
-    return _size;
+    return _write_size;
     
 }  
 
-- 
2.43.0


From 027e954e1466876e72519cdb3604700eb883866d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:56 +0000
Subject: [PATCH 09/40] fix: variable server messages on a TCP connection are
 sent whole or not at all

A short write to a slow client left half a message in the stream, followed by
the next one.  Reading dropped data on partial lines, took an end of file or a
line longer than the buffer for 'nothing to read' and EINTR for an error.
---
 include/trick/TCPConnection.hh                |  14 ++
 .../connection_handlers/TCPConnection.cpp     | 121 ++++++++++++------
 2 files changed, 94 insertions(+), 41 deletions(-)

diff --git a/include/trick/TCPConnection.hh b/include/trick/TCPConnection.hh
index 6b34ded..191d4f6 100644
--- a/include/trick/TCPConnection.hh
+++ b/include/trick/TCPConnection.hh
@@ -5,6 +5,9 @@
     PURPOSE: ( Encapsulate a TCP connection. )
 */
 
+#include <pthread.h>
+#include <string>
+
 #include "trick/ClientConnection.hh"
 #include "trick/SystemInterface.hh"
 
@@ -47,6 +50,17 @@ namespace Trick {
 
             SystemInterface * _system_interface;     /* ** */
 
+            int write_bytes (const char * message, int size);
+            int send_bytes (const char * message, int size);
+            bool flush_unsent ();
+
+            // The part of the last message that the socket has not taken yet
+            std::string _unsent;                     /* ** */
+            pthread_mutex_t _write_mutex;            /* ** */
+
+            // What was received of a command whose newline has not arrived yet
+            std::string _incomplete;                 /* ** */
+
     };
 }
 
diff --git a/trick_source/trick_utils/connection_handlers/TCPConnection.cpp b/trick_source/trick_utils/connection_handlers/TCPConnection.cpp
index e00174b..12d4d97 100644
--- a/trick_source/trick_utils/connection_handlers/TCPConnection.cpp
+++ b/trick_source/trick_utils/connection_handlers/TCPConnection.cpp
@@ -1,9 +1,7 @@
 #include "trick/TCPConnection.hh"
 
-#include <sstream>
 #include <iostream>
-#include <cstring>
-#include <strings.h>
+#include <cerrno>
 
 Trick::TCPConnection::TCPConnection () : TCPConnection(0, new SystemInterface()) {}
 
@@ -13,6 +11,7 @@ Trick::TCPConnection::TCPConnection (int listen_socket) : TCPConnection(listen_s
 
 Trick::TCPConnection::TCPConnection (int listen_socket, SystemInterface * system_interface) : _system_interface(system_interface), _listen_socket(listen_socket), _socket(0), _connected(false) {
     _connection_type = TCP;
+    pthread_mutex_init(&_write_mutex, NULL);
 }
 
 int Trick::TCPConnection::start() {
@@ -38,80 +37,120 @@ int Trick::TCPConnection::start() {
     return 0;
 }
 
-int Trick::TCPConnection::write (char * message, int size) {
-    if (!_connected)
-        return -1;
+// Send bytes until all are sent or the socket will not take any more at the moment.
+// Returns the number of bytes sent, or -1 if there was an error before any could be sent.
+int Trick::TCPConnection::send_bytes (const char * message, int size) {
+    int sent = 0;
+    while (sent < size) {
+        int ret = _system_interface->send(_socket, message + sent, size - sent, 0);
+        if (ret < 0 && errno == EINTR) {
+            continue;
+        }
+        if (ret <= 0) {
+            return sent > 0 ? sent : -1;
+        }
+        sent += ret;
+    }
+    return sent;
+}
 
-    return _system_interface->send(_socket, message, size, 0);
+// Send what is left of a message which the socket only took a part of.
+// Returns true if nothing is left.
+bool Trick::TCPConnection::flush_unsent () {
+    if (!_unsent.empty()) {
+        int sent = send_bytes(_unsent.data(), _unsent.size());
+        if (sent > 0) {
+            _unsent.erase(0, sent);
+        }
+    }
+    return _unsent.empty();
 }
 
-int Trick::TCPConnection::write (const std::string& message) {
+// A message is either accepted whole (its size is returned) or not at all (-1 is returned), so that
+// what the client receives is always a sequence of complete messages.
+int Trick::TCPConnection::write_bytes (const char * message, int size) {
     if (!_connected)
         return -1;
 
-    char send_buf[message.length()+1];
-    strcpy (send_buf, message.c_str());
+    pthread_mutex_lock(&_write_mutex);
+    int ret = -1;
+    if (flush_unsent()) {
+        ret = send_bytes(message, size);
+        if (ret >= 0 && ret < size) {
+            _unsent.assign(message + ret, size - ret);
+            ret = size;
+        }
+    }
+    pthread_mutex_unlock(&_write_mutex);
 
-    return _system_interface->send(_socket, send_buf, message.length(), 0);
+    return ret;
+}
+
+int Trick::TCPConnection::write (char * message, int size) {
+    return write_bytes(message, size);
+}
+
+int Trick::TCPConnection::write (const std::string& message) {
+    return write_bytes(message.data(), message.length());
 }
 
 int Trick::TCPConnection::read  (std::string& message, int max_len) {
+    message = "";
+
     if (!_connected) {
         std::cerr << "Trying to read from a socket that is not connected" << std::endl;
-        message = "";
         return 0;
     }
 
-    char incoming_msg[max_len];
+    pthread_mutex_lock(&_write_mutex);
+    flush_unsent();
+    pthread_mutex_unlock(&_write_mutex);
 
     int max_receive_length = max_len < MAX_CMD_LEN ? max_len : MAX_CMD_LEN;
-    int nbytes = _system_interface->recv(_socket, incoming_msg, max_receive_length, MSG_PEEK);
+    max_receive_length -= _incomplete.size();
+    if (max_receive_length <= 0) {
+        std::cerr << "Command received on socket " << _socket << " is too long" << std::endl;
+        return -1;
+    }
 
-    if (nbytes == 0 ) {
-        message = "";
-        return 0;
+    char incoming_msg[max_receive_length];
+    int nbytes = _system_interface->recv(_socket, incoming_msg, max_receive_length, 0);
+
+    if (nbytes == 0) {
+        // The client closed the connection
+        return -1;
     }
 
     if (nbytes == -1) {
-        if (errno == EAGAIN) {
-            message = "";
+        if (errno == EAGAIN || errno == EWOULDBLOCK || errno == EINTR) {
             return 0;
         } else {
             std::string error_msg = "Error while reading from socket " + std::to_string(_socket);
             perror(error_msg.c_str());
-            message = "";
             return -1;
         }
     }
 
-    /* find the last newline that is present on the socket */
-    incoming_msg[nbytes] = '\0' ;
-    char *last_newline = rindex( incoming_msg , '\n') ;
+    _incomplete.append(incoming_msg, nbytes);
 
-    /* if there is a newline then there is a complete command on the socket */
-    if ( last_newline != NULL ) {
-        /* only remove up to (and including) the last newline on the socket */
-        int size = last_newline - incoming_msg + 1;
-        nbytes =  _system_interface->recv( _socket, incoming_msg, size, 0) ;
-    } else {
-        nbytes = 0 ;
-    }
-    
-    std::stringstream msg_stream;
+    /* find the last newline that has been received */
+    size_t last_newline = _incomplete.rfind('\n') ;
 
-    if ( nbytes > 0 ) {
-        int msg_len = nbytes ;
-        incoming_msg[msg_len] = '\0' ;
+    /* if there is a newline then at least one complete command has been received */
+    if ( last_newline == std::string::npos ) {
+        return 0 ;
+    }
 
+    /* only remove up to (and including) the last newline */
+    for ( size_t ii = 0 ; ii <= last_newline ; ii++ ) {
         // Strip off any \r characters
-        for( int ii = 0 , jj = 0 ; ii <= msg_len ; ii++ ) {
-            if ( incoming_msg[ii] != '\r' ) {
-                msg_stream << incoming_msg[ii] ;
-            }
+        if ( _incomplete[ii] != '\r' ) {
+            message += _incomplete[ii] ;
         }
     }
+    message += '\0' ;
+    _incomplete.erase(0, last_newline + 1) ;
 
-    message = msg_stream.str();
     return message.size();
 }
 
-- 
2.43.0


From fd97a12b2e4bd463b160e20b8bcc0a84c1bc2410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:56 +0000
Subject: [PATCH 10/40] fix: variable server replies, data and files of a
 session no longer mix or race

Replies were written to the connection while another thread wrote data, a
session's variables were changed while they were copied, a cycle of zero or a
frame multiple of zero stopped or crashed the sim.
---
 include/trick/VariableServerSession.hh        |  27 ++++
 .../VariableServer/VariableServerSession.cpp  |  13 ++
 .../VariableServerSession_commands.cpp        | 126 ++++++++++++------
 ...ableServerSession_copy_and_write_modes.cpp |  21 +++
 .../VariableServerSession_copy_sim_data.cpp   |  30 +++--
 .../VariableServerSession_write_data.cpp      |  61 ++++++---
 .../VariableServerSession_write_stdio.cpp     |   2 +-
 7 files changed, 208 insertions(+), 72 deletions(-)

diff --git a/include/trick/VariableServerSession.hh b/include/trick/VariableServerSession.hh
index 9702e52..0c3998a 100644
--- a/include/trick/VariableServerSession.hh
+++ b/include/trick/VariableServerSession.hh
@@ -73,6 +73,10 @@ namespace Trick {
         int copy_and_write_scheduled(long long curr_tics);
         int copy_and_write_top(long long curr_frame);
 
+        // Called from Trick jobs. Moves the time of a scheduled copy that has gone by to the next multiple of the cycle.
+        void skip_missed_copies(long long curr_tics);
+        void skip_missed_freeze_copies(long long curr_freeze_tics);
+
         // Called from VariableServerSessionThread
         virtual int copy_and_write_async();
 
@@ -437,10 +441,32 @@ namespace Trick {
         static int instance_counter;
         static std::string log_subdir;
 
+        /** Protects the list of variables and their staging buffers.\n */
         pthread_mutex_t _copy_mutex;     /**<  trick_io(**) */
 
+        /** Protects the write buffers and keeps messages to the client apart. Locked before _copy_mutex.\n */
+        pthread_mutex_t _write_mutex;    /**<  trick_io(**) */
+
+        /** A file is being sent to the client. Nothing else may be sent meanwhile.\n */
+        bool _sending_file;              /**<  trick_io(**) */
+
         ClientConnection * _connection;  /**<  trick_io(**) */
 
+        // Helper methods to lock the list of variables
+        void lock_variables();
+        void unlock_variables();
+
+        // Helper methods to stage, send, and reply. The caller holds the mutexes they need.
+        void stage_variables(std::vector<VariableReference *>& given_vars);
+        int send_variables(std::vector<VariableReference *>& given_vars, VS_MESSAGE_TYPE message_type);
+
+        // Helper methods to send a reply to a command
+        int write_reply(const std::string& message);
+        int write_reply(char * message, int size);
+
+        // Helper method to make a reference to a variable
+        VariableReference * make_reference(const std::string& in_name);
+
         // Helper method to send a file to connection
         virtual int transmit_file(std::string sie_file);
 
@@ -457,6 +483,7 @@ namespace Trick {
 
         virtual void set_freeze_next_tics(long long tics); 
         virtual void set_next_tics(long long tics); 
+        long long next_call_after_missed(long long next_tics, long long curr_tics) const;
 
         virtual int get_frame_multiple () const;
         virtual int get_frame_offset () const;
diff --git a/trick_source/sim_services/VariableServer/VariableServerSession.cpp b/trick_source/sim_services/VariableServer/VariableServerSession.cpp
index 2fd1b05..449e5bd 100644
--- a/trick_source/sim_services/VariableServer/VariableServerSession.cpp
+++ b/trick_source/sim_services/VariableServer/VariableServerSession.cpp
@@ -44,7 +44,10 @@ Trick::VariableServerSession::VariableServerSession() {
 
     _instance_num = instance_counter++;
 
+    _sending_file = false;
+
     pthread_mutex_init(&_copy_mutex, NULL);
+    pthread_mutex_init(&_write_mutex, NULL);
 }
 
 Trick::VariableServerSession::~VariableServerSession() {
@@ -94,6 +97,16 @@ bool Trick::VariableServerSession::get_exit_cmd() {
     return _exit_cmd ;
 }
 
+void Trick::VariableServerSession::lock_variables() {
+    pthread_mutex_lock(&_write_mutex);
+    pthread_mutex_lock(&_copy_mutex);
+}
+
+void Trick::VariableServerSession::unlock_variables() {
+    pthread_mutex_unlock(&_copy_mutex);
+    pthread_mutex_unlock(&_write_mutex);
+}
+
 void Trick::VariableServerSession::pause_copy() {
     pthread_mutex_lock(&_copy_mutex);
 }
diff --git a/trick_source/sim_services/VariableServer/VariableServerSession_commands.cpp b/trick_source/sim_services/VariableServer/VariableServerSession_commands.cpp
index f7d7966..dd91e36 100644
--- a/trick_source/sim_services/VariableServer/VariableServerSession_commands.cpp
+++ b/trick_source/sim_services/VariableServer/VariableServerSession_commands.cpp
@@ -18,15 +18,19 @@
 #include "trick/map_trick_units_to_udunits.hh"
 
 
-int Trick::VariableServerSession::var_add(std::string in_name) {
-    VariableReference * new_var;
+Trick::VariableReference * Trick::VariableServerSession::make_reference(const std::string& in_name) {
     if (in_name == "time") {
-        new_var = new VariableReference(in_name, &_time);
-    } else {
-        new_var = new VariableReference(in_name);
+        return new VariableReference(in_name, &_time);
     }
+    return new VariableReference(in_name);
+}
 
+int Trick::VariableServerSession::var_add(std::string in_name) {
+    VariableReference * new_var = make_reference(in_name);
+
+    lock_variables();
     _session_variables.push_back(new_var) ;
+    unlock_variables();
 
     return(0) ;
 }
@@ -58,23 +62,22 @@ int Trick::VariableServerSession::var_send_once(std::string in_name, int num_var
 
     std::vector<VariableReference *> given_vars;
     for (auto& varName : var_names) {
-        VariableReference * new_var;
-        if (varName == "time") {
-            new_var = new VariableReference(varName, &_time);
-        } else {
-            new_var = new VariableReference(varName);
-        }
-        given_vars.push_back(new_var);
+        given_vars.push_back(make_reference(varName));
     }
     copy_sim_data(given_vars, false);
     write_data(given_vars, VS_SEND_ONCE);
 
+    for (VariableReference * variable : given_vars) {
+        delete variable;
+    }
+
     return(0) ;
 }
 
 
 int Trick::VariableServerSession::var_remove(std::string in_name) {
 
+    lock_variables();
     for (unsigned int ii = 0 ; ii < _session_variables.size() ; ii++ ) {
         std::string var_name = _session_variables[ii]->getName();
         if ( ! var_name.compare(in_name) ) {
@@ -83,6 +86,7 @@ int Trick::VariableServerSession::var_remove(std::string in_name) {
             break ;
         }
     }
+    unlock_variables();
 
     return(0) ;
 
@@ -96,7 +100,11 @@ int Trick::VariableServerSession::var_units(std::string var_name, std::string un
         return -1;
     }
 
-    return variable->setRequestedUnits(units_name);
+    lock_variables();
+    int ret = variable->setRequestedUnits(units_name);
+    unlock_variables();
+
+    return ret;
 }
 
 int Trick::VariableServerSession::var_get_stl_size(std::string in_name)
@@ -145,7 +153,7 @@ int Trick::VariableServerSession::var_get_stl_size(std::string in_name)
                             _connection->getClientTag().c_str(), size);
         }
 
-        _connection->write(buf, 8);
+        write_reply(buf, 8);
     }
     else
     {
@@ -167,7 +175,7 @@ int Trick::VariableServerSession::var_get_stl_size(std::string in_name)
                             _connection->getClientTag().c_str(), size);
         }
 
-        _connection->write(message);
+        write_reply(message);
     }
 
     return 0;
@@ -195,7 +203,7 @@ int Trick::VariableServerSession::var_exists(std::string in_name) {
             message_publish(MSG_DEBUG, "%p tag=<%s> var_server sending 1 binary byte\n", _connection, _connection->getClientTag().c_str());
         }
 
-        _connection->write(buf1, 5);
+        write_reply(buf1, 5);
     } else {
         /* send ascii "1" or "0" */
         sprintf(buf1, "%d\t%d\n", VS_VAR_EXISTS, (error==false));
@@ -206,7 +214,7 @@ int Trick::VariableServerSession::var_exists(std::string in_name) {
         if (write_string.length() != strlen(buf1)) {
             std::cout << "PROBLEM WITH STRING LENGTH: VAR_EXISTS ASCII" << std::endl;
         }
-        _connection->write(write_string);
+        write_reply(write_string);
     }
 
     return(0) ;
@@ -214,16 +222,18 @@ int Trick::VariableServerSession::var_exists(std::string in_name) {
 
 int Trick::VariableServerSession::var_clear() {
 
+    lock_variables();
     while( !_session_variables.empty() ) {
         delete _session_variables.back();
         _session_variables.pop_back();
     }
+    unlock_variables();
 
     return(0) ;
 }
 
 int Trick::VariableServerSession::var_send() {
-    copy_sim_data();
+    copy_sim_data(_session_variables, false);
     write_data();
     return(0) ;
 }
@@ -231,6 +241,9 @@ int Trick::VariableServerSession::var_send() {
 int Trick::VariableServerSession::var_cycle(double in_rate) {
     _update_rate = in_rate ;
     _cycle_tics = (long long)round(_update_rate * exec_get_time_tic_value()) ;
+    if (_cycle_tics < 1) {
+        _cycle_tics = 1;
+    }
     return(0) ;
 }
 
@@ -250,18 +263,24 @@ int Trick::VariableServerSession::var_debug(int level) {
 }
 
 int Trick::VariableServerSession::var_ascii() {
+    pthread_mutex_lock(&_write_mutex) ;
     _binary_data = 0 ;
+    pthread_mutex_unlock(&_write_mutex) ;
     return(0) ;
 }
 
 int Trick::VariableServerSession::var_binary() {
+    pthread_mutex_lock(&_write_mutex) ;
     _binary_data = 1 ;
+    pthread_mutex_unlock(&_write_mutex) ;
     return(0) ;
 }
 
 int Trick::VariableServerSession::var_binary_nonames() {
+    pthread_mutex_lock(&_write_mutex) ;
     _binary_data = 1 ;
     _binary_data_nonames = 1 ;
+    pthread_mutex_unlock(&_write_mutex) ;
     return(0) ;
 }
 
@@ -318,6 +337,9 @@ int Trick::VariableServerSession::var_sync(int mode) {
 }
 
 int Trick::VariableServerSession::var_set_frame_multiple(unsigned int mult) {
+    if (mult == 0) {
+        return -1 ;
+    }
     _frame_multiple = mult ;
     return 0 ;
 }
@@ -328,6 +350,9 @@ int Trick::VariableServerSession::var_set_frame_offset(unsigned int offset) {
 }
 
 int Trick::VariableServerSession::var_set_freeze_frame_multiple(unsigned int mult) {
+    if (mult == 0) {
+        return -1 ;
+    }
     _freeze_frame_multiple = mult ;
     return 0 ;
 }
@@ -338,7 +363,9 @@ int Trick::VariableServerSession::var_set_freeze_frame_offset(unsigned int offse
 }
 
 int Trick::VariableServerSession::var_byteswap(bool on_off) {
+    pthread_mutex_lock(&_write_mutex) ;
     _byteswap = on_off ;
+    pthread_mutex_unlock(&_write_mutex) ;
     return(0) ;
 }
 
@@ -372,7 +399,7 @@ int Trick::VariableServerSession::send_list_size() {
             message_publish(MSG_DEBUG, "%p tag=<%s> var_server sending %d event variables\n", _connection, _connection->getClientTag().c_str(), var_count);
         }
 
-        _connection->write(buf1, sizeof (buf1));
+        write_reply(buf1, sizeof (buf1));
     } else {
         std::stringstream write_string;
         write_string << VS_LIST_SIZE << "\t" << var_count << "\n";
@@ -381,20 +408,19 @@ int Trick::VariableServerSession::send_list_size() {
             message_publish(MSG_DEBUG, "%p tag=<%s> var_server sending number of event variables:\n%s\n", _connection, _connection->getClientTag().c_str(), write_string.str().c_str()) ;
         }
 
-        _connection->write(write_string.str());
+        write_reply(write_string.str());
     }
 
     return 0 ;
 }
 
 int Trick::VariableServerSession::transmit_file(std::string filename) {
-    const unsigned int packet_size = 4095 ;
+    const unsigned int packet_size = 4096 ;
     FILE * fp ;
     unsigned int file_size ;
     unsigned int current_size = 0 ;
-    unsigned int bytes_read ;
-    char buffer[packet_size+1] ;
-    int ret ;
+    char buffer[packet_size] ;
+    int ret = 0 ;
 
     if (_debug >= 2) {
         message_publish(MSG_DEBUG,"%p tag=<%s> var_server opening %s.\n", _connection, _connection->getClientTag().c_str(), filename.c_str()) ;
@@ -403,43 +429,65 @@ int Trick::VariableServerSession::transmit_file(std::string filename) {
     if ((fp = fopen(filename.c_str() , "r")) == NULL ) {
         message_publish(MSG_ERROR,"Variable Server Error: Cannot open %s.\n", filename.c_str()) ;
         sprintf(buffer, "%d\t-1\n", VS_SIE_RESOURCE) ;
-        std::string message(buffer);
-        _connection->write(message);
+        write_reply(std::string(buffer));
         return(-1) ;
     }
 
     fseek(fp , 0L, SEEK_END) ;
     file_size = ftell(fp) ;
-
-    sprintf(buffer, "%d\t%u\n\0" , VS_SIE_RESOURCE, file_size) ;
-    std::string message(buffer);
-    _connection->write(message);
     rewind(fp) ;
 
+    // Hold back other messages until the whole file is sent.
+    pthread_mutex_lock(&_write_mutex) ;
+    _sending_file = true ;
+    pthread_mutex_unlock(&_write_mutex) ;
+
     // Switch to blocking writes since this could be a large transfer.
     if (_connection->setBlockMode(true)) {
         message_publish(MSG_DEBUG,"Variable Server Error: Failed to set socket to blocking mode.\n");
     }
 
+    sprintf(buffer, "%d\t%u\n" , VS_SIE_RESOURCE, file_size) ;
+    _connection->write(std::string(buffer));
+
     while ( current_size < file_size ) {
-        bytes_read = fread(buffer , 1 , packet_size , fp) ;
-        message = std::string(buffer);
-        message.resize(bytes_read);
-        ret = _connection->write(message);
-        if (ret != (int)bytes_read) {
-            message_publish(MSG_ERROR,"Variable Server Error: Failed to send file. Bytes read: %d Bytes sent: %d\n", bytes_read, ret) ;
-            return(-1);
+        size_t bytes_read = fread(buffer , 1 , packet_size , fp) ;
+        if (bytes_read == 0) {
+            message_publish(MSG_ERROR,"Variable Server Error: Failed to read %s.\n", filename.c_str()) ;
+            ret = -1 ;
+            break ;
+        }
+        // The client was told the size
+        if (bytes_read > file_size - current_size) {
+            bytes_read = file_size - current_size ;
+        }
+        int bytes_sent = _connection->write(std::string(buffer, bytes_read));
+        if (bytes_sent != (int)bytes_read) {
+            message_publish(MSG_ERROR,"Variable Server Error: Failed to send file. Bytes read: %d Bytes sent: %d\n", (int)bytes_read, bytes_sent) ;
+            ret = -1 ;
+            break ;
         }
         current_size += bytes_read ;
     }
 
+    fclose(fp) ;
+
     // Switch back to non-blocking writes.
     if (_connection->setBlockMode(false)) {
         message_publish(MSG_DEBUG,"Variable Server Error: Failed to set socket to non-blocking mode.\n");
-        return(-1);
+        ret = -1 ;
     }
 
-    return(0) ;
+    pthread_mutex_lock(&_write_mutex) ;
+    _sending_file = false ;
+    pthread_mutex_unlock(&_write_mutex) ;
+
+    if (ret < 0) {
+        // The client cannot make sense of anything that follows an incomplete file.
+        set_exit_cmd() ;
+    }
+
+    return ret ;
 }
 
 int Trick::VariableServerSession::send_file(std::string file_name) {
diff --git a/trick_source/sim_services/VariableServer/VariableServerSession_copy_and_write_modes.cpp b/trick_source/sim_services/VariableServer/VariableServerSession_copy_and_write_modes.cpp
index 15a7465..c8f1317 100644
--- a/trick_source/sim_services/VariableServer/VariableServerSession_copy_and_write_modes.cpp
+++ b/trick_source/sim_services/VariableServer/VariableServerSession_copy_and_write_modes.cpp
@@ -5,6 +5,7 @@
 #include "trick/VariableServerSession.hh"
 #include "trick/variable_server_sync_types.h"
 #include "trick/realtimesync_proto.h"
+#include "trick/TrickConstant.hh"
 
 // These methods should be called from approprate jobs or from the VST
 
@@ -93,6 +94,26 @@ int Trick::VariableServerSession::copy_and_write_top(long long curr_frame) {
     return ret ;
 }
 
+long long Trick::VariableServerSession::next_call_after_missed(long long next_tics, long long curr_tics) const {
+    if ( get_copy_mode() != VS_COPY_SCHEDULED ) {
+        return TRICK_MAX_LONG_LONG ;
+    }
+    if ( next_tics < curr_tics || next_tics == TRICK_MAX_LONG_LONG ) {
+        // the first multiple of the cycle that has not gone by
+        long long cycle_tics = get_cycle_tics() ;
+        return (curr_tics + cycle_tics - 1) / cycle_tics * cycle_tics ;
+    }
+    return next_tics ;
+}
+
+void Trick::VariableServerSession::skip_missed_copies(long long curr_tics) {
+    set_next_tics(next_call_after_missed(get_next_tics(), curr_tics)) ;
+}
+
+void Trick::VariableServerSession::skip_missed_freeze_copies(long long curr_freeze_tics) {
+    set_freeze_next_tics(next_call_after_missed(get_freeze_next_tics(), curr_freeze_tics)) ;
+}
+
 int Trick::VariableServerSession::copy_and_write_async() {
     int ret = 0;
 
diff --git a/trick_source/sim_services/VariableServer/VariableServerSession_copy_sim_data.cpp b/trick_source/sim_services/VariableServer/VariableServerSession_copy_sim_data.cpp
index 50febc3..4752beb 100644
--- a/trick_source/sim_services/VariableServer/VariableServerSession_copy_sim_data.cpp
+++ b/trick_source/sim_services/VariableServer/VariableServerSession_copy_sim_data.cpp
@@ -15,21 +15,27 @@ int Trick::VariableServerSession::copy_sim_data() {
 
 int Trick::VariableServerSession::copy_sim_data(std::vector<VariableReference *>& given_vars, bool cyclical) {
 
-    if (given_vars.size() == 0) {
-        return 0;
+    // A cyclical copy is skipped if the variables are in use, the next cycle makes up for it.
+    if (cyclical) {
+        if ( pthread_mutex_trylock(&_copy_mutex) != 0 ) {
+            return 0;
+        }
+    } else {
+        pthread_mutex_lock(&_copy_mutex);
     }
 
-    if ( pthread_mutex_trylock(&_copy_mutex) == 0 ) {
-        // Get the simulation time we start this copy
-        _time = (double)exec_get_time_tics() / exec_get_time_tic_value() ;
-        
-
-        for (auto curr_var : given_vars ) {
-            curr_var->stageValue();
-        }
+    stage_variables(given_vars);
 
-        pthread_mutex_unlock(&_copy_mutex) ;
-    }
+    pthread_mutex_unlock(&_copy_mutex) ;
 
     return 0;
 }
+
+void Trick::VariableServerSession::stage_variables(std::vector<VariableReference *>& given_vars) {
+    // Get the simulation time we start this copy
+    _time = (double)exec_get_time_tics() / exec_get_time_tic_value() ;
+
+    for (auto curr_var : given_vars ) {
+        curr_var->stageValue();
+    }
+}
diff --git a/trick_source/sim_services/VariableServer/VariableServerSession_write_data.cpp b/trick_source/sim_services/VariableServer/VariableServerSession_write_data.cpp
index c293bc1..5dd7db2 100644
--- a/trick_source/sim_services/VariableServer/VariableServerSession_write_data.cpp
+++ b/trick_source/sim_services/VariableServer/VariableServerSession_write_data.cpp
@@ -202,37 +202,58 @@ int Trick::VariableServerSession::write_data() {
 }
 
 int Trick::VariableServerSession::write_data(std::vector<VariableReference *>& given_vars, VS_MESSAGE_TYPE message_type) { 
-    // do not send anything when there are no variables!
-    if ( given_vars.size() == 0) {
-        return(0);
-    }
 
-    int result = 0;
+    pthread_mutex_lock(&_write_mutex) ;
+    pthread_mutex_lock(&_copy_mutex) ;
 
-    if ( pthread_mutex_trylock(&_copy_mutex) == 0 ) {
-        // Check that all of the variables are staged
-        for (VariableReference * variable : given_vars ) {
-            if (!variable->isStaged()) {
-                pthread_mutex_unlock(&_copy_mutex) ;
-                return 0;
-            }
+    // do not send anything when there are no variables!
+    // and check that all of the variables are staged
+    bool ready = !_sending_file && given_vars.size() != 0 ;
+    for (VariableReference * variable : given_vars ) {
+        if (!variable->isStaged()) {
+            ready = false ;
         }
+    }
 
+    if (ready) {
         // Swap buffer_in and buffer_out for each vars[ii].
         for (VariableReference * variable : given_vars ) {
             variable->prepareForWrite();
         }
+    }
 
-        pthread_mutex_unlock(&_copy_mutex) ;
+    pthread_mutex_unlock(&_copy_mutex) ;
 
-        // Send out in correct format
-        if (_binary_data) {
-            result = write_binary_data(given_vars, message_type );
-        } else {
-            // ascii mode
-            result = write_ascii_data(given_vars, message_type );
-        }
+    int result = 0 ;
+    if (ready) {
+        result = send_variables(given_vars, message_type) ;
     }
+    pthread_mutex_unlock(&_write_mutex) ;
 
     return result;
 }
+
+int Trick::VariableServerSession::send_variables(std::vector<VariableReference *>& given_vars, VS_MESSAGE_TYPE message_type) {
+    // Send out in correct format
+    if (_binary_data) {
+        return write_binary_data(given_vars, message_type );
+    }
+
+    // ascii mode
+    return write_ascii_data(given_vars, message_type );
+}
+
+int Trick::VariableServerSession::write_reply(const std::string& message) {
+    pthread_mutex_lock(&_write_mutex) ;
+    int result = _connection->write(message) ;
+    pthread_mutex_unlock(&_write_mutex) ;
+    return result ;
+}
+
+int Trick::VariableServerSession::write_reply(char * message, int size) {
+    pthread_mutex_lock(&_write_mutex) ;
+    int result = _connection->write(message, size) ;
+    pthread_mutex_unlock(&_write_mutex) ;
+    return result ;
+}
+
diff --git a/trick_source/sim_services/VariableServer/VariableServerSession_write_stdio.cpp b/trick_source/sim_services/VariableServer/VariableServerSession_write_stdio.cpp
index f95e77b..619a2ef 100644
--- a/trick_source/sim_services/VariableServer/VariableServerSession_write_stdio.cpp
+++ b/trick_source/sim_services/VariableServer/VariableServerSession_write_stdio.cpp
@@ -11,7 +11,7 @@ int Trick::VariableServerSession::write_stdio(int stream, std::string text) {
     outstream << VS_STDIO << " " << stream << " " << (int)text.length() << "\n";
     outstream << text;
 
-    _connection->write(outstream.str());
+    write_reply(outstream.str());
 
     return 0 ;
 }
-- 
2.43.0


From 43f0c34b7da1f468f9e54f4603c0dcba1c90744e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:56 +0000
Subject: [PATCH 11/40] fix: variable server copy jobs never fall behind and
 stop for good

A session whose next copy time was already in the past left the job's next call
time in the past, where the executive never calls it again; the next call time
was also written without the session map's lock.
---
 .../VariableServer_copy_and_write_freeze.cpp       | 14 +++++++++++++-
 ...iableServer_copy_and_write_freeze_scheduled.cpp |  2 +-
 .../VariableServer_copy_and_write_scheduled.cpp    |  2 +-
 .../VariableServer_copy_and_write_top.cpp          | 14 +++++++++++++-
 .../VariableServer/VariableServer_freeze_init.cpp  |  2 +-
 .../VariableServer_get_next_freeze_call_time.cpp   |  2 +-
 .../VariableServer_get_next_sync_call_time.cpp     |  3 +--
 7 files changed, 31 insertions(+), 8 deletions(-)

diff --git a/trick_source/sim_services/VariableServer/VariableServer_copy_and_write_freeze.cpp b/trick_source/sim_services/VariableServer/VariableServer_copy_and_write_freeze.cpp
index 209c56f..b314008 100644
--- a/trick_source/sim_services/VariableServer/VariableServer_copy_and_write_freeze.cpp
+++ b/trick_source/sim_services/VariableServer/VariableServer_copy_and_write_freeze.cpp
@@ -1,11 +1,23 @@
+#include "trick/TrickConstant.hh"
 #include "trick/VariableServer.hh"
 #include "trick/exec_proto.h"
 
 int Trick::VariableServer::copy_and_write_freeze() {
 
+    long long next_call_tics = TRICK_MAX_LONG_LONG ;
+
     pthread_mutex_lock(&map_mutex) ;
     for ( auto it = var_server_sessions.begin() ; it != var_server_sessions.end() ; ++it ) {
-        (*it).second->copy_and_write_freeze(exec_get_freeze_frame_count()) ;
+        VariableServerSession * session = (*it).second ;
+        session->copy_and_write_freeze(exec_get_freeze_frame_count()) ;
+        // A client may have requested scheduled copies while their first call time was passing by.
+        session->skip_missed_freeze_copies(exec_get_freeze_time_tics()) ;
+        if ( session->get_freeze_next_tics() < next_call_tics ) {
+            next_call_tics = session->get_freeze_next_tics() ;
+        }
+    }
+    if ( copy_and_write_freeze_job != NULL ) {
+        copy_and_write_freeze_job->next_tics = next_call_tics ;
     }
     pthread_mutex_unlock(&map_mutex) ;
 
diff --git a/trick_source/sim_services/VariableServer/VariableServer_copy_and_write_freeze_scheduled.cpp b/trick_source/sim_services/VariableServer/VariableServer_copy_and_write_freeze_scheduled.cpp
index 4c48589..7113191 100644
--- a/trick_source/sim_services/VariableServer/VariableServer_copy_and_write_freeze_scheduled.cpp
+++ b/trick_source/sim_services/VariableServer/VariableServer_copy_and_write_freeze_scheduled.cpp
@@ -17,12 +17,12 @@ int Trick::VariableServer::copy_and_write_freeze_scheduled() {
             next_call_tics = session->get_freeze_next_tics() ;
         }
     }
-    pthread_mutex_unlock(&map_mutex) ;
 
     //reschedule the current job. TODO: a call needs to be created to do this the OO way
     if ( copy_and_write_freeze_job != NULL ) {
         copy_and_write_freeze_job->next_tics = next_call_tics ;
     }
+    pthread_mutex_unlock(&map_mutex) ;
 
     return(0) ;
 }
diff --git a/trick_source/sim_services/VariableServer/VariableServer_copy_and_write_scheduled.cpp b/trick_source/sim_services/VariableServer/VariableServer_copy_and_write_scheduled.cpp
index fa82104..b56bb7c 100644
--- a/trick_source/sim_services/VariableServer/VariableServer_copy_and_write_scheduled.cpp
+++ b/trick_source/sim_services/VariableServer/VariableServer_copy_and_write_scheduled.cpp
@@ -17,12 +17,12 @@ int Trick::VariableServer::copy_and_write_scheduled() {
             next_call_tics = session->get_next_tics() ;
         }
     }
-    pthread_mutex_unlock(&map_mutex) ;
 
     //reschedule the current job. TODO: a call needs to be created to do this the OO way
     if ( copy_data_job != NULL ) {
         copy_data_job->next_tics = next_call_tics ;
     }
+    pthread_mutex_unlock(&map_mutex) ;
 
     return(0) ;
 }
diff --git a/trick_source/sim_services/VariableServer/VariableServer_copy_and_write_top.cpp b/trick_source/sim_services/VariableServer/VariableServer_copy_and_write_top.cpp
index d2d8e22..bac075f 100644
--- a/trick_source/sim_services/VariableServer/VariableServer_copy_and_write_top.cpp
+++ b/trick_source/sim_services/VariableServer/VariableServer_copy_and_write_top.cpp
@@ -1,11 +1,23 @@
 #include "trick/exec_proto.h"
+#include "trick/TrickConstant.hh"
 #include "trick/VariableServer.hh"
 
 int Trick::VariableServer::copy_and_write_top() {
 
+    long long next_call_tics = TRICK_MAX_LONG_LONG ;
+
     pthread_mutex_lock(&map_mutex) ;
     for ( auto it = var_server_sessions.begin() ; it != var_server_sessions.end() ; ++it ) {
-        (*it).second->copy_and_write_top(exec_get_frame_count()) ;
+        VariableServerSession * session = (*it).second ;
+        session->copy_and_write_top(exec_get_frame_count()) ;
+        // A client may have requested scheduled copies while their first call time was passing by.
+        session->skip_missed_copies(exec_get_time_tics()) ;
+        if ( session->get_next_tics() < next_call_tics ) {
+            next_call_tics = session->get_next_tics() ;
+        }
+    }
+    if ( copy_data_job != NULL ) {
+        copy_data_job->next_tics = next_call_tics ;
     }
     pthread_mutex_unlock(&map_mutex) ;
 
diff --git a/trick_source/sim_services/VariableServer/VariableServer_freeze_init.cpp b/trick_source/sim_services/VariableServer/VariableServer_freeze_init.cpp
index 818d046..f82c3be 100644
--- a/trick_source/sim_services/VariableServer/VariableServer_freeze_init.cpp
+++ b/trick_source/sim_services/VariableServer/VariableServer_freeze_init.cpp
@@ -19,12 +19,12 @@ int Trick::VariableServer::freeze_init() {
             next_call_tics = session->get_freeze_next_tics() ;
         }
     }
-    pthread_mutex_unlock(&map_mutex) ;
 
     //reschedule the current job. TODO: a call needs to be created to do this the OO way
     if ( copy_and_write_freeze_job != NULL ) {
         copy_and_write_freeze_job->next_tics = next_call_tics ;
     }
+    pthread_mutex_unlock(&map_mutex) ;
 
     return(0) ;
 }
diff --git a/trick_source/sim_services/VariableServer/VariableServer_get_next_freeze_call_time.cpp b/trick_source/sim_services/VariableServer/VariableServer_get_next_freeze_call_time.cpp
index bbb51c8..385b4bd 100644
--- a/trick_source/sim_services/VariableServer/VariableServer_get_next_freeze_call_time.cpp
+++ b/trick_source/sim_services/VariableServer/VariableServer_get_next_freeze_call_time.cpp
@@ -15,9 +15,9 @@ int Trick::VariableServer::get_next_freeze_call_time() {
             next_call_tics = session->get_freeze_next_tics() ;
         }
     }
-    pthread_mutex_unlock(&map_mutex) ;
 
     copy_and_write_freeze_job->next_tics = next_call_tics ;
+    pthread_mutex_unlock(&map_mutex) ;
 
     return(0) ;
 }
diff --git a/trick_source/sim_services/VariableServer/VariableServer_get_next_sync_call_time.cpp b/trick_source/sim_services/VariableServer/VariableServer_get_next_sync_call_time.cpp
index 8761a4d..b97e2aa 100644
--- a/trick_source/sim_services/VariableServer/VariableServer_get_next_sync_call_time.cpp
+++ b/trick_source/sim_services/VariableServer/VariableServer_get_next_sync_call_time.cpp
@@ -15,10 +15,9 @@ int Trick::VariableServer::get_next_sync_call_time() {
             next_call_tics = session->get_next_tics() ;
         }
     }
-    pthread_mutex_unlock(&map_mutex) ;
 
     copy_data_job->next_tics = next_call_tics ;
-
+    pthread_mutex_unlock(&map_mutex) ;
 
     return(0) ;
 }
-- 
2.43.0


From 91093182515a0793c539d4234873e4536900584e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:56 +0000
Subject: [PATCH 12/40] fix: data recording survives a failed or short write

A short or failed write shifted every later record of a binary file, an ASCII
file silently lost every row after it, and a header that could not be written
was left damaged with records behind it.
---
 include/trick/DataRecordGroup.hh              |  3 +
 .../sim_services/DataRecord/DRAscii.cpp       | 31 +++++++
 .../sim_services/DataRecord/DRBinary.cpp      | 86 +++++++++++++------
 .../DataRecord/DataRecordGroup.cpp            |  1 +
 4 files changed, 97 insertions(+), 24 deletions(-)

diff --git a/include/trick/DataRecordGroup.hh b/include/trick/DataRecordGroup.hh
index 60df9c3..726e92b 100644
--- a/include/trick/DataRecordGroup.hh
+++ b/include/trick/DataRecordGroup.hh
@@ -144,6 +144,9 @@ namespace Trick {
             /** Bool to signify that the warning for reaching max filesize has been printed */
             bool max_size_warning;
 
+            /** The last record could not be written (disk full...); said once.\n */
+            bool write_error_warning; /* trick_io(**) */
+
             /** Buffer to hold formatted data ready for disk or other destination.\n */
             char * writer_buff ;        /**< trick_io(**) trick_units(--) */
 
diff --git a/trick_source/sim_services/DataRecord/DRAscii.cpp b/trick_source/sim_services/DataRecord/DRAscii.cpp
index e6318a6..ddac3cc 100644
--- a/trick_source/sim_services/DataRecord/DRAscii.cpp
+++ b/trick_source/sim_services/DataRecord/DRAscii.cpp
@@ -19,6 +19,7 @@ PROGRAMMERS:
 #include <iostream>
 #include <stdlib.h>
 #include <string.h>
+#include <unistd.h>
 
 Trick::DRAscii::DRAscii( std::string in_name, Trick::DR_Type dr_type ) : Trick::DataRecordGroup( in_name, dr_type ) {
 
@@ -74,6 +75,7 @@ int Trick::DRAscii::format_specific_init() {
         record = false ;
         return -1 ;
     }
+    out_stream.seekp(0, std::ios_base::end);
     before_write = out_stream.tellp();
     // Write out the title line of the recording file
     /* Start with the 1st item in the buffer which should be "sys.exec.out.time" */
@@ -99,6 +101,15 @@ int Trick::DRAscii::format_specific_init() {
         }
     }
     out_stream << std::endl ;
+    if ( !out_stream.good() ) {
+        message_publish(MSG_ERROR, "Can't write Data Record file %s.\n", file_name.c_str()) ;
+        out_stream.close() ;
+        if ( truncate(file_name.c_str(), before_write) != 0 ) {
+            message_publish(MSG_ERROR, "Data Record file %s has a damaged title line.\n", file_name.c_str()) ;
+        }
+        record = false ;
+        return -1 ;
+    }
     total_bytes_written += out_stream.tellp() - before_write;
     return(0) ;
 }
@@ -130,10 +141,30 @@ int Trick::DRAscii::format_specific_write_data(unsigned int writer_offset) {
         buf += strlen(buf);
     }
 
+    if ( ! out_stream.is_open() ) {
+        out_stream.clear() ;
+        out_stream.open(file_name.c_str(), std::fstream::out | std::fstream::app ) ;
+    }
+    out_stream.seekp(0, std::ios_base::end) ;
+    std::streamoff start = out_stream.tellp() ;
     out_stream << writer_buff << std::endl ;
 
     /*! Flush the output */
     out_stream.flush() ;
+    if ( !out_stream.good() ) {
+        /* A failed stream ignores everything after, and may still hold this row: remove what was written of it
+           and start over with the next row. */
+        if ( ! write_error_warning ) {
+            message_publish(MSG_ERROR, "Can't write Data Record file %s, losing records.\n", file_name.c_str()) ;
+            write_error_warning = true ;
+        }
+        out_stream.close() ;
+        if ( start >= 0 && truncate(file_name.c_str(), start) != 0 ) {
+            message_publish(MSG_ERROR, "Data Record file %s has a damaged row.\n", file_name.c_str()) ;
+        }
+        return 0 ;
+    }
+    write_error_warning = false ;
     /*! +1 for endl */
     return(strlen(writer_buff) + 1) ;
 }
diff --git a/trick_source/sim_services/DataRecord/DRBinary.cpp b/trick_source/sim_services/DataRecord/DRBinary.cpp
index 55c079c..e709d5d 100644
--- a/trick_source/sim_services/DataRecord/DRBinary.cpp
+++ b/trick_source/sim_services/DataRecord/DRBinary.cpp
@@ -12,14 +12,43 @@ PROGRAMMERS:
 #include "trick/bitfield_proto.h"
 #include "trick/command_line_protos.h"
 #include "trick/memorymanager_c_intf.h"
+#include "trick/message_proto.h"
+#include "trick/message_type.h"
 
+#include <errno.h>
 #include <fcntl.h>
 #include <iostream>
 #include <stdlib.h>
+#include <string>
 #include <string.h>
 #include <sys/stat.h>
 #include <unistd.h>
 
+/* Write everything, or return false with errno set. */
+static bool write_all( int fd , const char * buf , size_t len ) {
+    while ( len > 0 ) {
+        ssize_t ret = write( fd , buf , len ) ;
+        if ( ret < 0 ) {
+            if ( errno == EINTR ) {
+                continue ;
+            }
+            return false ;
+        }
+        buf += ret ;
+        len -= ret ;
+    }
+    return true ;
+}
+
+static void append_int( std::string & buf , int value ) {
+    buf.append( (char *)&value , sizeof(int)) ;
+}
+
+static void append_string( std::string & buf , const char * str ) {
+    append_int( buf , strlen(str)) ;
+    buf.append( str ) ;
+}
+
 /*
    Other classes inherit from DRBinary. In these cases, we don't want to register the memory as DRBinary,
    so register_group will be set to false.
@@ -54,9 +83,7 @@ int Trick::DRBinary::format_specific_header( std::fstream & out_stream ) {
 int Trick::DRBinary::format_specific_init() {
 
     unsigned int jj ;
-    int write_value ;
-    /* number of bytes written to data record */
-    int bytes = 0 ;
+    std::string header ;
 
     union {
         long l;
@@ -77,48 +104,46 @@ int Trick::DRBinary::format_specific_init() {
 
     /* start header information in trk file */
     if ((fd = creat(file_name.c_str(), S_IRUSR | S_IWUSR | S_IRGRP | S_IWGRP | S_IROTH | S_IWOTH)) == -1) {
+        message_publish(MSG_ERROR, "Can't open Data Record file %s: %s\n", file_name.c_str(), strerror(errno)) ;
         record = false ;
         return (-1) ;
     }
 
-
     /* Check to see if data is being recorded in little endian
      * byte order, and add little endian line if so.
      */
     byte_order_union.l = 1 ;
     if (byte_order_union.c[sizeof(long)-1] != 1) {
-        bytes += write( fd , "Trick-10-L", (size_t)10 ) ;
-        
+        header.append( "Trick-10-L" ) ;
     } else {
-        bytes += write( fd , "Trick-10-B", (size_t)10 ) ;
+        header.append( "Trick-10-B" ) ;
     }
-    write_value = rec_buffer.size() ;
-    bytes += write( fd , &write_value , sizeof(int) ) ;
+    append_int( header , rec_buffer.size()) ;
 
     for (jj = 0; jj < rec_buffer.size(); jj++) {
         /* name */
-        write_value = strlen(rec_buffer[jj]->ref->reference) ;
-        bytes += write( fd , &write_value , sizeof(int)) ;
-        bytes += write( fd , rec_buffer[jj]->ref->reference , write_value ) ;
+        append_string( header , rec_buffer[jj]->ref->reference ) ;
 
         /* units */
         if ( rec_buffer[jj]->ref->attr->mods & TRICK_MODS_UNITSDASHDASH ) {
-            write_value = strlen("--") ;
-            bytes += write( fd , &write_value , sizeof(int)) ;
-            bytes += write( fd , "--" , write_value ) ;
+            append_string( header , "--" ) ;
         } else {
-            write_value = strlen(rec_buffer[jj]->ref->attr->units) ;
-            bytes += write( fd , &write_value , sizeof(int)) ;
-            bytes += write( fd , rec_buffer[jj]->ref->attr->units , write_value ) ;
+            append_string( header , rec_buffer[jj]->ref->attr->units ) ;
         }
 
-        write_value  = (int)Trick::ReferenceUtils::effective_trick_type(rec_buffer[jj]->ref);
-        bytes += write( fd , &write_value , sizeof(int)) ;
+        append_int( header , (int)Trick::ReferenceUtils::effective_trick_type(rec_buffer[jj]->ref)) ;
+        append_int( header , (int)Trick::ReferenceUtils::effective_trick_size(rec_buffer[jj]->ref)) ;
+    }
 
-        write_value  = (int)Trick::ReferenceUtils::effective_trick_size(rec_buffer[jj]->ref);
-        bytes       += write(fd, &write_value, sizeof(int));
+    /* Without a complete header nothing in the file could be read back. */
+    if ( ! write_all( fd , header.data() , header.size()) ) {
+        message_publish(MSG_ERROR, "Can't write Data Record file %s: %s\n", file_name.c_str(), strerror(errno)) ;
+        close(fd) ;
+        fd = -1 ;
+        record = false ;
+        return (-1) ;
     }
-    total_bytes_written += bytes;
+    total_bytes_written += header.size() ;
     return(0) ;
 }
 
@@ -182,7 +207,20 @@ int Trick::DRBinary::format_specific_write_data(unsigned int writer_offset) {
         len += item_size;
     }
 
-    return write( fd , writer_buff , len) ;
+    off_t start = lseek( fd , 0 , SEEK_CUR ) ;
+    if ( ! write_all( fd , writer_buff , len) ) {
+        /* The records have no separators: part of one would shift every record after it. */
+        if ( ! write_error_warning ) {
+            message_publish(MSG_ERROR, "Can't write Data Record file %s: %s, losing records.\n", file_name.c_str(), strerror(errno)) ;
+            write_error_warning = true ;
+        }
+        if ( start >= 0 && ftruncate( fd , start ) == 0 ) {
+            lseek( fd , start , SEEK_SET ) ;
+        }
+        return 0 ;
+    }
+    write_error_warning = false ;
+    return len ;
 }
 
 /**
diff --git a/trick_source/sim_services/DataRecord/DataRecordGroup.cpp b/trick_source/sim_services/DataRecord/DataRecordGroup.cpp
index 453bd3a..2ad604f 100644
--- a/trick_source/sim_services/DataRecord/DataRecordGroup.cpp
+++ b/trick_source/sim_services/DataRecord/DataRecordGroup.cpp
@@ -97,6 +97,7 @@ Trick::DataRecordGroup::DataRecordGroup( std::string in_name, Trick::DR_Type dr_
  max_file_size(1<<30), // 1 GB
  total_bytes_written(0),
  max_size_warning(false),
+ write_error_warning(false),
  writer_buff(NULL),
  single_prec_only(false),
  buffer_type(DR_Buffer),
-- 
2.43.0


From 8aa7666ba614b98b7cfcb0e39010f1dd457f493d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:43 +0000
Subject: [PATCH 13/40] fix: checkpointed floating point values, strings and
 pointers read back as they were written

---
 include/trick/ChkPtParseContext.hh            |  6 ++
 .../CheckPointAgent/ChkPtParseContext.cpp     | 13 ++++-
 .../ClassicCheckPointAgent.cpp                | 56 ++++++++++---------
 .../CheckPointAgent/input_parser.l            | 52 +++++++----------
 4 files changed, 69 insertions(+), 58 deletions(-)

diff --git a/include/trick/ChkPtParseContext.hh b/include/trick/ChkPtParseContext.hh
index b4ba984..2598d67 100644
--- a/include/trick/ChkPtParseContext.hh
+++ b/include/trick/ChkPtParseContext.hh
@@ -19,6 +19,7 @@ public:
     int echo_input;                  /**< -- Echo Initialization Data flag */
     std::istream *is;                /**< ** Input Stream */
     char *buf;                       /**< ** Temporary storage for strings */
+    size_t buf_size;                 /**< ** Size of buf */
     void *scanner;                   /**< ** Flex scanner variable.*/
     Trick::MemoryManager *mem_mgr;   /**< ** Associated MemoryManager. */
 
@@ -31,6 +32,11 @@ public:
     ChkPtParseContext(Trick::MemoryManager *mem_mgr, std::istream* is );
     ~ChkPtParseContext();
 
+    /**
+     Append to buf, which grows as needed.
+     */
+    void append_to_buf( const char * str );
+
 protected:
 
     /**
diff --git a/trick_source/sim_services/CheckPointAgent/ChkPtParseContext.cpp b/trick_source/sim_services/CheckPointAgent/ChkPtParseContext.cpp
index 59a5e0c..4a863b9 100644
--- a/trick_source/sim_services/CheckPointAgent/ChkPtParseContext.cpp
+++ b/trick_source/sim_services/CheckPointAgent/ChkPtParseContext.cpp
@@ -1,5 +1,6 @@
 #include <stdio.h>
 #include <stdlib.h>
+#include <string.h>
 #include "trick/ChkPtParseContext.hh"
 
 /**
@@ -14,7 +15,8 @@ ChkPtParseContext::ChkPtParseContext( Trick::MemoryManager *mem_mgr, std::istrea
    // Initialize the scanner
    init_scanner();
 
-   this->buf = (char*)calloc( 0xffff, sizeof(char));
+   this->buf_size = 0xffff;
+   this->buf = (char*)calloc( this->buf_size, sizeof(char));
 
    this->bad_declaration_count = 0;
    this->bad_assignment_count = 0;
@@ -32,3 +34,12 @@ ChkPtParseContext::~ChkPtParseContext() {
     free( this->buf );
 }
 
+void ChkPtParseContext::append_to_buf( const char * str ) {
+    size_t len = strlen( this->buf );
+    size_t need = len + strlen( str ) + 1;
+    if ( need > this->buf_size ) {
+        this->buf_size = 2 * need;
+        this->buf = (char*)realloc( this->buf, this->buf_size );
+    }
+    strcpy( this->buf + len, str );
+}
diff --git a/trick_source/sim_services/CheckPointAgent/ClassicCheckPointAgent.cpp b/trick_source/sim_services/CheckPointAgent/ClassicCheckPointAgent.cpp
index 3e40446..4d36c2d 100644
--- a/trick_source/sim_services/CheckPointAgent/ClassicCheckPointAgent.cpp
+++ b/trick_source/sim_services/CheckPointAgent/ClassicCheckPointAgent.cpp
@@ -12,6 +12,7 @@
 
 #include <iomanip>
 #include <iostream>
+#include <cmath>
 #include <math.h>
 #include <sstream>
 #include <stdlib.h>
@@ -459,7 +460,7 @@ int Trick::ClassicCheckPointAgent::is_nil_valued( void* address,
                return(0);
                break;
            case TRICK_STRING :
-               test_addr = (char*)address + offset * sizeof(void*);
+               test_addr = (char*)address + offset * sizeof(std::string);
                if (*(std::string*)test_addr == "") return(1);
                break;
            case TRICK_WSTRING :
@@ -527,12 +528,33 @@ static void write_quoted_str( std::ostream& os, const char* s) {
         case '\t': os << "\\t"; break;
         case '\b': os << "\\b"; break;
         case '\"': os << "\\\""; break;
+        case '\\': os << "\\\\"; break;
         default  : os << s[ii] ; break;
         }
     }
     os << "\"" ;
 }
 
+// Doubles are restored from this form bit by bit, whatever their value.
+static void write_hex_double( std::ostream& os, double value) {
+    unsigned char* byte_p = (unsigned char*)&value;
+    os << "0g";
+    for (int ii=sizeof(double)-1 ; ii>= 0 ; ii--) {
+        os << std::hex << std::setw(2) << std::setfill('0') << (unsigned int)byte_p[ii];
+    }
+}
+
+// Write a finite value with as many digits as it takes to restore exactly the same value.
+template <class T> static void write_decimal( std::ostream& os, T value, int digits) {
+    std::stringstream ss;
+    ss << std::setprecision(digits) << value;
+    if ((T)strtod(ss.str().c_str(), NULL) != value) {
+        ss.str("");
+        ss << std::setprecision(digits + 1) << value;
+    }
+    os << ss.str();
+}
+
 void Trick::ClassicCheckPointAgent::write_singleton( std::ostream& chkpnt_os, void* address, ATTRIBUTES* attr, int offset ) {
 
     void* src_addr;
@@ -636,36 +658,20 @@ void Trick::ClassicCheckPointAgent::write_singleton( std::ostream& chkpnt_os, vo
             break;
         case TRICK_FLOAT:
             src_addr = (char*)address + offset * sizeof(float);
-            if (fpclassify( *(float*)src_addr) != FP_NAN) {
-                if (hexfloat_checkpoint) {
-                    double temp_dbl = *(float*)src_addr;
-                    unsigned char* byte_p = (unsigned char*)&temp_dbl;
-                    chkpnt_os << "0g";
-                    for (int ii=sizeof(double)-1 ; ii>= 0 ; ii--) {
-                        chkpnt_os << std::hex << std::setw(2) << std::setfill('0') << (unsigned int)byte_p[ii];
-                    }
-                } else {
-                    chkpnt_os << std::setprecision(8) << *(float*)src_addr;
-                }
+            // There is no decimal form of NaN and infinity that could be read back.
+            if (hexfloat_checkpoint || !std::isfinite( *(float*)src_addr)) {
+                write_hex_double(chkpnt_os, *(float*)src_addr);
             } else {
-                chkpnt_os << "NAN";
+                write_decimal(chkpnt_os, *(float*)src_addr, 8);
             }
             break;
         case TRICK_DOUBLE:
             src_addr = (char*)address + offset * sizeof(double);
-            if (fpclassify( *(double*)src_addr) != FP_NAN) {
-                if (hexfloat_checkpoint) {
-                    double temp_dbl = *(double*)src_addr;
-                    unsigned char* byte_p = (unsigned char*)&temp_dbl;
-                    chkpnt_os << "0g";
-                    for (int ii=sizeof(double)-1 ; ii>= 0 ; ii--) {
-                        chkpnt_os << std::hex << std::setw(2) << std::setfill('0') << (unsigned int)byte_p[ii];
-                    }
-                } else {
-                    chkpnt_os << std::setprecision(16) << *(double*)src_addr;
-                }
+            // There is no decimal form of NaN and infinity that could be read back.
+            if (hexfloat_checkpoint || !std::isfinite( *(double*)src_addr)) {
+                write_hex_double(chkpnt_os, *(double*)src_addr);
             } else {
-                chkpnt_os << "NAN";
+                write_decimal(chkpnt_os, *(double*)src_addr, 16);
             }
             break;
         case TRICK_BITFIELD: {
diff --git a/trick_source/sim_services/CheckPointAgent/input_parser.l b/trick_source/sim_services/CheckPointAgent/input_parser.l
index 5893786..62fe796 100644
--- a/trick_source/sim_services/CheckPointAgent/input_parser.l
+++ b/trick_source/sim_services/CheckPointAgent/input_parser.l
@@ -93,29 +93,17 @@ ECHO_OFF    [Ee][Cc][Hh][Oo][ \t_][Oo][Ff][Ff]
 }
 <QSTR>"\"" { 
 
-   int l ; PRINTBMAGENTA ;
+   PRINTBMAGENTA ;
    /*
-    * This rule picks up either 1) the closing double quote of a
-    * string, or 2) an escaped quote within a string.
+    * The closing double quote of a string (an escaped quote within
+    * a string is matched by the next rule). Save off the character
+    * string without the closing quote to the YACC variable, switch
+    * the parsing state back to the normal state and return a S_CON
+    * token to YACC.
     */
-   l = strlen( I->buf ) ;
-   if( (l > 0) && (I->buf[ l - 1 ] == '\\') ) {
-      /* If the previous character is a backslash then this is an
-       * escaped quote, copy the character to the string buffer an
-       * continue looking for the real closing quote.
-       */
-      I->buf[l-1] = '"' ;
-   }
-   else {
-      /* else this is the real closing quote. Save off the
-       * character string without the closing quote to the YACC
-       * variable, switch the parsing state back to the normal
-       * state and return a S_CON token to YACC
-       */
-      yylval->sval = strdup( I->buf ) ;
-      BEGIN 0 ;
-      return( S_CON ) ;
-   }
+   yylval->sval = strdup( I->buf ) ;
+   BEGIN 0 ;
+   return( S_CON ) ;
 
 }
 
@@ -123,34 +111,34 @@ ECHO_OFF    [Ee][Cc][Hh][Oo][ \t_][Oo][Ff][Ff]
 
      char ch ; 
      PRINTRED ;
-     (*yyextra->is) >> ch;
+     (*yyextra->is) >> std::noskipws >> ch;
      switch ( ch ) {
         case 'b' :
-           strcat ( I->buf , "\b" ) ;
+           I->append_to_buf( "\b" ) ;
            break ;
         case 't' :
-           strcat ( I->buf , "\t" ) ;
+           I->append_to_buf( "\t" ) ;
            break ;
         case 'n' :
-           strcat ( I->buf , "\n" ) ;
+           I->append_to_buf( "\n" ) ;
            break ;
         case 'v' :
-           strcat ( I->buf , "\v" ) ;
+           I->append_to_buf( "\v" ) ;
            break ;
         case 'f' :
-           strcat ( I->buf , "\f" ) ;
+           I->append_to_buf( "\f" ) ;
            break ;
         case 'r' :
-           strcat ( I->buf , "\r" ) ;
+           I->append_to_buf( "\r" ) ;
            break ;
         case '\\' :
-           strcat ( I->buf , "\\" ) ;
+           I->append_to_buf( "\\" ) ;
            break ;
         case '\'' :
-           strcat ( I->buf , "\'" ) ;
+           I->append_to_buf( "\'" ) ;
            break ;
         case '\"' :
-           strcat ( I->buf , "\"" ) ;
+           I->append_to_buf( "\"" ) ;
            break ;
      }
      if(I->verify_input || I->echo_input){printf("%c",ch);}
@@ -159,7 +147,7 @@ ECHO_OFF    [Ee][Cc][Hh][Oo][ \t_][Oo][Ff][Ff]
 
 <QSTR>[^"\\]* {
    PRINTBMAGENTA ; 
-   strcat( I->buf , (const char *)yytext ) ;
+   I->append_to_buf( (const char *)yytext ) ;
 }
 
 
-- 
2.43.0


From 99935ee95144bec81000b13f2cb55f1554b89d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:43 +0000
Subject: [PATCH 14/40] fix: clear every element of an array of pointers

---
 .../sim_services/MemoryManager/MemoryManager_clear_memory.cpp   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trick_source/sim_services/MemoryManager/MemoryManager_clear_memory.cpp b/trick_source/sim_services/MemoryManager/MemoryManager_clear_memory.cpp
index 1a8e345..0b33d80 100644
--- a/trick_source/sim_services/MemoryManager/MemoryManager_clear_memory.cpp
+++ b/trick_source/sim_services/MemoryManager/MemoryManager_clear_memory.cpp
@@ -124,7 +124,7 @@ void Trick::MemoryManager::clear_rvalue( void* base_address, ATTRIBUTES* attr, i
             whether the pointer is NULL.
         */
        if ( extent == 0) {
-           final_address = (char*)base_address;
+           final_address = (char*)base_address + offset * sizeof(void*);
            *(void**)final_address = NULL;
 
        /** @par
-- 
2.43.0


From 70bef380314e9e0cb821c8d72a85397e6da2ca14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:52 +0000
Subject: [PATCH 15/40] fix: a checkpoint file is replaced only by a complete
 new one

---
 include/trick/MemoryManager.hh                |  9 ++-
 .../CheckPointRestart/CheckPointRestart.cpp   | 11 +++-
 .../MemoryManager/MemoryManager_C_Intf.cpp    |  2 +-
 .../MemoryManager_write_checkpoint.cpp        | 56 +++++++++++++++++--
 4 files changed, 65 insertions(+), 13 deletions(-)

diff --git a/include/trick/MemoryManager.hh b/include/trick/MemoryManager.hh
index 0da9fa3..7af6362 100644
--- a/include/trick/MemoryManager.hh
+++ b/include/trick/MemoryManager.hh
@@ -352,8 +352,9 @@ namespace Trick {
             /**
              Checkpoint all allocations known to the MemoryManager to a file.
              @param filename  Name of file to be written.
+             @return 0 = SUCCESS, 1 = FAILURE
              */
-            void write_checkpoint( const char* filename);
+            int write_checkpoint( const char* filename);
 
             /**
              Checkpoint the named variable (allocation) and it dependencies to the given stream.
@@ -366,8 +367,9 @@ namespace Trick {
              Checkpoint the named variable (allocation) and it dependencies to a file.
              @param filename  Checkpoint file.
              @param var_name  Variable name.
+             @return 0 = SUCCESS, 1 = FAILURE
              */
-            void write_checkpoint( const char* filename, const char* var_name);
+            int write_checkpoint( const char* filename, const char* var_name);
 
             /**
              Checkpoint the named variables and their dependencies to a stream.
@@ -380,8 +382,9 @@ namespace Trick {
              Checkpoint the named variables and their dependencies to a file.
              @param filename output file name.
              @param var_name_list List of variable names.
+             @return 0 = SUCCESS, 1 = FAILURE
              */
-            void write_checkpoint( const char* filename, std::vector<const char*>& var_name_list);
+            int write_checkpoint( const char* filename, std::vector<const char*>& var_name_list);
 
             /**
              Restore a checkpoint from the given stream.
diff --git a/trick_source/sim_services/CheckPointRestart/CheckPointRestart.cpp b/trick_source/sim_services/CheckPointRestart/CheckPointRestart.cpp
index 60a42ff..b1534ad 100644
--- a/trick_source/sim_services/CheckPointRestart/CheckPointRestart.cpp
+++ b/trick_source/sim_services/CheckPointRestart/CheckPointRestart.cpp
@@ -175,6 +175,7 @@ int Trick::CheckPointRestart::do_checkpoint(std::string file_name, bool print_st
 
     JobData * curr_job ;
     pid_t pid;
+    int failed = 0 ;
 
     if ( ! file_name.compare("") ) {
         std::stringstream file_name_stream ;
@@ -213,9 +214,9 @@ int Trick::CheckPointRestart::do_checkpoint(std::string file_name, bool print_st
     else {
     // no fork
         if (obj_list.empty()) {
-            trick_MM->write_checkpoint(output_file.c_str()) ;
+            failed = trick_MM->write_checkpoint(output_file.c_str()) ;
         } else {
-            trick_MM->write_checkpoint(output_file.c_str(), obj_list);
+            failed = trick_MM->write_checkpoint(output_file.c_str(), obj_list);
         }
     }
 
@@ -224,7 +225,11 @@ int Trick::CheckPointRestart::do_checkpoint(std::string file_name, bool print_st
         curr_job->parent_object->call_function(curr_job) ;
     }
 
-    if ( print_status )
+    if ( failed )
+    {
+        message_publish(MSG_ERROR, "Failed to dump checkpoint %s.\n", file_name.c_str()) ;
+    }
+    else if ( print_status )
     {
         if (trick_MM->is_hexfloat_checkpoint())
         {
diff --git a/trick_source/sim_services/MemoryManager/MemoryManager_C_Intf.cpp b/trick_source/sim_services/MemoryManager/MemoryManager_C_Intf.cpp
index 3fc1fe8..56f6bac 100644
--- a/trick_source/sim_services/MemoryManager/MemoryManager_C_Intf.cpp
+++ b/trick_source/sim_services/MemoryManager/MemoryManager_C_Intf.cpp
@@ -369,7 +369,7 @@ extern "C" void TMM_delete_extern_var_n( const char* name) {
  */
 extern "C" void TMM_write_checkpoint(const char* filename) {
     if (trick_MM != NULL) {
-        return ( trick_MM->write_checkpoint( filename));
+        trick_MM->write_checkpoint( filename);
     } else {
         Trick::MemoryManager::emitError("TMM_write_checkpoint_fn() called before MemoryManager instantiation.\n") ;
         return;
diff --git a/trick_source/sim_services/MemoryManager/MemoryManager_write_checkpoint.cpp b/trick_source/sim_services/MemoryManager/MemoryManager_write_checkpoint.cpp
index bf88020..d4c85ed 100644
--- a/trick_source/sim_services/MemoryManager/MemoryManager_write_checkpoint.cpp
+++ b/trick_source/sim_services/MemoryManager/MemoryManager_write_checkpoint.cpp
@@ -2,6 +2,9 @@
 #include <sstream>
 #include <string.h>
 #include <stdlib.h>  // free()
+#include <stdio.h>   // rename()
+#include <unistd.h>
+#include <sys/stat.h>
 #include <algorithm> // std::sort()
 #include "trick/MemoryManager.hh"
 
@@ -138,18 +141,53 @@ void Trick::MemoryManager::write_checkpoint( std::ostream& out_s) {
 
 }
 
+// A checkpoint file is written under a temporary name and takes its own name when it is complete, so that
+// neither a failure nor the end of the process while it is written destroys the checkpoint it replaces.
+// Something that is not a regular file (e.g. a terminal, a pipe or a link) cannot be replaced and is written to directly.
+static std::string checkpoint_temp_name( const char* filename) {
+    struct stat info;
+    if ((lstat( filename, &info) == 0) && !S_ISREG(info.st_mode)) {
+        return filename;
+    }
+    std::stringstream name;
+    name << filename << ".writing." << getpid();
+    return name.str();
+}
+
+static int close_checkpoint_file( std::ofstream& outfile, const std::string& temp_name, const char* filename) {
+    outfile.close();
+    bool good = outfile.good();
+    if (temp_name != filename) {
+        if (good) {
+            good = ( rename( temp_name.c_str(), filename) == 0 );
+        }
+        if (!good) {
+            remove( temp_name.c_str());
+        }
+    }
+    if (!good) {
+        std::stringstream message;
+        message << "Couldn't write \"" << filename << "\".";
+        Trick::MemoryManager::emitError(message.str());
+    }
+    return ( good ? 0 : 1 );
+}
+
 // MEMBER FUNCTION
-void Trick::MemoryManager::write_checkpoint(const char* filename) {
+int Trick::MemoryManager::write_checkpoint(const char* filename) {
 
-   std::ofstream outfile( filename, std::ios::out);
+    std::string temp_name = checkpoint_temp_name( filename);
+    std::ofstream outfile( temp_name.c_str(), std::ios::out);
 
     if (outfile.is_open()) {
         write_checkpoint( outfile);
+        return close_checkpoint_file( outfile, temp_name, filename);
     } else {
         std::stringstream message;
         message << "Couldn't open \"" << filename << "\".";
         emitError(message.str());
     }
+    return 1;
 }
 
 // MEMBER FUNCTION
@@ -166,16 +204,19 @@ void Trick::MemoryManager::write_checkpoint( std::ostream& out_s, const char* va
 }
 
 // MEMBER FUNCTION
-void Trick::MemoryManager::write_checkpoint(const char* filename, const char* var_name) {
+int Trick::MemoryManager::write_checkpoint(const char* filename, const char* var_name) {
 
-    std::ofstream out_s( filename, std::ios::out);
+    std::string temp_name = checkpoint_temp_name( filename);
+    std::ofstream out_s( temp_name.c_str(), std::ios::out);
     if (out_s.is_open()) {
         write_checkpoint( out_s, var_name);
+        return close_checkpoint_file( out_s, temp_name, filename);
     } else {
         std::stringstream message;
         message << "Couldn't open \"" << filename << "\".";
         emitError(message.str());
     }
+    return 1;
 }
 
 // MEMBER FUNCTION
@@ -199,14 +240,17 @@ void Trick::MemoryManager::write_checkpoint( std::ostream& out_s, std::vector<co
 }
 
 // MEMBER FUNCTION
-void Trick::MemoryManager::write_checkpoint(const char* filename, std::vector<const char*>& var_name_list) {
+int Trick::MemoryManager::write_checkpoint(const char* filename, std::vector<const char*>& var_name_list) {
 
-    std::ofstream out_s( filename, std::ios::out);
+    std::string temp_name = checkpoint_temp_name( filename);
+    std::ofstream out_s( temp_name.c_str(), std::ios::out);
 
     if (out_s.is_open()) {
         write_checkpoint( out_s, var_name_list);
+        return close_checkpoint_file( out_s, temp_name, filename);
     } else {
         std::cerr << "ERROR: Couldn't open \""<< filename <<"\"." << std::endl;
         std::cerr.flush();
     }
+    return 1;
 }
-- 
2.43.0


From 013670bd1376587d420461b6db7d4159e0c8fc33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:52 +0000
Subject: [PATCH 16/40] fix: safestore checkpoints keep their period

---
 .../CheckPointRestart/CheckPointRestart.cpp     | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/trick_source/sim_services/CheckPointRestart/CheckPointRestart.cpp b/trick_source/sim_services/CheckPointRestart/CheckPointRestart.cpp
index b1534ad..9e7e830 100644
--- a/trick_source/sim_services/CheckPointRestart/CheckPointRestart.cpp
+++ b/trick_source/sim_services/CheckPointRestart/CheckPointRestart.cpp
@@ -142,9 +142,13 @@ int Trick::CheckPointRestart::set_safestore_time(double in_time) {
     software_frame_tics = exec_get_software_frame_tics() ;
 
     if ( safestore_period % software_frame_tics ) {
-        safestore_period = ((safestore_time / software_frame_tics) + 1 ) * software_frame_tics ;
+        safestore_period = ((safestore_period / software_frame_tics) + 1 ) * software_frame_tics ;
     }
+    // the next multiple of the period, also when the period is set while the simulation runs
     safestore_time = safestore_period ;
+    if ( safestore_period > 0 ) {
+        safestore_time += (exec_get_time_tics() / safestore_period) * safestore_period ;
+    }
 
     if ( safestore_checkpoint_job != NULL ) {
         safestore_checkpoint_job->next_tics = safestore_time ;
@@ -297,15 +301,18 @@ int Trick::CheckPointRestart::write_end_checkpoint() {
 
 int Trick::CheckPointRestart::safestore_checkpoint() {
 
-    if ( safestore_enabled) {
-        checkpoint(std::string("chkpnt_safestore"), false) ;
-        safestore_time += safestore_period ;
-    }
+    // set the time of the next checkpoint first, so that it is the one saved in this checkpoint.
+    // keep the schedule while disabled, for when safestore is enabled again.
+    safestore_time += safestore_period ;
 
     if ( safestore_checkpoint_job != NULL ) {
         safestore_checkpoint_job->next_tics = safestore_time ;
     }
 
+    if ( safestore_enabled) {
+        checkpoint(std::string("chkpnt_safestore"), false) ;
+    }
+
     return(0) ;
 }
 
-- 
2.43.0


From b3a6e79d6e6f74a3ca2b9a5dc259f94963dbf809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:52 +0000
Subject: [PATCH 17/40] fix: the frame check time is advanced before end of
 frame jobs can save it

---
 .../sim_services/Executive/Executive_loop_multi_thread.cpp   | 5 +++--
 .../sim_services/Executive/Executive_loop_single_thread.cpp  | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/trick_source/sim_services/Executive/Executive_loop_multi_thread.cpp b/trick_source/sim_services/Executive/Executive_loop_multi_thread.cpp
index 8e23600..f40d913 100644
--- a/trick_source/sim_services/Executive/Executive_loop_multi_thread.cpp
+++ b/trick_source/sim_services/Executive/Executive_loop_multi_thread.cpp
@@ -184,6 +184,9 @@ int Trick::Executive::loop_multi_thread() {
 
         /* Call all end of frame jobs if the simulation time equals to the time software frame boundary. */
         if (time_tics == next_frame_check_tics ) {
+            // Set the next frame boundary before the jobs run: one of them may load a checkpoint, which restores it.
+            next_frame_check_tics += software_frame_tics ;
+
             end_of_frame_queue.reset_curr_index() ;
             while ( (curr_job = end_of_frame_queue.get_next_job()) != NULL ) {
                 ret = curr_job->call() ;
@@ -206,8 +209,6 @@ int Trick::Executive::loop_multi_thread() {
                     }
                 }
             }
-
-            next_frame_check_tics += software_frame_tics ;
         }
 
     }
diff --git a/trick_source/sim_services/Executive/Executive_loop_single_thread.cpp b/trick_source/sim_services/Executive/Executive_loop_single_thread.cpp
index fc5ff87..39acc69 100644
--- a/trick_source/sim_services/Executive/Executive_loop_single_thread.cpp
+++ b/trick_source/sim_services/Executive/Executive_loop_single_thread.cpp
@@ -100,6 +100,9 @@ int Trick::Executive::loop_single_thread() {
 
         /* Call all end of frame jobs if the simulation time equals to the time software frame boundary. */
         if (time_tics == next_frame_check_tics ) {
+            // Set the next frame boundary before the jobs run: one of them may load a checkpoint, which restores it.
+            next_frame_check_tics += software_frame_tics ;
+
             end_of_frame_queue.reset_curr_index() ;
             while ( (curr_job = end_of_frame_queue.get_next_job()) != NULL ) {
                 ret = curr_job->call() ;
@@ -107,8 +110,6 @@ int Trick::Executive::loop_single_thread() {
                     exec_terminate_with_return(ret , curr_job->name.c_str() , 0 , "end_of_frame job did not return 0") ;
                 }
             }
-
-            next_frame_check_tics += software_frame_tics ;
         }
 
     }
-- 
2.43.0


From e0dab8e30e1fb8ddf2e632c17feadb6ccbe6a33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:52 +0000
Subject: [PATCH 18/40] fix: real-time pacing after a late frame and after a
 freeze

---
 .../RealtimeSync/RealtimeSync.cpp             | 25 ++++++++++++++++---
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/trick_source/sim_services/RealtimeSync/RealtimeSync.cpp b/trick_source/sim_services/RealtimeSync/RealtimeSync.cpp
index 32832aa..14ff316 100644
--- a/trick_source/sim_services/RealtimeSync/RealtimeSync.cpp
+++ b/trick_source/sim_services/RealtimeSync/RealtimeSync.cpp
@@ -413,8 +413,13 @@ int Trick::RealtimeSync::rt_monitor(long long sim_time_tics) {
         /* Spin to make sure that we are at the top of the frame */
         curr_clock_time = rt_clock->clock_spin(sim_time_tics) ;
 
-        /* If the timer requires to be reset at the end of each frame, reset it here. */
-        sleep_timer->reset(exec_get_software_frame() / rt_clock->get_rt_clock_ratio()) ;
+        /* If the timer requires to be reset at the end of each frame, reset it here.  The timer runs for a whole
+           frame from now on: if the frame starts late, it would make the next frame late as well, so spin instead. */
+        if (curr_clock_time - sim_time_tics > tics_per_sec / 1000) {
+            sleep_timer->stop() ;
+        } else {
+            sleep_timer->reset(exec_get_software_frame() / rt_clock->get_rt_clock_ratio()) ;
+        }
 
         /* Calculate the run ratio after sleeping */
         actual_run_ratio = run_ratio(curr_clock_time, rt_clock->get_rt_clock_ratio());
@@ -510,8 +515,20 @@ int Trick::RealtimeSync::unfreeze(long long sim_time_tics, double software_frame
         /* Adjust the real-time clock reference by the amount of time we were frozen */
         rt_clock->adjust_ref_time(freeze_time_tics - sim_time_tics) ;
 
-        /* Start the sleep timer with the software frame expiration */
-        sleep_timer->start(software_frame_sec / rt_clock->get_rt_clock_ratio()) ;
+        /* Freeze frames may overrun.  Do not make up for the frames lost that way. */
+        long long frame_tics = (long long)(software_frame_sec * tics_per_sec) ;
+        long long late_tics = rt_clock->clock_time() - sim_time_tics ;
+        if ( frame_tics > 0 && late_tics >= frame_tics ) {
+            rt_clock->adjust_ref_time((late_tics / frame_tics) * frame_tics) ;
+            late_tics %= frame_tics ;
+        }
+
+        /* Start the sleep timer with the software frame expiration, unless the first frame starts late */
+        if ( late_tics > tics_per_sec / 1000 ) {
+            sleep_timer->stop() ;
+        } else {
+            sleep_timer->start(software_frame_sec / rt_clock->get_rt_clock_ratio()) ;
+        }
 
     }
 
-- 
2.43.0


From dc9dfd677eba87a66e35a95ba0c04d4a637bcd4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:53 +0000
Subject: [PATCH 19/40] fix: message publishing from several threads and to
 slow or leaving clients

---
 include/trick/MessageCustomManager.hh         |  4 ++
 include/trick/MessagePublisher.hh             |  8 +++-
 include/trick/MessageTCDevice.hh              |  6 +--
 .../Message/MessageCustomFile.cpp             |  2 +
 .../Message/MessageCustomManager.cpp          |  5 +++
 .../sim_services/Message/MessageFile.cpp      |  2 +
 .../sim_services/Message/MessageHSFile.cpp    |  2 +
 .../sim_services/Message/MessagePublisher.cpp | 42 ++++++++++++++++++-
 .../sim_services/Message/MessageTCDevice.cpp  | 24 +++++++----
 .../Message/MessageThreadedCout.cpp           |  4 ++
 .../sim_services/Message/PlaybackFile.cpp     |  2 +
 11 files changed, 88 insertions(+), 13 deletions(-)

diff --git a/include/trick/MessageCustomManager.hh b/include/trick/MessageCustomManager.hh
index df16ad7..3bf581b 100644
--- a/include/trick/MessageCustomManager.hh
+++ b/include/trick/MessageCustomManager.hh
@@ -14,6 +14,7 @@
 #include <iostream>
 #include <fstream>
 #include <vector>
+#include <pthread.h>
 #include "trick/MessageCustomFile.hh"
 #include "trick/MessageSubscriber.hh"
 
@@ -45,6 +46,9 @@ namespace Trick {
 
         protected:
             std::vector<MessageCustomFile *> _custom_message_files;
+
+            /** Files are opened while other threads publish messages.\n */
+            pthread_mutex_t _files_mutex ; /**< trick_io(**) */
     } ;
 
 }
diff --git a/include/trick/MessagePublisher.hh b/include/trick/MessagePublisher.hh
index f22d364..88c2f80 100644
--- a/include/trick/MessagePublisher.hh
+++ b/include/trick/MessagePublisher.hh
@@ -5,6 +5,7 @@
 */
 #include <string>
 #include <list>
+#include <pthread.h>
 #include "trick/MessageSubscriber.hh"
 
 namespace Trick {
@@ -18,6 +19,9 @@ namespace Trick {
             /** List of subscribers subscribed to this publisher.\n */
             std::list <MessageSubscriber *> subscribers ;    /**< trick_units(--) */
 
+            /** Messages are published, and subscribers come and go, on several threads.\n */
+            mutable pthread_mutex_t mutex ;    /**< trick_io(**) */
+
             /** Copied from the executive time_tic_value.\n */
             int tics_per_sec ;
 
@@ -53,13 +57,13 @@ namespace Trick {
              @brief Add a message subscriber to this publisher's subscriber list, which will output published messages in some manner.
              @param in_ms - an instance of Trick::MessageSubscriber that wants to subscribe to this publisher.
              */
-            void subscribe(MessageSubscriber *in_ms) { subscribers.push_back(in_ms) ; } ;
+            void subscribe(MessageSubscriber *in_ms) ;
 
             /**
              @brief Remove a message subscriber from this publisher's subscriber list.
              @param in_ms - an instance of Trick::MessageSubscriber that needs unsubscribe from this publisher.
              */
-            void unsubscribe(MessageSubscriber *in_ms) { subscribers.remove(in_ms) ; } ;
+            void unsubscribe(MessageSubscriber *in_ms) ;
 
             /**
              @brief Publish a message with specified level and header.
diff --git a/include/trick/MessageTCDevice.hh b/include/trick/MessageTCDevice.hh
index c117903..1472d59 100644
--- a/include/trick/MessageTCDevice.hh
+++ b/include/trick/MessageTCDevice.hh
@@ -108,12 +108,12 @@ namespace Trick {
             /** Thread to start listen device\n */
             MessageTCDeviceListenThread listen_thread ;
 
-            /** Message buffer.\n */
-            char * combined_message ;         /**< trick_io(**) trick_units(--) */
-
             /** List of open connections.\n */
             std::vector< TCDevice *> connections ; /**< trick_io(**) trick_units(--) */
 
+            /** The listen thread adds connections while messages are sent.\n */
+            pthread_mutex_t connections_mutex ; /**< trick_io(**) trick_units(--) */
+
     } ;
 
 }
diff --git a/trick_source/sim_services/Message/MessageCustomFile.cpp b/trick_source/sim_services/Message/MessageCustomFile.cpp
index db17ab6..d0a9f6e 100644
--- a/trick_source/sim_services/Message/MessageCustomFile.cpp
+++ b/trick_source/sim_services/Message/MessageCustomFile.cpp
@@ -26,6 +26,8 @@ void Trick::MessageCustomFile::update( unsigned int level , std::string header,
     if ( enabled && level == _this_level ) {
         out_stream << header << message ;
         out_stream.flush() ;
+        // a write that failed must not stop all messages that follow
+        out_stream.clear() ;
     }
 }
 
diff --git a/trick_source/sim_services/Message/MessageCustomManager.cpp b/trick_source/sim_services/Message/MessageCustomManager.cpp
index dbeda11..81fe94b 100644
--- a/trick_source/sim_services/Message/MessageCustomManager.cpp
+++ b/trick_source/sim_services/Message/MessageCustomManager.cpp
@@ -17,6 +17,7 @@ int open_custom_message_file(std::string file_name, std::string subscriber_name,
  @brief The constructor.
     */
 Trick::MessageCustomManager::MessageCustomManager() {
+    pthread_mutex_init(&_files_mutex, NULL);
     the_message_custom_manager = this;
 }
 
@@ -36,7 +37,9 @@ int Trick::MessageCustomManager::open_custom_message_file(std::string file_name,
     new_message_file->set_name(subscriber_name);
     new_message_file->init();
 
+    pthread_mutex_lock(&_files_mutex);
     _custom_message_files.push_back(new_message_file);
+    pthread_mutex_unlock(&_files_mutex);
 
     return new_message_file->get_level();
 }
@@ -45,9 +48,11 @@ int Trick::MessageCustomManager::open_custom_message_file(std::string file_name,
  @brief Output message to the file.
     */
 void Trick::MessageCustomManager::update( unsigned int level , std::string header , std::string message ) {
+    pthread_mutex_lock(&_files_mutex);
     for (auto message_file : _custom_message_files) {
         message_file->update(level, header, message);
     }
+    pthread_mutex_unlock(&_files_mutex);
 }
 
 int Trick::MessageCustomManager::restart( ) {
diff --git a/trick_source/sim_services/Message/MessageFile.cpp b/trick_source/sim_services/Message/MessageFile.cpp
index 6411cca..9d65f09 100644
--- a/trick_source/sim_services/Message/MessageFile.cpp
+++ b/trick_source/sim_services/Message/MessageFile.cpp
@@ -41,6 +41,8 @@ void Trick::MessageFile::update( unsigned int level , std::string header, std::s
     if ( enabled && level < 100 ) {
         out_stream << header << message ;
         out_stream.flush() ;
+        // a write that failed must not stop all messages that follow
+        out_stream.clear() ;
     }
 
 }
diff --git a/trick_source/sim_services/Message/MessageHSFile.cpp b/trick_source/sim_services/Message/MessageHSFile.cpp
index 7643d81..4b6223d 100644
--- a/trick_source/sim_services/Message/MessageHSFile.cpp
+++ b/trick_source/sim_services/Message/MessageHSFile.cpp
@@ -25,6 +25,8 @@ void Trick::MessageHSFile::update( unsigned int level , std::string header, std:
     if ( enabled && level < 100 ) {
         out_stream << header << message ;
         out_stream.flush() ;
+        // a write that failed must not stop all messages that follow
+        out_stream.clear() ;
     }
 
 }
diff --git a/trick_source/sim_services/Message/MessagePublisher.cpp b/trick_source/sim_services/Message/MessagePublisher.cpp
index 43a834d..1aeea6a 100644
--- a/trick_source/sim_services/Message/MessagePublisher.cpp
+++ b/trick_source/sim_services/Message/MessagePublisher.cpp
@@ -14,10 +14,35 @@
 
 #define MAX_MSG_HEADER_SIZE 256
 
+namespace {
+// Holds the publisher's lock.  A thread is not cancelled while it holds it.
+class PublisherLock {
+    public:
+        PublisherLock(pthread_mutex_t & in_mutex) : mutex(in_mutex) {
+            pthread_setcancelstate(PTHREAD_CANCEL_DISABLE, &cancel_state) ;
+            pthread_mutex_lock(&mutex) ;
+        }
+        ~PublisherLock() {
+            pthread_mutex_unlock(&mutex) ;
+            pthread_setcancelstate(cancel_state, NULL) ;
+        }
+    private:
+        pthread_mutex_t & mutex ;
+        int cancel_state ;
+} ;
+}
+
 Trick::MessagePublisher * the_message_publisher ;
 
 Trick::MessagePublisher::MessagePublisher() {
 
+    // A subscriber may publish a message itself.
+    pthread_mutexattr_t attr ;
+    pthread_mutexattr_init(&attr) ;
+    pthread_mutexattr_settype(&attr, PTHREAD_MUTEX_RECURSIVE) ;
+    pthread_mutex_init(&mutex, &attr) ;
+    pthread_mutexattr_destroy(&attr) ;
+
     sim_name = " " ;
     the_message_publisher = this ;
 
@@ -42,10 +67,21 @@ int Trick::MessagePublisher::init() {
     return 0 ;
 }
 
+void Trick::MessagePublisher::subscribe(MessageSubscriber *in_ms) {
+    PublisherLock lock(mutex) ;
+    subscribers.push_back(in_ms) ;
+}
+
+void Trick::MessagePublisher::unsubscribe(MessageSubscriber *in_ms) {
+    PublisherLock lock(mutex) ;
+    subscribers.remove(in_ms) ;
+}
+
 int Trick::MessagePublisher::publish(int level , std::string message) {
 
     /** @par Design Details: */
     std::list<Trick::MessageSubscriber *>::iterator p ;
+    std::list<Trick::MessageSubscriber *>::iterator next ;
 
     char date_buf[MAX_MSG_HEADER_SIZE];
     char header_buf[MAX_MSG_HEADER_SIZE];
@@ -56,6 +92,7 @@ int Trick::MessagePublisher::publish(int level , std::string message) {
     // tv_usec are microseconds past the last second and is used for printing out sub-second.
     struct timeval time_val;
     std::string header ;
+    PublisherLock lock(mutex) ;
     long long tics = exec_get_time_tics() ;
 
     /** @li Create message header with level, date, host, sim name, process id, sim time. */
@@ -74,7 +111,9 @@ int Trick::MessagePublisher::publish(int level , std::string message) {
 
     /** @li Go through all its subscribers and send a message update to the subscriber that is enabled. */
     if ( ! subscribers.empty() ) {
-        for ( p = subscribers.begin() ; p != subscribers.end() ; ++p ) {
+        for ( p = subscribers.begin() ; p != subscribers.end() ; p = next ) {
+            next = p ;
+            ++next ;
             if ( (*p)->enabled ) {
                 (*p)->update(level , header , message) ;
             }
@@ -92,6 +131,7 @@ int Trick::MessagePublisher::publish(int level , std::string message) {
 
 Trick::MessageSubscriber * Trick::MessagePublisher::getSubscriber( std::string sub_name ) {
     std::list<Trick::MessageSubscriber *>::iterator lit ;
+    PublisherLock lock(mutex) ;
     for ( lit = subscribers.begin() ; lit != subscribers.end() ; ++lit ) {
         if ( ! (*lit)->name.compare(sub_name) ) {
             return *lit ;
diff --git a/trick_source/sim_services/Message/MessageTCDevice.cpp b/trick_source/sim_services/Message/MessageTCDevice.cpp
index e0c0fde..d7a6c61 100644
--- a/trick_source/sim_services/Message/MessageTCDevice.cpp
+++ b/trick_source/sim_services/Message/MessageTCDevice.cpp
@@ -68,11 +68,15 @@ void * Trick::MessageTCDeviceListenThread::thread_body() {
         select(listen_dev.socket + 1, &rfds, NULL, NULL, &timeout_time);
 
         if (FD_ISSET(listen_dev.socket, &rfds)) {
+            int cancel_state ;
+            /* do not get cancelled half way through adding a connection */
+            pthread_setcancelstate(PTHREAD_CANCEL_DISABLE, &cancel_state);
             new_connection = new TCDevice() ;
             new_connection->disabled = TC_COMM_FALSE ;
             new_connection->disable_handshaking = TC_COMM_TRUE ;
             new_connection->blockio_limit = 0.0 ;
-            new_connection->blockio_type = TC_COMM_BLOCKIO ;
+            /* the simulation does not wait for a client that does not read its messages */
+            new_connection->blockio_type = TC_COMM_NOBLOCKIO ;
             new_connection->client_id = 0 ;
             strcpy(new_connection->client_tag, "") ;
             new_connection->error_handler = (TrickErrorHndlr *) calloc(1, (int)sizeof(TrickErrorHndlr));
@@ -83,6 +87,7 @@ void * Trick::MessageTCDeviceListenThread::thread_body() {
             if (status == TC_SUCCESS) {
                 mtcd->add_connection(new_connection) ;
             } 
+            pthread_setcancelstate(cancel_state, NULL);
         }
     }
 
@@ -101,14 +106,14 @@ void Trick::MessageTCDeviceListenThread::dump( std::ostream & oss ) {
 Trick::MessageTCDevice::MessageTCDevice() :
  listen_thread(this)
 {
-    combined_message = new char[20480] ;
+    pthread_mutex_init(&connections_mutex, NULL) ;
     name = "tcdevice" ;
     return ;
 }
 
 // DESTRUCTOR
 Trick::MessageTCDevice::~MessageTCDevice() {
-    delete[] combined_message ;
+    pthread_mutex_destroy(&connections_mutex) ;
 }
 
 Trick::MessageTCDeviceListenThread & Trick::MessageTCDevice::get_listen_thread() {
@@ -116,7 +121,9 @@ Trick::MessageTCDeviceListenThread & Trick::MessageTCDevice::get_listen_thread()
 }
 
 void Trick::MessageTCDevice::add_connection( TCDevice * new_conn ) {
+    pthread_mutex_lock(&connections_mutex) ;
     connections.push_back(new_conn) ;
+    pthread_mutex_unlock(&connections_mutex) ;
 }
 
 int Trick::MessageTCDevice::shutdown() {
@@ -210,17 +217,19 @@ void Trick::MessageTCDevice::update( unsigned int level , std::string header , s
     if ( enabled && level < 100 ) {
 
     	 /** @li The message is composed as message header + message text */
+        std::string combined_message ;
         if ( color ) {
-            snprintf( combined_message , 20480 , "%s%s%s\033[00m" , header.c_str() , color_code.c_str() , message.c_str()) ;
+            combined_message = header + color_code + message + "\033[00m" ;
         } else {
-            snprintf( combined_message , 20480 , "%s%s" , header.c_str() , message.c_str()) ;
+            combined_message = header + message ;
         }
-        length = (int)strlen(combined_message) ;
+        length = (int)combined_message.length() ;
 
         /** @li The message is broadcast to all socket connection this subscriber has. */
+        pthread_mutex_lock(&connections_mutex) ;
         it = connections.begin() ;
         while ( it != connections.end() ) {
-            nbytes = tc_write( *it, combined_message, length) ;
+            nbytes = tc_write( *it, &combined_message[0], length) ;
 
             /** @li All those connections that can not receive the message get disconnected.  */
             if ( nbytes != length ) {
@@ -230,6 +239,7 @@ void Trick::MessageTCDevice::update( unsigned int level , std::string header , s
                 it++ ;
             }
         }
+        pthread_mutex_unlock(&connections_mutex) ;
     }
 
     return ;
diff --git a/trick_source/sim_services/Message/MessageThreadedCout.cpp b/trick_source/sim_services/Message/MessageThreadedCout.cpp
index 99fe0c3..853ed1d 100644
--- a/trick_source/sim_services/Message/MessageThreadedCout.cpp
+++ b/trick_source/sim_services/Message/MessageThreadedCout.cpp
@@ -78,12 +78,16 @@ void * Trick::MessageThreadedCout::thread_body() {
 }
 
 void Trick::MessageThreadedCout::write_pending_messages() {
+    // The thread may be cancelled while it writes, the lock must be released then.
+    int cancel_state ;
+    pthread_setcancelstate(PTHREAD_CANCEL_DISABLE, &cancel_state) ;
     pthread_mutex_lock(&write_mutex) ;
     while ( write_ptr != copy_ptr ) {
         std::cout << write_ptr->buffer << std::flush ;
         write_ptr = write_ptr->next ;
     }
     pthread_mutex_unlock(&write_mutex) ;
+    pthread_setcancelstate(cancel_state, NULL) ;
 }
 
 int Trick::MessageThreadedCout::shutdown() {
diff --git a/trick_source/sim_services/Message/PlaybackFile.cpp b/trick_source/sim_services/Message/PlaybackFile.cpp
index 76d1c9a..7727605 100644
--- a/trick_source/sim_services/Message/PlaybackFile.cpp
+++ b/trick_source/sim_services/Message/PlaybackFile.cpp
@@ -15,6 +15,8 @@ void Trick::PlaybackFile::update( unsigned int level , std::string header __attr
     if ( enabled && level == MSG_PLAYBACK ) {
         out_stream << message ;
         out_stream.flush() ;
+        // a write that failed must not stop all messages that follow
+        out_stream.clear() ;
     }
 
 }
-- 
2.43.0


From 4436f2b225e60ab8b1ef92096a4c5ca9d3642ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:59 +0000
Subject: [PATCH 20/40] fix: the memory manager's tables stay consistent when
 several threads use it

---
 include/trick/MutexLock.hh                    | 26 +++++++++++
 .../MemoryManager/MemoryManager.cpp           |  7 ++-
 .../MemoryManager_add_attr_info.cpp           |  4 ++
 .../MemoryManager_alloc_info_map.cpp          |  9 ++--
 .../MemoryManager_declare_var.cpp             | 21 +++++++--
 .../MemoryManager_delete_var.cpp              | 44 +++++++++++--------
 ...moryManager_get_attributes_for_address.cpp |  3 ++
 .../MemoryManager_get_enumerated.cpp          |  2 +
 .../MemoryManager_map_external_object.cpp     | 14 +++++-
 .../MemoryManager/MemoryManager_realloc.cpp   | 16 ++-----
 .../MemoryManager_ref_attributes.cpp          |  4 ++
 .../MemoryManager_write_checkpoint.cpp        | 12 ++---
 12 files changed, 115 insertions(+), 47 deletions(-)
 create mode 100644 include/trick/MutexLock.hh

diff --git a/include/trick/MutexLock.hh b/include/trick/MutexLock.hh
new file mode 100644
index 0000000..2f74d64
--- /dev/null
+++ b/include/trick/MutexLock.hh
@@ -0,0 +1,26 @@
+/*
+    PURPOSE:
+        (Holds a mutex for the lifetime of the object.)
+*/
+
+#ifndef MUTEXLOCK_HH
+#define MUTEXLOCK_HH
+
+#include <pthread.h>
+
+namespace Trick {
+
+    class MutexLock {
+        public:
+            explicit MutexLock( pthread_mutex_t & in_mutex ) : mutex(in_mutex) { pthread_mutex_lock(&mutex) ; }
+            ~MutexLock() { pthread_mutex_unlock(&mutex) ; }
+
+        private:
+            MutexLock( const MutexLock & ) ;
+            MutexLock & operator=( const MutexLock & ) ;
+
+            pthread_mutex_t & mutex ;
+    } ;
+}
+
+#endif
diff --git a/trick_source/sim_services/MemoryManager/MemoryManager.cpp b/trick_source/sim_services/MemoryManager/MemoryManager.cpp
index 5ff5549..19cd3c8 100644
--- a/trick_source/sim_services/MemoryManager/MemoryManager.cpp
+++ b/trick_source/sim_services/MemoryManager/MemoryManager.cpp
@@ -31,7 +31,12 @@ Trick::MemoryManager::MemoryManager()
     alloc_info_map_counter = 100000000 ;
     // start counter at 0.  This forces extern vars to appear in front of actual allocations in checkpoint.
     extern_alloc_info_map_counter = 0 ;
-    pthread_mutex_init(&mm_mutex, NULL);
+    // The mutex is recursive: it is held through whole operations, which use each other.
+    pthread_mutexattr_t mutex_attr ;
+    pthread_mutexattr_init(&mutex_attr) ;
+    pthread_mutexattr_settype(&mutex_attr, PTHREAD_MUTEX_RECURSIVE) ;
+    pthread_mutex_init(&mm_mutex, &mutex_attr);
+    pthread_mutexattr_destroy(&mutex_attr) ;
 
     defaultCheckPointAgent = new ClassicCheckPointAgent( this);
     defaultCheckPointAgent->set_reduced_checkpoint( reduced_checkpoint);
diff --git a/trick_source/sim_services/MemoryManager/MemoryManager_add_attr_info.cpp b/trick_source/sim_services/MemoryManager/MemoryManager_add_attr_info.cpp
index 14692ca..506f60c 100644
--- a/trick_source/sim_services/MemoryManager/MemoryManager_add_attr_info.cpp
+++ b/trick_source/sim_services/MemoryManager/MemoryManager_add_attr_info.cpp
@@ -9,6 +9,7 @@
 
 #include "trick/SimObject.hh"
 #include "trick/MemoryManager.hh"
+#include "trick/MutexLock.hh"
 
 /**
  *
@@ -30,6 +31,9 @@ int Trick::MemoryManager::add_attr_info( const std::string & user_type_string ,
 
     /** @par Design Details: */
 
+    // The attributes are initialized, and the enumeration map is changed, by one thread at a time.
+    MutexLock lock(mm_mutex);
+
     user_type_name = user_type_string ;
 
     // Check if the type is a primitive type.  If so, we don't need to continue
diff --git a/trick_source/sim_services/MemoryManager/MemoryManager_alloc_info_map.cpp b/trick_source/sim_services/MemoryManager/MemoryManager_alloc_info_map.cpp
index 03904c4..d003a2b 100644
--- a/trick_source/sim_services/MemoryManager/MemoryManager_alloc_info_map.cpp
+++ b/trick_source/sim_services/MemoryManager/MemoryManager_alloc_info_map.cpp
@@ -1,9 +1,11 @@
 #include "trick/MemoryManager.hh"
+#include "trick/MutexLock.hh"
 #include <sstream>
 #include <string.h>
 
 ALLOC_INFO* Trick::MemoryManager::get_alloc_info_of( void* addr) {
 
+    MutexLock lock(mm_mutex);
     ALLOC_INFO_MAP::iterator pos = alloc_info_map.lower_bound(addr);
     if (pos != alloc_info_map.end()) {
         ALLOC_INFO* alloc_info = pos->second;
@@ -16,6 +18,7 @@ ALLOC_INFO* Trick::MemoryManager::get_alloc_info_of( void* addr) {
 
 ALLOC_INFO* Trick::MemoryManager::get_alloc_info_at( void* addr) {
 
+    MutexLock lock(mm_mutex);
     ALLOC_INFO_MAP::iterator pos = alloc_info_map.find( addr);
     if (pos == alloc_info_map.end()) {
         return NULL;
@@ -28,10 +31,9 @@ int Trick::MemoryManager::set_name_at( void* addr , const char * name ) {
 
     int ret = 0 ;
 
+    MutexLock lock(mm_mutex);
     ALLOC_INFO_MAP::iterator pos = alloc_info_map.find( addr);
     if (pos != alloc_info_map.end()) {
-        pos->second->name = strdup(name) ;
-        pthread_mutex_lock(&mm_mutex);
         VARIABLE_MAP::iterator variable_pos;
         variable_pos = variable_map.find(name);
         if (variable_pos != variable_map.end()) {
@@ -39,12 +41,11 @@ int Trick::MemoryManager::set_name_at( void* addr , const char * name ) {
             ss << "Call to set_name_at() failed because a variable named \""
                << name << "\" already exists.";
             emitError(ss.str());
-            pthread_mutex_unlock(&mm_mutex);
             ret = -1 ;
         } else {
+            pos->second->name = strdup(name) ;
             variable_map[name] = pos->second ;
         }
-        pthread_mutex_unlock(&mm_mutex);
     } else {
         ret = -1 ;
     }
diff --git a/trick_source/sim_services/MemoryManager/MemoryManager_declare_var.cpp b/trick_source/sim_services/MemoryManager/MemoryManager_declare_var.cpp
index 186a24c..d433860 100644
--- a/trick_source/sim_services/MemoryManager/MemoryManager_declare_var.cpp
+++ b/trick_source/sim_services/MemoryManager/MemoryManager_declare_var.cpp
@@ -46,7 +46,7 @@ void* Trick::MemoryManager::declare_var( TRICK_TYPE type,
     char* allocation_name;
     int n_elems;
     Language language;
-    TRICK_ALLOC_TYPE allocation_type;
+    TRICK_ALLOC_TYPE allocation_type = TRICK_ALLOC_MALLOC;
     void* address;
     ATTRIBUTES* sub_attr;
     ALLOC_INFO *new_alloc;
@@ -193,10 +193,24 @@ void* Trick::MemoryManager::declare_var( TRICK_TYPE type,
             new_alloc->num_index ++ ;
         }
 
+        /** @li The name may have been taken by another thread meanwhile. */
+        pthread_mutex_lock(&mm_mutex);
+        if (new_alloc->name && (variable_map.find( new_alloc->name) != variable_map.end())) {
+            pthread_mutex_unlock(&mm_mutex);
+            std::stringstream message;
+            message << "Variable \""<< var_name <<"\" already declared.\n";
+            emitError(message.str());
+            io_src_destruct_class( new_alloc );
+            free( address);
+            free( new_alloc->name);
+            free( new_alloc->user_type_name);
+            free( new_alloc);
+            return ((void*)NULL);
+        }
+
         new_alloc->id = alloc_info_map_counter++ ;
 
         /** @li Insert the <address, ALLOC_INFO> key-value pair into the alloc_info_map.*/
-        pthread_mutex_lock(&mm_mutex);
         alloc_info_map[address] = new_alloc;
 
         /** @li If this is a named allocation: then insert the <variable-name, ALLOC_INFO>
@@ -376,10 +390,9 @@ void* Trick::MemoryManager::declare_operatornew_var( std::string user_type_name,
         new_alloc->num_index = 1;
         new_alloc->index[0] = new_alloc->num ;
 
-        new_alloc->id = alloc_info_map_counter++ ;
-
         /** @li Insert the <address, ALLOC_INFO> key-value pair into the alloc_info_map.*/
         pthread_mutex_lock(&mm_mutex);
+        new_alloc->id = alloc_info_map_counter++ ;
         alloc_info_map[address] = new_alloc;
         /** @li If this is a named allocation: then insert the <variable-name, ALLOC_INFO>
             key-value pair into the variable map.*/
diff --git a/trick_source/sim_services/MemoryManager/MemoryManager_delete_var.cpp b/trick_source/sim_services/MemoryManager/MemoryManager_delete_var.cpp
index 008485b..580f13b 100644
--- a/trick_source/sim_services/MemoryManager/MemoryManager_delete_var.cpp
+++ b/trick_source/sim_services/MemoryManager/MemoryManager_delete_var.cpp
@@ -5,6 +5,7 @@
 #include <algorithm>
 #include <dlfcn.h>
 #include "trick/MemoryManager.hh"
+#include "trick/MutexLock.hh"
 
 // MEMBER FUNCTION
 int Trick::MemoryManager::delete_var(void* address ) {
@@ -19,31 +20,39 @@ int Trick::MemoryManager::delete_var(void* address ) {
     }
 
     // Find the allocation record for this address.
+    // BEGIN PROTECTION of the alloc_info_map and the variable_map.
+    pthread_mutex_lock(&mm_mutex);
     ALLOC_INFO * alloc_info = get_alloc_info_at( address);
 
     if ((alloc_info != NULL)) {
         /*
-           Remove the allocation from the map first so we don't have trouble
-           if io_src_destruct_class or io_src_delete_class calls delete_var recursively.
+           Remove the allocation from the maps first so we don't have trouble
+           if io_src_destruct_class or io_src_delete_class calls delete_var recursively,
+           or if another thread looks for the allocation.
          */
-        // BEGIN PROTECTION of the alloc_info_map.
-        pthread_mutex_lock(&mm_mutex);
         alloc_info_map.erase( address);
-        // END PROTECTION of the alloc_info_map.
-        pthread_mutex_unlock(&mm_mutex);
-
-        /* Verify that it's OK to free the memory at the given address.
-           It's OK if an allocation record exists for this address and the
-           MemoryManager allocated it.
-         */
+        if (alloc_info->name ) {
+            VARIABLE_MAP::iterator variable_pos = variable_map.find( alloc_info->name);
+            if ((variable_pos != variable_map.end()) && (variable_pos->second == alloc_info)) {
+                variable_map.erase( variable_pos);
+            }
+        }
         if ( alloc_info->stcl == TRICK_LOCAL ) {
-            // The destructor that we just called MAY have deleted addresses
+            // The destructor that we call MAY delete addresses
             // that are already planned for deletion, say during reset_memory.
             // So, keep a record of what we've recently deleted so we don't
             // to warn that we can't find it, when reset_memory also tries to
             // delete that same address. Same for TRICK_ALLOC_NEW block
             deleted_addr_list.push_back(address);
+        }
+        // END PROTECTION of the alloc_info_map and the variable_map.
+        pthread_mutex_unlock(&mm_mutex);
 
+        /* Verify that it's OK to free the memory at the given address.
+           It's OK if an allocation record exists for this address and the
+           MemoryManager allocated it.
+         */
+        if ( alloc_info->stcl == TRICK_LOCAL ) {
             if ( alloc_info->alloc_type == TRICK_ALLOC_MALLOC ) {
                 // This will call a destructor ONLY if alloc_info->type is TRICK_STRUCTURED.
                 // Otherwise it does nothing.
@@ -61,9 +70,6 @@ int Trick::MemoryManager::delete_var(void* address ) {
         }
 
         if (alloc_info->name ) {
-            pthread_mutex_lock(&mm_mutex);
-            variable_map.erase( alloc_info->name);
-            pthread_mutex_unlock(&mm_mutex);
             free(alloc_info->name);
         }
 
@@ -75,6 +81,8 @@ int Trick::MemoryManager::delete_var(void* address ) {
         free(alloc_info);
 
     } else {
+        // END PROTECTION of the alloc_info_map and the variable_map.
+        pthread_mutex_unlock(&mm_mutex);
 
         // The allocation (address) we're tring to delete may have just been
 	// deleted by a user's destructor (using delete_var). Check the deleted_addr_list
@@ -84,6 +92,7 @@ int Trick::MemoryManager::delete_var(void* address ) {
 
 	if ( resetting_memory == true) {
             // Check the deleted_addr_list to see whether we recently deleted this address.
+	    MutexLock lock(mm_mutex);
 	    std::list<void*>::iterator iter =
 	        std::find( deleted_addr_list.begin(), deleted_addr_list.end(), address );
 	    // If we didn't recently delete it, then there's a problem.
@@ -114,13 +123,13 @@ int Trick::MemoryManager::delete_var( std::string name) {
     VARIABLE_MAP::iterator pos;
     ALLOC_INFO *alloc_info;
 
-    pthread_mutex_lock(&mm_mutex);
+    // Hold the mutex so that it is still this variable that is deleted.
+    MutexLock lock(mm_mutex);
     pos = variable_map.find( name);
 
     if (pos != variable_map.end()) {
         alloc_info = pos->second;
 
-        pthread_mutex_unlock(&mm_mutex);
         return( delete_var( alloc_info->start));
     } else {
         std::stringstream message;
@@ -128,7 +137,6 @@ int Trick::MemoryManager::delete_var( std::string name) {
                 << "\" because it doesn't exist." ;
         emitError(message.str());
     }
-    pthread_mutex_unlock(&mm_mutex);
     return 1;
 }
 
diff --git a/trick_source/sim_services/MemoryManager/MemoryManager_get_attributes_for_address.cpp b/trick_source/sim_services/MemoryManager/MemoryManager_get_attributes_for_address.cpp
index fcd2897..091365f 100644
--- a/trick_source/sim_services/MemoryManager/MemoryManager_get_attributes_for_address.cpp
+++ b/trick_source/sim_services/MemoryManager/MemoryManager_get_attributes_for_address.cpp
@@ -1,6 +1,7 @@
 #include "trick/AttributesUtils.hh"
 #include "trick/ClassicCheckPointAgent.hh"
 #include "trick/MemoryManager.hh"
+#include "trick/MutexLock.hh"
 
 #include <string.h>
 
@@ -103,6 +104,8 @@ void Trick::MemoryManager::get_attributes_for_address(void* address, ATTRIBUTES&
         return;
     }
 
+    MutexLock lock(mm_mutex);
+
     /** Find the allocation that contains the pointer-address. */
     ALLOC_INFO* alloc_info = get_alloc_info_of(address);
 
diff --git a/trick_source/sim_services/MemoryManager/MemoryManager_get_enumerated.cpp b/trick_source/sim_services/MemoryManager/MemoryManager_get_enumerated.cpp
index 9b11468..5f0c757 100644
--- a/trick_source/sim_services/MemoryManager/MemoryManager_get_enumerated.cpp
+++ b/trick_source/sim_services/MemoryManager/MemoryManager_get_enumerated.cpp
@@ -1,4 +1,5 @@
 #include "trick/MemoryManager.hh"
+#include "trick/MutexLock.hh"
 #include <string.h>
 
 /**
@@ -12,6 +13,7 @@ int Trick::MemoryManager::get_enumerated(const char* name,
     ENUMERATION_MAP::iterator pos;
     ENUM_ATTR* enum_attr;
 
+    MutexLock lock(mm_mutex);
     for ( pos=enumeration_map.begin() ; pos != enumeration_map.end() && !found ; pos++ ) {
         enum_attr = pos->second;
         for (ii=0 ; enum_attr[ii].label[0] != '\0' && !found ; ii++ ) {
diff --git a/trick_source/sim_services/MemoryManager/MemoryManager_map_external_object.cpp b/trick_source/sim_services/MemoryManager/MemoryManager_map_external_object.cpp
index 3737547..3e02cc4 100644
--- a/trick_source/sim_services/MemoryManager/MemoryManager_map_external_object.cpp
+++ b/trick_source/sim_services/MemoryManager/MemoryManager_map_external_object.cpp
@@ -118,10 +118,22 @@ void* Trick::MemoryManager::
             new_alloc->num_index ++ ;
         }
 
+        /** @li The name may have been taken by another thread meanwhile. */
+        pthread_mutex_lock(&mm_mutex);
+        if (new_alloc->name && (variable_map.find( new_alloc->name) != variable_map.end())) {
+            pthread_mutex_unlock(&mm_mutex);
+            std::stringstream message;
+            message << "Variable \""<< var_name <<"\" already declared.";
+            emitError(message.str());
+            free( new_alloc->name);
+            free( new_alloc->user_type_name);
+            free( new_alloc);
+            return ((void*)NULL);
+        }
+
         new_alloc->id = extern_alloc_info_map_counter++ ;
 
         /** @li Insert the <address, ALLOC_INFO> key-value pair into the alloc_info_map.*/
-        pthread_mutex_lock(&mm_mutex);
         alloc_info_map[address] = new_alloc;
 
         /** @li Insert the <variable-name, ALLOC_INFO> key-value pair into the variable map. */
diff --git a/trick_source/sim_services/MemoryManager/MemoryManager_realloc.cpp b/trick_source/sim_services/MemoryManager/MemoryManager_realloc.cpp
index 72824ea..2d0c719 100644
--- a/trick_source/sim_services/MemoryManager/MemoryManager_realloc.cpp
+++ b/trick_source/sim_services/MemoryManager/MemoryManager_realloc.cpp
@@ -1,4 +1,5 @@
 #include "trick/MemoryManager.hh"
+#include "trick/MutexLock.hh"
 #include <dlfcn.h>
 #include <stdlib.h>
 #include <sstream>
@@ -61,12 +62,11 @@ void* Trick::MemoryManager::resize_array( void *address, int n_cdims, int *cdims
     void *new_address;
 
     /** @li Find the ALLOC_INFO record for the object at the given address.*/
-    pthread_mutex_lock(&mm_mutex);
+    MutexLock lock(mm_mutex);
     alloc_info = get_alloc_info_at( address);
 
     if (alloc_info == NULL) {
         emitError("Address passed to resize_array is NULL.") ;
-        pthread_mutex_unlock(&mm_mutex);
         return ( (void*)NULL);
     }
 
@@ -74,7 +74,6 @@ void* Trick::MemoryManager::resize_array( void *address, int n_cdims, int *cdims
         std::stringstream message;
         message << "Cannot resize the array at [" << address << "] because it's EXTERN.";
         emitError(message.str());
-        pthread_mutex_unlock(&mm_mutex);
         return ( (void*)NULL);
     }
 
@@ -82,7 +81,6 @@ void* Trick::MemoryManager::resize_array( void *address, int n_cdims, int *cdims
         std::stringstream message;
         message << "resize_array doesn't support STL strings.";
         emitError(message.str());
-        pthread_mutex_unlock(&mm_mutex);
         return ( (void*)NULL);
     }
 
@@ -94,7 +92,6 @@ void* Trick::MemoryManager::resize_array( void *address, int n_cdims, int *cdims
        }
     }
     n_stars = alloc_info->num_index - pre_n_cdims;
-    pthread_mutex_unlock(&mm_mutex);
 
     /** @li Verify that the number of constrained dimensions in the existing allocation
         are the same as those in the proposed re-allocation.*/
@@ -126,7 +123,6 @@ void* Trick::MemoryManager::resize_array( void *address, int n_cdims, int *cdims
     }
 
     /** @li Allocate new memory. */
-    pthread_mutex_lock(&mm_mutex);
     if ( (alloc_info->type == TRICK_STRUCTURED) &&
          (alloc_info->language == Language_CPP) &&
          (alloc_info->num_index == n_cdims) ) {
@@ -135,19 +131,16 @@ void* Trick::MemoryManager::resize_array( void *address, int n_cdims, int *cdims
             std::stringstream message;
             message << "io_src_allocate_class(" << alloc_info->user_type_name << "," << new_n_elems << ") failed to allocate any memory.";
             emitError(message.str());
-            pthread_mutex_unlock(&mm_mutex);
             return ((void*)NULL);
         }
     } else if ((alloc_info->type == TRICK_STRING) && (n_stars == 0 ) ) {
         new_address = new (std::nothrow) std::string[new_n_elems];
         if (new_address == NULL) {
-            pthread_mutex_unlock(&mm_mutex);
             return ((void*)NULL);
         }
     } else {
         if ( (new_address = calloc( (size_t)new_n_elems, (size_t)alloc_info->size ) ) == NULL) {
             emitError("Out of memory.") ;
-            pthread_mutex_unlock(&mm_mutex);
             return ((void*)NULL);
         }
     }
@@ -177,7 +170,6 @@ void* Trick::MemoryManager::resize_array( void *address, int n_cdims, int *cdims
 
     /** @li Insert the new <address, ALLOC_INFO> key-value pair into the alloc_info_map.*/
     alloc_info_map[alloc_info->start] = alloc_info;
-    pthread_mutex_unlock(&mm_mutex);
 
     /** @li If debug is enabled, show what happened.*/
     if (debug_level) {
@@ -208,19 +200,17 @@ void* Trick::MemoryManager::resize_array( const char* name, int n_cdims, int *cd
     VARIABLE_MAP::iterator pos;
     ALLOC_INFO *alloc_info;
 
-    pthread_mutex_lock(&mm_mutex);
+    MutexLock lock(mm_mutex);
     pos = variable_map.find( name);
 
     if (pos != variable_map.end()) {
         alloc_info = pos->second;
-        pthread_mutex_unlock(&mm_mutex);
         return( resize_array( alloc_info->start, n_cdims, cdims));
     } else {
         std::stringstream message;
         message << "Cannot resize variable \"" << name << "\" because it doesn't exist.";
         emitError(message.str());
     }
-    pthread_mutex_unlock(&mm_mutex);
     return NULL ;
 }
 
diff --git a/trick_source/sim_services/MemoryManager/MemoryManager_ref_attributes.cpp b/trick_source/sim_services/MemoryManager/MemoryManager_ref_attributes.cpp
index 242c271..54f42c1 100644
--- a/trick_source/sim_services/MemoryManager/MemoryManager_ref_attributes.cpp
+++ b/trick_source/sim_services/MemoryManager/MemoryManager_ref_attributes.cpp
@@ -4,6 +4,7 @@
 #include <stdlib.h>
 #include <sstream>
 #include "trick/MemoryManager.hh"
+#include "trick/MutexLock.hh"
 #include "trick/RefParseContext.hh"
 
 extern int REF_debug;
@@ -15,6 +16,9 @@ REF2 *Trick::MemoryManager::ref_attributes(const char* name) {
     RefParseContext* context = NULL;
 
     /** @par Design Details: */
+    /** @li The allocations must not change while the reference is parsed. */
+    MutexLock lock(mm_mutex);
+
     reference_sstream << name;
 
     REF_debug = 0;
diff --git a/trick_source/sim_services/MemoryManager/MemoryManager_write_checkpoint.cpp b/trick_source/sim_services/MemoryManager/MemoryManager_write_checkpoint.cpp
index d4c85ed..1502007 100644
--- a/trick_source/sim_services/MemoryManager/MemoryManager_write_checkpoint.cpp
+++ b/trick_source/sim_services/MemoryManager/MemoryManager_write_checkpoint.cpp
@@ -7,6 +7,7 @@
 #include <sys/stat.h>
 #include <algorithm> // std::sort()
 #include "trick/MemoryManager.hh"
+#include "trick/MutexLock.hh"
 
 // GreenHills stuff
 #if ( __ghs )
@@ -124,10 +125,12 @@ void Trick::MemoryManager::write_checkpoint( std::ostream& out_s) {
 
     ALLOC_INFO_MAP::iterator pos;
     ALLOC_INFO* alloc_info;
+
+    // The allocations must not change until the checkpoint is written.
+    MutexLock lock(mm_mutex);
     dependencies.clear();
     stl_dependencies.clear();
 
-    pthread_mutex_lock(&mm_mutex);
     for ( pos=alloc_info_map.begin() ; pos!=alloc_info_map.end() ; pos++ ) {
         alloc_info = pos->second;
         dependencies.push_back(alloc_info);
@@ -135,7 +138,6 @@ void Trick::MemoryManager::write_checkpoint( std::ostream& out_s) {
 
     // Sort the dependencies by ALLOC_INFO.id.
     std::sort( dependencies.begin() , dependencies.end() , alloc_info_id_compare) ;
-    pthread_mutex_unlock(&mm_mutex);
 
     execute_checkpoint( out_s );
 
@@ -193,12 +195,11 @@ int Trick::MemoryManager::write_checkpoint(const char* filename) {
 // MEMBER FUNCTION
 void Trick::MemoryManager::write_checkpoint( std::ostream& out_s, const char* var_name) {
 
+    MutexLock lock(mm_mutex);
     dependencies.clear();
     stl_dependencies.clear();
 
-    pthread_mutex_lock(&mm_mutex);
     get_alloc_deps_in_allocation( var_name);
-    pthread_mutex_unlock(&mm_mutex);
 
     execute_checkpoint( out_s );
 }
@@ -225,15 +226,14 @@ void Trick::MemoryManager::write_checkpoint( std::ostream& out_s, std::vector<co
     const char* var_name;
     int n_names;
 
+    MutexLock lock(mm_mutex);
     dependencies.clear();
     stl_dependencies.clear();
 
     n_names = var_name_list.size();
     for (int ii=0; ii< n_names; ii++) {
         var_name = var_name_list[ii];
-        pthread_mutex_lock(&mm_mutex);
         get_alloc_deps_in_allocation(var_name);
-        pthread_mutex_unlock(&mm_mutex);
     }
 
     execute_checkpoint( out_s );
-- 
2.43.0


From 833d90cf7e132623b807195ac247123fbd6b7a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:15 +0000
Subject: [PATCH 21/40] fix: TrickComm calls keep their contract on partial,
 interrupted and failing transfers

---
 trick_source/trick_utils/comm/src/tc_accept.c | 68 ++++++++++++-------
 .../trick_utils/comm/src/tc_connect.c         | 66 +++++++++++-------
 trick_source/trick_utils/comm/src/tc_init.c   |  3 +
 .../trick_utils/comm/src/tc_init_udp_client.c |  2 +
 .../trick_utils/comm/src/tc_pending.c         |  2 +-
 trick_source/trick_utils/comm/src/tc_read.c   |  5 ++
 .../trick_utils/comm/src/tc_read_byteswap.c   |  4 +-
 .../trick_utils/comm/src/trick_bswap_buffer.c |  5 ++
 8 files changed, 105 insertions(+), 50 deletions(-)

diff --git a/trick_source/trick_utils/comm/src/tc_accept.c b/trick_source/trick_utils/comm/src/tc_accept.c
index 2d076f2..0b663d9 100644
--- a/trick_source/trick_utils/comm/src/tc_accept.c
+++ b/trick_source/trick_utils/comm/src/tc_accept.c
@@ -13,15 +13,49 @@
 #include "trick/tc_proto.h"
 #include "trick/trick_byteswap.h"
 
+/*
+ * Exchange exactly size bytes during the handshake. A stream socket may move any part of them
+ * at a time, and signals interrupt the calls.
+ * Returns 0 if all were received, -1 if the other side went away before.
+ */
+static int handshake_recv(int the_socket, void *buffer, size_t size)
+{
+    char *data = (char *) buffer;
+
+    while (size > 0) {
+        int nbytes = recv(the_socket, data, size, 0);
+        if (nbytes > 0) {
+            data += nbytes;
+            size -= (size_t) nbytes;
+        } else if (nbytes == 0 || tc_errno != TRICKCOMM_EINTR) {
+            return (-1);
+        }
+    }
+    return (0);
+}
+
+static int handshake_send(int the_socket, const void *buffer, size_t size)
+{
+    const char *data = (const char *) buffer;
+
+    while (size > 0) {
+        int nbytes = send(the_socket, data, size, TC_NOSIGNAL);
+        if (nbytes >= 0) {
+            data += nbytes;
+            size -= (size_t) nbytes;
+        } else if (tc_errno != TRICKCOMM_EINTR) {
+            return (-1);
+        }
+    }
+    return (0);
+}
+
 int tc_accept_(TCDevice * listen_device, TCDevice * device, const char *file, int line)
 {
     socklen_t length;
-    int size;
     int the_socket;
     int net_client_id;
     int on = 1;
-    int tmp_rw;
-    char *ptrL;
     char client_str[TC_TAG_LENGTH + 256];
     unsigned char byte_info[TC_BYTE_INFO_LENGTH];
     struct sockaddr_in s_in;
@@ -70,11 +104,7 @@ int tc_accept_(TCDevice * listen_device, TCDevice * device, const char *file, in
 
     if (!device->disable_handshaking) {
         /* Read the client byte order */
-        /* if -1, check for SIGNAL interupt and loop until data is returned */
-        ptrL = (char *) device->byte_info;
-        size = sizeof(device->byte_info);
-        while ((tmp_rw = recv(the_socket, ptrL, (size_t) size, 0)) < 0 && tc_errno == TRICKCOMM_EINTR);
-        if (tmp_rw < 0) {
+        if (handshake_recv(the_socket, device->byte_info, sizeof(device->byte_info)) < 0) {
             trick_error_report(listen_device->error_handler,
                                TRICK_ERROR_ALERT, file, line,
                                "tc_accept: %s: could not read byte info from client\n", client_str);
@@ -83,11 +113,7 @@ int tc_accept_(TCDevice * listen_device, TCDevice * device, const char *file, in
         }
 
         /* Read the client id */
-        /* if -1, check for SIGNAL interupt and loop until data is returned */
-        ptrL = (char *) &net_client_id;
-        size = sizeof(net_client_id);
-        while ((tmp_rw = recv(the_socket, ptrL, (size_t) size, 0)) < 0 && tc_errno == TRICKCOMM_EINTR);
-        if (tmp_rw < 0) {
+        if (handshake_recv(the_socket, &net_client_id, sizeof(net_client_id)) < 0) {
             trick_error_report(listen_device->error_handler,
                                TRICK_ERROR_ALERT, file, line,
                                "tc_accept: %s: could not read client_id from client\n", client_str);
@@ -98,28 +124,22 @@ int tc_accept_(TCDevice * listen_device, TCDevice * device, const char *file, in
         /* Convert client ID from network to host byte order and save */
         device->client_id = ntohl((uint32_t) net_client_id);
 
-        /* Read the client tag name If -1, check for SIGNAL interupt and loop until data is returned */
-        ptrL = (char *) device->client_tag;
-        size = sizeof(device->client_tag);
-        while ((tmp_rw = recv(the_socket, ptrL, (size_t) size, 0)) < 0 && tc_errno == TRICKCOMM_EINTR);
-        if (tmp_rw < 0) {
+        /* Read the client tag name */
+        if (handshake_recv(the_socket, device->client_tag, sizeof(device->client_tag)) < 0) {
             trick_error_report(listen_device->error_handler,
                                TRICK_ERROR_ALERT, file, line,
                                "tc_accept: %s: could not read client_tag from client\n", client_str);
             CLOSE_SOCKET(the_socket);
             return (TC_COULD_NOT_ACCEPT);
         }
+        device->client_tag[TC_TAG_LENGTH - 1] = '\0';
 
         /* Set the byte order and type size info of the server */
         TRICK_GET_BYTE_ORDER(byte_info[TC_BYTE_ORDER_NDX]);
         byte_info[TC_LONG_SIZE_NDX] = (unsigned char) sizeof(long);
 
-        /* Send the server byte info.  It's a char array, so there's no need to convert to network byte order. If -1,
-           check for SIGNAL interupt and loop until data is returned */
-        ptrL = (char *) byte_info;
-        size = sizeof(byte_info);
-        while ((tmp_rw = send(the_socket, ptrL, (size_t) size, 0)) < 0 && tc_errno == TRICKCOMM_EINTR);
-        if (tmp_rw < 0) {
+        /* Send the server byte info.  It's a char array, so there's no need to convert to network byte order. */
+        if (handshake_send(the_socket, byte_info, sizeof(byte_info)) < 0) {
             trick_error_report(listen_device->error_handler,
                                TRICK_ERROR_ALERT, file, line,
                                "tc_accept: %s: could not send client byte info to server\n", client_str);
diff --git a/trick_source/trick_utils/comm/src/tc_connect.c b/trick_source/trick_utils/comm/src/tc_connect.c
index adcc35a..325c5e6 100644
--- a/trick_source/trick_utils/comm/src/tc_connect.c
+++ b/trick_source/trick_utils/comm/src/tc_connect.c
@@ -16,16 +16,50 @@
 #include "trick/tc_proto.h"
 #include "trick/trick_byteswap.h"
 
+/*
+ * Exchange exactly size bytes during the handshake. A stream socket may move any part of them
+ * at a time, and signals interrupt the calls.
+ * Returns 0 if all were received, -1 if the other side went away before.
+ */
+static int handshake_recv(int the_socket, void *buffer, size_t size)
+{
+    char *data = (char *) buffer;
+
+    while (size > 0) {
+        int nbytes = recv(the_socket, data, size, 0);
+        if (nbytes > 0) {
+            data += nbytes;
+            size -= (size_t) nbytes;
+        } else if (nbytes == 0 || tc_errno != TRICKCOMM_EINTR) {
+            return (-1);
+        }
+    }
+    return (0);
+}
+
+static int handshake_send(int the_socket, const void *buffer, size_t size)
+{
+    const char *data = (const char *) buffer;
+
+    while (size > 0) {
+        int nbytes = send(the_socket, data, size, TC_NOSIGNAL);
+        if (nbytes >= 0) {
+            data += nbytes;
+            size -= (size_t) nbytes;
+        } else if (tc_errno != TRICKCOMM_EINTR) {
+            return (-1);
+        }
+    }
+    return (0);
+}
+
 int tc_connect_(TCDevice * device, const char *file, int line)
 {
     struct sockaddr_in sockin;
     struct hostent *ip_host;
-    size_t size;
     int the_socket;
     int net_client_id;
     int on = 1;
-    int tmp_rw;
-    char *ptrL;
     char client_str[TC_TAG_LENGTH + 512];
     int ret;
 #ifdef __WIN32__
@@ -133,12 +167,8 @@ int tc_connect_(TCDevice * device, const char *file, int line)
         TRICK_GET_BYTE_ORDER(device->byte_info[TC_BYTE_ORDER_NDX]);
         device->byte_info[TC_LONG_SIZE_NDX] = (unsigned char) sizeof(long);
 
-        /* Send the client byte info.  It's a char array, so there's no need to convert to network byte order. If -1,
-           check for SIGNAL interupt and loop until data is returned */
-        ptrL = (char *) device->byte_info;
-        size = sizeof(device->byte_info);
-        while ((tmp_rw = send(the_socket, ptrL, size, 0)) < 0 && tc_errno == TRICKCOMM_EINTR);
-        if (tmp_rw < 0) {
+        /* Send the client byte info.  It's a char array, so there's no need to convert to network byte order. */
+        if (handshake_send(the_socket, device->byte_info, sizeof(device->byte_info)) < 0) {
             trick_error_report(device->error_handler,
                                TRICK_ERROR_ALERT, file, line,
                                "%s: could not send client byte info to server\n", client_str);
@@ -149,11 +179,7 @@ int tc_connect_(TCDevice * device, const char *file, int line)
         /* Send client ID after converting from host to network byte order */
         net_client_id = htonl((uint32_t) device->client_id);
 
-        /* If -1, check for signal interupt and loop until data is returned */
-        ptrL = (char *) &net_client_id;
-        size = sizeof(net_client_id);
-        while ((tmp_rw = send(the_socket, ptrL, size, 0)) < 0 && tc_errno == TRICKCOMM_EINTR);
-        if (tmp_rw < 0) {
+        if (handshake_send(the_socket, &net_client_id, sizeof(net_client_id)) < 0) {
             trick_error_report(device->error_handler,
                                TRICK_ERROR_ALERT, file, line, "%s: could not send client id to server\n", client_str);
             CLOSE_SOCKET(the_socket);
@@ -161,11 +187,7 @@ int tc_connect_(TCDevice * device, const char *file, int line)
         }
 
         /* Send the client tag name across */
-        /* if -1, check for SIGNAL interupt and loop until data is returned */
-        ptrL = device->client_tag;
-        size = sizeof(device->client_tag);
-        while ((tmp_rw = send(the_socket, ptrL, size, 0)) < 0 && tc_errno == TRICKCOMM_EINTR);
-        if (tmp_rw < 0) {
+        if (handshake_send(the_socket, device->client_tag, sizeof(device->client_tag)) < 0) {
             trick_error_report(device->error_handler,
                                TRICK_ERROR_ALERT, file, line, "%s: could not send client tag to server\n", client_str);
             CLOSE_SOCKET(the_socket);
@@ -173,11 +195,7 @@ int tc_connect_(TCDevice * device, const char *file, int line)
         }
 
         /* Read the server byte order */
-        /* if -1, check for SIGNAL interupt and loop until data is returned */
-        ptrL = (char *) device->byte_info;
-        size = sizeof(device->byte_info);
-        while ((tmp_rw = recv(the_socket, ptrL, size, 0)) < 0 && tc_errno == TRICKCOMM_EINTR);
-        if (tmp_rw < 0) {
+        if (handshake_recv(the_socket, device->byte_info, sizeof(device->byte_info)) < 0) {
             trick_error_report(device->error_handler,
                                TRICK_ERROR_ALERT, file, line, "%s: could not read byte info from client\n", client_str);
             CLOSE_SOCKET(the_socket);
diff --git a/trick_source/trick_utils/comm/src/tc_init.c b/trick_source/trick_utils/comm/src/tc_init.c
index a82b628..b43de60 100644
--- a/trick_source/trick_utils/comm/src/tc_init.c
+++ b/trick_source/trick_utils/comm/src/tc_init.c
@@ -97,6 +97,7 @@ int tc_init_with_connection_info( TCDevice * listen_device,
     } else {
         listen_device->hostname = NULL ;
         fprintf(stderr, "cannot determine source address!\n") ;
+        CLOSE_SOCKET(listen_socket);
         return -1 ;
     }
     listen_device->socket_type = type ;
@@ -108,6 +109,7 @@ int tc_init_with_connection_info( TCDevice * listen_device,
         trick_error_report(listen_device->error_handler,
                            TRICK_ERROR_ADVISORY, __FILE__, __LINE__,
                            "could not bind socket for port %d: %s\n", listen_device->port, strerror(errno));
+        CLOSE_SOCKET(listen_socket);
         return (TC_COULD_NOT_BIND_SOCKET);
     }
 
@@ -125,6 +127,7 @@ int tc_init_with_connection_info( TCDevice * listen_device,
             trick_error_report(listen_device->error_handler,
                                TRICK_ERROR_ADVISORY, __FILE__, __LINE__,
                                "could not listen on port %d: %s\n", listen_device->port, strerror(errno));
+            CLOSE_SOCKET(listen_socket);
             return (TC_COULD_NOT_LISTEN_SOCKET);
         }
     }
diff --git a/trick_source/trick_utils/comm/src/tc_init_udp_client.c b/trick_source/trick_utils/comm/src/tc_init_udp_client.c
index 2f2cd02..34a3991 100644
--- a/trick_source/trick_utils/comm/src/tc_init_udp_client.c
+++ b/trick_source/trick_utils/comm/src/tc_init_udp_client.c
@@ -70,6 +70,7 @@ int tc_init_udp_client(TCDevice * udp_client_device)
                            TRICK_ERROR_ALERT, __FILE__, __LINE__,
                            "Could not bind socket for port %d\n", (udp_client_device->port));
 
+        CLOSE_SOCKET(the_socket);
         return (TC_COULD_NOT_BIND_SOCKET);
     }
 
@@ -79,6 +80,7 @@ int tc_init_udp_client(TCDevice * udp_client_device)
         trick_error_report(udp_client_device->error_handler,
                            TRICK_ERROR_ALERT, __FILE__, __LINE__, "Host %s not found.\n", udp_client_device->hostname);
 
+        CLOSE_SOCKET(the_socket);
         return (TC_HOST_NOT_FOUND);
     }
 
diff --git a/trick_source/trick_utils/comm/src/tc_pending.c b/trick_source/trick_utils/comm/src/tc_pending.c
index 82e314f..3853d3d 100644
--- a/trick_source/trick_utils/comm/src/tc_pending.c
+++ b/trick_source/trick_utils/comm/src/tc_pending.c
@@ -15,7 +15,7 @@
 
 int tc_pending(TCDevice * device)
 {
-    int n_read;
+    int n_read = 0;
 
     if (!device) {
         TrickErrorHndlr *temp_error_hndlr = NULL;
diff --git a/trick_source/trick_utils/comm/src/tc_read.c b/trick_source/trick_utils/comm/src/tc_read.c
index 82994d6..579456a 100644
--- a/trick_source/trick_utils/comm/src/tc_read.c
+++ b/trick_source/trick_utils/comm/src/tc_read.c
@@ -76,6 +76,11 @@ int tc_read_(TCDevice * device, char *buffer, int size, const char *file, int li
                                       TC_NOSIGNAL, (struct sockaddr *) &device->cliAddr, &cliLen)) < 0
                && tc_errno == TRICKCOMM_EINTR);
 
+        /* An empty datagram is a whole read, it does not tell anything about a connection */
+        if (tmp_nbytes == 0 && device->socket_type == SOCK_DGRAM) {
+            break;
+        }
+
         /* if tmp_nbytes == 0, that is a broken pipe, break out */
         if (tmp_nbytes == 0) {
             trick_error_report(device->error_handler, TRICK_ERROR_ALERT, file, line,
diff --git a/trick_source/trick_utils/comm/src/tc_read_byteswap.c b/trick_source/trick_utils/comm/src/tc_read_byteswap.c
index 0a6f061..086e6c3 100644
--- a/trick_source/trick_utils/comm/src/tc_read_byteswap.c
+++ b/trick_source/trick_utils/comm/src/tc_read_byteswap.c
@@ -49,7 +49,9 @@ int tc_read_byteswap(TCDevice * device, char *buffer, int size, ATTRIBUTES * att
     if (device->byte_info[TC_BYTE_ORDER_NDX] != local_byteorder) {
         memset(swap_buffer->swap_space, 0, (size_t) size);
         ret = tc_read(device, (char *) swap_buffer->swap_space, size);
-        trick_bswap_buffer(buffer, swap_buffer->swap_space, attr, 0);
+        if (ret > 0) {
+            trick_bswap_buffer(buffer, swap_buffer->swap_space, attr, 0);
+        }
         return (ret);
     } else {
         return (tc_read(device, (char *) buffer, size));
diff --git a/trick_source/trick_utils/comm/src/trick_bswap_buffer.c b/trick_source/trick_utils/comm/src/trick_bswap_buffer.c
index beb5499..07963da 100644
--- a/trick_source/trick_utils/comm/src/trick_bswap_buffer.c
+++ b/trick_source/trick_utils/comm/src/trick_bswap_buffer.c
@@ -74,10 +74,15 @@ void *trick_bswap_buffer(void *out, void *in, ATTRIBUTES * attr, int tofrom)
             }
             if (shift > 0) {
                 ti = ti << shift;
+                mask = mask << shift;
             } else {
                 ti = ti >> -shift;
+                mask = mask >> -shift;
             }
 
+            /* Clear what the buffer held in the place of the new bits */
+            *(unsigned int *) ((char *) out + attr[i].offset) &= ~mask;
+
             /* Mask in the new bits */
             *(int *) ((char *) out + attr[i].offset) |= ti;
 
-- 
2.43.0


From 6af5669de5d45a3701fcb707f9e989091cb29b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:15 +0000
Subject: [PATCH 22/40] fix: UDP and multicast connections keep datagrams and
 failures apart

---
 include/trick/MulticastGroup.hh               |  1 -
 include/trick/UDPConnection.hh                |  2 +
 .../connection_handlers/MulticastGroup.cpp    | 83 +++++--------------
 .../connection_handlers/UDPConnection.cpp     | 72 ++++++++--------
 4 files changed, 58 insertions(+), 100 deletions(-)

diff --git a/include/trick/MulticastGroup.hh b/include/trick/MulticastGroup.hh
index c6095b3..1b5665e 100644
--- a/include/trick/MulticastGroup.hh
+++ b/include/trick/MulticastGroup.hh
@@ -44,7 +44,6 @@ namespace Trick {
             
         private:
             std::vector<struct sockaddr_in> _addresses;           /**<  trick_io(**) Addresses to multicast to. */
-            bool _initialized;                                    /**<  trick_io(**) Whether this object is ready */
 
             struct sockaddr_in _self_info ;                       /**<  trick_io(**) Save self information so we don't process our own messages */
 
diff --git a/include/trick/UDPConnection.hh b/include/trick/UDPConnection.hh
index c64539d..77d61d2 100644
--- a/include/trick/UDPConnection.hh
+++ b/include/trick/UDPConnection.hh
@@ -43,6 +43,8 @@ namespace Trick {
             virtual int getClientPort() override;
             
         protected:
+            static int receive_commands (SystemInterface * system_interface, int socket, std::string& message, int max_len, struct sockaddr_in& sender);
+
             bool _initialized;
             bool _started;
             int _socket;
diff --git a/trick_source/trick_utils/connection_handlers/MulticastGroup.cpp b/trick_source/trick_utils/connection_handlers/MulticastGroup.cpp
index 35c9bc6..b963e4f 100644
--- a/trick_source/trick_utils/connection_handlers/MulticastGroup.cpp
+++ b/trick_source/trick_utils/connection_handlers/MulticastGroup.cpp
@@ -1,12 +1,13 @@
 #include "trick/MulticastGroup.hh"
 #include <string.h>
 #include <vector>
-#include <sstream>
 
 
 Trick::MulticastGroup::MulticastGroup() : MulticastGroup(new SystemInterface) {}
 
-Trick::MulticastGroup::MulticastGroup (SystemInterface * system_interface) : _initialized(false), _system_interface(system_interface) {}
+Trick::MulticastGroup::MulticastGroup (SystemInterface * system_interface) : _system_interface(system_interface) {
+    memset(&_self_info, 0, sizeof(_self_info));
+}
 
 Trick::MulticastGroup::~MulticastGroup() {}
 
@@ -14,7 +15,7 @@ int Trick::MulticastGroup::restart () {
     // Keep address list the same, but we may need to get a new socket
     _system_interface = new SystemInterface();
     // return initialize();
-    // return 0;
+    return 0;
 }
 
 
@@ -23,9 +24,8 @@ int Trick::MulticastGroup::broadcast (std::string message) {
         return -1;
     }
 
-    const char * message_send = message.c_str();
     for (struct sockaddr_in& address : _addresses) {
-        int status = _system_interface->sendto(_socket , message_send , strlen(message_send) , 0 , (struct sockaddr *)&address , (socklen_t)sizeof(address)) ;
+        int status = _system_interface->sendto(_socket , message.data() , message.length() , 0 , (struct sockaddr *)&address , (socklen_t)sizeof(address)) ;
         if (status == -1) {
             char * readable_addr = inet_ntoa( address.sin_addr );
             std::string err_msg = "MulticastGroup: Failed to broadcast to address " + std::string(readable_addr);
@@ -66,11 +66,13 @@ int Trick::MulticastGroup::initialize() {
     int option_value = 1;
     if (_system_interface->setsockopt(_socket, SOL_SOCKET, SO_REUSEADDR, (char *) &option_value, (socklen_t) sizeof(option_value)) < 0) {
         perror("MulticastGroup: setsockopt: reuseaddr");
+        _system_interface->close(_socket);
         return -1;
     }
 #ifdef SO_REUSEPORT
     if (_system_interface->setsockopt(_socket, SOL_SOCKET, SO_REUSEPORT, (char *) &option_value, sizeof(option_value)) < 0) {
         perror("MulticastGroup: setsockopt: reuseport");
+        _system_interface->close(_socket);
         return -1;
     }
 #endif
@@ -79,7 +81,9 @@ int Trick::MulticastGroup::initialize() {
 }
 
 int Trick::MulticastGroup::initialize_with_receiving(std::string addr, std::string mcast_addr, int port) {
-    UDPConnection::initialize(addr, port);
+    if (UDPConnection::initialize(addr, port) != 0) {
+        return -1;
+    }
 
     struct ip_mreq mreq;
     mreq.imr_multiaddr.s_addr = inet_addr(mcast_addr.c_str());
@@ -87,6 +91,7 @@ int Trick::MulticastGroup::initialize_with_receiving(std::string addr, std::stri
     int ret = setsockopt(_socket, IPPROTO_IP, IP_ADD_MEMBERSHIP, &mreq, sizeof(mreq)) ;
     if ( ret < 0 ) {
         perror("ip_add_membership") ;
+        UDPConnection::disconnect();
         return ret ;
     }
 
@@ -120,6 +125,8 @@ int Trick::MulticastGroup::initialize_with_receiving(std::string addr, std::stri
 int Trick::MulticastGroup::disconnect() {
     if (_initialized) {
         _system_interface->close(_socket);
+        _initialized = false;
+        _started = false;
     }
     return 0;
 }
@@ -138,11 +145,9 @@ int Trick::MulticastGroup::write (const std::string& message) {
     if (!_started)
         return -1;
 
-    char send_buf[message.length()+1];
-    strcpy (send_buf, message.c_str());
     socklen_t sock_size = sizeof(_remote_serv_addr);
 
-    return _system_interface->sendto(_socket, send_buf, message.length(), 0, (struct sockaddr *) &_remote_serv_addr, sock_size );
+    return _system_interface->sendto(_socket, message.data(), message.length(), 0, (struct sockaddr *) &_remote_serv_addr, sock_size );
 }
 
 
@@ -150,65 +155,17 @@ int Trick::MulticastGroup::read  (std::string& message, int max_len) {
     if (!_started)
         return 0;
 
-    struct sockaddr_in s_in ;
-    socklen_t sock_size = sizeof(s_in) ;
-
-    char incoming_msg[max_len];
-    int nbytes = _system_interface->recvfrom( _socket, incoming_msg, MAX_CMD_LEN, MSG_PEEK,(struct sockaddr *)&s_in, &sock_size ) ;
-
-    if (nbytes == 0 ) {
-        return 0;
-    }
-
-    if (nbytes == -1) {
-        if (errno == EAGAIN || errno == EWOULDBLOCK) {
-            // There's nothing ready in the socket, just return an empty string
-            message = "";
-            return 0;
-        }
-
-        // Otherwise, some other system error has occurred. Return an error.
-        return -1;
-    }
+    struct sockaddr_in sender ;
+    memset(&sender, 0, sizeof(sender)) ;
+    int nbytes = receive_commands(_system_interface, _socket, message, max_len, sender) ;
 
     // Make sure that this message isn't from ourself
-    if ( s_in.sin_addr.s_addr == _self_info.sin_addr.s_addr && s_in.sin_port == _self_info.sin_port) {
-        // Clear out the socket
-        _system_interface->recvfrom( _socket, incoming_msg, MAX_CMD_LEN, 0 , 0, 0) ;
+    if ( nbytes > 0 && sender.sin_addr.s_addr == _self_info.sin_addr.s_addr && sender.sin_port == _self_info.sin_port) {
+        message = "" ;
         return 0;
     }
 
-    /* find the last newline that is present on the socket */
-    incoming_msg[nbytes] = '\0' ;
-    char *last_newline = rindex( incoming_msg , '\n') ;
-
-    /* if there is a newline then there is a complete command on the socket */
-    if ( last_newline != NULL ) {
-        socklen_t sock_size = sizeof(_remote_serv_addr);
-        /* only remove up to (and including) the last newline on the socket */
-        int size = last_newline - incoming_msg + 1;
-        nbytes = _system_interface->recvfrom( _socket, incoming_msg, size, 0 , 0, 0) ;
-    } else {
-        nbytes = 0 ;
-    }
-    
-    std::stringstream msg_stream;
-
-    if ( nbytes > 0 ) {
-        // Strip out \r characers
-
-        int msg_len = nbytes ;
-        incoming_msg[msg_len] = '\0' ;
-
-        for( int ii = 0 , jj = 0 ; ii <= msg_len ; ii++ ) {
-            if ( incoming_msg[ii] != '\r' ) {
-                msg_stream << incoming_msg[ii] ;
-            }
-        }
-    }
-
-    message = msg_stream.str();
-    return message.size();
+    return nbytes ;
 }
 
 std::string Trick::MulticastGroup::getClientHostname() {
diff --git a/trick_source/trick_utils/connection_handlers/UDPConnection.cpp b/trick_source/trick_utils/connection_handlers/UDPConnection.cpp
index e907697..118a89f 100644
--- a/trick_source/trick_utils/connection_handlers/UDPConnection.cpp
+++ b/trick_source/trick_utils/connection_handlers/UDPConnection.cpp
@@ -1,13 +1,15 @@
 #include "trick/UDPConnection.hh"
 
-#include <sstream>
+#include <vector>
 #include <iostream>
 #include <cstring>
 #include <strings.h>
 #include <arpa/inet.h>
 
 Trick::UDPConnection::UDPConnection () : UDPConnection(new SystemInterface()) {}
-Trick::UDPConnection::UDPConnection (SystemInterface * system_interface) : _started(false), _initialized(false), _port(0), _hostname(""), _system_interface(system_interface), _socket(0) {}
+Trick::UDPConnection::UDPConnection (SystemInterface * system_interface) : _started(false), _initialized(false), _port(0), _hostname(""), _system_interface(system_interface), _socket(0) {
+    memset(&_remote_serv_addr, 0, sizeof(_remote_serv_addr));
+}
 
 int Trick::UDPConnection::initialize(const std::string& in_hostname, int in_port) {
 
@@ -54,6 +56,7 @@ int Trick::UDPConnection::initialize(const std::string& in_hostname, int in_port
         _hostname = in_hostname;
     } else {
         perror("UDP socket: Could not determine source address");
+        _system_interface->close (_socket);
         return -1 ;
     }
 
@@ -110,27 +113,39 @@ int Trick::UDPConnection::write (const std::string& message) {
     if (!_started)
         return -1;
 
-    char send_buf[message.length()+1];
-    strcpy (send_buf, message.c_str());
     socklen_t sock_size = sizeof(_remote_serv_addr);
 
-    return _system_interface->sendto(_socket, send_buf, message.length(), 0, (struct sockaddr *) &_remote_serv_addr, sock_size );
+    return _system_interface->sendto(_socket, message.data(), message.length(), 0, (struct sockaddr *) &_remote_serv_addr, sock_size );
 }
 
 int Trick::UDPConnection::read  (std::string& message, int max_len) {
     if (!_started)
         return 0;
 
-    char incoming_msg[max_len];
-    int nbytes = _system_interface->recvfrom( _socket, incoming_msg, MAX_CMD_LEN, MSG_PEEK, NULL, NULL ) ;
-    if (nbytes == 0 ) {
-        return 0;
+    struct sockaddr_in sender ;
+    memset(&sender, 0, sizeof(sender)) ;
+    int nbytes = receive_commands(_system_interface, _socket, message, max_len, sender) ;
+    if ( nbytes > 0 ) {
+        /* Save the remote host information so we know where to send replies */
+        _remote_serv_addr = sender ;
     }
+    return nbytes ;
+}
+
+/* Takes one whole datagram from the socket and passes the complete commands in it. What follows the last newline
+   can never be completed by another datagram, it is dropped. */
+int Trick::UDPConnection::receive_commands (SystemInterface * system_interface, int socket, std::string& message, int max_len, struct sockaddr_in& sender) {
+    int max_receive_length = max_len < MAX_CMD_LEN ? max_len : MAX_CMD_LEN ;
+    std::vector<char> incoming_msg(max_receive_length) ;
+    socklen_t sock_size = sizeof(sender) ;
+
+    message = "" ;
+
+    int nbytes = system_interface->recvfrom( socket, incoming_msg.data(), max_receive_length, 0, (struct sockaddr *) &sender, &sock_size ) ;
 
     if (nbytes == -1) {
-        if (errno == EAGAIN || errno == EWOULDBLOCK) {
+        if (errno == EAGAIN || errno == EWOULDBLOCK || errno == EINTR) {
             // There's nothing ready in the socket, just return an empty string
-            message = "";
             return 0;
         }
 
@@ -138,37 +153,22 @@ int Trick::UDPConnection::read  (std::string& message, int max_len) {
         return -1;
     }
 
-    /* find the last newline that is present on the socket */
-    incoming_msg[nbytes] = '\0' ;
-    char *last_newline = rindex( incoming_msg , '\n') ;
-
-    /* if there is a newline then there is a complete command on the socket */
-    if ( last_newline != NULL ) {
-        socklen_t sock_size = sizeof(_remote_serv_addr);
-        /* Save the remote host information so we know where to send replies */
-        /* only remove up to (and including) the last newline on the socket */
-        int size = last_newline - incoming_msg + 1;
-        nbytes = _system_interface->recvfrom( _socket, incoming_msg, size, 0 , (struct sockaddr *) &_remote_serv_addr, &sock_size ) ;
-    } else {
-        nbytes = 0 ;
+    /* find the last newline, if there is one there is at least one complete command */
+    while ( nbytes > 0 && incoming_msg[nbytes - 1] != '\n' ) {
+        nbytes-- ;
+    }
+    if ( nbytes == 0 ) {
+        return 0 ;
     }
-    
-    std::stringstream msg_stream;
 
-    if ( nbytes > 0 ) {
+    for ( int ii = 0 ; ii < nbytes ; ii++ ) {
         // Strip out \r characers
-
-        int msg_len = nbytes ;
-        incoming_msg[msg_len] = '\0' ;
-
-        for( int ii = 0 , jj = 0 ; ii <= msg_len ; ii++ ) {
-            if ( incoming_msg[ii] != '\r' ) {
-                msg_stream << incoming_msg[ii] ;
-            }
+        if ( incoming_msg[ii] != '\r' ) {
+            message += incoming_msg[ii] ;
         }
     }
+    message += '\0' ;
 
-    message = msg_stream.str();
     return message.size();
 }
 
-- 
2.43.0


From d326b6b7f0d7cdc72e47468681e4829a1a92d241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:15 +0000
Subject: [PATCH 23/40] fix: events keep their schedule when events are added
 and removed while the simulation runs

---
 include/trick/Event.hh                        |   8 +-
 include/trick/EventManager.hh                 |  16 +++
 include/trick/EventProcessor.hh               |  18 +++
 include/trick/IPPythonEvent.hh                |   5 +
 include/trick/JobData.hh                      |   7 ++
 .../EventManager/EventManager.cpp             | 105 +++++++++++-------
 .../EventManager/EventProcessor.cpp           |  81 ++++++++++----
 .../InputProcessor/IPPythonEvent.cpp          |   4 +-
 .../sim_services/SimObject/JobData.cpp        |  48 ++++----
 9 files changed, 206 insertions(+), 86 deletions(-)

diff --git a/include/trick/Event.hh b/include/trick/Event.hh
index d54dd0f..7c6b9fd 100644
--- a/include/trick/Event.hh
+++ b/include/trick/Event.hh
@@ -5,6 +5,7 @@
 */
 #include <string>
 #include <iostream>
+#include <math.h>
 #include "trick/mm_macros.hh"
 #include "trick/exec_proto.h"
 
@@ -103,7 +104,7 @@ class Event {
          @code <event_object>.set_cycle(<rate>) @endcode
          @return always 0
         */
-        void set_cycle(double rate) { cycle = rate ; cycle_tics = (long long)(cycle * exec_get_time_tic_value()) ; } ;
+        void set_cycle(double rate) { cycle = rate ; cycle_tics = (long long)round(cycle * exec_get_time_tic_value()) ; } ;
 
         /**
          @brief Gets the current event cycle in seconds
@@ -156,6 +157,11 @@ class Event {
         */
         void set_target_inst(unsigned int in_target_inst) { target_inst = in_target_inst ; } ;
 
+        /**
+         @brief returns if the event has something to do when it is evaluated.
+        */
+        virtual bool needs_processing() { return is_active() ; } ;
+
         /** process the event */
         virtual int process( long long curr_time ) = 0 ;
 
diff --git a/include/trick/EventManager.hh b/include/trick/EventManager.hh
index 029fbe9..b7e7e29 100644
--- a/include/trick/EventManager.hh
+++ b/include/trick/EventManager.hh
@@ -18,6 +18,7 @@
 
 #include <string>
 #include <vector>
+#include <pthread.h>
 
 #include "trick/Event.hh"
 #include "trick/EventInstrument.hh"
@@ -40,6 +41,7 @@ namespace Trick {
              @brief Constructor.
             */
             EventManager() ;
+            ~EventManager() ;
 
             /**
              @brief Command to get the event object given the event's name (needed after a reload from checkpoint).
@@ -149,6 +151,9 @@ namespace Trick {
             /** Number of active events allocated\n */
             unsigned int num_allocated ;                  /**< trick_io(*io) trick_units(--) */
 
+            /** The lists of this class are used by all threads.\n */
+            pthread_mutex_t mutex ;                       /**< trick_io(**) */
+
             /** All of the event processors, one per thread. */
             std::vector< Trick::EventProcessor * > event_processors ;  /**< trick_io(**) */
 
@@ -159,6 +164,17 @@ namespace Trick {
              @brief Add user's event to manager's list of events; don't add it if it's already in list.
             */
             int add_to_active_events(Trick::Event * in_event) ;
+
+            /**
+             @brief Detach the event from all jobs it is attached to, all events if in_event is NULL.
+            */
+            void remove_instruments(Trick::Event * in_event) ;
+
+        private:
+
+            // owns a mutex, not copyable.
+            EventManager(const EventManager &) ;
+            EventManager & operator=(const EventManager &) ;
     } ;
 
 }
diff --git a/include/trick/EventProcessor.hh b/include/trick/EventProcessor.hh
index 9d98107..10e8a09 100644
--- a/include/trick/EventProcessor.hh
+++ b/include/trick/EventProcessor.hh
@@ -18,6 +18,8 @@
 
 #include <queue>
 #include <set>
+#include <vector>
+#include <pthread.h>
 
 #include "trick/Event.hh"
 #include "trick/JobData.hh"
@@ -37,6 +39,9 @@ namespace Trick {
 
         public:
 
+            EventProcessor() ;
+            ~EventProcessor() ;
+
             /**
              @brief Sets the process_event_job pointer.
             */
@@ -72,8 +77,21 @@ namespace Trick {
 
         private:
 
+            // owns a mutex, not copyable.
+            EventProcessor(const EventProcessor &) ;
+            EventProcessor & operator=(const EventProcessor &) ;
+
+            /** Sets the next call time of the process_event job to the time of the first event.  The mutex must be held. */
+            void update_job_time() ;
+
             Trick::JobData * process_event_job ; // trick_io(**)
 
+            /** Events are added and removed by any thread.\n */
+            pthread_mutex_t mutex ; // trick_io(**)
+
+            /** The event that is being processed, NULL if there is none or if it has been removed meanwhile.\n */
+            Trick::Event * curr_event ; // trick_io(**)
+
             /** Use an ordered set to store the events.  The events are sorted by their next execution
                 time.  The set allows us to add/remove items at any time.\n */
             std::multiset< Trick::Event *, CompareEventPtrs > event_set ;  // trick_io(**)
diff --git a/include/trick/IPPythonEvent.hh b/include/trick/IPPythonEvent.hh
index f62fe3b..f63491e 100644
--- a/include/trick/IPPythonEvent.hh
+++ b/include/trick/IPPythonEvent.hh
@@ -400,6 +400,11 @@ namespace Trick {
             */
             double action_ran_time(int num) ;
 
+            /**
+             @brief an event that is fired manually is processed even if it is not active.
+            */
+            virtual bool needs_processing() { return active || manual_fired ; } ;
+
             virtual int process( long long curr_time ) ;
 
             bool process_user_event( long long curr_time ) ;
diff --git a/include/trick/JobData.hh b/include/trick/JobData.hh
index 3c5fde6..919eb1d 100644
--- a/include/trick/JobData.hh
+++ b/include/trick/JobData.hh
@@ -255,6 +255,13 @@ namespace Trick {
              */
             virtual int remove_inst( std::string job_name ) ;
 
+            /**
+             * Removes one instrumentation job
+             * @param in_job - the instrumentation job to remove
+             * @return always 0
+             */
+            virtual int remove_inst( InstrumentBase * in_job ) ;
+
             /**
              * Calls the instumentation jobs and the job itself.
              * @return always 0
diff --git a/trick_source/sim_services/EventManager/EventManager.cpp b/trick_source/sim_services/EventManager/EventManager.cpp
index 22e949d..b69925b 100644
--- a/trick_source/sim_services/EventManager/EventManager.cpp
+++ b/trick_source/sim_services/EventManager/EventManager.cpp
@@ -16,6 +16,7 @@
 #include "trick/TrickConstant.hh"
 #include "trick/EventManager.hh"
 #include "trick/EventInstrument.hh"
+#include "trick/MutexLock.hh"
 #include "trick/memorymanager_c_intf.h"
 #include "trick/exec_proto.h"
 #include "trick/exec_proto.hh"
@@ -28,13 +29,27 @@ Trick::EventManager::EventManager() :
  active_events(NULL),
  num_active_events(0),
  num_allocated(0)
-{ the_em = this ; }
+{
+    // an event may be added by an event that is added or removed
+    pthread_mutexattr_t attr ;
+    pthread_mutexattr_init(&attr) ;
+    pthread_mutexattr_settype(&attr, PTHREAD_MUTEX_RECURSIVE) ;
+    pthread_mutex_init(&mutex, &attr) ;
+    pthread_mutexattr_destroy(&attr) ;
+    the_em = this ;
+}
+
+Trick::EventManager::~EventManager() {
+    pthread_mutex_destroy(&mutex) ;
+}
 
 //Command to get the event object given the event's name
 Trick::Event * Trick::EventManager::get_event(std::string event_name) {
     unsigned int ii ;
     Trick::Event* ret = NULL;
 
+    MutexLock lock(mutex) ;
+
     /* Find the event name in the active event list and return the pointer to that event */
     for ( ii = 0 ; ii < num_active_events ; ii++ ) {
         if ( ! active_events[ii]->get_name().compare(event_name) ) {
@@ -50,6 +65,8 @@ Trick::Event * Trick::EventManager::get_event(std::string event_name) {
 //Add user's event to the active event list.
 int Trick::EventManager::add_to_active_events(Trick::Event * in_event) {
 
+    MutexLock lock(mutex) ;
+
     for ( unsigned int ii = 0 ; ii < num_active_events ; ii++ ) {
         if (in_event == active_events[ii]) {
             return (0) ;
@@ -77,6 +94,9 @@ int Trick::EventManager::add_event(Trick::Event * in_event) {
 
     add_to_active_events(in_event) ;
 
+    // The time tic value may have changed since the cycle was set
+    in_event->set_cycle(in_event->get_cycle()) ;
+
     if (in_event->get_thread() < event_processors.size() ) {
         event_processors[in_event->get_thread()]->add_event(in_event) ;
         in_event->add() ;
@@ -112,6 +132,7 @@ int Trick::EventManager::add_event_before(Trick::Event * in_event, std::string t
         in_event->set_target_name(target_name) ;
         in_event->set_target_inst(target_inst) ;
         Trick::EventInstrument * instru_job = new Trick::EventInstrument(in_event , target_job) ;
+        MutexLock lock(mutex) ;
         target_job->add_inst_before(instru_job) ;
         events_instrumented.push_back(instru_job) ;
         in_event->add() ;
@@ -148,6 +169,7 @@ int Trick::EventManager::add_event_after(Trick::Event * in_event, std::string ta
         in_event->set_target_name(target_name) ;
         in_event->set_target_inst(target_inst) ;
         Trick::EventInstrument * instru_job = new Trick::EventInstrument(in_event , target_job) ;
+        MutexLock lock(mutex) ;
         target_job->add_inst_after(instru_job) ;
         events_instrumented.push_back(instru_job) ;
         in_event->add() ;
@@ -192,42 +214,35 @@ int Trick::EventManager::remove_event(Trick::Event * in_event) {
         return 0 ;
     }
 
-    if ( in_event->get_before_after() == Trick::EVENT_NOTARGET ) {
-        /* If the event is cyclic, remove the event from the event processor on the event's thread */
+    /* Remove the event from the event processor on the event's thread */
+    if (in_event->get_thread() < event_processors.size() ) {
         event_processors[in_event->get_thread()]->remove_event(in_event) ;
-    } else {
-        std::vector< Trick::EventInstrument * >::iterator ei_it ;
-        for ( ei_it = events_instrumented.begin() ; ei_it != events_instrumented.end() ; ) {
-            if ( (*ei_it)->get_event() == in_event ) {
-                /* If the event is tied to a job, call the target jobs remove instrument routine */
-                Trick::EventInstrument * found_event_instru = *ei_it ;
-                ei_it = events_instrumented.erase(ei_it) ;
-                found_event_instru->get_target_job()->remove_inst(found_event_instru->name) ;
-                delete found_event_instru ;
-            } else {
-                ei_it++ ;
-            }
-        }
     }
 
+    /* If the event is tied to jobs, remove it from them */
+    remove_instruments(in_event) ;
+
     in_event->remove() ;
 
-    /* Remove it from active event list. */
-    for ( ii = 0 ; ii < num_active_events ; ii++ ) {
-        if (in_event == active_events[ii]) {
-            for ( jj = ii + 1 ; jj < num_active_events ; jj++ ) {
-                active_events[jj - 1] = active_events[jj] ;
-            }
-            num_active_events-- ;
-            if (num_active_events == 0) {
-                TMM_delete_var_a(active_events);
-                active_events = NULL;
+    {
+        MutexLock lock(mutex) ;
+        /* Remove it from active event list. */
+        for ( ii = 0 ; ii < num_active_events ; ii++ ) {
+            if (in_event == active_events[ii]) {
+                for ( jj = ii + 1 ; jj < num_active_events ; jj++ ) {
+                    active_events[jj - 1] = active_events[jj] ;
+                }
+                num_active_events-- ;
+                if (num_active_events == 0) {
+                    TMM_delete_var_a(active_events);
+                    active_events = NULL;
+                }
+                else {
+                    active_events[num_active_events] = NULL ;
+                }
+
+                break ;
             }
-            else {
-                active_events[num_active_events] = NULL ;
-            }
-
-            break ;
         }
     }
 
@@ -238,6 +253,23 @@ int Trick::EventManager::remove_event(Trick::Event * in_event) {
     return 0 ;
 }
 
+// Detach an event, or all events, from jobs.
+void Trick::EventManager::remove_instruments(Trick::Event * in_event) {
+    MutexLock lock(mutex) ;
+    std::vector< Trick::EventInstrument * >::iterator ei_it ;
+    for ( ei_it = events_instrumented.begin() ; ei_it != events_instrumented.end() ; ) {
+        if ( in_event == NULL or (*ei_it)->get_event() == in_event ) {
+            /* Call the target job's remove instrument routine */
+            Trick::EventInstrument * found_event_instru = *ei_it ;
+            ei_it = events_instrumented.erase(ei_it) ;
+            found_event_instru->get_target_job()->remove_inst(found_event_instru) ;
+            delete found_event_instru ;
+        } else {
+            ei_it++ ;
+        }
+    }
+}
+
 /**
 @details
 This is called from the S_define file.  There will be one event processor assigned to each thread.
@@ -257,7 +289,10 @@ int Trick::EventManager::time_tic_changed() {
     old_tt = exec_get_old_time_tic_value() ;
     tt = exec_get_time_tic_value() ;
 
+    MutexLock lock(mutex) ;
+
     for ( ii = 0 ; ii < num_active_events ; ii++ ) {
+        active_events[ii]->set_cycle(active_events[ii]->get_cycle()) ;
         if ( active_events[ii]->get_next_tics() != TRICK_MAX_LONG_LONG ) {
             active_events[ii]->set_next_tics((long long)round(((double)active_events[ii]->get_next_tics() / old_tt) * tt)) ;
         }
@@ -268,13 +303,7 @@ int Trick::EventManager::time_tic_changed() {
 
 // Remove all events attached to jobs before a checkpoint is reloaded.
 int Trick::EventManager::preload_checkpoint() {
-    std::vector< Trick::EventInstrument * >::iterator ei_it ;
-    for ( ei_it = events_instrumented.begin() ; ei_it != events_instrumented.end() ; ) {
-        Trick::EventInstrument * found_event_instru = *ei_it ;
-        ei_it = events_instrumented.erase(ei_it) ;
-        found_event_instru->get_target_job()->remove_inst(found_event_instru->name) ;
-        delete found_event_instru ;
-    }
+    remove_instruments(NULL) ;
     return 0 ;
 }
 
diff --git a/trick_source/sim_services/EventManager/EventProcessor.cpp b/trick_source/sim_services/EventManager/EventProcessor.cpp
index 1ee3fa1..9e9a6c7 100644
--- a/trick_source/sim_services/EventManager/EventProcessor.cpp
+++ b/trick_source/sim_services/EventManager/EventProcessor.cpp
@@ -7,28 +7,64 @@
    PROGRAMMERS: ( Alex Lin NASA 2014 )
 */
 
+#include <algorithm>
 #include <iostream>
 
 #include "trick/EventProcessor.hh"
+#include "trick/MutexLock.hh"
 #include "trick/TrickConstant.hh"
 #include "trick/message_proto.h"
 #include "trick/message_type.h"
 
+Trick::EventProcessor::EventProcessor() : process_event_job(NULL) , curr_event(NULL) {
+    pthread_mutex_init(&mutex, NULL) ;
+}
+
+Trick::EventProcessor::~EventProcessor() {
+    pthread_mutex_destroy(&mutex) ;
+}
+
 /**
 @details
--# Add the incoming event to the list of events to be added to the processor.
+-# Add the incoming event to the list of events to be added to the processor.  An event that
+   is there already is not added again.
 */
 void Trick::EventProcessor::add_event(Trick::Event * in_event) {
+    MutexLock lock(mutex) ;
+    // a cyclic event that is being processed is put back in the set afterwards.
+    if ( in_event == curr_event and in_event->get_cycle_tics() != 0 ) {
+        return ;
+    }
+    if ( std::find(pending_events.begin(), pending_events.end(), in_event) != pending_events.end() or
+         std::find(event_set.begin(), event_set.end(), in_event) != event_set.end() ) {
+        return ;
+    }
     pending_events.push_back(in_event) ;
 }
 
+void Trick::EventProcessor::update_job_time() {
+    if ( !event_set.empty() ) {
+        // set the next call time to the first item of the set.
+        process_event_job->next_tics = (*(event_set.begin()))->get_next_tics() ;
+    } else {
+        // if there are no events, set the next job call time to max.
+        process_event_job->next_tics = TRICK_MAX_LONG_LONG ;
+    }
+}
+
 /**
 @details
--# Remove the incoming event from the set of events being processed
+-# Remove the incoming event from the set of events being processed and from the pending events
 -# If the event set is not empty set the process_event job to the first event's next job call time.
 -# Else set the process_event job to maximum time
 */
 void Trick::EventProcessor::remove_event(Trick::Event * in_event) {
+    MutexLock lock(mutex) ;
+    if ( in_event == curr_event ) {
+        // the event is being processed, it is not put back in the set.
+        curr_event = NULL ;
+    }
+    pending_events.erase(std::remove(pending_events.begin(), pending_events.end(), in_event), pending_events.end()) ;
     std::multiset< Trick::Event *, CompareEventPtrs >::iterator sit = event_set.begin() ;
     for (sit=event_set.begin(); sit!=event_set.end(); ++sit) {
         if ((*sit) == in_event) {
@@ -36,16 +72,12 @@ void Trick::EventProcessor::remove_event(Trick::Event * in_event) {
             break;
         }
     }
-    if ( !event_set.empty() ) {
-        process_event_job->next_tics = (*(event_set.begin()))->get_next_tics() ;
-    } else {
-        // if there are no events, set the next job call time to max.
-        process_event_job->next_tics = TRICK_MAX_LONG_LONG ;
-    }
+    update_job_time() ;
 }
 
 //Top of frame job to add new events to processing set.
 void Trick::EventProcessor::add_pending_events( long long curr_tics , bool is_restart ) {
+    MutexLock lock(mutex) ;
     std::vector< Trick::Event * >::iterator it ;
     for ( it = pending_events.begin() ; it != pending_events.end() ; ) {
         if ( (*it)->get_cycle_tics() != 0 ) {
@@ -65,7 +97,7 @@ void Trick::EventProcessor::add_pending_events( long long curr_tics , bool is_re
             }
         }
         event_set.insert(*it) ;
-        process_event_job->next_tics = (*(event_set.begin()))->get_next_tics() ;
+        update_job_time() ;
         it = pending_events.erase(it) ;
     }
 }
@@ -73,42 +105,47 @@ void Trick::EventProcessor::add_pending_events( long long curr_tics , bool is_re
 //Automatic job to process input file events.
 int Trick::EventProcessor::process_event( long long curr_tics ) {
 
+    pthread_mutex_lock(&mutex) ;
     std::multiset< Trick::Event *, CompareEventPtrs >::iterator sit = event_set.begin() ;
 
     // while we have an event that matches the current time.
     while ( sit != event_set.end() and (*sit)->get_next_tics() == curr_tics ) {
-        Trick::Event * curr_event = *sit ;
+        curr_event = *sit ;
 
         // erase the current event out of the set.
         event_set.erase(sit) ;
 
-        // if the event is active process it
-        if ( curr_event->is_active() ) {
-            curr_event->process(curr_tics) ;
+        // if the event is active (or fired manually) process it
+        if ( curr_event->needs_processing() ) {
+            // the event may add and remove events, itself as well.
+            Trick::Event * event = curr_event ;
+            pthread_mutex_unlock(&mutex) ;
+            event->process(curr_tics) ;
+            pthread_mutex_lock(&mutex) ;
         }
 
-        // if the event has a cycle time, update the time and put the item back in the set
-        if ( curr_event->get_cycle_tics() != 0 ) {
+        // if the event has not been removed and has a cycle time, update the time and put the item back in the set
+        if ( curr_event != NULL and curr_event->get_cycle_tics() != 0 ) {
             curr_event->advance_next_tics() ;
             event_set.insert(curr_event) ;
         }
+        curr_event = NULL ;
 
         // get the next top element of the set.
         sit = event_set.begin() ;
     }
 
-    if ( !event_set.empty() ) {
-        // set the next call time to the first item of the set.
-        process_event_job->next_tics = (*(event_set.begin()))->get_next_tics() ;
-    } else {
-        // if there are no events, set the next job call time to max.
-        process_event_job->next_tics = TRICK_MAX_LONG_LONG ;
-    }
+    update_job_time() ;
+    pthread_mutex_unlock(&mutex) ;
 
     return 0  ;
 
 }
 
 void Trick::EventProcessor::preload_checkpoint() {
+    // The events of both lists are gone after the load, the event manager adds the loaded ones.
+    MutexLock lock(mutex) ;
     event_set.clear() ;
+    pending_events.clear() ;
+    curr_event = NULL ;
 }
diff --git a/trick_source/sim_services/InputProcessor/IPPythonEvent.cpp b/trick_source/sim_services/InputProcessor/IPPythonEvent.cpp
index c822ddf..85d42c7 100644
--- a/trick_source/sim_services/InputProcessor/IPPythonEvent.cpp
+++ b/trick_source/sim_services/InputProcessor/IPPythonEvent.cpp
@@ -543,6 +543,7 @@ bool Trick::IPPythonEvent::process_user_event( long long curr_time ) {
     int ii ;
     int return_val ;
     bool it_fired, it_ran;
+    bool first_enabled = true ;
 
     fired = false ;
     ran = false ;
@@ -593,7 +594,8 @@ bool Trick::IPPythonEvent::process_user_event( long long curr_time ) {
                 }
             } // end evaluate condition
             /** @li If cond_all is true, only set event fired/hold after all enabled conditions evaluated. */
-            if (ii==0) {
+            if (first_enabled) {
+                first_enabled = false ;
                 fired = condition_list[ii]->fired ;
                 hold  = condition_list[ii]->hold ;
             }  else {
diff --git a/trick_source/sim_services/SimObject/JobData.cpp b/trick_source/sim_services/SimObject/JobData.cpp
index 1aaeb45..361aa64 100644
--- a/trick_source/sim_services/SimObject/JobData.cpp
+++ b/trick_source/sim_services/SimObject/JobData.cpp
@@ -1,4 +1,5 @@
 
+#include <algorithm>
 #include <math.h>
 
 #include "trick/JobData.hh"
@@ -170,46 +171,45 @@ int Trick::JobData::remove_inst( std::string job_name ) {
     return 0 ;
 }
 
+int Trick::JobData::remove_inst( InstrumentBase * in_job ) {
+    inst_before.erase( std::remove( inst_before.begin() , inst_before.end() , in_job ) , inst_before.end() ) ;
+    inst_after.erase( std::remove( inst_after.begin() , inst_after.end() , in_job ) , inst_after.end() ) ;
+    return(0) ;
+}
+
+/* Calls a job's instruments.  An instrument may add or remove instruments of the job it is attached to. */
+static void call_instruments( std::vector< Trick::InstrumentBase * > & instruments ) {
+    if ( ! instruments.empty() ) {
+        std::vector< Trick::InstrumentBase * > to_call(instruments) ;
+        std::vector< Trick::InstrumentBase * >::iterator it ;
+        for ( it = to_call.begin() ; it != to_call.end() ; ++it ) {
+            if ( std::find( instruments.begin() , instruments.end() , *it ) != instruments.end() ) {
+                (*it)->call() ;
+            }
+        }
+    }
+}
+
 int Trick::JobData::call() {
     int ret ;
-    unsigned int ii , size ;
-    InstrumentBase * curr_job ;
 
-    size = inst_before.size() ;
-    for ( ii = 0 ; ii < size ; ii++ ) {
-        curr_job = inst_before[ii] ;
-        curr_job->call() ;
-    }
+    call_instruments(inst_before) ;
 
     ret = parent_object->call_function(this) ;
 
-    size = inst_after.size() ;
-    for ( ii = 0 ; ii < size ; ii++ ) {
-        curr_job = inst_after[ii] ;
-        curr_job->call() ;
-    }
+    call_instruments(inst_after) ;
 
     return ret ;
 }
 
 double Trick::JobData::call_double() {
     double ret ;
-    unsigned int ii , size ;
-    InstrumentBase * curr_job ;
 
-    size = inst_before.size() ;
-    for ( ii = 0 ; ii < size ; ii++ ) {
-        curr_job = inst_before[ii] ;
-        curr_job->call() ;
-    }
+    call_instruments(inst_before) ;
 
     ret = parent_object->call_function_double(this) ;
 
-    size = inst_after.size() ;
-    for ( ii = 0 ; ii < size ; ii++ ) {
-        curr_job = inst_after[ii] ;
-        curr_job->call() ;
-    }
+    call_instruments(inst_after) ;
 
     return ret ;
 }
-- 
2.43.0


From b1216c75d757b4607a544485771a2beb523c6a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:53 +0000
Subject: [PATCH 24/40] fix: real-time injection lists and executors may be
 changed by several threads

The stager's map of lists is protected by a mutex (clients queue and fire batches
from several threads), and a frame multiple of 0 or an offset beyond the multiple
no longer divides by zero or keeps a batch waiting for ever.
---
 include/trick/RtiExec.hh                      |  3 +-
 include/trick/RtiStager.hh                    |  2 +
 .../sim_services/RealtimeInjector/RtiExec.cpp |  6 +++
 .../RealtimeInjector/RtiStager.cpp            | 37 ++++++++++++++-----
 4 files changed, 37 insertions(+), 11 deletions(-)

diff --git a/include/trick/RtiExec.hh b/include/trick/RtiExec.hh
index 7934fb6..3d7a0f8 100644
--- a/include/trick/RtiExec.hh
+++ b/include/trick/RtiExec.hh
@@ -38,7 +38,8 @@ class RtiExec {
 
      /**
          Sets the execution to only execute at a multiple number of frames
-         @param mult - the multiple to set
+         @param mult - the multiple to set, an offset that is not less than it wraps
+         @return 0 if the multiple is valid, -1 if it is 0
      */
      int SetFrameMultiple ( unsigned int mult ) ;
 
diff --git a/include/trick/RtiStager.hh b/include/trick/RtiStager.hh
index b3cd97a..a1824c7 100644
--- a/include/trick/RtiStager.hh
+++ b/include/trick/RtiStager.hh
@@ -7,6 +7,7 @@
 #define RTISTAGER_HH
 
 #include <map>
+#include <pthread.h>
 #include <vector>
 
 #include "trick/RtiEvent.hh"
@@ -93,6 +94,7 @@ class RtiStager {
 
     protected:
      bool debug ;  /**< ** prints debug messages about rti activities */
+     pthread_mutex_t list_map_mutex ;  /**< ** protects list_map, each thread has its list there */
      std::map < pthread_t, RtiList * > list_map ;  /**< ** map of event lists keyed by thread */
      std::vector < RtiExec * > executors ;  /**< ** map of event lists keyed by thread */
 
diff --git a/trick_source/sim_services/RealtimeInjector/RtiExec.cpp b/trick_source/sim_services/RealtimeInjector/RtiExec.cpp
index 2ee9d0f..1ac8bdf 100644
--- a/trick_source/sim_services/RealtimeInjector/RtiExec.cpp
+++ b/trick_source/sim_services/RealtimeInjector/RtiExec.cpp
@@ -57,7 +57,13 @@ void Trick::RtiExec::SetDebug( bool on_off ) {
 }
 
 int Trick::RtiExec::SetFrameMultiple( unsigned int mult ) {
+    if ( mult == 0 ) {
+        message_publish(MSG_ERROR, "RTI frame multiple must be greater than 0\n") ;
+        return -1 ;
+    }
     frame_multiple = mult ;
+    // No frame has an offset that is not less than the multiple, injections would never happen.
+    frame_offset %= frame_multiple ;
     return 0 ;
 }
 
diff --git a/trick_source/sim_services/RealtimeInjector/RtiStager.cpp b/trick_source/sim_services/RealtimeInjector/RtiStager.cpp
index 2e5c2be..f0a7fde 100644
--- a/trick_source/sim_services/RealtimeInjector/RtiStager.cpp
+++ b/trick_source/sim_services/RealtimeInjector/RtiStager.cpp
@@ -8,6 +8,7 @@
 Trick::RtiStager * the_rtis ;
 
 Trick::RtiStager::RtiStager() : debug(false) {
+    pthread_mutex_init(&list_map_mutex, NULL) ;
     the_rtis = this ;
 }
 
@@ -31,6 +32,7 @@ int Trick::RtiStager::Fire (unsigned int thread_id) {
 
     pthread_t pid = pthread_self() ;
     std::map < pthread_t, RtiList * >::iterator it ;
+    RtiList * rti_list = NULL ;
 
     if ( thread_id >= executors.size() ) {
         message_publish(MSG_ERROR, "%s:%s:%d RTI Fire failed, thread %d out of range\n",
@@ -43,10 +45,16 @@ int Trick::RtiStager::Fire (unsigned int thread_id) {
          __FILE__, __func__, __LINE__);
     }
 
+    pthread_mutex_lock(&list_map_mutex) ;
     it = list_map.find(pid) ;
     if ( it != list_map.end() ) {
-        executors[thread_id]->AddToFireList(list_map[pid]) ;
+        rti_list = it->second ;
         list_map.erase(it) ;
+    }
+    pthread_mutex_unlock(&list_map_mutex) ;
+
+    if ( rti_list != NULL ) {
+        executors[thread_id]->AddToFireList(rti_list) ;
     } else {
         message_publish(MSG_ERROR, "%s:%s:%d no list to fire\n",
          __FILE__, __func__, __LINE__);
@@ -58,13 +66,18 @@ int Trick::RtiStager::Fire (unsigned int thread_id) {
 int Trick::RtiStager::List () {
 
     unsigned int ii ;
-    RtiList * temp_list ;
+    RtiList * temp_list = NULL ;
     std::map < pthread_t, RtiList * >::iterator it ;
 
+    pthread_mutex_lock(&list_map_mutex) ;
     it = list_map.find(pthread_self()) ;
-
     if ( it != list_map.end() ) {
-        temp_list = list_map[pthread_self()] ;
+        temp_list = it->second ;
+    }
+    pthread_mutex_unlock(&list_map_mutex) ;
+
+    // Only the calling thread changes or fires its own list.
+    if ( temp_list != NULL ) {
         for ( ii = 0 ; ii < temp_list->event_list.size() ; ii++ ) {
             temp_list->event_list[ii]->print_rti() ;
         }
@@ -112,16 +125,20 @@ int Trick::RtiStager::AddtoList (Trick::RtiEventBase *rei ) {
     if (rei != NULL) {
         pthread_t pid = pthread_self() ;
 
-        std::map < pthread_t, RtiList * >::iterator it ;
+        RtiList * rti_list ;
 
-        it = list_map.find(pid) ;
-        if ( it == list_map.end() ) {
-            list_map[pid] = new RtiList() ;
+        pthread_mutex_lock(&list_map_mutex) ;
+        rti_list = list_map[pid] ;
+        if ( rti_list == NULL ) {
+            rti_list = list_map[pid] = new RtiList() ;
         }
-        list_map[pid]->event_list.push_back(rei) ;
+        pthread_mutex_unlock(&list_map_mutex) ;
+
+        // Only the calling thread changes or fires its own list.
+        rti_list->event_list.push_back(rei) ;
         if ( debug ) {
             message_publish(MSG_DEBUG, "%s:%s:%d Event List Size (%d)\n",
-             __FILE__, __func__, __LINE__, list_map[pid]->event_list.size());
+             __FILE__, __func__, __LINE__, (int)rti_list->event_list.size());
         }
     }
     return 0 ;
-- 
2.43.0


From 876fb40ef174a85c22eded6f205d32e0bff9c227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:53 +0000
Subject: [PATCH 25/40] fix: references through a pointer followed by a member
 are resolved at each use

a->b.c and (*a).b read the pointer when the reference was parsed.
---
 trick_source/sim_services/MemoryManager/ref_parser.y | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/trick_source/sim_services/MemoryManager/ref_parser.y b/trick_source/sim_services/MemoryManager/ref_parser.y
index 14f28f0..9c8ec88 100644
--- a/trick_source/sim_services/MemoryManager/ref_parser.y
+++ b/trick_source/sim_services/MemoryManager/ref_parser.y
@@ -150,7 +150,14 @@ param: NAME {
     char temp[512];
 
     if ( $2 == 1) {
-        // we have an ARROW, so dereference the address.
+        // we have an ARROW, so dereference the address, now and each time the address path is followed.
+        $$.pointer_present = 1;
+        if ( $$.create_add_path ) {
+            ADDRESS_NODE * address_node = new ADDRESS_NODE ;
+            address_node->operator_ = AO_DEREFERENCE ;
+            address_node->operand.address = NULL ;
+            DLL_AddTail(address_node , $$.address_path) ;
+        }
         $$.address = *(void**)$$.address;
         $$.num_index ++; 
     }
-- 
2.43.0


From 986d7f16f19ca6848da9b74bd83c84988a8317d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:51 +0000
Subject: [PATCH 26/40] fix: the parts of a long variable server message are
 sent without other messages between them

---
 include/trick/VariableServerSession.hh           |  3 +++
 .../VariableServer/VariableServerSession.cpp     |  1 +
 .../VariableServerSession_commands.cpp           |  8 +++++++-
 .../VariableServerSession_write_data.cpp         | 16 +++++++++++++---
 4 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/include/trick/VariableServerSession.hh b/include/trick/VariableServerSession.hh
index 0c3998a..9213124 100644
--- a/include/trick/VariableServerSession.hh
+++ b/include/trick/VariableServerSession.hh
@@ -447,6 +447,9 @@ namespace Trick {
         /** Protects the write buffers and keeps messages to the client apart. Locked before _copy_mutex.\n */
         pthread_mutex_t _write_mutex;    /**<  trick_io(**) */
 
+        /** A message was cut off, whatever follows would be taken for the rest of it. Protected by _write_mutex.\n */
+        bool _message_cut_off;           /**<  trick_io(**) */
+
         /** A file is being sent to the client. Nothing else may be sent meanwhile.\n */
         bool _sending_file;              /**<  trick_io(**) */
 
diff --git a/trick_source/sim_services/VariableServer/VariableServerSession.cpp b/trick_source/sim_services/VariableServer/VariableServerSession.cpp
index 449e5bd..9b8f962 100644
--- a/trick_source/sim_services/VariableServer/VariableServerSession.cpp
+++ b/trick_source/sim_services/VariableServer/VariableServerSession.cpp
@@ -48,6 +48,7 @@ Trick::VariableServerSession::VariableServerSession() {
 
     pthread_mutex_init(&_copy_mutex, NULL);
     pthread_mutex_init(&_write_mutex, NULL);
+    _message_cut_off = false ;
 }
 
 Trick::VariableServerSession::~VariableServerSession() {
diff --git a/trick_source/sim_services/VariableServer/VariableServerSession_commands.cpp b/trick_source/sim_services/VariableServer/VariableServerSession_commands.cpp
index dd91e36..3e2e313 100644
--- a/trick_source/sim_services/VariableServer/VariableServerSession_commands.cpp
+++ b/trick_source/sim_services/VariableServer/VariableServerSession_commands.cpp
@@ -439,9 +439,15 @@ int Trick::VariableServerSession::transmit_file(std::string filename) {
 
     // Hold back other messages until the whole file is sent.
     pthread_mutex_lock(&_write_mutex) ;
-    _sending_file = true ;
+    bool cut_off = _message_cut_off ;
+    _sending_file = ! cut_off ;
     pthread_mutex_unlock(&_write_mutex) ;
 
+    if (cut_off) {
+        fclose(fp) ;
+        return(-1) ;
+    }
+
     // Switch to blocking writes since this could be a large transfer.
     if (_connection->setBlockMode(true)) {
         message_publish(MSG_DEBUG,"Variable Server Error: Failed to set socket to blocking mode.\n");
diff --git a/trick_source/sim_services/VariableServer/VariableServerSession_write_data.cpp b/trick_source/sim_services/VariableServer/VariableServerSession_write_data.cpp
index 5dd7db2..a1f4aa8 100644
--- a/trick_source/sim_services/VariableServer/VariableServerSession_write_data.cpp
+++ b/trick_source/sim_services/VariableServer/VariableServerSession_write_data.cpp
@@ -133,6 +133,7 @@ int Trick::VariableServerSession::write_ascii_data(const std::vector<VariableRef
     message_stream << (int)message_type;
 
     int message_size = message_stream.str().size();
+    bool partly_sent = false;
 
     // Load each variable
     for (int i = 0; i < given_vars.size(); i++) {
@@ -170,8 +171,13 @@ int Trick::VariableServerSession::write_ascii_data(const std::vector<VariableRef
 
             int result = _connection->write(message);
             if (result < 0) {
+                if (partly_sent) {
+                    _message_cut_off = true;
+                    set_exit_cmd();
+                }
                 return result;
             }
+            partly_sent = true;
 
             // Clear out the message stream
             message_stream.str("");
@@ -194,6 +200,10 @@ int Trick::VariableServerSession::write_ascii_data(const std::vector<VariableRef
     }
 
     int result = _connection->write(message);
+    if (result < 0 && partly_sent) {
+        _message_cut_off = true;
+        set_exit_cmd();
+    }
     return result;
 }
 
@@ -208,7 +218,7 @@ int Trick::VariableServerSession::write_data(std::vector<VariableReference *>& g
 
     // do not send anything when there are no variables!
     // and check that all of the variables are staged
-    bool ready = !_sending_file && given_vars.size() != 0 ;
+    bool ready = !_sending_file && !_message_cut_off && given_vars.size() != 0 ;
     for (VariableReference * variable : given_vars ) {
         if (!variable->isStaged()) {
             ready = false ;
@@ -245,14 +255,14 @@ int Trick::VariableServerSession::send_variables(std::vector<VariableReference *
 
 int Trick::VariableServerSession::write_reply(const std::string& message) {
     pthread_mutex_lock(&_write_mutex) ;
-    int result = _connection->write(message) ;
+    int result = _message_cut_off ? -1 : _connection->write(message) ;
     pthread_mutex_unlock(&_write_mutex) ;
     return result ;
 }
 
 int Trick::VariableServerSession::write_reply(char * message, int size) {
     pthread_mutex_lock(&_write_mutex) ;
-    int result = _connection->write(message, size) ;
+    int result = _message_cut_off ? -1 : _connection->write(message, size) ;
     pthread_mutex_unlock(&_write_mutex) ;
     return result ;
 }
-- 
2.43.0


From 5be71f7b07623442fbb7eabc41986091326c0b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:51 +0000
Subject: [PATCH 27/40] fix: variable server allowlist entries with a bad
 prefix length match nothing

std::stoi threw outside any handler (ending the simulation) and a prefix above 32
matched by accident; the list is also protected while sessions check it.
---
 include/trick/VariableServer.hh               |  3 +++
 .../VariableServer/VariableServer.cpp         | 25 +++++++++++++++++--
 2 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/include/trick/VariableServer.hh b/include/trick/VariableServer.hh
index b724e10..08b26d5 100644
--- a/include/trick/VariableServer.hh
+++ b/include/trick/VariableServer.hh
@@ -378,6 +378,9 @@ received.
     /** List of IPs to accept connections from.\n */
     std::set<std::string> ip_allowlist;
 
+    /** Mutex to protect ip_allowlist: sessions check it while it is changed\n */
+    pthread_mutex_t ip_mutex; /**<  trick_io(**) */
+
     /** Flag to allow connections to the VS. Off by default for security reasons.\n */
     bool allow_connections;
 
diff --git a/trick_source/sim_services/VariableServer/VariableServer.cpp b/trick_source/sim_services/VariableServer/VariableServer.cpp
index 0b8a6d2..2a801e6 100644
--- a/trick_source/sim_services/VariableServer/VariableServer.cpp
+++ b/trick_source/sim_services/VariableServer/VariableServer.cpp
@@ -5,6 +5,7 @@
 #include "trick/message_proto.h"
 #include "trick/tc_proto.h"
 
+#include <cstdlib>
 #include <iostream>
 #include <netdb.h>
 
@@ -19,6 +20,7 @@ Trick::VariableServer::VariableServer()
 {
     the_vs = this ;
     pthread_mutex_init(&map_mutex, NULL);
+    pthread_mutex_init(&ip_mutex, NULL);
 }
 
 Trick::VariableServer::~VariableServer() {
@@ -219,7 +221,9 @@ void Trick::VariableServer::add_ip(const std::string& ip)
     std::string msg = "Trick VariableServer: Adding " + ip + " to the allowlist.\n";
     message_publish(MSG_INFO, msg.c_str());
 
+    pthread_mutex_lock(&ip_mutex);
     ip_allowlist.insert(ip);
+    pthread_mutex_unlock(&ip_mutex);
 }
 
 void Trick::VariableServer::remove_ip(const std::string& ip)
@@ -227,13 +231,19 @@ void Trick::VariableServer::remove_ip(const std::string& ip)
     std::string msg = "Trick VariableServer: Removing " + ip + " from the allowlist.\n";
     message_publish(MSG_INFO, msg.c_str());
 
+    pthread_mutex_lock(&ip_mutex);
     ip_allowlist.erase(ip);
+    pthread_mutex_unlock(&ip_mutex);
 }
 
 bool Trick::VariableServer::check_ip(const std::string& ip)
 {
     bool valid = false;
-    for (std::set<std::string>::iterator it = ip_allowlist.begin(); it != ip_allowlist.end(); ++it)
+    // Other sessions and jobs may change the list meanwhile
+    pthread_mutex_lock(&ip_mutex);
+    std::set<std::string> allowed = ip_allowlist;
+    pthread_mutex_unlock(&ip_mutex);
+    for (std::set<std::string>::iterator it = allowed.begin(); it != allowed.end(); ++it)
     {
         std::string entry = *it;
         size_t slash;
@@ -248,7 +258,18 @@ bool Trick::VariableServer::check_ip(const std::string& ip)
         if ((slash = entry.find('/')) != std::string::npos)
         {
             std::string network = entry.substr(0, slash);
-            int prefix          = std::stoi(entry.substr(slash + 1));
+            std::string length  = entry.substr(slash + 1);
+
+            // An entry whose prefix length is not 0 to 32 matches nothing
+            if (length.empty() || length.size() > 2 || length.find_first_not_of("0123456789") != std::string::npos)
+            {
+                continue;
+            }
+            int prefix = atoi(length.c_str());
+            if (prefix > 32)
+            {
+                continue;
+            }
 
             if (inet_pton(AF_INET, network.c_str(), &addr) != 1)
             {
-- 
2.43.0


From ddfd841eeee3d1b90f552ae01ae53166463b6661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:51 +0000
Subject: [PATCH 28/40] fix: checkpoint the job states kept while a sim object
 is off

---
 include/trick/JobData.hh                               |  3 +++
 .../sim_services/Executive/Executive_checkpoint.cpp    | 10 ++++++++++
 .../sim_services/Executive/Executive_restart.cpp       |  5 +++++
 trick_source/sim_services/SimObject/JobData.cpp        |  2 ++
 4 files changed, 20 insertions(+)

diff --git a/include/trick/JobData.hh b/include/trick/JobData.hh
index 919eb1d..dc2eac7 100644
--- a/include/trick/JobData.hh
+++ b/include/trick/JobData.hh
@@ -41,6 +41,9 @@ namespace Trick {
             /** Indicates if the job is enabled */
             bool disabled;                  /**< trick_units(--) */
 
+            /** In a checkpoint, the state kept while the sim_object is off: 0 none, 1 on, 2 off */
+            int saved_object_state;         /**< trick_units(--) */
+
             /** Indicates if the job is complete */
             bool complete;                  /**< trick_units(--) */
 
diff --git a/trick_source/sim_services/Executive/Executive_checkpoint.cpp b/trick_source/sim_services/Executive/Executive_checkpoint.cpp
index e82d86c..fb678d9 100644
--- a/trick_source/sim_services/Executive/Executive_checkpoint.cpp
+++ b/trick_source/sim_services/Executive/Executive_checkpoint.cpp
@@ -23,10 +23,20 @@ int Trick::Executive::checkpoint() {
 
     /* copy all of the job information in a checkpointable array */
     if ( num_all_jobs > 0 ) {
+        std::map<Trick::JobData *, bool> saved_job_states ;
+        for ( ii = 0 ; ii < sim_objects.size() ; ii++ ) {
+            saved_job_states.insert(sim_objects[ii]->saved_job_states.begin(), sim_objects[ii]->saved_job_states.end()) ;
+        }
         all_jobs_for_checkpoint = (Trick::JobData *)TMM_declare_var( TRICK_STRUCTURED, "Trick::JobData",
          0 , "all_jobs" , 1 , (int *)&num_all_jobs) ;
         for ( ii = 0 ; ii < num_all_jobs ; ii++ ) {
             all_jobs_for_checkpoint[ii] = *(all_jobs_vector[ii]) ;
+            // While a sim_object is off its jobs' own states are kept beside them, they belong to the checkpoint too.
+            all_jobs_for_checkpoint[ii].saved_object_state = 0 ;
+            std::map<Trick::JobData *, bool>::iterator it = saved_job_states.find(all_jobs_vector[ii]) ;
+            if ( it != saved_job_states.end() ) {
+                all_jobs_for_checkpoint[ii].saved_object_state = it->second ? 2 : 1 ;
+            }
         }
     }
 
diff --git a/trick_source/sim_services/Executive/Executive_restart.cpp b/trick_source/sim_services/Executive/Executive_restart.cpp
index 9837e7d..d6db696 100644
--- a/trick_source/sim_services/Executive/Executive_restart.cpp
+++ b/trick_source/sim_services/Executive/Executive_restart.cpp
@@ -45,6 +45,7 @@ int Trick::Executive::restart() {
 
     /* Create a temporary all_jobs map to use to restore job data from all_jobs_for_checkpoint */
     for ( sit = sim_objects.begin() ; sit != sim_objects.end() ; ++sit ) {
+        (*sit)->saved_job_states.clear() ;
         for ( jit = (*sit)->jobs.begin() ; jit != (*sit)->jobs.end() ; ++jit ) {
             /* Dynamically created sim_objects, like data_recording objects, require that
                some of the job class data be repopulated before we start
@@ -73,6 +74,10 @@ int Trick::Executive::restart() {
                     ( it->second->sim_object_id == all_jobs_for_checkpoint[ii].sim_object_id )) {
                     // copy the job information from the checkpoint back to the job.
                     it->second->copy_from_checkpoint(&all_jobs_for_checkpoint[ii]) ;
+                    if ( all_jobs_for_checkpoint[ii].saved_object_state != 0 ) {
+                        it->second->parent_object->saved_job_states[it->second] =
+                         ( all_jobs_for_checkpoint[ii].saved_object_state == 2 ) ;
+                    }
                 }
             }
         }
diff --git a/trick_source/sim_services/SimObject/JobData.cpp b/trick_source/sim_services/SimObject/JobData.cpp
index 361aa64..42a671f 100644
--- a/trick_source/sim_services/SimObject/JobData.cpp
+++ b/trick_source/sim_services/SimObject/JobData.cpp
@@ -13,6 +13,7 @@ Trick::JobData::JobData() {
 
     /** @li initializes the job as enabled with 0 cycle rate. */
     disabled = false ;
+    saved_object_state = 0 ;
     handled = false ;
     thread = 0 ;
     id = 0 ;
@@ -44,6 +45,7 @@ Trick::JobData::JobData(int in_thread, int in_id, std::string in_job_class_name
 
     /** @li initializes the job according to arguments */
     disabled = false ;
+    saved_object_state = 0 ;
     handled = false ;
     thread = in_thread ;
     id = in_id ;
-- 
2.43.0


From 0bb9c2cfba2c92f2e9cb3e9bd19c4980bb662331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:51 +0000
Subject: [PATCH 29/40] fix: a job whose cycle is changed in the middle of a
 time step is not lost

The scheduler had already passed the job and advanced time beyond its new call time.
---
 .../Executive/Executive_set_job_cycle.cpp        | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/trick_source/sim_services/Executive/Executive_set_job_cycle.cpp b/trick_source/sim_services/Executive/Executive_set_job_cycle.cpp
index 425faaf..7451af2 100644
--- a/trick_source/sim_services/Executive/Executive_set_job_cycle.cpp
+++ b/trick_source/sim_services/Executive/Executive_set_job_cycle.cpp
@@ -16,20 +16,28 @@ int Trick::Executive::set_job_cycle(std::string job_name, int instance_num, doub
         return -1 ;
     }
 
+    auto set_cycle = [&](Trick::JobData * curr_job) {
+        curr_job->set_cycle(in_cycle) ;
+        curr_job->set_next_call_time(time_tics) ;
+        // The scheduler may have passed this job in the current time step, it must not advance beyond the new call time.
+        if ( curr_job->job_class >= scheduled_start_index && curr_job->thread < threads.size() &&
+             ( curr_job->thread == 0 || threads[curr_job->thread]->process_type == PROCESS_TYPE_SCHEDULED ) ) {
+            threads[curr_job->thread]->job_queue.test_next_job_call_time(curr_job, time_tics) ;
+        }
+    } ;
+
     job = get_job(job_name, instance_num) ;
 
     if ( job != NULL ) {
         // set cycle for one job (the given job_name)
-        job->set_cycle(in_cycle) ;
-        job->set_next_call_time(time_tics) ;
+        set_cycle(job) ;
     } else {
         // job_name may be a tag name: find all jobs that have the given tag name and hold them in a list
         range = all_tagged_jobs.equal_range(job_name) ;
         if (range.first != range.second) {
             // set cycle for all jobs with this tag
             for ( it = range.first; it != range.second ; ++it ) {
-                (*it).second->set_cycle(in_cycle) ;
-                (*it).second->set_next_call_time(time_tics) ;
+                set_cycle((*it).second) ;
             }
         } else {
             message_publish(MSG_WARNING, "Warning: Job %s not found in Executive::set_job_cycle\n" , job_name.c_str()) ;
-- 
2.43.0


From 4e3cf948d94b319f14afb1ff679c144d0fd02077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:01 +0000
Subject: [PATCH 30/40] fix: removing a job from a queue does not repeat or
 skip the job that is next

---
 .../sim_services/ScheduledJobQueue/ScheduledJobQueue.cpp       | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trick_source/sim_services/ScheduledJobQueue/ScheduledJobQueue.cpp b/trick_source/sim_services/ScheduledJobQueue/ScheduledJobQueue.cpp
index ddbc6d7..84072d7 100644
--- a/trick_source/sim_services/ScheduledJobQueue/ScheduledJobQueue.cpp
+++ b/trick_source/sim_services/ScheduledJobQueue/ScheduledJobQueue.cpp
@@ -151,7 +151,8 @@ int Trick::ScheduledJobQueue::remove( JobData * delete_job ) {
             for ( jj = ii + 1 ; jj < list_size ; jj++ ) {
                 new_list[jj-1] = list[jj] ;
             }
-            if ( ii <= curr_index ) {
+            /* curr_index is the next job to look at: it moves only if a job before it is removed */
+            if ( ii < curr_index ) {
                 curr_index-- ;
             }
             /* Decrement the size of the queue */
-- 
2.43.0


From 56217c7a642ba27ede9b4ffdcbedd7d447b5f17f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:01 +0000
Subject: [PATCH 31/40] fix: a job cycle change cannot set a zero cycle or
 restart a job after its stop time

---
 .../sim_services/Executive/Executive_set_job_cycle.cpp    | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/trick_source/sim_services/Executive/Executive_set_job_cycle.cpp b/trick_source/sim_services/Executive/Executive_set_job_cycle.cpp
index 7451af2..bce90b5 100644
--- a/trick_source/sim_services/Executive/Executive_set_job_cycle.cpp
+++ b/trick_source/sim_services/Executive/Executive_set_job_cycle.cpp
@@ -1,9 +1,11 @@
 
 #include <iostream>
+#include <math.h>
 
 #include "trick/Executive.hh"
 #include "trick/message_proto.h"
 #include "trick/message_type.h"
+#include "trick/TrickConstant.hh"
 
 int Trick::Executive::set_job_cycle(std::string job_name, int instance_num, double in_cycle) {
 
@@ -11,7 +13,7 @@ int Trick::Executive::set_job_cycle(std::string job_name, int instance_num, doub
     std::multimap<std::string , Trick::JobData *>::iterator it ;
     std::pair<std::multimap<std::string , Trick::JobData *>::iterator , std::multimap<std::string , Trick::JobData *>::iterator> range ;
 
-    if ( in_cycle < 0.0 ) {
+    if ( in_cycle < 0.0 || (long long)round(in_cycle * time_tic_value) == 0 ) {
         message_publish(MSG_WARNING, "Warning: Invalid cycle %g specified in Executive::set_job_cycle for %s\n" , in_cycle, job_name.c_str()) ;
         return -1 ;
     }
@@ -19,6 +21,10 @@ int Trick::Executive::set_job_cycle(std::string job_name, int instance_num, doub
     auto set_cycle = [&](Trick::JobData * curr_job) {
         curr_job->set_cycle(in_cycle) ;
         curr_job->set_next_call_time(time_tics) ;
+        // A job does not start again after its stop time.
+        if ( curr_job->job_class >= scheduled_start_index && curr_job->next_tics > curr_job->stop_tics ) {
+            curr_job->next_tics = TRICK_MAX_LONG_LONG ;
+        }
         // The scheduler may have passed this job in the current time step, it must not advance beyond the new call time.
         if ( curr_job->job_class >= scheduled_start_index && curr_job->thread < threads.size() &&
              ( curr_job->thread == 0 || threads[curr_job->thread]->process_type == PROCESS_TYPE_SCHEDULED ) ) {
-- 
2.43.0


From 1e440975fbce85b184d9011b0fdbcf8cc4decbb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:01 +0000
Subject: [PATCH 32/40] fix: a thread that is turned off and on again takes
 part from the next time step on

---
 include/trick/ScheduledJobQueue.hh            |  8 ++++++
 include/trick/Threads.hh                      | 10 ++++++++
 .../Executive/Executive_advance_sim_time.cpp  | 14 +++++++----
 .../Executive_scheduled_thread_sync.cpp       |  3 ++-
 .../Executive/Executive_thread_sync.cpp       |  1 +
 .../sim_services/Executive/Threads.cpp        | 24 ++++++++++++++++++
 .../sim_services/Executive/Threads_child.cpp  |  7 +++---
 .../ScheduledJobQueue/ScheduledJobQueue.cpp   | 25 +++++++++++++++++++
 8 files changed, 83 insertions(+), 9 deletions(-)

diff --git a/include/trick/ScheduledJobQueue.hh b/include/trick/ScheduledJobQueue.hh
index 00e97e7..8195d4c 100644
--- a/include/trick/ScheduledJobQueue.hh
+++ b/include/trick/ScheduledJobQueue.hh
@@ -190,6 +190,14 @@ namespace Trick {
              */
             int test_next_job_call_time(Trick::JobData * curr_job, long long time_tics) ;
 
+            /**
+             * @brief Moves jobs whose next call time has been passed over to their next call time that is not before
+             * the incoming time, and sets the next_job_call_time accordingly.
+             * @param time_tics - the time to catch up with
+             * @return always 0
+             */
+            int catch_up_jobs(long long time_tics) ;
+
         private:
 
             /** number of jobs in list */
diff --git a/include/trick/Threads.hh b/include/trick/Threads.hh
index f8de29f..e4f7b82 100644
--- a/include/trick/Threads.hh
+++ b/include/trick/Threads.hh
@@ -65,6 +65,13 @@ namespace Trick {
              */
             void set_enabled(bool yes_no) ;
 
+            /**
+             * Moves the thread's next call times on to the incoming time if it has been turned on since the last call.
+             * Called by the main thread while a scheduled thread is idle.
+             * @param time_tics - the time to catch up with
+             */
+            void catch_up_to(long long time_tics) ;
+
             /**
              * Sets the process type from an incoming integer
              * @param in_process_type - incoming process type as an integer
@@ -107,6 +114,9 @@ namespace Trick {
             /** Thread is enabled. */
             bool enabled ;                  /**< trick_units(--) */
 
+            /** Thread was turned on, its jobs have to catch up with the simulation time. */
+            bool catch_up ;                 /**< trick_units(--) */
+
             /** Thread index as specified in the S_define file. i.e. C1, C2, etc. */
             unsigned int thread_id;         /**< trick_units(--) */
 
diff --git a/trick_source/sim_services/Executive/Executive_advance_sim_time.cpp b/trick_source/sim_services/Executive/Executive_advance_sim_time.cpp
index 8d3b957..1473390 100644
--- a/trick_source/sim_services/Executive/Executive_advance_sim_time.cpp
+++ b/trick_source/sim_services/Executive/Executive_advance_sim_time.cpp
@@ -42,16 +42,20 @@ int Trick::Executive::advance_sim_time() {
     /* Adjust time_tics if one of the threads has a job or async cycle time less than the main thread's next job */
     for (ii = 1; ii < threads.size() ; ii++) {
         Threads * curr_thread = threads[ii] ;
+        /* a thread that was turned on after this time step was started takes part from the next one */
+        curr_thread->catch_up_to(time_last_pass_tics + 1) ;
         if ( curr_thread->enabled ) {
             if ( (curr_thread->process_type == PROCESS_TYPE_SCHEDULED) &&
                  (curr_thread->job_queue.get_next_job_call_time() < time_tics) ) {
                 time_tics = curr_thread->job_queue.get_next_job_call_time() ;
             }
-            if ( (curr_thread->process_type == PROCESS_TYPE_AMF_CHILD ) &&
-                 (curr_thread->amf_cycle_tics > 0 ) &&
-                 (curr_thread->amf_next_tics < time_tics) ) {
-                time_tics = curr_thread->amf_next_tics ;
-            }
+        }
+        /* the frame of an AMF thread that was turned off meanwhile must still finish */
+        if ( (curr_thread->process_type == PROCESS_TYPE_AMF_CHILD ) &&
+             (curr_thread->amf_cycle_tics > 0 ) &&
+             (curr_thread->enabled || curr_thread->amf_next_tics > time_last_pass_tics) &&
+             (curr_thread->amf_next_tics < time_tics) ) {
+            time_tics = curr_thread->amf_next_tics ;
         }
     }
 
diff --git a/trick_source/sim_services/Executive/Executive_scheduled_thread_sync.cpp b/trick_source/sim_services/Executive/Executive_scheduled_thread_sync.cpp
index 59f631e..d2381ca 100644
--- a/trick_source/sim_services/Executive/Executive_scheduled_thread_sync.cpp
+++ b/trick_source/sim_services/Executive/Executive_scheduled_thread_sync.cpp
@@ -16,7 +16,8 @@ int Trick::Executive::scheduled_thread_sync() {
     /* Wait for synchronous threads to finish before testing for adjusting time_tics */
     for (ii = 1; ii < threads.size() ; ii++) {
         Threads * curr_thread = threads[ii] ;
-        if ( curr_thread->enabled and curr_thread->process_type == PROCESS_TYPE_SCHEDULED) {
+        /* a thread that was turned off during this time step still finishes it */
+        if ( curr_thread->process_type == PROCESS_TYPE_SCHEDULED ) {
             while (curr_thread->child_complete == false ) {
                 if (rt_nap == true) {
                     RELEASE();
diff --git a/trick_source/sim_services/Executive/Executive_thread_sync.cpp b/trick_source/sim_services/Executive/Executive_thread_sync.cpp
index 79022d6..2305cd1 100644
--- a/trick_source/sim_services/Executive/Executive_thread_sync.cpp
+++ b/trick_source/sim_services/Executive/Executive_thread_sync.cpp
@@ -26,6 +26,7 @@ int Trick::Executive::thread_sync() {
     /* Wait for async_must finish to complete at the current time_tics */
     for (ii = 1; ii < threads.size() ; ii++) {
         Threads * curr_thread = threads[ii] ;
+        curr_thread->catch_up_to(time_tics) ;
         if ( (curr_thread->process_type == PROCESS_TYPE_AMF_CHILD) &&
               (curr_thread->amf_next_tics == time_tics )) {
             while (curr_thread->child_complete == false ) {
diff --git a/trick_source/sim_services/Executive/Threads.cpp b/trick_source/sim_services/Executive/Threads.cpp
index e269a5a..f87d322 100644
--- a/trick_source/sim_services/Executive/Threads.cpp
+++ b/trick_source/sim_services/Executive/Threads.cpp
@@ -7,6 +7,7 @@
 
 Trick::Threads::Threads(int in_id , bool in_rt_nap) :
  enabled(true) ,
+ catch_up(false) ,
  thread_id(in_id) ,
  curr_time_tics(0) ,
  amf_cycle(0.0) ,
@@ -28,9 +29,32 @@ void Trick::Threads::set_pthread_id(pthread_t in_pthread_id) {
 }
 
 void Trick::Threads::set_enabled( bool in_enabled ) {
+    if ( in_enabled && !enabled ) {
+        catch_up = true ;
+    }
     enabled = in_enabled ;
 }
 
+/**
+@details
+-# Scheduled threads: move the jobs on.
+-# Asynchronous must finish threads: move the next time to start a frame on.  The jobs are moved on by the thread itself
+   when it starts the frame.
+-# Asynchronous threads always catch up by themselves.
+*/
+void Trick::Threads::catch_up_to( long long time_tics ) {
+    if ( enabled && catch_up ) {
+        catch_up = false ;
+        if ( process_type == PROCESS_TYPE_SCHEDULED ) {
+            job_queue.catch_up_jobs(time_tics) ;
+        } else if ( process_type == PROCESS_TYPE_AMF_CHILD && amf_cycle_tics > 0 ) {
+            while ( amf_next_tics < time_tics ) {
+                amf_next_tics += amf_cycle_tics ;
+            }
+        }
+    }
+}
+
 void Trick::Threads::clear_scheduled_queues() {
     job_queue.clear() ;
     top_of_frame_queue.clear() ;
diff --git a/trick_source/sim_services/Executive/Threads_child.cpp b/trick_source/sim_services/Executive/Threads_child.cpp
index 18f371b..cd3d628 100644
--- a/trick_source/sim_services/Executive/Threads_child.cpp
+++ b/trick_source/sim_services/Executive/Threads_child.cpp
@@ -107,8 +107,7 @@ void * Trick::Threads::thread_body() {
             /* Block child on trigger until master signals. */
             trigger_container.getThreadTrigger()->wait() ;
 
-            if ( enabled ) {
-
+            /* Only threads that are enabled are started. */
                 switch ( process_type ) {
                     case PROCESS_TYPE_SCHEDULED:
                     /* Loop through all jobs currently scheduled to run at this simulation time step. */
@@ -120,6 +119,9 @@ void * Trick::Threads::thread_body() {
                     break ;
 
                     case PROCESS_TYPE_AMF_CHILD:
+                    // catch up job next times to current frame, the thread may have been turned off.
+                    job_queue.catch_up_jobs(curr_time_tics) ;
+
                     /* call the AMF top of frame jobs */
                     top_of_frame_queue.reset_curr_index() ;
                     while ( (curr_job = top_of_frame_queue.get_next_job()) != NULL ) {
@@ -210,7 +212,6 @@ void * Trick::Threads::thread_body() {
                     default:
                     break ;
                 }
-            }
 
             /* After all jobs have completed, set the child_complete flag to true. */
             child_complete = true;
diff --git a/trick_source/sim_services/ScheduledJobQueue/ScheduledJobQueue.cpp b/trick_source/sim_services/ScheduledJobQueue/ScheduledJobQueue.cpp
index 84072d7..e7fd93b 100644
--- a/trick_source/sim_services/ScheduledJobQueue/ScheduledJobQueue.cpp
+++ b/trick_source/sim_services/ScheduledJobQueue/ScheduledJobQueue.cpp
@@ -408,6 +408,31 @@ int Trick::ScheduledJobQueue::test_next_job_call_time(Trick::JobData * curr_job,
     return(0) ;
 }
 
+/**
+@details
+-# For each job that is called cyclically and whose next call time is before the incoming time
+   -# Advance the next call time by multiples of the cycle to the incoming time or later
+   -# Set the next call time to TRICK_MAX_LONG_LONG if it is greater than the stop time.
+-# Set the overall next job call time to the lowest next call time that is not before the incoming time.
+*/
+int Trick::ScheduledJobQueue::catch_up_jobs(long long time_tics) {
+    unsigned int ii ;
+    if ( next_job_time < time_tics ) {
+        next_job_time = TRICK_MAX_LONG_LONG ;
+    }
+    for ( ii = 0 ; ii < list_size ; ii++ ) {
+        Trick::JobData * job = list[ii] ;
+        if ( ! job->system_job_class && job->cycle_tics > 0 && job->next_tics < time_tics ) {
+            job->next_tics += (time_tics - job->next_tics + job->cycle_tics - 1) / job->cycle_tics * job->cycle_tics ;
+            if ( job->next_tics > job->stop_tics ) {
+                job->next_tics = TRICK_MAX_LONG_LONG ;
+            }
+        }
+        test_next_job_call_time( job , time_tics - 1 ) ;
+    }
+    return(0) ;
+}
+
 // Executes the jobs in a queue.  saves and restores Trick::Executive::curr_job
 int Trick::ScheduledJobQueue::execute_all_jobs() {
     Trick::JobData * curr_job ;
-- 
2.43.0


From 0b9329a396850c334bb50c80fec4bb91eaf5aea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:01 +0000
Subject: [PATCH 33/40] fix: a job added behind the job that adds it does not
 hold the simulation time back

---
 .../sim_services/Executive/Executive_advance_sim_time.cpp      | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/trick_source/sim_services/Executive/Executive_advance_sim_time.cpp b/trick_source/sim_services/Executive/Executive_advance_sim_time.cpp
index 1473390..2d0e7f2 100644
--- a/trick_source/sim_services/Executive/Executive_advance_sim_time.cpp
+++ b/trick_source/sim_services/Executive/Executive_advance_sim_time.cpp
@@ -26,6 +26,9 @@ int Trick::Executive::advance_sim_time() {
     /* start with time tics set to the next end of frame */
     time_tics = next_frame_check_tics ;
 
+    /* Jobs added during this time step that come before the job that added them take part from their next call on. */
+    threads[0]->job_queue.catch_up_jobs(time_last_pass_tics + 1) ;
+
     /* Set the simulation time to the next lowest job call time by
        calling Trick::ScheduledThread::get_next_job_call_time(). */
     long long next_job_call_time = threads[0]->job_queue.get_next_job_call_time() ;
-- 
2.43.0


From aad30e248cfb3acfb00acdedca252260fb8807a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:01 +0000
Subject: [PATCH 34/40] fix: no job waits for a job that is not going to be
 called in this time step

---
 .../Executive/Executive_loop_multi_thread.cpp      | 14 ++++++++++++++
 .../Executive/Executive_remove_jobs.cpp            |  2 ++
 trick_source/sim_services/SimObject/JobData.cpp    |  4 ++--
 3 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/trick_source/sim_services/Executive/Executive_loop_multi_thread.cpp b/trick_source/sim_services/Executive/Executive_loop_multi_thread.cpp
index f40d913..e634d35 100644
--- a/trick_source/sim_services/Executive/Executive_loop_multi_thread.cpp
+++ b/trick_source/sim_services/Executive/Executive_loop_multi_thread.cpp
@@ -120,6 +120,20 @@ int Trick::Executive::loop_multi_thread() {
             }
         }
 
+        /* Input processor jobs may have turned jobs and threads on or off.  A job is waited for only if it is going
+           to be called. */
+        for (ii = 0; ii < threads.size() ; ii++) {
+            Trick::Threads * curr_thread = threads[ii] ;
+            curr_thread->catch_up_to(time_tics) ;
+            bool ready = isThreadReadyToRun(curr_thread, time_tics) ;
+            if ( ready || (!curr_thread->enabled && (ii == 0 || curr_thread->child_complete)) ) {
+                curr_thread->job_queue.reset_curr_index() ;
+                while ( (curr_job = curr_thread->job_queue.find_job(time_tics)) != NULL ) {
+                    curr_job->complete = !ready ;
+                }
+            }
+        }
+
         /* Start threads that are ready to run */
         for (ii = 1; ii < threads.size() ; ii++) {
 
diff --git a/trick_source/sim_services/Executive/Executive_remove_jobs.cpp b/trick_source/sim_services/Executive/Executive_remove_jobs.cpp
index 00799dc..57fbe67 100644
--- a/trick_source/sim_services/Executive/Executive_remove_jobs.cpp
+++ b/trick_source/sim_services/Executive/Executive_remove_jobs.cpp
@@ -44,6 +44,8 @@ int Trick::Executive::remove_jobs( Trick::SimObject * in_sim_object ) {
         std::map<std::string, int>::iterator class_id_it ;
         std::map<int, Trick::ScheduledJobQueue *>::iterator queue_it ;
         Trick::ScheduledJobQueue * curr_queue ;
+        /* the job is not called any more, do not let others wait for it */
+        __atomic_store_n(&(*jit)->complete, true, __ATOMIC_RELEASE) ;
         if ( (class_id_it = class_map.find((*jit)->job_class_name)) != class_map.end() ) {
             if ( (*jit)->thread != 0 ) {
                 /* Add threaded scheduled jobs to the thread scheduled queue */
diff --git a/trick_source/sim_services/SimObject/JobData.cpp b/trick_source/sim_services/SimObject/JobData.cpp
index 42a671f..5958756 100644
--- a/trick_source/sim_services/SimObject/JobData.cpp
+++ b/trick_source/sim_services/SimObject/JobData.cpp
@@ -23,7 +23,7 @@ Trick::JobData::JobData() {
     cycle = 0.0 ;
     start = 0.0 ;
     stop = 0.0 ;
-    complete = false ;
+    complete = true ;
     rt_start_time = -1;
     phase = 60000 ;
     system_job_class = 0 ;
@@ -56,7 +56,7 @@ Trick::JobData::JobData(int in_thread, int in_id, std::string in_job_class_name
     cycle = in_cycle ;
     start = in_start ;
     stop = in_stop ;
-    complete = false ;
+    complete = true ;
     name = in_name ;
     add_tag(in_tag) ;
     rt_start_time = -1;
-- 
2.43.0


From ae13a193879344cdab61181d140ef3cd3d8fc615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:01 +0000
Subject: [PATCH 35/40] fix: set_time starts every job and every asynchronous
 thread at the new time

---
 .../sim_services/Executive/Executive.cpp      | 23 +++++++++++--------
 .../Executive/Threads_set_amf_cycle_tics.cpp  |  2 ++
 2 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/trick_source/sim_services/Executive/Executive.cpp b/trick_source/sim_services/Executive/Executive.cpp
index d6ec054..b0d3961 100644
--- a/trick_source/sim_services/Executive/Executive.cpp
+++ b/trick_source/sim_services/Executive/Executive.cpp
@@ -312,14 +312,19 @@ void Trick::Executive::reset_job_call_times() {
     unsigned int ii ;
     for ( ii = 0 ; ii < all_jobs_vector.size() ; ii++ ) {
         Trick::JobData * temp_job = all_jobs_vector[ii] ;
-        temp_job->start_tics = (long long)round((double)temp_job->start_tics / old_time_tic_value * time_tic_value) + time_tics ;
+        if ( temp_job->start_tics == TRICK_MAX_LONG_LONG ) {
+            /* the job never starts */
+            continue ;
+        }
+        /* The start time is relative to the current time */
+        temp_job->start_tics = (long long)round(temp_job->start * time_tic_value) ;
 
         if ( temp_job->disabled == false and
              (!temp_job->system_job_class or !temp_job->job_class_name.compare("system_advance_sim_time")) ) {
             if ( ! temp_job->job_class_name.compare("integ_loop")) {
-                temp_job->next_tics  = temp_job->cycle_tics + temp_job->start_tics ;
+                temp_job->next_tics  = time_tics + temp_job->cycle_tics + temp_job->start_tics ;
             } else {
-                temp_job->next_tics  = temp_job->start_tics ;
+                temp_job->next_tics  = time_tics + temp_job->start_tics ;
             }
         }
     }
@@ -385,16 +390,16 @@ int Trick::Executive::set_terminate_time(double in_time) {
 }
 
 int Trick::Executive::set_time(double in_time) {
-    time_tics = (long long)round(in_time * time_tic_value) ;
-    for (unsigned int ii = 0 ; ii < threads.size() ; ii++ ) {
-       threads[ii]->curr_time_tics = time_tics ;
-    }
-    reset_job_call_times() ;
-    return(0) ;
+    return set_time_tics((long long)round(in_time * time_tic_value)) ;
 }
 
 int Trick::Executive::set_time_tics(long long in_tics) {
     time_tics = in_tics ;
+    for (unsigned int ii = 0 ; ii < threads.size() ; ii++ ) {
+       threads[ii]->curr_time_tics = time_tics ;
+       /* asynchronous threads start their first frame at the new time */
+       threads[ii]->amf_next_tics = time_tics ;
+    }
     reset_job_call_times() ;
     return(0) ;
 }
diff --git a/trick_source/sim_services/Executive/Threads_set_amf_cycle_tics.cpp b/trick_source/sim_services/Executive/Threads_set_amf_cycle_tics.cpp
index 3bd983e..29a9b50 100644
--- a/trick_source/sim_services/Executive/Threads_set_amf_cycle_tics.cpp
+++ b/trick_source/sim_services/Executive/Threads_set_amf_cycle_tics.cpp
@@ -18,11 +18,13 @@ int Trick::Threads::set_amf_cycle(double in_cycle , long long time_tic_value) {
 /*
 @design
 -# recalculate amf_cycle_tics using new time_tic_value
+-# recalculate curr_time_tics = ((double)curr_time_tics / old_time_tic_value) * time_tic_value
 -# recalculate amf_next_tics = ((double)amf_next_tics / old_time_tic_value) * time_tic_value
 -# return successful 0
 */
 int Trick::Threads::time_tic_changed(long long old_time_tic_value , long long time_tic_value) {
     amf_cycle_tics = (long long)round(amf_cycle * time_tic_value) ;
+    curr_time_tics = (long long)round(((double)curr_time_tics / old_time_tic_value) * time_tic_value) ;
     amf_next_tics = (long long)round(((double)amf_next_tics / old_time_tic_value) * time_tic_value) ;
     return(0) ;
 }
-- 
2.43.0


From 0acd19be6c8243a617c69efb45aced47e3c457cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:01 +0000
Subject: [PATCH 36/40] fix: the frame log does not log durations that reach
 back to an earlier call

---
 trick_source/sim_services/FrameLog/FrameLog.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/trick_source/sim_services/FrameLog/FrameLog.cpp b/trick_source/sim_services/FrameLog/FrameLog.cpp
index fea9f70..c91f1d7 100644
--- a/trick_source/sim_services/FrameLog/FrameLog.cpp
+++ b/trick_source/sim_services/FrameLog/FrameLog.cpp
@@ -340,8 +340,9 @@ void Trick::FrameLog::init_recording_groups() {
 -# Insert frame log clock jobs in queue before and after all jobs we want to log the time of.
 */
 void Trick::FrameLog::add_instrument_jobs() {
-    exec_instrument_before("trick_frame_log.frame_log.frame_clock_start") ;
+    // the stop clocks go first, so that every start a job takes from now on has its stop.
     exec_instrument_after("trick_frame_log.frame_log.frame_clock_stop") ;
+    exec_instrument_before("trick_frame_log.frame_log.frame_clock_start") ;
 }
 
 /**
@@ -419,8 +420,8 @@ int Trick::FrameLog::frame_clock_stop(Trick::JobData * curr_job) {
                     tl_other_count[thread]++;
                 }
             }
-            // start timeline over
-            target_job->rt_start_time = 0;
+            // start timeline over, the next stop needs a start of its own.
+            target_job->rt_start_time = -1;
             target_job->rt_stop_time = 0;
         } else {
             target_job->frame_time = 0 ;
@@ -438,6 +439,7 @@ int Trick::FrameLog::frame_clock_stop(Trick::JobData * curr_job) {
 -# If the frame log data recording groups are not in the sim
  -# Add the frame log data recording groups to the sim
  -# Initialize the frame log data recording groups.
+-# Forget the start times of jobs that were in progress when frame logging was last turned off.
 -# Add instrument jobs
 -# Enable the recording groups
 -# Set the frame log flag to true
@@ -455,6 +457,12 @@ int Trick::FrameLog::framelog_on(Trick::DR_Buffering bufferType) {
         add_recording_groups_to_sim(bufferType) ;
         init_recording_groups() ;
     }
+    // jobs that are in progress now have no start time.
+    std::vector<Trick::JobData *> all_jobs_vector ;
+    exec_get_all_jobs_vector(all_jobs_vector) ;
+    for ( unsigned int ii = 0 ; ii < all_jobs_vector.size() ; ii++ ) {
+        all_jobs_vector[ii]->rt_start_time = -1 ;
+    }
     add_instrument_jobs() ;
     enable_recording_groups() ;
     frame_log_flag = true ;
-- 
2.43.0


From f71b40f38497ee3c6cdbafc8805db04ebb8e772f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:19:48 +0000
Subject: [PATCH 37/40] fix: the master tells its slaves to exit whatever ended
 the simulation

---
 trick_source/sim_services/MasterSlave/Master.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trick_source/sim_services/MasterSlave/Master.cpp b/trick_source/sim_services/MasterSlave/Master.cpp
index f397628..a7355ea 100644
--- a/trick_source/sim_services/MasterSlave/Master.cpp
+++ b/trick_source/sim_services/MasterSlave/Master.cpp
@@ -511,8 +511,9 @@ int Trick::Master::unfreeze() {
 
 int Trick::Master::shutdown() {
     /** @par Detailed Design: */
-    /** @li Sync with slave(s) */
+    /** @li Sync with slave(s). The slaves are to exit, whatever ended this simulation. */
     if ( enabled ) {
+        exec_set_exec_command(ExitCmd) ;
         end_of_frame_status_from_slave() ;
         end_of_frame_status_to_slave() ;
     }
-- 
2.43.0


From 6b36e19ad9caa4bb0fcbdfa67402a079dffa603f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:19:48 +0000
Subject: [PATCH 38/40] fix: the master answers the other slaves when a lost
 slave ends the simulation

---
 .../sim_services/MasterSlave/Master.cpp       | 27 ++++++++++++-------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/trick_source/sim_services/MasterSlave/Master.cpp b/trick_source/sim_services/MasterSlave/Master.cpp
index a7355ea..fec5bc0 100644
--- a/trick_source/sim_services/MasterSlave/Master.cpp
+++ b/trick_source/sim_services/MasterSlave/Master.cpp
@@ -17,6 +17,7 @@
 #include "trick/MSSocket.hh"
 #include "trick/MSSharedMem.hh"
 #include "trick/exec_proto.h"
+#include "trick/ExecutiveException.hh"
 #include "trick/sim_mode.h"
 #include "trick/command_line_protos.h"
 #include "trick/unix_commands.h"
@@ -387,7 +388,19 @@ int Trick::Master::end_of_frame_status_from_slave() {
     unsigned int ii ;
     if ( enabled ) {
         for ( ii = 0 ; ii < slaves.size() ; ii++ ) {
-            slaves[ii]->read_slave_status() ;
+            try {
+                slaves[ii]->read_slave_status() ;
+            } catch (Trick::ExecutiveException &) {
+                // This slave ends the simulation.  The slaves that have been read before it wait for an answer.
+                // Tell them to exit, the shutdown job does not read them again.
+                exec_set_exec_command(ExitCmd) ;
+                slaves[ii]->activated = false ;
+                for ( unsigned int jj = 0 ; jj < ii ; jj++ ) {
+                    slaves[jj]->write_master_status() ;
+                    slaves[jj]->activated = false ;
+                }
+                throw ;
+            }
         }
     }
 
@@ -446,10 +459,8 @@ int Trick::Master::checkpoint() {
         return(0);
     }
     if (enabled) {
-        // Use 2 loops to read all slave status before writing any status out.
-        for ( ii = 0 ; ii < slaves.size() ; ii++ ) {
-            slaves[ii]->read_slave_status() ;
-        }
+        // Read all slave status before writing any status out.
+        end_of_frame_status_from_slave() ;
         SIM_COMMAND save_command = exec_get_exec_command() ;
         std::string full_path_name = checkpoint_get_output_file();
         for ( ii = 0 ; ii < slaves.size() ; ii++ ) {
@@ -470,10 +481,8 @@ int Trick::Master::preload_checkpoint() {
     /** @li If chkpnt_load_auto, tell slave to load a checkpoint */
     unsigned int ii ;
     if (enabled) {
-        // Use 2 loops to read all slave status before writing any status out.
-        for ( ii = 0 ; ii < slaves.size() ; ii++ ) {
-            slaves[ii]->read_slave_status() ;
-        }
+        // Read all slave status before writing any status out.
+        end_of_frame_status_from_slave() ;
         SIM_COMMAND save_command = exec_get_exec_command() ;
         std::string full_path_name = checkpoint_get_load_file();
         for ( ii = 0 ; ii < slaves.size() ; ii++ ) {
-- 
2.43.0


From 8de0516cf6e835ece6534fc016aca4014241fbc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:19:48 +0000
Subject: [PATCH 39/40] fix: a frozen slave without a master keeps its
 commands, a stopped slave exits

---
 trick_source/sim_services/MasterSlave/Slave.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trick_source/sim_services/MasterSlave/Slave.cpp b/trick_source/sim_services/MasterSlave/Slave.cpp
index 2aa12a8..50f1435 100644
--- a/trick_source/sim_services/MasterSlave/Slave.cpp
+++ b/trick_source/sim_services/MasterSlave/Slave.cpp
@@ -248,7 +248,8 @@ int Trick::Slave::freeze() {
     /** @par Detailed Design */
     /** @li Call Trick::Slave::end_of_frame() */
 
-    if ( enabled ) {
+    // Leave the command alone when there is no master to command this slave, or when this slave has been told to exit.
+    if ( enabled && activated && (exec_get_exec_command() != ExitCmd) ) {
         exec_set_exec_command(NoCmd) ; // so master won't keep reading freeze command during freeze
         end_of_frame() ;
     }
-- 
2.43.0


From 1fac4f923222d7af228cd05c23d18d5fe8db7b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:19:48 +0000
Subject: [PATCH 40/40] fix: a slave that lost sync while its master freezes
 deactivates

---
 .../sim_services/MasterSlave/Slave.cpp        | 28 ++++++++-----------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/trick_source/sim_services/MasterSlave/Slave.cpp b/trick_source/sim_services/MasterSlave/Slave.cpp
index 50f1435..d915e8c 100644
--- a/trick_source/sim_services/MasterSlave/Slave.cpp
+++ b/trick_source/sim_services/MasterSlave/Slave.cpp
@@ -172,14 +172,12 @@ int Trick::Slave::end_of_frame() {
                 exec_terminate_with_return(-1, __FILE__, __LINE__ , "Slave lost sync with master") ;
             }
             else {
-                if (slave_command != MS_FreezeCmd){
-                    /** @li if reading the master time returned an error freeze the sim if sync_error_terminate == false */
-                    activated = false;
-                    message_publish(MSG_ERROR , "Slave lost sync with master. sync_error_terminate is false: Slave is entering Freeze mode.\n") ;
-                    exec_set_exec_command(FreezeCmd) ;
-                    connection->write_command(MS_FreezeCmd) ;
-                    return(0);
-                }
+                /** @li if reading the master time returned an error freeze the sim if sync_error_terminate == false */
+                activated = false;
+                message_publish(MSG_ERROR , "Slave lost sync with master. sync_error_terminate is false: Slave is entering Freeze mode.\n") ;
+                exec_set_exec_command(FreezeCmd) ;
+                connection->write_command(MS_FreezeCmd) ;
+                return(0);
             }
         }
 
@@ -195,14 +193,12 @@ int Trick::Slave::end_of_frame() {
                     exec_terminate_with_return(-1, __FILE__, __LINE__ , "Slave lost sync with master") ;
                 }
                 else {
-                    if (slave_command != MS_FreezeCmd) {
-                        /** @li if reading the master mode command returned an error freeze the sim if sync_error_terminate == false */
-                        activated = false;
-                        message_publish(MSG_ERROR , "Slave lost sync with master. sync_error_terminate is false: Slave is entering Freeze mode.\n") ;
-                        exec_set_exec_command(FreezeCmd) ;
-                        connection->write_command(MS_FreezeCmd) ;
-                        return(0);
-                    }
+                    /** @li if reading the master mode command returned an error freeze the sim if sync_error_terminate == false */
+                    activated = false;
+                    message_publish(MSG_ERROR , "Slave lost sync with master. sync_error_terminate is false: Slave is entering Freeze mode.\n") ;
+                    exec_set_exec_command(FreezeCmd) ;
+                    connection->write_command(MS_FreezeCmd) ;
+                    return(0);
                 }
                 break;
             /** @li if reading the master mode command returned a checkpoint dump command, dump a checkpoint */
-- 
2.43.0

