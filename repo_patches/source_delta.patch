From 1029db4d3cd43f9bb74d8d76ff8955fdb1698ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:47 +0000
Subject: [PATCH 01/78] fix: run readers before producers so SCQ entries are
 not overwritten unread

Within one time step a node could push a second verdict before a parent had
consumed all of the first one (an SCQ sized for its siblings' delay only holds
what a caught-up reader needs), so e.g. 'b <-> (a || G[1,2] b)' reported a wrong
verdict. Re-run the readers to quiescence before a producer may push again.
---
 monitors/c/src/engines/engines.c | 75 +++++++++++++++-----------------
 1 file changed, 35 insertions(+), 40 deletions(-)

diff --git a/monitors/c/src/engines/engines.c b/monitors/c/src/engines/engines.c
index ebbb6a6..5769ab4 100644
--- a/monitors/c/src/engines/engines.c
+++ b/monitors/c/src/engines/engines.c
@@ -15,47 +15,42 @@ r2u2_status_t r2u2_engine_step(r2u2_monitor_t* monitor) {
     }
     monitor->bz_program_count.curr_program_count = 0;
 
-    // Operate over all MLTL instructions until no further progress is made
-    r2u2_time start_time = monitor->time_stamp;
-    while(start_time == monitor->time_stamp){
-       while(monitor->mltl_program_count.curr_program_count < monitor->mltl_program_count.max_program_count){
-        R2U2_DEBUG_PRINT("(TL) %d.%zu.%d\n",monitor->time_stamp, monitor->mltl_program_count.curr_program_count, monitor->progress);
-        error_cond = r2u2_mltl_update(monitor);
-        monitor->mltl_program_count.curr_program_count++;
+    // Operate over all MLTL instructions once; this is the only pass that loads new atomics
+    while(monitor->mltl_program_count.curr_program_count < monitor->mltl_program_count.max_program_count){
+      R2U2_DEBUG_PRINT("(TL) %d.%zu.%d\n",monitor->time_stamp, monitor->mltl_program_count.curr_program_count, monitor->progress);
+      error_cond = r2u2_mltl_update(monitor);
+      monitor->mltl_program_count.curr_program_count++;
+    }
+
+    // Rerun until no further progress is made. SCQs are sized under the assumption that a
+    // node only produces another result once its readers have consumed all that they can, so
+    // readers go first: walk backwards and start over from the end after every bit of progress.
+    monitor->progress = R2U2_MONITOR_PROGRESS_RELOOP_NO_PROGRESS;
+    while(monitor->mltl_program_count.curr_program_count > 0){
+      monitor->mltl_program_count.curr_program_count--;
+      R2U2_DEBUG_PRINT("(TL) %d.%zu.%d\n",monitor->time_stamp, monitor->mltl_program_count.curr_program_count, monitor->progress);
+      error_cond = r2u2_mltl_update(monitor);
+      if (monitor->progress == R2U2_MONITOR_PROGRESS_RELOOP_WITH_PROGRESS){
+        monitor->mltl_program_count.curr_program_count = monitor->mltl_program_count.max_program_count;
+        monitor->progress = R2U2_MONITOR_PROGRESS_RELOOP_NO_PROGRESS;
       }
-      switch (monitor->progress) {
-        case R2U2_MONITOR_PROGRESS_FIRST_LOOP: {
-          // First pass complete, rerun program counter to check for progress
-          monitor->mltl_program_count.curr_program_count= 0;
-          monitor->progress = R2U2_MONITOR_PROGRESS_RELOOP_NO_PROGRESS;
-          break;
-        }
-        case R2U2_MONITOR_PROGRESS_RELOOP_WITH_PROGRESS: {
-          // Progress made this loop, rerun program counter
-          monitor->mltl_program_count.curr_program_count= 0;
-          monitor->progress = R2U2_MONITOR_PROGRESS_RELOOP_NO_PROGRESS;
-          break;
-        }
-        case R2U2_MONITOR_PROGRESS_RELOOP_NO_PROGRESS: {
-          // End of timestep - setup for next step
-
-          #if R2U2_DEBUG
-          // Debug print atomics at end of timestep
-          R2U2_TRACE_PRINT("ATM VEC ADDR: [%p]\n", monitor->atomic_buffer);
-          R2U2_DEBUG_PRINT("Atomic Vector:\n[");
-          for (int i=0; i < R2U2_MAX_ATOMICS-1; ++i) {
-            R2U2_DEBUG_PRINT("%d, ", (monitor->atomic_buffer)[i]);
-          }
-          R2U2_DEBUG_PRINT("%d]\n", (monitor->atomic_buffer)[R2U2_MAX_ATOMICS-1]);
-          #endif
-
-          // Update clock for next timestep
-          monitor->time_stamp++;
-          monitor->mltl_program_count.curr_program_count = 0;
-          monitor->progress = R2U2_MONITOR_PROGRESS_FIRST_LOOP;
-          break;
-        }
     }
-  }
+
+    // End of timestep - setup for next step
+
+    #if R2U2_DEBUG
+    // Debug print atomics at end of timestep
+    R2U2_TRACE_PRINT("ATM VEC ADDR: [%p]\n", monitor->atomic_buffer);
+    R2U2_DEBUG_PRINT("Atomic Vector:\n[");
+    for (int i=0; i < R2U2_MAX_ATOMICS-1; ++i) {
+      R2U2_DEBUG_PRINT("%d, ", (monitor->atomic_buffer)[i]);
+    }
+    R2U2_DEBUG_PRINT("%d]\n", (monitor->atomic_buffer)[R2U2_MAX_ATOMICS-1]);
+    #endif
+
+    // Update clock for next timestep
+    monitor->time_stamp++;
+    monitor->progress = R2U2_MONITOR_PROGRESS_FIRST_LOOP;
+
     return error_cond;
 }
-- 
2.43.0


From 6c4c9de488520b57eaab7a08dba651011e35820f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:42 +0000
Subject: [PATCH 02/78] fix: since and trigger lose or invent verdicts when
 operands arrive out of step

---
 monitors/c/src/engines/mltl.c | 209 ++++++++++++----------------------
 1 file changed, 73 insertions(+), 136 deletions(-)

diff --git a/monitors/c/src/engines/mltl.c b/monitors/c/src/engines/mltl.c
index 5b19179..e926522 100644
--- a/monitors/c/src/engines/mltl.c
+++ b/monitors/c/src/engines/mltl.c
@@ -288,78 +288,47 @@ r2u2_status_t r2u2_mltl_update(r2u2_monitor_t* monitor) {
         break;
       }
 
-      op0_rdy = check_operand_data(monitor, instr, 0, &op0);
-      op1_rdy = check_operand_data(monitor, instr, 1, &op1);
-
-      if (op1_rdy) {
-        if (get_verdict_truth(op1)) {
+      // The truth bit of the previous result storage flags that an output has been produced and
+      // the truth bit of the edge flags that the edge (i.e., the latest time the right operand
+      // was true) is still of use.
+      while (true) {
+        r2u2_time next_result = get_verdict_truth(temp->previous) ? get_verdict_time(temp->previous) + 1 : 0;
+        r2u2_bool edge_valid = get_verdict_truth(temp->edge) && get_verdict_time(temp->edge) + temp->upper_bound >= next_result;
+
+        // The right operand is observed at every time, but the left operand only matters from the
+        // first time that the previous result does not already cover
+        r2u2_time next_right = ctrl->next_time;
+        op1_rdy = check_operand_data(monitor, instr, 1, &op1);
+        ctrl->next_time = max(next_right, sub_min_zero(next_result, temp->lower_bound));
+        op0_rdy = check_operand_data(monitor, instr, 0, &op0);
+        ctrl->next_time = next_right;
+
+        if (op1_rdy && get_verdict_truth(op1)) {
           R2U2_DEBUG_PRINT("\tRight Op True\n");
           temp->edge = set_verdict_true(op1);
           ctrl->next_time = get_verdict_time(op1) + 1;
-          if (get_verdict_time(op1) >=  sub_min_zero((get_verdict_time(temp->previous)), (temp->lower_bound))){
-            result = set_verdict_true(get_verdict_time(op1) + temp->lower_bound);
-            // To handle startup behavior, the truth bit of the previous result
-            // storage is used to flag that an ouput has been produced, which can
-            // differentiate between a value of 0 for no output vs output produced.
-            // Note: Since only the timestamp of the previous result is ever checked,
-            // this overloading of the truth bit doesn't cause confict with other logic 
-            // and preserves startup behavior.
-            if ((get_verdict_time(result) > (get_verdict_time(temp->previous))) || \
-            ((get_verdict_time(result) == 0) && !(get_verdict_truth(temp->previous)))) {
-              push_result(monitor, instr, result);
-              ctrl->next_time = get_verdict_time(op1) + 1;
-              temp->previous = result;
-              error_cond = R2U2_OK;
-              break;
-            }
-          }
+          result = set_verdict_true(get_verdict_time(op1) + temp->lower_bound);
+        } else if (op1_rdy && get_verdict_time(op1) + temp->lower_bound < next_result) {
+          // Result is already known for as far as the right operand is
+          ctrl->next_time = get_verdict_time(op1) + 1;
+          continue;
+        } else if (op1_rdy && (!edge_valid || (op0_rdy && !(get_verdict_truth(op0))))) {
+          R2U2_DEBUG_PRINT("\tRight Op False and Edge out of reach\n");
+          temp->edge = set_verdict_false(temp->edge);
+          ctrl->next_time = get_verdict_time(op1) + 1;
+          result = set_verdict_false(get_verdict_time(op1) + temp->lower_bound);
+        } else if (op0_rdy && get_verdict_truth(op0) && edge_valid) {
+          R2U2_DEBUG_PRINT("\tLeft Op True Since Right Op True\n");
+          result = set_verdict_true(min(get_verdict_time(op0) + temp->lower_bound, get_verdict_time(temp->edge) + temp->upper_bound));
         } else {
-          if (!(get_verdict_truth(temp->edge)) || (get_verdict_time(temp->edge)) <= sub_min_zero((get_verdict_time(temp->previous)), temp->upper_bound) && (get_verdict_time(temp->previous)) >= temp->upper_bound){
-            ctrl->next_time = get_verdict_time(op1) + 1;
-            if (get_verdict_time(op1) >= sub_min_zero((get_verdict_time(temp->previous)), temp->lower_bound)){
-              result = set_verdict_false(get_verdict_time(op1) + temp->lower_bound);
-              if ((get_verdict_time(result) > (get_verdict_time(temp->previous))) || \
-              ((get_verdict_time(result) == 0) && !(get_verdict_truth(temp->previous)))) {
-                R2U2_DEBUG_PRINT("\tRight Op never true from [i-ub,i-lb]\n");
-                push_result(monitor, instr, result);
-                ctrl->next_time = get_verdict_time(op1) + 1;
-                temp->previous = set_verdict_true(result);
-                error_cond = R2U2_OK;
-                break;
-              }
-            }
-          }
-          if (op0_rdy && !(get_verdict_truth(op0))){
-            ctrl->next_time = get_verdict_time(op1) + 1;
-            if (get_verdict_time(op1) >= sub_min_zero((get_verdict_time(temp->previous)), temp->lower_bound)){
-              result = set_verdict_false(get_verdict_time(op1) + temp->lower_bound);
-              if ((get_verdict_time(result) > (get_verdict_time(temp->previous))) || \
-              ((get_verdict_time(result) == 0) && !(get_verdict_truth(temp->previous)))) {
-                R2U2_DEBUG_PRINT("\tBoth False\n");
-                push_result(monitor, instr, result);
-                ctrl->next_time = get_verdict_time(op1) + 1;
-                temp->previous = set_verdict_true(result);
-                error_cond = R2U2_OK;
-                break;
-              }
-            }
-          }
+          break; // Not enough data
+        }
+
+        if (get_verdict_time(result) >= next_result) {
+          push_result(monitor, instr, result);
+          temp->previous = set_verdict_true(result);
+          break;
         }
-      }
-      if (op0_rdy && get_verdict_truth(op0) && \
-        get_verdict_time(op0) >= sub_min_zero((get_verdict_time(temp->previous)), temp->lower_bound) && get_verdict_truth(temp->edge) && \
-        ((get_verdict_time(temp->edge)) > sub_min_zero((get_verdict_time(temp->previous)), temp->upper_bound) || (get_verdict_time(temp->previous)) < temp->upper_bound)) {
-        result = set_verdict_true(min(get_verdict_time(op0) + temp->lower_bound, (get_verdict_time(temp->edge)) + temp->upper_bound));
-          if ((get_verdict_time(result) > (get_verdict_time(temp->previous))) || \
-            ((get_verdict_time(result) == 0) && !(get_verdict_truth(temp->previous)))) {
-              R2U2_DEBUG_PRINT("\tLeft Op True Since Right Op True\n");
-              r2u2_time next = max(ctrl->next_time, sub_min_zero(get_verdict_time(result), temp->upper_bound) + 1);
-              push_result(monitor, instr, result);
-              ctrl->next_time = next;
-              temp->previous = result;
-              error_cond = R2U2_OK;
-              break;
-          }
       }
 
       error_cond = R2U2_OK;
@@ -373,84 +342,52 @@ r2u2_status_t r2u2_mltl_update(r2u2_monitor_t* monitor) {
         result = set_verdict_true(temp->lower_bound - 1);
         push_result(monitor, instr, result);
         ctrl->next_time = 0;
-        temp->previous = result;
+        temp->previous = set_verdict_true(result);
         error_cond = R2U2_OK;
         break;
       }
 
-      op0_rdy = check_operand_data(monitor, instr, 0, &op0);
-      op1_rdy = check_operand_data(monitor, instr, 1, &op1);
-
-      if (op1_rdy) {
-        if (!(get_verdict_truth(op1))) {
+      // The truth bit of the previous result storage flags that an output has been produced and
+      // the truth bit of the edge flags that the edge (i.e., the latest time the right operand
+      // was false) is still of use.
+      while (true) {
+        r2u2_time next_result = get_verdict_truth(temp->previous) ? get_verdict_time(temp->previous) + 1 : 0;
+        r2u2_bool edge_valid = get_verdict_truth(temp->edge) && get_verdict_time(temp->edge) + temp->upper_bound >= next_result;
+
+        // The right operand is observed at every time, but the left operand only matters from the
+        // first time that the previous result does not already cover
+        r2u2_time next_right = ctrl->next_time;
+        op1_rdy = check_operand_data(monitor, instr, 1, &op1);
+        ctrl->next_time = max(next_right, sub_min_zero(next_result, temp->lower_bound));
+        op0_rdy = check_operand_data(monitor, instr, 0, &op0);
+        ctrl->next_time = next_right;
+
+        if (op1_rdy && !(get_verdict_truth(op1))) {
           R2U2_DEBUG_PRINT("\tRight Op False\n");
           temp->edge = set_verdict_true(op1);
           ctrl->next_time = get_verdict_time(op1) + 1;
-          if (get_verdict_time(op1) >= sub_min_zero((get_verdict_time(temp->previous)), (temp->lower_bound))){
-            result = set_verdict_false(get_verdict_time(op1) + temp->lower_bound);
-            // To handle startup behavior, the truth bit of the previous result
-            // storage is used to flag that an ouput has been produced, which can
-            // differentiate between a value of 0 for no output vs output produced.
-            // Note: Since only the timestamp of the previous result is ever checked,
-            // this overloading of the truth bit doesn't cause confict with other logic 
-            // and preserves startup behavior.
-            if ((get_verdict_time(result) > (get_verdict_time(temp->previous))) || \
-            ((get_verdict_time(result) == 0) && !(get_verdict_truth(temp->previous)))) {
-              push_result(monitor, instr, result);
-              ctrl->next_time = get_verdict_time(op1) + 1;
-              temp->previous = set_verdict_true(result);
-              error_cond = R2U2_OK;
-              break;
-            }
-          }
+          result = set_verdict_false(get_verdict_time(op1) + temp->lower_bound);
+        } else if (op1_rdy && get_verdict_time(op1) + temp->lower_bound < next_result) {
+          // Result is already known for as far as the right operand is
+          ctrl->next_time = get_verdict_time(op1) + 1;
+          continue;
+        } else if (op1_rdy && (!edge_valid || (op0_rdy && !(!(get_verdict_truth(op0)))))) {
+          R2U2_DEBUG_PRINT("\tRight Op True and Edge out of reach\n");
+          temp->edge = set_verdict_false(temp->edge);
+          ctrl->next_time = get_verdict_time(op1) + 1;
+          result = set_verdict_true(get_verdict_time(op1) + temp->lower_bound);
+        } else if (op0_rdy && !(get_verdict_truth(op0)) && edge_valid) {
+          R2U2_DEBUG_PRINT("\tLeft Op False Since Right Op False\n");
+          result = set_verdict_false(min(get_verdict_time(op0) + temp->lower_bound, get_verdict_time(temp->edge) + temp->upper_bound));
         } else {
-          if (!(get_verdict_truth(temp->edge)) || (get_verdict_time(temp->edge)) <= sub_min_zero((get_verdict_time(temp->previous)),temp->upper_bound) && (get_verdict_time(temp->previous)) >= temp->upper_bound){
-            ctrl->next_time = get_verdict_time(op1) + 1;
-            if (get_verdict_time(op1) >= sub_min_zero((get_verdict_time(temp->previous)), temp->lower_bound)){
-              result = set_verdict_true(get_verdict_time(op1) + temp->lower_bound);
-              if ((get_verdict_time(result) > (get_verdict_time(temp->previous))) || \
-              ((get_verdict_time(result) == 0) && !(get_verdict_truth(temp->previous)))) {
-                R2U2_DEBUG_PRINT("\tRight Op true from [i-ub,i-lb]\n");
-                push_result(monitor, instr, result);
-                ctrl->next_time = get_verdict_time(op1) + 1;
-                temp->previous = result;
-                error_cond = R2U2_OK;
-                break;
-              }
-            }
-          }
-          if (op0_rdy && get_verdict_truth(op0)){
-            ctrl->next_time = get_verdict_time(op1) + 1;
-            if (get_verdict_time(op1) >= sub_min_zero((get_verdict_time(temp->previous)), temp->lower_bound)){
-              result = set_verdict_true(get_verdict_time(op1) + temp->lower_bound);
-              if ((get_verdict_time(result) > (get_verdict_time(temp->previous))) || \
-              ((get_verdict_time(result) == 0) && !(get_verdict_truth(temp->previous)))) {
-                R2U2_DEBUG_PRINT("\tBoth True\n");
-                push_result(monitor, instr, result);
-                ctrl->next_time = get_verdict_time(op1) + 1;
-                temp->previous = result;
-                error_cond = R2U2_OK;
-                break;
-              }
-            }
-          }
+          break; // Not enough data
+        }
+
+        if (get_verdict_time(result) >= next_result) {
+          push_result(monitor, instr, result);
+          temp->previous = set_verdict_true(result);
+          break;
         }
-      }
-      if (op0_rdy && !(get_verdict_truth(op0)) && \
-        get_verdict_time(op0) >= sub_min_zero((get_verdict_time(temp->previous)), temp->lower_bound) && get_verdict_truth(temp->edge) && \
-        ((get_verdict_time(temp->edge)) > sub_min_zero((get_verdict_time(temp->previous)), temp->upper_bound) || (get_verdict_time(temp->previous)) < temp->upper_bound)) {
-        R2U2_DEBUG_PRINT("We are here!\n");
-        result = set_verdict_false(min(get_verdict_time(op0) + temp->lower_bound, (get_verdict_time(temp->edge)) + temp->upper_bound));
-        if ((get_verdict_time(result) > (get_verdict_time(temp->previous))) || \
-            ((get_verdict_time(result) == 0) && !(get_verdict_truth(temp->previous)))) {
-              R2U2_DEBUG_PRINT("\tLeft Op False Since Right Op False\n");
-              r2u2_time next = max(ctrl->next_time, sub_min_zero(get_verdict_time(result), temp->upper_bound) + 1);
-              push_result(monitor, instr, result);
-              ctrl->next_time = next;
-              temp->previous = set_verdict_true(result);
-              error_cond = R2U2_OK;
-              break;
-            }
       }
 
       error_cond = R2U2_OK;
-- 
2.43.0


From baa410a573825cc6f1fcee30c7d411e60fb52d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:42 +0000
Subject: [PATCH 03/78] fix: do not feed the same constant operand forever

---
 monitors/c/src/engines/mltl.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/monitors/c/src/engines/mltl.c b/monitors/c/src/engines/mltl.c
index e926522..a5a6c3e 100644
--- a/monitors/c/src/engines/mltl.c
+++ b/monitors/c/src/engines/mltl.c
@@ -36,7 +36,8 @@ static r2u2_bool check_operand_data(r2u2_monitor_t* monitor, r2u2_mltl_instructi
             *result = set_verdict_false(monitor->time_stamp);
           }
         }
-        return true;
+        // A constant has a value for every time, but only one that was not used yet is new data
+        return get_verdict_time(*result) >= monitor->queue_arena.control_blocks[instr->memory_reference].next_time;
 
       case R2U2_FT_OP_ATOMIC:
         // Only load in atomics on first loop of time step
-- 
2.43.0


From 89ca11487dfcacda7bb6fba5d70290abd26ea13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:42 +0000
Subject: [PATCH 04/78] fix: rerun until and release when they consumed
 operands without a result

---
 monitors/c/src/engines/mltl.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/monitors/c/src/engines/mltl.c b/monitors/c/src/engines/mltl.c
index a5a6c3e..e196441 100644
--- a/monitors/c/src/engines/mltl.c
+++ b/monitors/c/src/engines/mltl.c
@@ -67,6 +67,14 @@ static r2u2_bool check_operand_data(r2u2_monitor_t* monitor, r2u2_mltl_instructi
     }
 }
 
+/// @brief      Flag that progress was made, i.e., that this time step needs another pass
+/// @param[in]  monitor Pointer to (configured) R2U2 monitor
+static void flag_progress(r2u2_monitor_t* monitor) {
+  if (monitor->progress == R2U2_MONITOR_PROGRESS_RELOOP_NO_PROGRESS) {
+    monitor->progress = R2U2_MONITOR_PROGRESS_RELOOP_WITH_PROGRESS;
+  }
+}
+
 /// @brief      Push new result to SCQ
 /// @param[in]  monitor Pointer to (configured) R2U2 monitor
 /// @param[in]  instr Pointer to r2u2_mltl_instruction_t (i.e., the node being written to)
@@ -75,9 +83,7 @@ static r2u2_bool check_operand_data(r2u2_monitor_t* monitor, r2u2_mltl_instructi
 static r2u2_status_t push_result(r2u2_monitor_t* monitor, r2u2_mltl_instruction_t* instr, r2u2_verdict result) {
   // Pushes result to queue and flags progress if needed
 
-  if (monitor->progress == R2U2_MONITOR_PROGRESS_RELOOP_NO_PROGRESS) {
-    monitor->progress = R2U2_MONITOR_PROGRESS_RELOOP_WITH_PROGRESS;
-  }
+  flag_progress(monitor);
 
   r2u2_scq_write(monitor->queue_arena, instr->memory_reference, result);
   R2U2_DEBUG_PRINT("\t(%d,%s)\n", get_verdict_time(result), (get_verdict_truth(result)) ? "T" : "F" );
@@ -179,6 +185,7 @@ r2u2_status_t r2u2_mltl_update(r2u2_monitor_t* monitor) {
         if (op0_rdy) {
           r2u2_time tau = min(get_verdict_time(op0), get_verdict_time(op1));
           ctrl->next_time = tau+1;
+          flag_progress(monitor); // Operands may hold more data, even if this does not yield a result
           if (!(get_verdict_truth(op0))){
             R2U2_DEBUG_PRINT("\tLeft and Right Op False\n");
             result = set_verdict_false(tau - temp->lower_bound);
@@ -233,6 +240,7 @@ r2u2_status_t r2u2_mltl_update(r2u2_monitor_t* monitor) {
         if (op0_rdy) {
           r2u2_time tau = min(get_verdict_time(op0), get_verdict_time(op1));
           ctrl->next_time = tau+1;
+          flag_progress(monitor); // Operands may hold more data, even if this does not yield a result
           if (get_verdict_truth(op0)){
             R2U2_DEBUG_PRINT("\tLeft and Right Op True\n");
             result = set_verdict_true(tau - temp->lower_bound);
-- 
2.43.0


From 7ef77aec195d077ce05acb02090a8c8d501682cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:42 +0000
Subject: [PATCH 05/78] fix: delays of past operators and of those with
 constant operands, which SCQ sizes depend on

---
 compiler/c2po/cpt.py | 14 ++++++++++++--
 compiler/c2po/scq.py |  6 ++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/compiler/c2po/cpt.py b/compiler/c2po/cpt.py
index d31da96..52e743e 100644
--- a/compiler/c2po/cpt.py
+++ b/compiler/c2po/cpt.py
@@ -822,7 +822,7 @@ class TemporalOperator(Operator):
         operator = TemporalOperator(loc, OperatorKind.HISTORICAL, lb, ub, [operand])
         operator.type = types.BoolType()
         operator.bpd = operand.bpd - ub
-        operator.wpd = operand.bpd - lb
+        operator.wpd = operand.wpd - lb
         return operator
 
     @staticmethod
@@ -832,7 +832,7 @@ class TemporalOperator(Operator):
         operator = TemporalOperator(loc, OperatorKind.ONCE, lb, ub, [operand])
         operator.type = types.BoolType()
         operator.bpd = operand.bpd - ub
-        operator.wpd = operand.bpd - lb
+        operator.wpd = operand.wpd - lb
         return operator
 
     @staticmethod
@@ -842,6 +842,11 @@ class TemporalOperator(Operator):
         operator = TemporalOperator(loc, OperatorKind.SINCE, lb, ub, [lhs, rhs])
         operator.type = types.BoolType()
         operator.bpd = min([opnd.bpd for opnd in [lhs, rhs]]) - lb
+        if isinstance(lhs, Constant):
+            # The left operand is known ahead of time, so results reach as far as the upper bound
+            operator.bpd = min(operator.bpd, rhs.bpd - ub)
+        if isinstance(rhs, Constant):
+            operator.bpd -= ub
         operator.wpd = max([opnd.wpd for opnd in [lhs, rhs]]) - lb
         return operator
 
@@ -851,6 +856,11 @@ class TemporalOperator(Operator):
     ) -> TemporalOperator:
         operator = TemporalOperator(loc, OperatorKind.TRIGGER, lb, ub, [lhs, rhs])
         operator.bpd = min([opnd.bpd for opnd in [lhs, rhs]]) - lb
+        if isinstance(lhs, Constant):
+            # The left operand is known ahead of time, so results reach as far as the upper bound
+            operator.bpd = min(operator.bpd, rhs.bpd - ub)
+        if isinstance(rhs, Constant):
+            operator.bpd -= ub
         operator.wpd = max([opnd.wpd for opnd in [lhs, rhs]]) - lb
         return operator
 
diff --git a/compiler/c2po/scq.py b/compiler/c2po/scq.py
index 06fbf5f..6c3a7a8 100644
--- a/compiler/c2po/scq.py
+++ b/compiler/c2po/scq.py
@@ -39,8 +39,10 @@ def compute_scq_sizes(program: cpt.Program, context: cpt.Context, options: dict[
             )
             continue
 
-        max_wpd = max([sibling.wpd for sibling in expr.get_siblings()] + [0])
-        expr.scq_size = max(max_wpd - expr.bpd, 0) + 1 + scq_constant
+        # Without siblings, each result is consumed as soon as it is produced
+        siblings = expr.get_siblings()
+        max_wpd = max([sibling.wpd for sibling in siblings] + [0])
+        expr.scq_size = (max(max_wpd - expr.bpd, 0) if siblings else 0) + 1 + scq_constant
         total_scq_size += expr.scq_size
         expr.scq = (
             total_scq_size - expr.scq_size,
-- 
2.43.0


From aca8077c4051f2968f83e9aa58f495afaf172570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:29 +0000
Subject: [PATCH 06/78] fix: set aggregations over a single element

---
 compiler/c2po/desugar.py | 71 ++++++++++++++++++++--------------------
 1 file changed, 36 insertions(+), 35 deletions(-)

diff --git a/compiler/c2po/desugar.py b/compiler/c2po/desugar.py
index db73c9e..b2234dd 100644
--- a/compiler/c2po/desugar.py
+++ b/compiler/c2po/desugar.py
@@ -183,13 +183,12 @@ def unroll_set_aggregation(program: cpt.Program, context: cpt.Context, options:
             for subexpr in cpt.postorder(expr.get_set(), context):
                 resolve_struct_accesses(subexpr, context)
 
-            new = cpt.Operator.LogicalAnd(
-                expr.loc,
-                [
-                    cpt.rename(expr.bound_var, e, expr.get_expr(), context)
-                    for e in expr.get_set().children
-                ],
-            )
+            operands = [
+                cpt.rename(expr.bound_var, e, expr.get_expr(), context)
+                for e in expr.get_set().children
+            ]
+            # An operator over a single operand is that operand
+            new = operands[0] if len(operands) == 1 else cpt.Operator.LogicalAnd(expr.loc, operands)
 
             expr.replace(new)
 
@@ -199,13 +198,12 @@ def unroll_set_aggregation(program: cpt.Program, context: cpt.Context, options:
             for subexpr in cpt.postorder(expr.get_set(), context):
                 resolve_struct_accesses(subexpr, context)
 
-            new = cpt.Operator.LogicalOr(
-                expr.loc,
-                [
-                    cpt.rename(expr.bound_var, e, expr.get_expr(), context)
-                    for e in expr.get_set().children
-                ],
-            )
+            operands = [
+                cpt.rename(expr.bound_var, e, expr.get_expr(), context)
+                for e in expr.get_set().children
+            ]
+            # An operator over a single operand is that operand
+            new = operands[0] if len(operands) == 1 else cpt.Operator.LogicalOr(expr.loc, operands)
 
             expr.replace(new)
 
@@ -219,15 +217,16 @@ def unroll_set_aggregation(program: cpt.Program, context: cpt.Context, options:
             if not num:
                 raise ValueError(f"Number of exactly aggregation is required ({expr})")
 
+            operands = [
+                cpt.rename(expr.bound_var, e, expr.get_expr(), context)
+                for e in expr.get_set().children
+            ]
+            # An operator over a single operand is that operand
             new = cpt.Operator.Equal(
                 expr.loc,
-                cpt.Operator.ArithmeticAdd(
-                    expr.loc,
-                    [
-                        cpt.rename(expr.bound_var, e, expr.get_expr(), context)
-                        for e in expr.get_set().children
-                    ],
-                    types.IntType(),
+                (
+                    operands[0] if len(operands) == 1 else
+                    cpt.Operator.ArithmeticAdd(expr.loc, operands, types.IntType())
                 ),
                 num,
             )
@@ -244,15 +243,16 @@ def unroll_set_aggregation(program: cpt.Program, context: cpt.Context, options:
             if not num:
                 raise ValueError(f"Number of at least aggregation is required ({expr})")
 
+            operands = [
+                cpt.rename(expr.bound_var, e, expr.get_expr(), context)
+                for e in expr.get_set().children
+            ]
+            # An operator over a single operand is that operand
             new = cpt.Operator.GreaterThanOrEqual(
                 expr.loc,
-                cpt.Operator.ArithmeticAdd(
-                    expr.loc,
-                    [
-                        cpt.rename(expr.bound_var, e, expr.get_expr(), context)
-                        for e in expr.get_set().children
-                    ],
-                    types.IntType(),
+                (
+                    operands[0] if len(operands) == 1 else
+                    cpt.Operator.ArithmeticAdd(expr.loc, operands, types.IntType())
                 ),
                 num,
             )
@@ -269,15 +269,16 @@ def unroll_set_aggregation(program: cpt.Program, context: cpt.Context, options:
             if not num:
                 raise ValueError(f"Number of at most aggregation is required ({expr})")
 
+            operands = [
+                cpt.rename(expr.bound_var, e, expr.get_expr(), context)
+                for e in expr.get_set().children
+            ]
+            # An operator over a single operand is that operand
             new = cpt.Operator.LessThanOrEqual(
                 expr.loc,
-                cpt.Operator.ArithmeticAdd(
-                    expr.loc,
-                    [
-                        cpt.rename(expr.bound_var, e, expr.get_expr(), context)
-                        for e in expr.get_set().children
-                    ],
-                    types.IntType(),
+                (
+                    operands[0] if len(operands) == 1 else
+                    cpt.Operator.ArithmeticAdd(expr.loc, operands, types.IntType())
                 ),
                 num,
             )
-- 
2.43.0


From 2a5f83ba339e5ac0312d8edec9c7cdc71618f769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:29 +0000
Subject: [PATCH 07/78] fix: report constant past-time formulas as unsupported
 instead of crashing

---
 compiler/c2po/assemble.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/compiler/c2po/assemble.py b/compiler/c2po/assemble.py
index 5fd8629..4f41874 100644
--- a/compiler/c2po/assemble.py
+++ b/compiler/c2po/assemble.py
@@ -557,6 +557,11 @@ def gen_pt_instruction(
     ptid = len(instructions)
 
     if isinstance(expr, cpt.Formula):
+        # Special case: if formula is a constant, report error
+        if isinstance(expr.get_expr(), cpt.Constant):
+            log.error(f"found constant formula '{expr}', this is not supported")
+            return None
+
         operand1_type, operand1_value = (
             TLOperandType.SUBFORMULA,
             instructions[expr.get_expr()].id,
-- 
2.43.0


From afdfc086831b08c10a45aa28daf7d72c1542ff43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:24 +0000
Subject: [PATCH 08/78] fix: rewrites drop operands of conjunctions and
 disjunctions with more than two

---
 compiler/c2po/rewrite.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/compiler/c2po/rewrite.py b/compiler/c2po/rewrite.py
index f672c7f..0512a87 100644
--- a/compiler/c2po/rewrite.py
+++ b/compiler/c2po/rewrite.py
@@ -129,8 +129,8 @@ def optimize_rewrites(program: cpt.Program, context: cpt.Context, options: dict[
                     lb = expr.interval.lb + opnd1.interval.lb
                     ub = expr.interval.ub + opnd1.interval.ub
                     new = cpt.TemporalOperator.Future(expr.loc, lb, ub, opnd2)
-        elif cpt.is_operator(expr, cpt.OperatorKind.LOGICAL_AND):
-            # Assume binary for now
+        elif cpt.is_operator(expr, cpt.OperatorKind.LOGICAL_AND) and len(expr.children) == 2:
+            # Only binary for now
             lhs = expr.children[0]
             rhs = expr.children[1]
             if (
@@ -220,8 +220,8 @@ def optimize_rewrites(program: cpt.Program, context: cpt.Context, options: dict[
                         cpt.Operator.LogicalAnd(expr.loc, [lhs_lhs, rhs_lhs]),
                         lhs_rhs
                     )
-        elif cpt.is_operator(expr, cpt.OperatorKind.LOGICAL_OR):
-            # Assume binary for now
+        elif cpt.is_operator(expr, cpt.OperatorKind.LOGICAL_OR) and len(expr.children) == 2:
+            # Only binary for now
             lhs = expr.children[0]
             rhs = expr.children[1]
             if (
-- 
2.43.0


From 8a9e5b1f21176f29fdd47d81777b1b59c5070ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:24 +0000
Subject: [PATCH 09/78] fix: assemble expressions shared by future- and
 past-time sections once per use

---
 compiler/c2po/assemble.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/compiler/c2po/assemble.py b/compiler/c2po/assemble.py
index 4f41874..983cc82 100644
--- a/compiler/c2po/assemble.py
+++ b/compiler/c2po/assemble.py
@@ -728,6 +728,7 @@ def gen_assembly(program: cpt.Program, context: cpt.Context) -> Optional[list[In
     ft_instructions: dict[cpt.Expression, TLInstruction] = {}
     pt_instructions: dict[cpt.Expression, TLInstruction] = {}
     cg_instructions: dict[cpt.Expression, list[CGInstruction]] = {}
+    pt_cg_instructions: dict[cpt.Expression, list[CGInstruction]] = {}
 
     # For tracking scq usage across FT and PT
     ft_scqs: int = 0
@@ -785,7 +786,7 @@ def gen_assembly(program: cpt.Program, context: cpt.Context) -> Optional[list[In
                 0,
             )
             log.debug(1, f"Generating: {expr}\n\t" f"{pt_instructions[expr]}")
-            cg_instructions[expr] = gen_pt_scq_instructions(expr, pt_instructions)
+            pt_cg_instructions[expr] = gen_pt_scq_instructions(expr, pt_instructions)
 
         # Special case for bool -- TL ops directly embed bool literals in their operands,
         # so if this is a bool literal with only TL parents we should skip.
@@ -794,13 +795,16 @@ def gen_assembly(program: cpt.Program, context: cpt.Context) -> Optional[list[In
             continue
 
         if expr.engine == types.R2U2Engine.BOOLEANIZER:
+            # Both sections can refer to the same (sub)expression via a definition
+            if expr in bz_instructions:
+                continue
             bz_instructions[expr] = gen_bz_instruction(expr, context, bz_instructions)
         elif expr.engine == types.R2U2Engine.TEMPORAL_LOGIC:
             new_pt_instruction = gen_pt_instruction(expr, pt_instructions, ft_scqs)
             if not new_pt_instruction:
                 return None
             pt_instructions[expr] = new_pt_instruction
-            cg_instructions[expr] = gen_pt_scq_instructions(expr, pt_instructions)
+            pt_cg_instructions[expr] = gen_pt_scq_instructions(expr, pt_instructions)
 
     # Move all PREV booleanizer instructions to the end (i.e., always update the 'previous' 
     # value after current iteration)
@@ -810,7 +814,11 @@ def gen_assembly(program: cpt.Program, context: cpt.Context) -> Optional[list[In
 
     # Move all CG TEMP instructions to the end (i.e., always completely configure the SCQ size
     # for all SCQ's before configuring temporal metadata)
-    cg_instructions_ordered = [cg_instr for cg_instrs in cg_instructions.values() for cg_instr in cg_instrs]
+    cg_instructions_ordered = [
+        cg_instr
+        for cg_instrs in [*cg_instructions.values(), *pt_cg_instructions.values()]
+        for cg_instr in cg_instrs
+    ]
     idx = 0
     end_of_instructions = len(cg_instructions_ordered)
     while idx < end_of_instructions:
-- 
2.43.0


From 47462c6e4c4c160f9a6d47c07e204a5cbfbdaf02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:49 +0000
Subject: [PATCH 10/78] fix: convert equivalences to boolean normal form

---
 compiler/c2po/transform.py | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/compiler/c2po/transform.py b/compiler/c2po/transform.py
index 0dd4e06..10ef5de 100644
--- a/compiler/c2po/transform.py
+++ b/compiler/c2po/transform.py
@@ -60,6 +60,29 @@ def to_bnf(program: cpt.Program, context: cpt.Context, options: dict[str, Any])
                     ],
                 )
             )
+        elif expr.operator is cpt.OperatorKind.LOGICAL_EQUIV:
+            lhs = expr.children[0]
+            rhs = expr.children[1]
+            # p <-> q = !(p && !q) && !(!p && q)
+            expr.replace(
+                cpt.Operator.LogicalAnd(
+                    expr.loc,
+                    [
+                        cpt.Operator.LogicalNegate(
+                            expr.loc,
+                            cpt.Operator.LogicalAnd(
+                                expr.loc, [lhs, cpt.Operator.LogicalNegate(rhs.loc, rhs)]
+                            ),
+                        ),
+                        cpt.Operator.LogicalNegate(
+                            expr.loc,
+                            cpt.Operator.LogicalAnd(
+                                expr.loc, [cpt.Operator.LogicalNegate(lhs.loc, lhs), rhs]
+                            ),
+                        ),
+                    ],
+                )
+            )
         elif expr.operator is cpt.OperatorKind.FUTURE:
             expr = cast(cpt.TemporalOperator, expr)
             operand = expr.children[0]
-- 
2.43.0


From c84cb5da103f2cd57f4a8e04dba08f804f1e5612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:25 +0000
Subject: [PATCH 11/78] fix: complete negation normal form below double
 negations

---
 compiler/c2po/cpt.py       |  4 +++-
 compiler/c2po/transform.py | 13 +++++++++----
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/compiler/c2po/cpt.py b/compiler/c2po/cpt.py
index 52e743e..5cc293d 100644
--- a/compiler/c2po/cpt.py
+++ b/compiler/c2po/cpt.py
@@ -1671,7 +1671,9 @@ def preorder(
         yield expr
 
         # if expr has been replaced since we just yielded it, need to traverse down the replacement node
-        cur = expr.replacement if expr.replacement else expr
+        cur = expr
+        while cur.replacement:
+            cur = cur.replacement
 
         visited.add(id(cur))
 
diff --git a/compiler/c2po/transform.py b/compiler/c2po/transform.py
index 10ef5de..4dc0520 100644
--- a/compiler/c2po/transform.py
+++ b/compiler/c2po/transform.py
@@ -156,13 +156,18 @@ def to_nnf(program: cpt.Program, context: cpt.Context, options: dict[str, Any])
     bounds: cpt.ConcreteInterval
 
     for expr in program.preorder(context):
+        while cpt.is_operator(expr, cpt.OperatorKind.LOGICAL_NEGATE) and cpt.is_operator(
+            expr.children[0], cpt.OperatorKind.LOGICAL_NEGATE
+        ):
+            # !!p |-> p, where p has to be converted as well
+            operand = expr.children[0].children[0]
+            expr.replace(operand)
+            expr = operand
+
         if cpt.is_operator(expr, cpt.OperatorKind.LOGICAL_NEGATE):
             operand = expr.children[0]
 
-            if cpt.is_operator(operand, cpt.OperatorKind.LOGICAL_NEGATE):
-                # !!p |-> p
-                expr.replace(operand.children[0])
-            elif cpt.is_operator(operand, cpt.OperatorKind.LOGICAL_OR):
+            if cpt.is_operator(operand, cpt.OperatorKind.LOGICAL_OR):
                 # !(p || q) |-> !p && !q
                 expr.replace(
                     cpt.Operator.LogicalAnd(
-- 
2.43.0


From 7c35d8edb0f778176a10f1cda50ce4412014630f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:55 +0000
Subject: [PATCH 12/78] fix: negative integer constants cannot be encoded

---
 compiler/c2po/assemble.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/compiler/c2po/assemble.py b/compiler/c2po/assemble.py
index 983cc82..ee50a7b 100644
--- a/compiler/c2po/assemble.py
+++ b/compiler/c2po/assemble.py
@@ -852,7 +852,7 @@ def pack_bz_instruction(
         1,
         f"packing bz instruction: {instruction}\n\t"
         f"{format_strs[FieldType.ENGINE_TAG]:2} "
-        f"{format_strs[FieldType.BZ_OPERAND_FLOAT] if isinstance(instruction.operand1, float) else (format_strs[FieldType.BZ_OPERAND_ID] if (instruction.operator is BZOperator.ICONST) else format_strs[FieldType.BZ_OPERAND_INT])} "
+        f"{format_strs[FieldType.BZ_OPERAND_FLOAT] if isinstance(instruction.operand1, float) else (format_strs[FieldType.BZ_OPERAND_INT] if (instruction.operator is BZOperator.ICONST) else format_strs[FieldType.BZ_OPERAND_ID])} "
         f"{format_strs[FieldType.BZ_ID]:2} "
         f"{format_strs[FieldType.BZ_ID]:2} "
         f"{format_strs[FieldType.BZ_OPERATOR]:2} "
@@ -870,9 +870,9 @@ def pack_bz_instruction(
     format_str += (
         format_strs[FieldType.BZ_OPERAND_FLOAT]
         if isinstance(instruction.operand1, float)
-        else format_strs[FieldType.BZ_OPERAND_ID]
-        if instruction.operator is BZOperator.ICONST
         else format_strs[FieldType.BZ_OPERAND_INT]
+        if instruction.operator is BZOperator.ICONST
+        else format_strs[FieldType.BZ_OPERAND_ID]
     )
     format_str += (
         format_strs[FieldType.BZ_ID]
-- 
2.43.0


From ad1f9e6ae67d9dac80822534639c3e80af3fb3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:39 +0000
Subject: [PATCH 13/78] fix: boolean constants as initial values of prev

---
 compiler/c2po/assemble.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/compiler/c2po/assemble.py b/compiler/c2po/assemble.py
index ee50a7b..250fd13 100644
--- a/compiler/c2po/assemble.py
+++ b/compiler/c2po/assemble.py
@@ -756,10 +756,15 @@ def gen_assembly(program: cpt.Program, context: cpt.Context) -> Optional[list[In
 
         # Special case for bool -- TL ops directly embed bool literals in their operands,
         # so if this is a bool literal with only TL parents we should skip.
-        # TODO: Is there a case where a bool is used by the BZ engine? As in when this is ever not true for a bool?
         if isinstance(expr, cpt.Constant) and expr.has_only_tl_parents():
             continue
 
+        # ...and other bool literals are only loaded for their BZ parents.
+        if isinstance(expr, cpt.Constant) and types.is_bool_type(expr.type):
+            if expr not in bz_instructions:
+                bz_instructions[expr] = gen_bz_instruction(expr, context, bz_instructions)
+            continue
+
         if expr.engine == types.R2U2Engine.BOOLEANIZER:
             bz_instructions[expr] = gen_bz_instruction(expr, context, bz_instructions)
         elif expr.engine == types.R2U2Engine.TEMPORAL_LOGIC:
@@ -790,10 +795,15 @@ def gen_assembly(program: cpt.Program, context: cpt.Context) -> Optional[list[In
 
         # Special case for bool -- TL ops directly embed bool literals in their operands,
         # so if this is a bool literal with only TL parents we should skip.
-        # TODO: Is there a case where a bool is used by the BZ engine? As in when this is ever not true for a bool?
         if isinstance(expr, cpt.Constant) and expr.has_only_tl_parents():
             continue
 
+        # ...and other bool literals are only loaded for their BZ parents.
+        if isinstance(expr, cpt.Constant) and types.is_bool_type(expr.type):
+            if expr not in bz_instructions:
+                bz_instructions[expr] = gen_bz_instruction(expr, context, bz_instructions)
+            continue
+
         if expr.engine == types.R2U2Engine.BOOLEANIZER:
             # Both sections can refer to the same (sub)expression via a definition
             if expr in bz_instructions:
-- 
2.43.0


From 0a222ef2b1c69c0a1af7f4814a61cbe5da0c4b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:03 +0000
Subject: [PATCH 14/78] fix: comparisons of booleans without the booleanizer
 and of temporal formulas

---
 compiler/c2po/atomics.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/compiler/c2po/atomics.py b/compiler/c2po/atomics.py
index b1bf758..ccc4bea 100644
--- a/compiler/c2po/atomics.py
+++ b/compiler/c2po/atomics.py
@@ -16,6 +16,25 @@ def compute_atomics(program: cpt.Program, context: cpt.Context, options: dict[st
                     parent.children[i] = new
             new.parents.add(parent)
 
+    # Comparisons of booleans that the booleanizer does not compute are equivalences
+    for expr in program.postorder(context):
+        if not (
+            cpt.is_operator(expr, cpt.OperatorKind.EQUAL)
+            or cpt.is_operator(expr, cpt.OperatorKind.NOT_EQUAL)
+        ) or not all(types.is_bool_type(child.type) for child in expr.children):
+            continue
+
+        if context.enable_booleanizer and all(
+            isinstance(child, cpt.Constant) or child.engine == types.R2U2Engine.BOOLEANIZER
+            for child in expr.children
+        ):
+            continue
+
+        new: cpt.Expression = cpt.Operator.LogicalIff(expr.loc, expr.children[0], expr.children[1])
+        if cpt.is_operator(expr, cpt.OperatorKind.NOT_EQUAL):
+            new = cpt.Operator.LogicalNegate(expr.loc, new)
+        expr.replace(new)
+
     aid: int = 0
 
     for expr in program.postorder(context):
-- 
2.43.0


From d9071db0e8dadc7cd2d60bf9affa4ff8cf8e6399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:28 +0000
Subject: [PATCH 15/78] fix: update nested prev operators before their operands

---
 compiler/c2po/assemble.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/compiler/c2po/assemble.py b/compiler/c2po/assemble.py
index 250fd13..661956b 100644
--- a/compiler/c2po/assemble.py
+++ b/compiler/c2po/assemble.py
@@ -817,8 +817,14 @@ def gen_assembly(program: cpt.Program, context: cpt.Context) -> Optional[list[In
             pt_cg_instructions[expr] = gen_pt_scq_instructions(expr, pt_instructions)
 
     # Move all PREV booleanizer instructions to the end (i.e., always update the 'previous' 
-    # value after current iteration)
-    for key in list(bz_instructions):
+    # value after current iteration), outer ones before those nested in them such that they read
+    # the value that their operand has in this iteration
+    prev_depth: dict[cpt.Expression, int] = {}
+    for key in bz_instructions:
+        prev_depth[key] = max([prev_depth.get(child, 0) for child in key.children] + [0])
+        if bz_instructions[key].operator is BZOperator.PREV:
+            prev_depth[key] += 1
+    for key in sorted(bz_instructions, key=lambda key: prev_depth[key], reverse=True):
         if bz_instructions[key].operator is BZOperator.PREV:
             bz_instructions[key] = bz_instructions.pop(key)
 
-- 
2.43.0


From 63e3b758fbeb0bf033aa49652cf30cad0caa76fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:28 +0000
Subject: [PATCH 16/78] fix: set delays, which SCQ sizes depend on, once
 definitions and labels are expanded

---
 compiler/c2po/cpt.py     | 59 +++++++++++++++++++++++++---------------
 compiler/c2po/desugar.py | 18 ++++++++++++
 compiler/c2po/scq.py     |  2 ++
 3 files changed, 57 insertions(+), 22 deletions(-)

diff --git a/compiler/c2po/cpt.py b/compiler/c2po/cpt.py
index 5cc293d..2db71b3 100644
--- a/compiler/c2po/cpt.py
+++ b/compiler/c2po/cpt.py
@@ -103,6 +103,10 @@ class Expression(Node):
         self.replacement = new
         new.type = self.type
 
+    def set_delays(self) -> None:
+        """Sets the best- and worst-case propagation delays according to those of the children."""
+        pass
+
     def has_only_tl_parents(self) -> bool:
         """Returns True if all parents of this node are computed by the TL Engine (is a logical or temporal operator)."""
         return all(
@@ -523,14 +527,17 @@ class Operator(Expression):
         self.operator: OperatorKind = op_kind
         self.symbol: str = op_kind.value
 
-        self.wpd = max([c.wpd for c in children])
-        self.bpd = min([c.bpd for c in children])
+        Operator.set_delays(self)
 
         if is_temporal_operator(self) or is_logical_operator(self):
             self.engine = types.R2U2Engine.TEMPORAL_LOGIC
         else:
             self.engine = types.R2U2Engine.BOOLEANIZER
 
+    def set_delays(self) -> None:
+        self.wpd = max([c.wpd for c in self.children])
+        self.bpd = min([c.bpd for c in self.children])
+
     @staticmethod
     def Min(loc: log.FileLocation, operands: list[Expression]) -> Operator:
         new = Operator(loc, OperatorKind.MIN, operands)
@@ -779,8 +786,29 @@ class TemporalOperator(Operator):
         super().__init__(loc, operator, children)
         self.interval = ConcreteInterval(lb, ub)
         self.symbol = f"{operator.value}[{lb},{ub}]"
-        self.bpd = min([c.bpd for c in children]) + lb
-        self.wpd = max([c.wpd for c in children]) + ub
+        self.set_delays()
+
+    def set_delays(self) -> None:
+        lb, ub = self.interval.lb, self.interval.ub
+        wpd = max([c.wpd for c in self.children])
+        bpd = min([c.bpd for c in self.children])
+
+        if is_future_time_operator(self):
+            self.bpd = bpd + lb
+            self.wpd = wpd + ub
+            return
+
+        self.wpd = wpd - lb
+        if self.operator in (OperatorKind.HISTORICAL, OperatorKind.ONCE):
+            self.bpd = bpd - ub
+            return
+
+        self.bpd = bpd - lb
+        if isinstance(self.children[0], Constant):
+            # The left operand is known ahead of time, so results reach as far as the upper bound
+            self.bpd = min(self.bpd, self.children[1].bpd - ub)
+        if isinstance(self.children[1], Constant):
+            self.bpd -= ub
 
     @staticmethod
     def Global(
@@ -821,8 +849,6 @@ class TemporalOperator(Operator):
     ) -> TemporalOperator:
         operator = TemporalOperator(loc, OperatorKind.HISTORICAL, lb, ub, [operand])
         operator.type = types.BoolType()
-        operator.bpd = operand.bpd - ub
-        operator.wpd = operand.wpd - lb
         return operator
 
     @staticmethod
@@ -831,8 +857,6 @@ class TemporalOperator(Operator):
     ) -> TemporalOperator:
         operator = TemporalOperator(loc, OperatorKind.ONCE, lb, ub, [operand])
         operator.type = types.BoolType()
-        operator.bpd = operand.bpd - ub
-        operator.wpd = operand.wpd - lb
         return operator
 
     @staticmethod
@@ -841,13 +865,6 @@ class TemporalOperator(Operator):
     ) -> TemporalOperator:
         operator = TemporalOperator(loc, OperatorKind.SINCE, lb, ub, [lhs, rhs])
         operator.type = types.BoolType()
-        operator.bpd = min([opnd.bpd for opnd in [lhs, rhs]]) - lb
-        if isinstance(lhs, Constant):
-            # The left operand is known ahead of time, so results reach as far as the upper bound
-            operator.bpd = min(operator.bpd, rhs.bpd - ub)
-        if isinstance(rhs, Constant):
-            operator.bpd -= ub
-        operator.wpd = max([opnd.wpd for opnd in [lhs, rhs]]) - lb
         return operator
 
     @staticmethod
@@ -855,13 +872,6 @@ class TemporalOperator(Operator):
         loc: log.FileLocation, lb: int, ub: int, lhs: Expression, rhs: Expression
     ) -> TemporalOperator:
         operator = TemporalOperator(loc, OperatorKind.TRIGGER, lb, ub, [lhs, rhs])
-        operator.bpd = min([opnd.bpd for opnd in [lhs, rhs]]) - lb
-        if isinstance(lhs, Constant):
-            # The left operand is known ahead of time, so results reach as far as the upper bound
-            operator.bpd = min(operator.bpd, rhs.bpd - ub)
-        if isinstance(rhs, Constant):
-            operator.bpd -= ub
-        operator.wpd = max([opnd.wpd for opnd in [lhs, rhs]]) - lb
         return operator
 
 class SymbolicTemporalOperator(Operator):
@@ -1381,6 +1391,11 @@ class Program(Node):
     def get_specs(self) -> list[Specification]:
         return self.ft_spec_set.get_specs() + self.pt_spec_set.get_specs()
 
+    def set_delays(self, context: Context) -> None:
+        """Sets the propagation delays of all expressions, which replacing subexpressions can change."""
+        for expr in self.postorder(context):
+            expr.set_delays()
+
     def get_max_wpd(self) -> int:
         """Returns the maximum worst-case propagation delay of all specifications in this `Program`."""
         return max([spec.get_expr().wpd for spec in self.get_specs() if isinstance(spec, Formula)])
diff --git a/compiler/c2po/desugar.py b/compiler/c2po/desugar.py
index b2234dd..afd0c89 100644
--- a/compiler/c2po/desugar.py
+++ b/compiler/c2po/desugar.py
@@ -427,6 +427,23 @@ unroll_array_accesses_command = command.Command(
 )
 command.CommandRegistry.register(unroll_array_accesses_command)
 
+def set_delays(program: cpt.Program, context: cpt.Context, options: dict[str, Any]) -> command.ReturnCode:
+    """
+    Sets the propagation delays of each expression in `program`, which are not known before definitions are expanded.
+    Returns a ReturnCode.SUCCESS if successful, ReturnCode.ERROR otherwise.
+    """
+    program.set_delays(context)
+    return command.ReturnCode.SUCCESS
+
+set_delays_command = command.Command(
+    name="set_delays",
+    description="Sets the propagation delays of each expression in `program`, which are not known before definitions are expanded.",
+    options=[],
+    func=set_delays,
+    guards=[command.WELL_TYPED],
+)
+command.CommandRegistry.register(set_delays_command)
+
 desugar_command = command.CompositeCommand(
     name="desugar",
     description="A list of commands to desugar a program. Only C2PO programs need to be desugared.",
@@ -441,6 +458,7 @@ desugar_command = command.CompositeCommand(
         resolve_struct_accesses_command,
         unroll_array_accesses_command, 
         resolve_struct_accesses_command,
+        set_delays_command,
     ],
     guards=[command.WELL_TYPED],
 )
diff --git a/compiler/c2po/scq.py b/compiler/c2po/scq.py
index 6c3a7a8..eef8dc8 100644
--- a/compiler/c2po/scq.py
+++ b/compiler/c2po/scq.py
@@ -11,6 +11,8 @@ def compute_scq_sizes(program: cpt.Program, context: cpt.Context, options: dict[
     scq_constant = options["scq_constant"]
     total_scq_size = 0
 
+    program.set_delays(context)
+
     for expr in cpt.postorder(cast("list[cpt.Expression]", program.get_specs()), context):
         if isinstance(expr, cpt.SpecSection):
             continue
-- 
2.43.0


From a465cd504f210ef2150bd9b73c5716aaf5f71441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:28 +0000
Subject: [PATCH 17/78] fix: temporal operators in definitions are checked
 against the section that uses them

---
 compiler/c2po/cpt.py        | 10 +++++++---
 compiler/c2po/type_check.py | 32 ++++++++++++++++++++++++++++++++
 2 files changed, 39 insertions(+), 3 deletions(-)

diff --git a/compiler/c2po/cpt.py b/compiler/c2po/cpt.py
index 2db71b3..71ae44e 100644
--- a/compiler/c2po/cpt.py
+++ b/compiler/c2po/cpt.py
@@ -1487,7 +1487,7 @@ class Context:
         self.stats: stats.Stats = stats.Stats()
 
         # Status flags
-        self.is_ft = False
+        self.is_ft: Optional[bool] = False
         self.has_future_time = False
         self.has_past_time = False
         self.status = True
@@ -1554,10 +1554,10 @@ class Context:
         return symbols
 
     def is_future_time(self) -> bool:
-        return self.is_ft
+        return self.is_ft is True
 
     def is_past_time(self) -> bool:
-        return not self.is_ft
+        return self.is_ft is False
 
     def set_future_time(self) -> None:
         self.is_ft = True
@@ -1565,6 +1565,10 @@ class Context:
     def set_past_time(self) -> None:
         self.is_ft = False
 
+    def set_any_time(self) -> None:
+        """Neither future nor past time, i.e., the tense of the current section is not known."""
+        self.is_ft = None
+
     def add_signal(self, symbol: str, t: types.Type) -> None:
         self.signals[symbol] = t
 
diff --git a/compiler/c2po/type_check.py b/compiler/c2po/type_check.py
index 3de92d9..c55f252 100644
--- a/compiler/c2po/type_check.py
+++ b/compiler/c2po/type_check.py
@@ -2,6 +2,24 @@ from typing import cast, Any
 from c2po import cpt, log, types, command
 
 
+def is_mixed_time(start: cpt.Expression, context: cpt.Context) -> bool:
+    """Returns True if `start`, or a definition or specification that it refers to, has operators that are not of the tense of the current section."""
+    for expr in cpt.postorder(start, context):
+        if cpt.is_future_time_operator(expr) and context.is_past_time():
+            return True
+        if cpt.is_past_time_operator(expr) and context.is_future_time():
+            return True
+        if not isinstance(expr, cpt.Variable):
+            continue
+        if expr.symbol in context.definitions:
+            if is_mixed_time(context.definitions[expr.symbol], context):
+                return True
+        elif expr.symbol in context.specifications:
+            if is_mixed_time(context.specifications[expr.symbol].get_expr(), context):
+                return True
+    return False
+
+
 def type_check_expr(start: cpt.Expression, context: cpt.Context, options: dict[str, Any]) -> bool:
     """Returns True `start` is well-typed."""
     log.debug(2, f"type checking: {repr(start)}")
@@ -121,6 +139,18 @@ def type_check_expr(start: cpt.Expression, context: cpt.Context, options: dict[s
             else:
                 log.error(f"symbol '{symbol}' not recognized", expr.loc)
                 return False
+
+            # The tense of definitions only matters where they are used
+            if (
+                symbol not in context.bound_vars
+                and symbol not in context.variables
+                and is_mixed_time(expr, context)
+            ):
+                log.error(
+                    f"mixed-time formulas unsupported, found '{symbol}' in {'FT' if context.is_future_time() else 'PT'}SPEC",
+                    expr.loc,
+                )
+                return False
         elif isinstance(expr, cpt.Atomic):
             expr.type = types.BoolType()
         elif isinstance(expr, cpt.SymbolicIntervalVariable):
@@ -624,6 +654,8 @@ def type_check_section(section: cpt.ProgramSection, symbols: set[str], context:
                 ]
                 [type_check_expr(sig, context, options) for sig in signals]
     elif isinstance(section, cpt.DefineSection):
+        context.set_any_time()
+
         for definition in section.defines:
             if definition.symbol in symbols:
                 status = False
-- 
2.43.0


From 41829de05fc17616034ae5c5c6fe87f3209b5272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:28 +0000
Subject: [PATCH 18/78] fix: bound variables may shadow each other

---
 compiler/c2po/cpt.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/compiler/c2po/cpt.py b/compiler/c2po/cpt.py
index 71ae44e..654d04c 100644
--- a/compiler/c2po/cpt.py
+++ b/compiler/c2po/cpt.py
@@ -1641,6 +1641,7 @@ def postorder(
     """Performs a postorder traversal of `start`. If `start` is a list of `Expression`s, then initializes the stack to `start`. Uses `context` to handle local context (for example, variable binding in set aggregation expressions)."""
     stack: list[tuple[bool, Expression]] = []
     visited: set[int] = set()
+    shadowed: list[Optional[ArrayExpression]] = []
 
     if isinstance(start, Expression):
         stack.append((False, start))
@@ -1651,10 +1652,15 @@ def postorder(
         (seen, expr) = stack.pop()
 
         if seen and isinstance(expr, SetAggregation):
-            del context.bound_vars[expr.bound_var.symbol]
+            outer = shadowed.pop()
+            if outer is None:
+                del context.bound_vars[expr.bound_var.symbol]
+            else:
+                context.bound_vars[expr.bound_var.symbol] = outer
             yield expr
             continue
         elif seen and isinstance(expr, Bind):
+            shadowed.append(context.bound_vars.get(expr.bound_var.symbol))
             context.bound_vars[expr.bound_var.symbol] = expr.get_set()
             continue
         elif seen:
@@ -1817,6 +1823,9 @@ def rename(
     new: Node = expr.deepcopy(context)
 
     for node in postorder(new, context):
+        # An inner aggregation over the same symbol binds it anew
+        if isinstance(target, Variable) and target.symbol in context.bound_vars:
+            continue
         if target == node:
             node.replace(repl)
 
-- 
2.43.0


From 4fd02bc42a377ed96f627d3af9500dec848bdb68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:28 +0000
Subject: [PATCH 19/78] fix: expand renaming definitions, nested aggregations
 and accesses of structs in arrays

---
 compiler/c2po/cpt.py     |   2 +
 compiler/c2po/desugar.py | 180 +++++++++++++++++++++------------------
 2 files changed, 99 insertions(+), 83 deletions(-)

diff --git a/compiler/c2po/cpt.py b/compiler/c2po/cpt.py
index 654d04c..3085565 100644
--- a/compiler/c2po/cpt.py
+++ b/compiler/c2po/cpt.py
@@ -1746,6 +1746,8 @@ def deepcopy_expr(start: Expression, context: Context, memo: dict[int, Expressio
             new = ArrayExpression(expr.loc, [memo[id(c)] for c in expr.children])
         elif isinstance(expr, ArrayIndex):
             new = ArrayIndex(expr.loc, memo[id(expr.children[0])], expr.index)
+        elif isinstance(expr, ArraySlice):
+            new = ArraySlice(expr.loc, memo[id(expr.children[0])], expr.start, expr.stop)
         elif isinstance(expr, Struct):
             new = Struct(expr.loc, expr.symbol, expr.members, [memo[id(c)] for c in expr.children])
         elif isinstance(expr, StructAccess):
diff --git a/compiler/c2po/desugar.py b/compiler/c2po/desugar.py
index afd0c89..a420ec4 100644
--- a/compiler/c2po/desugar.py
+++ b/compiler/c2po/desugar.py
@@ -1,4 +1,4 @@
-from typing import Any, cast
+from typing import Any, Optional, cast
 from c2po import cpt, log, command, types
 
 def expand_definitions(program: cpt.Program, context: cpt.Context, options: dict[str, Any]) -> command.ReturnCode:
@@ -6,6 +6,18 @@ def expand_definitions(program: cpt.Program, context: cpt.Context, options: dict
     Expands each definition symbol in the definitions and specifications of `program` to its expanded definition. This is essentially macro expansion.
     Returns a ReturnCode.SUCCESS if successful, ReturnCode.ERROR otherwise.
     """
+    # Definitions that only rename another symbol
+    for symbol in context.definitions:
+        define = context.definitions[symbol]
+        while isinstance(define, cpt.Variable):
+            if define.symbol in context.definitions:
+                define = context.definitions[define.symbol]
+            elif define.symbol in context.specifications:
+                define = context.specifications[define.symbol].get_expr()
+            else:
+                break
+        context.definitions[symbol] = define
+
     for expr in [
         expr
         for define in context.definitions.values()
@@ -152,18 +164,15 @@ resolve_contracts_command = command.Command(
 command.CommandRegistry.register(resolve_contracts_command)
 
 
-def unroll_set_aggregation(program: cpt.Program, context: cpt.Context, options: dict[str, Any]) -> command.ReturnCode:
+def resolve_access(expr: cpt.Expression) -> bool:
     """
-    Unrolls set aggregation operators into equivalent engine-supported operations e.g., `foreach` is rewritten into a conjunction.
-    Returns a ReturnCode.SUCCESS if successful, ReturnCode.ERROR otherwise.
+    Replaces `expr`, if it accesses a struct or array whose members are known, with the accessed member(s).
+    Returns False if `expr` is an out-of-bounds array access, True otherwise.
     """
-    def resolve_struct_accesses(expr: cpt.Expression, context: cpt.Context) -> None:
-        if not isinstance(expr, cpt.StructAccess):
-            return
-
+    if isinstance(expr, cpt.StructAccess):
         s = expr.get_struct()
         if not isinstance(s, cpt.Struct):
-            return
+            return True
 
         member = s.get_member(expr.member)
         if not member:
@@ -174,14 +183,51 @@ def unroll_set_aggregation(program: cpt.Program, context: cpt.Context, options:
         if member:
             expr.replace(member)
             member.type = new_type
+    elif isinstance(expr, cpt.ArrayIndex):
+        # Not all out-of-bounds errors are checked during type checking
+        # Ex: a struct has an array member type of uninterpreted size,
+        # must check this case here
+        array = expr.get_array()
+        if not isinstance(array, cpt.ArrayExpression):
+            return True
+
+        if expr.get_index() >= len(array.children):
+            log.error(f"out-of-bounds array index ({expr})", expr.loc)
+            return False
+
+        expr.replace(array.children[expr.get_index()])
+    elif isinstance(expr, cpt.ArraySlice):
+        array = expr.get_array()
+        if not isinstance(array, cpt.ArrayExpression):
+            return True
+
+        if any(index >= len(array.children) for index in expr.get_indices()):
+            log.error(f"out-of-bounds array index ({expr})", expr.loc)
+            return False
 
-    for expr in program.preorder(context):
-        if not isinstance(expr, cpt.SetAggregation):
-            continue
+        expr.replace(
+            cpt.ArrayExpression(
+                expr.loc,
+                [
+                    array.children[i]
+                    for i in range(expr.get_indices()[0], expr.get_indices()[1]+1)
+                ],
+            )
+        )
+
+    return True
 
+
+def unroll_set_aggregation(program: cpt.Program, context: cpt.Context, options: dict[str, Any]) -> command.ReturnCode:
+    """
+    Unrolls set aggregation operators into equivalent engine-supported operations e.g., `foreach` is rewritten into a conjunction.
+    Returns a ReturnCode.SUCCESS if successful, ReturnCode.ERROR otherwise.
+    """
+    def unroll(expr: cpt.SetAggregation) -> Optional[cpt.Expression]:
         if expr.operator is cpt.SetAggregationKind.FOR_EACH:
             for subexpr in cpt.postorder(expr.get_set(), context):
-                resolve_struct_accesses(subexpr, context)
+                if not resolve_access(subexpr):
+                    return None
 
             operands = [
                 cpt.rename(expr.bound_var, e, expr.get_expr(), context)
@@ -193,10 +239,12 @@ def unroll_set_aggregation(program: cpt.Program, context: cpt.Context, options:
             expr.replace(new)
 
             for subexpr in cpt.postorder(new, context):
-                resolve_struct_accesses(subexpr, context)
+                if not resolve_access(subexpr):
+                    return None
         elif expr.operator is cpt.SetAggregationKind.FOR_SOME:
             for subexpr in cpt.postorder(expr.get_set(), context):
-                resolve_struct_accesses(subexpr, context)
+                if not resolve_access(subexpr):
+                    return None
 
             operands = [
                 cpt.rename(expr.bound_var, e, expr.get_expr(), context)
@@ -208,10 +256,12 @@ def unroll_set_aggregation(program: cpt.Program, context: cpt.Context, options:
             expr.replace(new)
 
             for subexpr in cpt.postorder(new, context):
-                resolve_struct_accesses(subexpr, context)
+                if not resolve_access(subexpr):
+                    return None
         elif expr.operator is cpt.SetAggregationKind.FOR_EXACTLY:
             for subexpr in cpt.postorder(expr.get_set(), context):
-                resolve_struct_accesses(subexpr, context)
+                if not resolve_access(subexpr):
+                    return None
 
             num = expr.get_num()
             if not num:
@@ -234,10 +284,12 @@ def unroll_set_aggregation(program: cpt.Program, context: cpt.Context, options:
             expr.replace(new)
 
             for subexpr in cpt.postorder(new, context):
-                resolve_struct_accesses(subexpr, context)
+                if not resolve_access(subexpr):
+                    return None
         elif expr.operator is cpt.SetAggregationKind.FOR_AT_LEAST:
             for subexpr in cpt.postorder(expr.get_set(), context):
-                resolve_struct_accesses(subexpr, context)
+                if not resolve_access(subexpr):
+                    return None
 
             num = expr.get_num()
             if not num:
@@ -260,10 +312,12 @@ def unroll_set_aggregation(program: cpt.Program, context: cpt.Context, options:
             expr.replace(new)
 
             for subexpr in cpt.postorder(new, context):
-                resolve_struct_accesses(subexpr, context)
+                if not resolve_access(subexpr):
+                    return None
         elif expr.operator is cpt.SetAggregationKind.FOR_AT_MOST:
             for subexpr in cpt.postorder(expr.get_set(), context):
-                resolve_struct_accesses(subexpr, context)
+                if not resolve_access(subexpr):
+                    return None
 
             num = expr.get_num()
             if not num:
@@ -286,7 +340,17 @@ def unroll_set_aggregation(program: cpt.Program, context: cpt.Context, options:
             expr.replace(new)
 
             for subexpr in cpt.postorder(new, context):
-                resolve_struct_accesses(subexpr, context)
+                if not resolve_access(subexpr):
+                    return None
+
+        return new
+
+    for expr in program.preorder(context):
+        # Unrolled over a single element, an aggregation may result in another one
+        while isinstance(expr, cpt.SetAggregation):
+            expr = unroll(expr)
+            if expr is None:
+                return command.ReturnCode.ERROR
 
     log.debug(1, f"post set aggregation unrolling:\n{repr(program)}")
 
@@ -308,22 +372,8 @@ def resolve_struct_accesses(program: cpt.Program, context: cpt.Context, options:
     Returns a ReturnCode.SUCCESS if successful, ReturnCode.ERROR otherwise.
     """
     for expr in program.postorder(context):
-        if not isinstance(expr, cpt.StructAccess):
-            continue
-
-        s = expr.get_struct()
-        if not isinstance(s, cpt.Struct):
-            continue
-
-        member = s.get_member(expr.member)
-        if not member:
-            raise ValueError(f"Member {expr.member} not found in struct {s} --- issue with type checking\n"
-                             f"Please open an issue at {log.ISSUE_URL}.")
-
-        new_type = member.type
-        if member:
-            expr.replace(member)
-            member.type = new_type
+        if isinstance(expr, cpt.StructAccess):
+            resolve_access(expr)
 
     log.debug(1, f"post struct access resolution:\n{repr(program)}")
     return command.ReturnCode.SUCCESS
@@ -344,44 +394,9 @@ def resolve_array_accesses(program: cpt.Program, context: cpt.Context, options:
     Returns a ReturnCode.SUCCESS if successful, ReturnCode.ERROR otherwise.
     """
     for expr in program.postorder(context):
-        if isinstance(expr, cpt.ArrayIndex):
-
-            # Not all out-of-bounds errors are checked during type checking
-            # Ex: a struct has an array member type of uninterpreted size,
-            # must check this case here
-            if not isinstance(expr.get_array().type, types.ArrayType):
-                log.error(f"array access on a non-array expression, did you run type_check first? ({expr})", expr.loc)
-                return command.ReturnCode.ERROR
-                
-            array_type = cast(types.ArrayType, expr.get_array().type)
-            if expr.get_index() >= array_type.size:
-                log.error(f"out-of-bounds array index ({expr})", expr.loc)
-                return command.ReturnCode.ERROR
-
-            array = expr.get_array()
-            expr.replace(array.children[expr.get_index()])
-        
-        elif isinstance(expr, cpt.ArraySlice):
-
-            # Not all out-of-bounds errors are checked during type checking
-            # Ex: a struct has an array member type of uninterpreted size,
-            # must check this case here
-            array_type = cast(types.ArrayType, expr.get_array().type)
-            if expr.get_indices()[0] >= array_type.size or expr.get_indices()[1] >= array_type.size:
-                log.error(f"Out-of-bounds array index ({expr})", expr.loc)
-                context.status = False
-                continue
-
-            array = expr.get_array()
-
-            new = cpt.ArrayExpression(
-                expr.loc,
-                [
-                    array.children[i]
-                    for i in range(expr.get_indices()[0], expr.get_indices()[1]+1)
-                ],
-            )
-            expr.replace(new)
+        # The array may be a member of a struct that is only known once an array access is resolved
+        if not resolve_access(expr):
+            return command.ReturnCode.ERROR
 
     log.debug(1, f"post array access resolution:\n{repr(program)}")
     return command.ReturnCode.SUCCESS
@@ -405,13 +420,12 @@ def unroll_array_accesses(program: cpt.Program, context: cpt.Context, options: d
 
         if isinstance(expr.children[0], cpt.ArrayExpression) and isinstance(expr.children[1], cpt.ArrayExpression):
             if cpt.is_relational_operator(expr) and isinstance(expr, cpt.Operator): # Only relational operators supported for now
-                new = cpt.Operator.LogicalAnd(
-                    expr.loc,
-                    [
-                        cpt.Operator(expr.loc, expr.operator, [expr.children[0].children[x],expr.children[1].children[x]])
-                        for x in range(len(expr.children[0].children))
-                    ],
-                )
+                operands = [
+                    cpt.Operator(expr.loc, expr.operator, [expr.children[0].children[x],expr.children[1].children[x]], types.BoolType())
+                    for x in range(len(expr.children[0].children))
+                ]
+                # An operator over a single operand is that operand
+                new = operands[0] if len(operands) == 1 else cpt.Operator.LogicalAnd(expr.loc, operands)
 
                 expr.replace(new)
 
-- 
2.43.0


From 8c03e036ddc500e752378231c22e3bd8595ccf9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:25 +0000
Subject: [PATCH 20/78] fix: loading a specification leaves queues and times of
 the previous one behind

---
 monitors/c/src/engines/mltl.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/monitors/c/src/engines/mltl.c b/monitors/c/src/engines/mltl.c
index e196441..510a020 100644
--- a/monitors/c/src/engines/mltl.c
+++ b/monitors/c/src/engines/mltl.c
@@ -574,6 +574,15 @@ r2u2_status_t r2u2_mltl_configure_instruction_dispatch(r2u2_monitor_t* monitor,
 
             }
 
+            // Drop what a previously loaded specification left behind
+            for (r2u2_addr i = 0; i < ctrl->length; ++i) {
+              ctrl->queue[i] = 0;
+            }
+            ctrl->write = 0;
+            ctrl->read1 = 0;
+            ctrl->read2 = 0;
+            ctrl->next_time = 0;
+
             ctrl->queue[0] = r2u2_infinity;
 
             #if R2U2_DEBUG
-- 
2.43.0


From 3fe0c8fc92adf621a3ac40cff2b361a399084cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:05 +0000
Subject: [PATCH 21/78] fix: accept documented map lines, and report signals
 missing in a trace header

---
 compiler/c2po/map.py   | 6 +++---
 compiler/c2po/trace.py | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/compiler/c2po/map.py b/compiler/c2po/map.py
index 47f30e2..816e9f7 100644
--- a/compiler/c2po/map.py
+++ b/compiler/c2po/map.py
@@ -21,13 +21,13 @@ def parse_map_file(program: cpt.Program, context: cpt.Context, options: dict[str
     mapping: types.SignalMapping = {}
     lines = content.splitlines()
     for line in lines:
-        if re.match(r"[a-zA-Z_][a-zA-Z0-9_\[\]\.]*:\d+", line):
+        if re.fullmatch(r"\s*[a-zA-Z_][a-zA-Z0-9_\[\]\.]*\s*:\s*\d+\s*", line):
             strs = line.split(":")
-            id = strs[0]
+            id = strs[0].strip()
             sid = int(strs[1])
             # Special case where multiple indices of array are mapped in at once
             # For example, 'arr[0..2]:0' gets expanded to 'arr[0]:0', 'arr[1]:1', and 'arr[2]:2'
-            if re.match(r"[a-zA-Z_][a-zA-Z0-9_]*\[\d..\d*\]", id):
+            if re.fullmatch(r"[a-zA-Z_][a-zA-Z0-9_]*\[\d+\.\.\d+\]", id):
                 indices = id[id.find("[")+1 : id.find("]")].split("..")
                 for i in range(int(indices[0]), int(indices[1])+1):
                     id = id[:id.find("[")] + "[" + str(i) + "]"
diff --git a/compiler/c2po/trace.py b/compiler/c2po/trace.py
index eb7b941..7d58277 100644
--- a/compiler/c2po/trace.py
+++ b/compiler/c2po/trace.py
@@ -50,7 +50,7 @@ def parse_trace_file(
         if id in signal_mapping:
             log.warning(
                 f"signal '{id}' found multiple times in csv, using right-most value",
-                log.FileLocation(options['trace_filename'], 1)
+                log.FileLocation(options['filename'], 1)
             )
         signal_mapping[id] = cnt
         cnt += 1
@@ -60,7 +60,7 @@ def parse_trace_file(
     if len(missing) > 0:
         log.error(
             f"trace file does not contain all signals in the program: {', '.join(missing)}",
-            log.FileLocation(options['trace_filename'], 1),
+            log.FileLocation(options['filename'], 1),
         )
         return command.ReturnCode.ERROR
 
-- 
2.43.0


From 48ad59eabc2c202fd5b246fe616737f57d3d703c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:18 +0000
Subject: [PATCH 22/78] fix: honour the mission time given to parse_c2po,
 parse_mltl and --mission-time for .mltl files

---
 compiler/c2po/parse_c2po.py | 3 ++-
 compiler/c2po/parse_mltl.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/compiler/c2po/parse_c2po.py b/compiler/c2po/parse_c2po.py
index f8265f1..fa30c55 100644
--- a/compiler/c2po/parse_c2po.py
+++ b/compiler/c2po/parse_c2po.py
@@ -700,7 +700,8 @@ def parse_c2po(context: cpt.Context, options: dict[str, Any]) -> Optional[cpt.Pr
     context.set_spec_filename(options["filename"])
 
     lexer: C2POLexer = C2POLexer(options["filename"])
-    parser: C2POParser = C2POParser(options["filename"], context.mission_time)
+    mission_time: int = options["mission_time"] if options["mission_time"] > -1 else context.mission_time
+    parser: C2POParser = C2POParser(options["filename"], mission_time)
     sections: list[cpt.C2POSection] = parser.parse(lexer.tokenize(contents))
 
     if not parser.status:
diff --git a/compiler/c2po/parse_mltl.py b/compiler/c2po/parse_mltl.py
index 7f586c9..d25e8fa 100644
--- a/compiler/c2po/parse_mltl.py
+++ b/compiler/c2po/parse_mltl.py
@@ -275,7 +275,8 @@ def parse_mltl(context: cpt.Context, options: dict[str, Any]) -> Optional[cpt.Pr
     context.set_spec_filename(options["filename"])
 
     lexer: MLTLLexer = MLTLLexer(options["filename"])
-    parser: MLTLParser = MLTLParser(options["filename"], options["mission_time"])
+    mission_time: int = options["mission_time"] if options["mission_time"] > -1 else context.mission_time
+    parser: MLTLParser = MLTLParser(options["filename"], mission_time)
     output: tuple[cpt.Program, types.SignalMapping] = parser.parse(lexer.tokenize(contents))
 
     if not parser.status:
-- 
2.43.0


From 0513d60b261a83819c7c95267871fc17911a0e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:18 +0000
Subject: [PATCH 23/78] fix: read trace files with CRLF line ends, blanks
 around values and zeros written as 0.0

---
 monitors/c/src/cli/csv_trace.c | 2 +-
 monitors/c/src/lib.c           | 6 +++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/monitors/c/src/cli/csv_trace.c b/monitors/c/src/cli/csv_trace.c
index 3181ecb..98847b3 100644
--- a/monitors/c/src/cli/csv_trace.c
+++ b/monitors/c/src/cli/csv_trace.c
@@ -17,7 +17,7 @@ r2u2_status_t r2u2_csv_load_next_signals(r2u2_csv_reader_t* csv_reader, r2u2_mon
     if(fgets(csv_reader->in_buf, sizeof(csv_reader->in_buf), csv_reader->input_file) == NULL) return R2U2_END_OF_TRACE;
   }
   
-  for(i = 0, signal = strtok(csv_reader->in_buf, ",\n"); signal; i++, signal = strtok(NULL, ",\n")) {
+  for(i = 0, signal = strtok(csv_reader->in_buf, ",\r\n"); signal; i++, signal = strtok(NULL, ",\r\n")) {
     // Follow the pointer to the signal vector, then assign the ith element
     // Note this is a pointer into the r2u2_csv_reader_t in_buf which must
     // stay in place while the signal vector is live
diff --git a/monitors/c/src/lib.c b/monitors/c/src/lib.c
index 2288728..dbc8357 100644
--- a/monitors/c/src/lib.c
+++ b/monitors/c/src/lib.c
@@ -3,6 +3,7 @@
 #include "internals/debug.h"
 #include "internals/process_binary.h"
 #include "engines/engines.h"
+#include <stdlib.h>
 #include <string.h>
 
 #if R2U2_DEBUG
@@ -54,7 +55,10 @@ void r2u2_load_float_signal(r2u2_monitor_t* monitor, size_t index, r2u2_float va
 
 void r2u2_load_string_signal(r2u2_monitor_t* monitor, size_t index, char* value){
   if (monitor->bz_program_count.max_program_count == 0) {
-    monitor->atomic_buffer[index] = (strcmp(value,"0") != 0);
+    // Only a number equal to zero is false, however it is written (e.g., " 0" or "0.0")
+    char* end;
+    double number = strtod(value, &end);
+    monitor->atomic_buffer[index] = (end == value || number != 0);
   } else {
     //Note that to be interpreted as a float, the string value must include a decimal point
     if (strchr(value, '.') != NULL){
-- 
2.43.0


From a79c60e06533002e9f5b6666c8a3cf925fb5226d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:16 +0000
Subject: [PATCH 24/78] fix: generate_map (and the bounds) lost indexed
 elements of input arrays

---
 compiler/c2po/map.py        | 6 ++++--
 compiler/c2po/type_check.py | 6 +++++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/compiler/c2po/map.py b/compiler/c2po/map.py
index 816e9f7..f8fc305 100644
--- a/compiler/c2po/map.py
+++ b/compiler/c2po/map.py
@@ -104,8 +104,10 @@ def generate_map(
     
     if not cpt.has_valid_signal_mapping(program, context):
         mapping: types.SignalMapping = {}
-        for i, signal in enumerate(context.signals):
-            mapping[signal] = i
+        # Arrays are mapped by their elements, which are signals themselves
+        for signal, signal_type in context.signals.items():
+            if not types.is_array_type(signal_type):
+                mapping[signal] = len(mapping)
 
         missing = cpt.assign_signal_ids(program, context, mapping)
         if len(missing) > 0:
diff --git a/compiler/c2po/type_check.py b/compiler/c2po/type_check.py
index c55f252..720a61b 100644
--- a/compiler/c2po/type_check.py
+++ b/compiler/c2po/type_check.py
@@ -220,9 +220,13 @@ def type_check_expr(start: cpt.Expression, context: cpt.Context, options: dict[s
             # avoid repeating code
             if isinstance(expr.get_array(), cpt.Variable):
                 tmp_signal = cpt.Signal(expr.loc, str(expr), array_type.member_type)
+                declared_type = context.signals.get(str(expr))
                 context.signals[str(expr)] = types.NoType()
                 status = type_check_expr(tmp_signal, context, options)
-                del context.signals[str(expr)]
+                if declared_type is None:
+                    del context.signals[str(expr)]
+                else:
+                    context.signals[str(expr)] = declared_type
                 if not status:
                     return False
 
-- 
2.43.0


From f87eede25045845e0a8facc20034deb8c6faab14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:40 +0000
Subject: [PATCH 25/78] fix: store formula names in order of their formula
 numbers

---
 compiler/c2po/assemble.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/compiler/c2po/assemble.py b/compiler/c2po/assemble.py
index 661956b..f9fbfe0 100644
--- a/compiler/c2po/assemble.py
+++ b/compiler/c2po/assemble.py
@@ -1014,7 +1014,13 @@ def pack_aliases(program: cpt.Program, context: cpt.Context, options: dict[str,
     aliases: list[AliasInstruction] = []
     binary = bytes()
 
-    for spec in program.get_specs():
+    # Formula names are stored in order of their formula number, no matter the order of the sections
+    specs = sorted(
+        program.get_specs(),
+        key=lambda spec: spec.formula_number if isinstance(spec, cpt.Formula) else -1,
+    )
+
+    for spec in specs:
         if isinstance(spec, cpt.Contract):
             log.internal(f"contract found during assembly: {spec}")
             return ([], bytes())
-- 
2.43.0


From 382ba66e1dcf47dc0caa0a7190256a98457289a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:30 +0000
Subject: [PATCH 26/78] fix: report an error when formula names cannot be
 stored

---
 compiler/c2po/assemble.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/compiler/c2po/assemble.py b/compiler/c2po/assemble.py
index f9fbfe0..c6b4d54 100644
--- a/compiler/c2po/assemble.py
+++ b/compiler/c2po/assemble.py
@@ -1088,6 +1088,8 @@ def assemble(
 
     if options["aux"]:
         (aliases, binary_aliases) = pack_aliases(program, context, options)
+        if not aliases:
+            return command.ReturnCode.ASSEMBLY_ERROR
         assembly += aliases
         binary += binary_aliases
     else:
-- 
2.43.0


From a6ef279ea2e92ccfddd2eb495bff2d5775c85d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:37 +0000
Subject: [PATCH 27/78] fix: size bounds files for every input column that is
 mapped

Columns are loaded by index, so counting signals or atomics is too little
when the map leaves gaps or names more than the specification uses.
---
 compiler/c2po/assemble.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/compiler/c2po/assemble.py b/compiler/c2po/assemble.py
index c6b4d54..0a92996 100644
--- a/compiler/c2po/assemble.py
+++ b/compiler/c2po/assemble.py
@@ -1191,6 +1191,12 @@ def compute_bounds(program: cpt.Program, context: cpt.Context) -> dict[str, tupl
     ])
     num_signals = len(context.signals)
     num_atomics = len(set(context.atomic_id_map.values()))
+    # Input columns are loaded by index, so there must be room for the largest index that is mapped
+    num_columns = max(context.signal_mapping.values(), default=-1) + 1
+    if context.enable_booleanizer:
+        num_signals = max(num_signals, num_columns)
+    else:
+        num_atomics = max(num_atomics, num_columns)
     total_scq_size = sum([
         (i.instruction.operand1_value if i.type == CGType.SCQ else 0) for i in assembly if isinstance(i, CGInstruction)
     ])
-- 
2.43.0


From 1e41df2ad48eae9d20f3c6f5dd6a8bff7b1f9342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:37 +0000
Subject: [PATCH 28/78] fix: never write a zero array size to a C bounds file

The monitor's arrays are compound literals, and gcc drops the initialisers
that follow one of size zero, so the monitor crashed when it loaded a
specification.
---
 compiler/c2po/assemble.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/compiler/c2po/assemble.py b/compiler/c2po/assemble.py
index 0a92996..fade752 100644
--- a/compiler/c2po/assemble.py
+++ b/compiler/c2po/assemble.py
@@ -1281,7 +1281,8 @@ def write_bounds_c(program: cpt.Program, context: cpt.Context, options: dict[str
     contents += "\n".join(
         [
             f"// {description}\n"
-            f"#define {key} {value:{'F' if type(value) is float else ''}}\n"
+            # Each integer sizes an array, and C has no arrays of size zero
+            f"#define {key} {f'{value:F}' if type(value) is float else max(value, 1)}\n"
             for key, (value, description, target) in bounds.items()
             if "c" in target
         ]
-- 
2.43.0


From fc206d3637a6e4cb345fc684f96b44dbfd0d08c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:37 +0000
Subject: [PATCH 29/78] fix: count the contract that fills the contract table

---
 monitors/c/src/internals/process_binary.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/monitors/c/src/internals/process_binary.c b/monitors/c/src/internals/process_binary.c
index 77fbcbe..9ab0f0f 100644
--- a/monitors/c/src/internals/process_binary.c
+++ b/monitors/c/src/internals/process_binary.c
@@ -92,7 +92,6 @@ r2u2_status_t r2u2_process_binary(r2u2_monitor_t* monitor, uint8_t* spec) {
             } else {
               // Done processing Formulas and ran out of space to save any more Contract information
               length = 0;
-              break;
             }
             aux_contract_num++;
             break;
-- 
2.43.0


From 78d77f8ad95cf4c44b465e9911d2714294d4e47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:28 +0000
Subject: [PATCH 30/78] fix: reject arithmetic, ordering and bitwise complement
 of bools

The language gives these operators numbers only, but only the homogeneity of
the operands was checked: '~p' was always true, and operands that the
booleanizer does not compute crashed the assembler.
---
 compiler/c2po/type_check.py | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/compiler/c2po/type_check.py b/compiler/c2po/type_check.py
index 720a61b..4861332 100644
--- a/compiler/c2po/type_check.py
+++ b/compiler/c2po/type_check.py
@@ -412,6 +412,13 @@ def type_check_expr(start: cpt.Expression, context: cpt.Context, options: dict[s
             if all([c.type.is_const for c in expr.children]):
                 new_type.is_const = True
 
+            if expr.operator is cpt.OperatorKind.BITWISE_NEGATE and types.is_bool_type(new_type):
+                log.error(
+                    f"Invalid operands for '{expr.symbol}', found 'bool' but expected 'int'\n    {expr}",
+                    expr.loc,
+                )
+                return False
+
             for child in expr.children:
                 if isinstance(child, cpt.ArrayExpression) or isinstance(child, cpt.ArraySlice):
                     log.error(
@@ -480,6 +487,13 @@ def type_check_expr(start: cpt.Expression, context: cpt.Context, options: dict[s
                         )
                         return False
 
+            if types.is_bool_type(new_type):
+                log.error(
+                    f"Invalid operands for '{expr.symbol}', found 'bool' but expected 'int' or 'float'\n    {expr}",
+                    expr.loc,
+                )
+                return False
+
             for child in expr.children:
                 if isinstance(child, cpt.ArrayExpression) or isinstance(child, cpt.ArraySlice):
                     log.error(
@@ -535,6 +549,16 @@ def type_check_expr(start: cpt.Expression, context: cpt.Context, options: dict[s
                     )
                     return False
 
+            if types.is_bool_type(lhs.type) and expr.operator not in {
+                cpt.OperatorKind.EQUAL,
+                cpt.OperatorKind.NOT_EQUAL,
+            }:
+                log.error(
+                    f"Invalid operands for '{expr.symbol}', found 'bool' but expected 'int' or 'float'\n    {expr}",
+                    expr.loc,
+                )
+                return False
+
             if lhs.type != rhs.type:
                 log.error(
                     f"Invalid operands for '{expr.symbol}', must be of same type (found '{lhs.type}' and '{rhs.type}')\n    {expr}",
-- 
2.43.0


From b30816171ab9fff0553eaf91fbaef549e2d3eea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:54 +0000
Subject: [PATCH 31/78] fix: report temporal operands of booleanizer operators

They crashed the assembler with a KeyError.
---
 compiler/c2po/atomics.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/compiler/c2po/atomics.py b/compiler/c2po/atomics.py
index ccc4bea..4a1effa 100644
--- a/compiler/c2po/atomics.py
+++ b/compiler/c2po/atomics.py
@@ -38,6 +38,16 @@ def compute_atomics(program: cpt.Program, context: cpt.Context, options: dict[st
     aid: int = 0
 
     for expr in program.postorder(context):
+        # The booleanizer runs before the TL engine, so it has no access to its results
+        if expr.engine == types.R2U2Engine.BOOLEANIZER:
+            for child in expr.children:
+                if child.engine == types.R2U2Engine.TEMPORAL_LOGIC and not isinstance(child, cpt.Constant):
+                    log.error(
+                        f"logical and temporal expressions unsupported as operands of '{expr.symbol}', found '{child}'\n    {expr}",
+                        expr.loc,
+                    )
+                    return command.ReturnCode.ERROR
+
         if (
             expr.engine == types.R2U2Engine.TEMPORAL_LOGIC 
             or isinstance(expr, cpt.Constant) 
-- 
2.43.0


From f9bb724707cac00e6b7e9bc6d30a8bae8ff1bc6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:07 +0000
Subject: [PATCH 32/78] fix: reject comparisons of numbers and prev when the
 booleanizer is disabled

They passed the type checker and crashed the assembler.
---
 compiler/c2po/type_check.py | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/compiler/c2po/type_check.py b/compiler/c2po/type_check.py
index 4861332..a9aaadb 100644
--- a/compiler/c2po/type_check.py
+++ b/compiler/c2po/type_check.py
@@ -515,10 +515,18 @@ def type_check_expr(start: cpt.Expression, context: cpt.Context, options: dict[s
             lhs = expr.children[0]
             rhs = expr.children[1]
 
-            if not context.enable_booleanizer and expr.operator not in {
-                cpt.OperatorKind.EQUAL,
-                cpt.OperatorKind.NOT_EQUAL,
-            }:
+            compared_type = lhs.type
+            while isinstance(compared_type, types.ArrayType):
+                compared_type = compared_type.member_type
+
+            if not context.enable_booleanizer and (
+                expr.operator
+                not in {
+                    cpt.OperatorKind.EQUAL,
+                    cpt.OperatorKind.NOT_EQUAL,
+                }
+                or not types.is_bool_type(compared_type)
+            ):
                 log.error(
                     f"found Booleanizer expression, but Booleanizer expressions disabled\n    {expr}",
                     expr.loc,
@@ -583,7 +591,14 @@ def type_check_expr(start: cpt.Expression, context: cpt.Context, options: dict[s
             expr.type = types.BoolType(is_const)
         elif cpt.is_prev_operator(expr):
             expr = cast(cpt.Operator, expr)
-            
+
+            if not context.enable_booleanizer:
+                log.error(
+                    f"found Booleanizer expression, but Booleanizer expressions disabled\n    {expr}",
+                    expr.loc,
+                )
+                return False
+
             initial_expr = expr.children[0]
             prev_expr = expr.children[1]
             if types.is_enum_type(initial_expr.type) and initial_expr.type.symbol not in context.enums \
-- 
2.43.0


From d69db55bd9185ba14acb9d11f2a094cf655e7df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:59 +0000
Subject: [PATCH 33/78] fix: fail when a specification contains an illegal
 character

---
 compiler/c2po/parse_c2po.py  | 4 +++-
 compiler/c2po/parse_equiv.py | 4 +++-
 compiler/c2po/parse_mltl.py  | 6 ++++--
 3 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/compiler/c2po/parse_c2po.py b/compiler/c2po/parse_c2po.py
index fa30c55..ce1f4c4 100644
--- a/compiler/c2po/parse_c2po.py
+++ b/compiler/c2po/parse_c2po.py
@@ -105,6 +105,7 @@ class C2POLexer(sly.Lexer):
     def __init__(self, filename: str):
         super().__init__()
         self.filename = filename
+        self.status = True
 
     # Extra action for newlines
     def ignore_newline(self, t):
@@ -112,6 +113,7 @@ class C2POLexer(sly.Lexer):
 
     def error(self, t):
         log.error(f"illegal character '{t.value[0]}'", log.FileLocation(self.filename, self.lineno))
+        self.status = False
         self.index += 1
 
 
@@ -704,7 +706,7 @@ def parse_c2po(context: cpt.Context, options: dict[str, Any]) -> Optional[cpt.Pr
     parser: C2POParser = C2POParser(options["filename"], mission_time)
     sections: list[cpt.C2POSection] = parser.parse(lexer.tokenize(contents))
 
-    if not parser.status:
+    if not (lexer.status and parser.status):
         return None
 
     return cpt.Program(0, sections)
diff --git a/compiler/c2po/parse_equiv.py b/compiler/c2po/parse_equiv.py
index a394c2f..dcb0836 100644
--- a/compiler/c2po/parse_equiv.py
+++ b/compiler/c2po/parse_equiv.py
@@ -79,9 +79,11 @@ class MLTLEquivLexer(sly.Lexer):
     def __init__(self, filename: str):
         super().__init__()
         self.filename = filename
+        self.status = True
 
     def error(self, t):
         log.error(f"illegal character '{t.value[0]}'", log.FileLocation(self.filename, t.lineno))
+        self.status = False
         self.index += 1
 
 
@@ -325,7 +327,7 @@ def parse_equiv(context: cpt.Context, options: dict[str, Any]) -> Optional[cpt.P
     parser: MLTLEquivParser = MLTLEquivParser(options["filename"])
     output: tuple[cpt.Program, types.SignalMapping] = parser.parse(lexer.tokenize(contents))
 
-    if not parser.status:
+    if not (lexer.status and parser.status):
         return None
 
     program, signal_mapping = output
diff --git a/compiler/c2po/parse_mltl.py b/compiler/c2po/parse_mltl.py
index d25e8fa..b5eee86 100644
--- a/compiler/c2po/parse_mltl.py
+++ b/compiler/c2po/parse_mltl.py
@@ -53,9 +53,11 @@ class MLTLLexer(sly.Lexer):
     def __init__(self, filename: str):
         super().__init__()
         self.filename = filename
+        self.status = True
 
     def error(self, t):
-        log.error(f"Illegal character '%s' {t.value[0]}", log.FileLocation(self.filename, t.lineno))
+        log.error(f"illegal character '{t.value[0]}'", log.FileLocation(self.filename, t.lineno))
+        self.status = False
         self.index += 1
 
 
@@ -279,7 +281,7 @@ def parse_mltl(context: cpt.Context, options: dict[str, Any]) -> Optional[cpt.Pr
     parser: MLTLParser = MLTLParser(options["filename"], mission_time)
     output: tuple[cpt.Program, types.SignalMapping] = parser.parse(lexer.tokenize(contents))
 
-    if not parser.status:
+    if not (lexer.status and parser.status):
         return None
 
     program, signal_mapping = output
-- 
2.43.0


From 4f10712e63c2950f674155ed255b6b9baee9ffdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:35 +0000
Subject: [PATCH 34/78] fix: check QF_UFLIA satisfiability over traces that are
 long enough

---
 compiler/c2po/sat.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/compiler/c2po/sat.py b/compiler/c2po/sat.py
index 7b559e2..b9cc989 100644
--- a/compiler/c2po/sat.py
+++ b/compiler/c2po/sat.py
@@ -596,8 +596,8 @@ def to_qf_uflia_smtlib2(start: cpt.Expression, context: cpt.Context, strict: boo
         smt_commands.append("(declare-fun len () Int)")
         smt_commands.append(f"(assert ({expr_map[start]} 0 len))")
     else:
-        # wpd proxy for cplen (okay since wpd >= cplen)
-        smt_commands.append(f"(assert ({expr_map[start]} 0 {start.wpd}))")
+        # wpd + 1 proxy for cplen (okay since wpd + 1 >= cplen)
+        smt_commands.append(f"(assert ({expr_map[start]} 0 {start.wpd + 1}))")
 
     smt_commands.append("(check-sat)")
 
-- 
2.43.0


From e38a6794637723ccadce289502d982704531464e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:21 +0000
Subject: [PATCH 35/78] fix: take every operand into account for the length of
 traces in the UFLIA encoding

---
 compiler/c2po/sat.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/compiler/c2po/sat.py b/compiler/c2po/sat.py
index b9cc989..465b537 100644
--- a/compiler/c2po/sat.py
+++ b/compiler/c2po/sat.py
@@ -625,7 +625,8 @@ def to_uflia_smtlib2(
         return f"(ite (<= {expr1} {expr2}) {expr1} {expr2})"
 
     def smt_max_expr(expr1: str, expr2: str) -> str:
-        return f"(ite (>= {expr1} {expr2}) {expr1} {expr2})"
+        # bind the operands so that nested maxima do not duplicate them
+        return f"(let ((lhs {expr1}) (rhs {expr2})) (ite (>= lhs rhs) lhs rhs))"
 
     def interval_constraint_to_smt(constraint: cpt.Expression, cache: dict[cpt.Expression, str]) -> str:
         nonlocal is_nonlinear
@@ -888,9 +889,13 @@ def to_uflia_smtlib2(
             elif cpt.is_operator(expr, cpt.OperatorKind.LOGICAL_NEGATE):
                 cplen = cplen_cache[expr.children[0]]
             elif cpt.is_operator(expr, cpt.OperatorKind.LOGICAL_AND):
-                cplen = smt_max_expr(cplen_cache[expr.children[0]], cplen_cache[expr.children[1]])
+                cplen = cplen_cache[expr.children[0]]
+                for child in expr.children[1:]:
+                    cplen = smt_max_expr(cplen, cplen_cache[child])
             elif cpt.is_operator(expr, cpt.OperatorKind.LOGICAL_OR):
-                cplen = smt_max_expr(cplen_cache[expr.children[0]], cplen_cache[expr.children[1]])
+                cplen = cplen_cache[expr.children[0]]
+                for child in expr.children[1:]:
+                    cplen = smt_max_expr(cplen, cplen_cache[child])
             elif cpt.is_operator(expr, cpt.OperatorKind.LOGICAL_IMPLIES):
                 cplen = smt_max_expr(cplen_cache[expr.children[0]], cplen_cache[expr.children[1]])
             elif cpt.is_operator(expr, cpt.OperatorKind.LOGICAL_EQUIV):
-- 
2.43.0


From 85b917a66948dd2c0c25b231251076d91534403a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:21 +0000
Subject: [PATCH 36/78] fix: require the trace to reach the position of F[0,0]
 and F[1,1] in the UFLIA encoding

---
 compiler/c2po/sat.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/compiler/c2po/sat.py b/compiler/c2po/sat.py
index 465b537..a9734de 100644
--- a/compiler/c2po/sat.py
+++ b/compiler/c2po/sat.py
@@ -801,9 +801,9 @@ def to_uflia_smtlib2(
                 # Special case for F[0,0] phi and F[1,1] phi -- no need for quantifier
                 # This is necessary for performance reasons, many FRET formulas timeout without this optimization
                 if lb == "0" and ub == "0":
-                    return f"({fun_signature} (or (<= len k) ({expr_map[expr.children[0]]} k len)))"
+                    return f"({fun_signature} (and (> len k) ({expr_map[expr.children[0]]} k len)))"
                 elif lb == "1" and ub == "1":
-                    return f"({fun_signature} (or (<= len (+ 1 k)) ({expr_map[expr.children[0]]} (+ 1 k) len)))"
+                    return f"({fun_signature} (and (> len (+ 1 k)) ({expr_map[expr.children[0]]} (+ 1 k) len)))"
 
                 result = f"(assert (<= {lb} {ub}))\n"
             else: 
@@ -812,9 +812,9 @@ def to_uflia_smtlib2(
                 ub = expr.interval.ub
 
                 if lb == 0 and ub == 0:
-                    return f"({fun_signature} (or (<= len k) ({expr_map[expr.children[0]]} k len)))"
+                    return f"({fun_signature} (and (> len k) ({expr_map[expr.children[0]]} k len)))"
                 elif lb == 1 and ub == 1:
-                    return f"({fun_signature} (or (<= len (+ 1 k)) ({expr_map[expr.children[0]]} (+ 1 k) len)))"
+                    return f"({fun_signature} (and (> len (+ 1 k)) ({expr_map[expr.children[0]]} (+ 1 k) len)))"
 
             return result + f"({fun_signature} (and (> len (+ {lb} k)) (exists ((i Int)) (and (<= (+ {lb} k) i) (<= i (+ {ub} k)) ({expr_map[expr.children[0]]} i len)))))"
         elif cpt.is_operator(expr, cpt.OperatorKind.UNTIL):
-- 
2.43.0


From 1e1ba5b726a2b213a52559bcda7eb65887ac3f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:14 +0000
Subject: [PATCH 37/78] fix: divide towards zero in the SMT encodings, as the
 monitor does

---
 compiler/c2po/sat.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/compiler/c2po/sat.py b/compiler/c2po/sat.py
index a9734de..aea181c 100644
--- a/compiler/c2po/sat.py
+++ b/compiler/c2po/sat.py
@@ -168,6 +168,10 @@ def to_smt_type(t: types.Type) -> str:
         return "Real"
     return "NoType"
 
+def to_smt_truncated(op: str, lhs: str, rhs: str) -> str:
+    """Returns an SMT term for the "div" or "mod" of two terms that truncates towards zero, as r2u2 does."""
+    return f"(let ((lhs {lhs}) (rhs {rhs})) (ite (>= lhs 0) ({op} lhs rhs) (- ({op} (- lhs) rhs))))"
+
 def to_qf_bv_smtlib2(start: cpt.Expression, context: cpt.Context, strict: bool) -> Optional[str]:
     """Encodes the given expression into an SMT encoding using the QF_BV theory and returns it. Returns None if the encoding fails."""
     log.debug(
@@ -481,12 +485,12 @@ def to_qf_uflia_smtlib2(start: cpt.Expression, context: cpt.Context, strict: boo
         elif cpt.is_operator(expr, cpt.OperatorKind.ARITHMETIC_DIVIDE):
             is_nonlinear = True
             smt_commands.append(
-                f"({fun_signature} (div ({expr_map[expr.children[0]]} k len) ({expr_map[expr.children[1]]} k len)))"
+                f"({fun_signature} {to_smt_truncated('div', f'({expr_map[expr.children[0]]} k len)', f'({expr_map[expr.children[1]]} k len)')})"
             )
         elif cpt.is_operator(expr, cpt.OperatorKind.ARITHMETIC_MODULO):
             is_nonlinear = True
             smt_commands.append(
-                f"({fun_signature} (mod ({expr_map[expr.children[0]]} k len) ({expr_map[expr.children[1]]} k len)))"
+                f"({fun_signature} {to_smt_truncated('mod', f'({expr_map[expr.children[0]]} k len)', f'({expr_map[expr.children[1]]} k len)')})"
             )
         elif cpt.is_operator(expr, cpt.OperatorKind.ARITHMETIC_NEGATE):
             smt_commands.append(
@@ -732,10 +736,10 @@ def to_uflia_smtlib2(
             return f"({fun_signature} (* ({expr_map[expr.children[0]]} k len) ({expr_map[expr.children[1]]} k len)))"
         elif cpt.is_operator(expr, cpt.OperatorKind.ARITHMETIC_DIVIDE):
             is_nonlinear = True
-            return f"({fun_signature} (div ({expr_map[expr.children[0]]} k len) ({expr_map[expr.children[1]]} k len)))"
+            return f"({fun_signature} {to_smt_truncated('div', f'({expr_map[expr.children[0]]} k len)', f'({expr_map[expr.children[1]]} k len)')})"
         elif cpt.is_operator(expr, cpt.OperatorKind.ARITHMETIC_MODULO):
             is_nonlinear = True
-            return f"({fun_signature} (mod ({expr_map[expr.children[0]]} k len) ({expr_map[expr.children[1]]} k len)))"
+            return f"({fun_signature} {to_smt_truncated('mod', f'({expr_map[expr.children[0]]} k len)', f'({expr_map[expr.children[1]]} k len)')})"
         elif cpt.is_operator(expr, cpt.OperatorKind.ARITHMETIC_NEGATE):
             return f"({fun_signature} (- ({expr_map[expr.children[0]]} k len)))"
         elif cpt.is_operator(expr, cpt.OperatorKind.EQUAL):
-- 
2.43.0


From 3a82e2edce1db7db6ed3387c95a30ed3d34b044b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:48 +0000
Subject: [PATCH 38/78] fix: encode arithmetic negation in QF_UFLIA

---
 compiler/c2po/sat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/c2po/sat.py b/compiler/c2po/sat.py
index aea181c..38fed13 100644
--- a/compiler/c2po/sat.py
+++ b/compiler/c2po/sat.py
@@ -473,7 +473,7 @@ def to_qf_uflia_smtlib2(start: cpt.Expression, context: cpt.Context, strict: boo
             smt_commands.append(
                 f"({fun_signature} (+ ({expr_map[expr.children[0]]} k len) ({expr_map[expr.children[1]]} k len)))"
             )
-        elif cpt.is_operator(expr, cpt.OperatorKind.ARITHMETIC_SUBTRACT):
+        elif cpt.is_operator(expr, cpt.OperatorKind.ARITHMETIC_SUBTRACT) and len(expr.children) == 2:
             smt_commands.append(
                 f"({fun_signature} (- ({expr_map[expr.children[0]]} k len) ({expr_map[expr.children[1]]} k len)))"
             )
-- 
2.43.0


From b66976b8b12a5fdf331d7678c6a57b8cc395996b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:39 +0000
Subject: [PATCH 39/78] fix: start a new program with containers of its own,
 and without the enums of the last one

---
 compiler/c2po/cpt.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/compiler/c2po/cpt.py b/compiler/c2po/cpt.py
index 3085565..e23d52b 100644
--- a/compiler/c2po/cpt.py
+++ b/compiler/c2po/cpt.py
@@ -1521,19 +1521,21 @@ class Context:
         Clears the context except for the signal mapping and most global options.
         Called when parsing a new program.
         """
-        self.definitions.clear()
-        self.structs.clear()
-        self.signals.clear()
-        self.variables.clear()
-        self.specifications.clear()
-        self.contracts.clear()
-        self.atomic_id_map.clear()
-        self.atomic_expr_map.clear()
-        self.bound_vars.clear()
-        self.assembly.clear()
+        # New containers, as the old ones may be shared with a copy of this context
+        self.definitions = {}
+        self.structs = {}
+        self.enums = {}
+        self.signals = {}
+        self.variables = {}
+        self.specifications = {}
+        self.contracts = {}
+        self.atomic_id_map = {}
+        self.atomic_expr_map = {}
+        self.bound_vars = {}
+        self.assembly = []
         self.binary = bytes()
-        self.bounds.clear()
-        self.constraints.clear()
+        self.bounds = []
+        self.constraints = []
         self.stats = stats.Stats()
         self.trace_length = -1
         self.is_ft = False
-- 
2.43.0


From bab0f5adcf91dea3279da27e8945c3c6dc6a763e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:56 +0000
Subject: [PATCH 40/78] fix: copy the enums, the paths and all statistics with
 the context

---
 compiler/c2po/cpt.py   |  4 ++++
 compiler/c2po/stats.py | 36 ++----------------------------------
 2 files changed, 6 insertions(+), 34 deletions(-)

diff --git a/compiler/c2po/cpt.py b/compiler/c2po/cpt.py
index e23d52b..24a02fb 100644
--- a/compiler/c2po/cpt.py
+++ b/compiler/c2po/cpt.py
@@ -1603,6 +1603,7 @@ class Context:
         new = Context()
         new.definitions = { k: v for k, v in self.definitions.items() }
         new.structs = { k: v for k, v in self.structs.items() }
+        new.enums = { k: v for k, v in self.enums.items() }
         new.signals = { k: v for k, v in self.signals.items() }
         new.variables = { k: v for k, v in self.variables.items() }
         new.specifications = { k: v for k, v in self.specifications.items() }
@@ -1631,6 +1632,9 @@ class Context:
         new.map_filename = self.map_filename
         new.egglog_path = self.egglog_path
         new.smt_solver_path = self.smt_solver_path
+        new.r2u2_c_path = self.r2u2_c_path
+        new.r2u2_bin_path = self.r2u2_bin_path
+        new.r2u2_output = self.r2u2_output
         new.mission_time = self.mission_time
         new.enable_booleanizer = self.enable_booleanizer
         new.script_filename = self.script_filename
diff --git a/compiler/c2po/stats.py b/compiler/c2po/stats.py
index 472a63e..2f3854b 100644
--- a/compiler/c2po/stats.py
+++ b/compiler/c2po/stats.py
@@ -1,3 +1,4 @@
+import dataclasses
 from dataclasses import dataclass
 
 STATS_FORMAT_MAP: dict[str, str] = {
@@ -119,37 +120,4 @@ class Stats:
         )
 
     def deepcopy(self) -> "Stats":
-        return Stats(
-            spec_filename=self.spec_filename,
-            first_formula_string=self.first_formula_string,
-            total_scq_size=self.total_scq_size,
-            total_dag_size=self.total_dag_size,
-            num_temporal_operators=self.num_temporal_operators,
-            asm_num_instructions=self.asm_num_instructions,
-            asm_num_bz_instructions=self.asm_num_bz_instructions,
-            asm_num_tl_instructions=self.asm_num_tl_instructions,
-            asm_num_cg_instructions=self.asm_num_cg_instructions,
-            asm_num_scq_instructions=self.asm_num_scq_instructions,
-            asm_num_aliases=self.asm_num_aliases,
-            asm_num_signals=self.asm_num_signals,
-            asm_num_atomics=self.asm_num_atomics,
-            smt_encoding_time=self.smt_encoding_time,
-            smt_solver_time=self.smt_solver_time,
-            smt_solver_result=self.smt_solver_result,
-            smt_num_calls=self.smt_num_calls,
-            eqsat_encoding_time=self.eqsat_encoding_time,
-            eqsat_solver_time=self.eqsat_solver_time,
-            eqsat_equiv_result=self.eqsat_equiv_result,
-            eqsat_equiv_encoding_time=self.eqsat_equiv_encoding_time,
-            eqsat_equiv_solver_time=self.eqsat_equiv_solver_time,
-            eqsat_num_eclasses=self.eqsat_num_eclasses,
-            eqsat_num_enodes=self.eqsat_num_enodes,
-            eqsat_gurobi_encoding_time=self.eqsat_gurobi_encoding_time,
-            eqsat_gurobi_solver_time=self.eqsat_gurobi_solver_time,
-            eqsat_gurobi_solver_status=self.eqsat_gurobi_solver_status,
-            r2u2_median_runtime=self.r2u2_median_runtime,
-            r2u2_average_runtime=self.r2u2_average_runtime,
-            r2u2_min_runtime=self.r2u2_min_runtime,
-            r2u2_max_runtime=self.r2u2_max_runtime,
-            r2u2_status=self.r2u2_status,
-        )
+        return dataclasses.replace(self)
-- 
2.43.0


From 25d8bc72cb4f1434fa19d1b8edcc8ff5b999fd4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:43 +0000
Subject: [PATCH 41/78] fix: leave the state alone on push, and keep shared and
 replaced expressions in the copy

---
 compiler/c2po/cpt.py | 46 +++++++++++++++++++++++++++++++-------------
 1 file changed, 33 insertions(+), 13 deletions(-)

diff --git a/compiler/c2po/cpt.py b/compiler/c2po/cpt.py
index 24a02fb..ef568d1 100644
--- a/compiler/c2po/cpt.py
+++ b/compiler/c2po/cpt.py
@@ -1177,8 +1177,8 @@ class EnumDefinition(Node):
         members_str_list = [str(s) + "," for s in self.var_defs]
         return self.symbol + ": {" + " ".join(members_str_list) + "}"
     
-    def deepcopy(self, context: Context) -> EnumDefinition:
-        var_defs = [v.deepcopy(context) for v in self.var_defs]
+    def deepcopy(self, context: Context, memo: dict[int, Expression]) -> EnumDefinition:
+        var_defs = [v.deepcopy(context, memo) for v in self.var_defs]
         new = EnumDefinition(self.loc, self.symbol, var_defs)
         return new
 
@@ -1205,8 +1205,8 @@ class Definition(Node):
     def __str__(self) -> str:
         return f"{self.symbol} := {self.expr}"
 
-    def deepcopy(self, context: Context) -> Definition:
-        new = Definition(self.loc, self.symbol, self.expr.deepcopy(context))
+    def deepcopy(self, context: Context, memo: dict[int, Expression]) -> Definition:
+        new = Definition(self.loc, self.symbol, deepcopy_expr(self.expr, context, memo))
         return new
 
 class StructSection(Node):
@@ -1241,8 +1241,8 @@ class EnumSection(Node):
         enums_str_list = [str(s) + ";" for s in self.enum_defs]
         return "ENUM\n\t" + "\n\t".join(enums_str_list)
     
-    def deepcopy(self, context: Context) -> EnumSection:
-        enum_defs = [s.deepcopy(context) for s in self.enum_defs]
+    def deepcopy(self, context: Context, memo: dict[int, Expression]) -> EnumSection:
+        enum_defs = [s.deepcopy(context, memo) for s in self.enum_defs]
         new = EnumSection(self.loc, enum_defs)
 
         # Update context
@@ -1282,8 +1282,8 @@ class DefineSection(Node):
         defines_str_list = [str(s) + ";" for s in self.defines]
         return "DEFINE\n\t" + "\n\t".join(defines_str_list)
 
-    def deepcopy(self, context: Context) -> DefineSection:
-        defines = [d.deepcopy(context) for d in self.defines]
+    def deepcopy(self, context: Context, memo: dict[int, Expression]) -> DefineSection:
+        defines = [d.deepcopy(context, memo) for d in self.defines]
         new = DefineSection(self.loc, defines)
 
         # Update context
@@ -1297,8 +1297,8 @@ class SpecSection(Node):
         super().__init__(loc)
         self.specs = specs
 
-    def deepcopy(self, context: Context) -> SpecSection:
-        specs = [cast(Specification, s.deepcopy(context)) for s in self.specs]
+    def deepcopy(self, context: Context, memo: dict[int, Expression]) -> SpecSection:
+        specs = [cast(Specification, deepcopy_expr(s, context, memo)) for s in self.specs]
         new = type(self)(self.loc, specs)
 
         # Update context
@@ -1447,9 +1447,22 @@ class Program(Node):
     def __repr__(self) -> str:
         return "\n".join([repr(s) for s in self.get_specs()])
 
-    def deepcopy(self, context: Context) -> Program:
-        sections = [s.deepcopy(context) for s in self.sections]
+    def deepcopy(self, context: Context, memo: dict[int, Expression]) -> Program:
+        sections = [
+            s.deepcopy(context, memo)
+            if isinstance(s, (EnumSection, DefineSection, SpecSection))
+            else s.deepcopy(context)
+            for s in self.sections
+        ]
         new = Program(self.loc, sections)
+        # The specifications may have been replaced since the program was parsed
+        for spec_set, new_spec_set in (
+            (self.ft_spec_set, new.ft_spec_set),
+            (self.pt_spec_set, new.pt_spec_set),
+        ):
+            new_spec_set.children = [deepcopy_expr(s, context, memo) for s in spec_set.children]
+            for spec in new_spec_set.children:
+                spec.parents.add(new_spec_set)
         new.total_scq_size = self.total_scq_size
         new.is_dummy = self.is_dummy
         new.is_well_typed = self.is_well_typed
@@ -1816,8 +1829,15 @@ def deepcopy_expr(start: Expression, context: Context, memo: dict[int, Expressio
     return memo[id(start)]
 
 def deepcopy_program_with_context(program: Program, context: Context) -> tuple[Program, Context]:
-    new_program = program.deepcopy(context)
+    """Copies `program` and `context`, leaving both as they are. Expressions shared within the program stay shared in its copy."""
     new_context = context.deepcopy()
+    memo: dict[int, Expression] = {}
+    new_program = program.deepcopy(new_context, memo)
+
+    # Let the context refer to the expressions of the new program
+    new_context.atomic_id_map = {memo.get(id(e), e): i for e, i in context.atomic_id_map.items()}
+    new_context.atomic_expr_map = {i: memo.get(id(e), e) for i, e in context.atomic_expr_map.items()}
+
     return new_program, new_context
 
 def rename(
-- 
2.43.0


From edb8bb5141c5c0cad0bb31211d399b262d7e43f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:43 +0000
Subject: [PATCH 42/78] fix: require a program to print statistics

---
 compiler/c2po/command.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/c2po/command.py b/compiler/c2po/command.py
index 8d893e2..3d0cbc4 100644
--- a/compiler/c2po/command.py
+++ b/compiler/c2po/command.py
@@ -676,7 +676,7 @@ print_stats_command = Command(
         },
     ],
     func=print_stats,
-    guards=[],
+    guards=[VALID_PROGRAM],
 )
 CommandRegistry.register(print_stats_command)
 
-- 
2.43.0


From ada95e3b782e6ee1ddfe8598a755785fbaef94b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:43 +0000
Subject: [PATCH 43/78] fix: accept a program that has been desugared when type
 checking again

---
 compiler/c2po/type_check.py | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/compiler/c2po/type_check.py b/compiler/c2po/type_check.py
index a9aaadb..b5a93c1 100644
--- a/compiler/c2po/type_check.py
+++ b/compiler/c2po/type_check.py
@@ -487,6 +487,15 @@ def type_check_expr(start: cpt.Expression, context: cpt.Context, options: dict[s
                         )
                         return False
 
+            if (
+                options.get("allow_counting", True)
+                and expr.operator is cpt.OperatorKind.ARITHMETIC_ADD
+                and any(types.is_bool_type(c.type) for c in expr.children)
+                and all(types.is_bool_type(c.type) or types.is_integer_type(c.type) for c in expr.children)
+            ):
+                expr.type = types.IntType()
+                continue
+
             if types.is_bool_type(new_type):
                 log.error(
                     f"Invalid operands for '{expr.symbol}', found 'bool' but expected 'int' or 'float'\n    {expr}",
@@ -557,6 +566,15 @@ def type_check_expr(start: cpt.Expression, context: cpt.Context, options: dict[s
                     )
                     return False
 
+            if (
+                options.get("allow_counting", True)
+                and types.is_bool_type(lhs.type)
+                and types.is_integer_type(rhs.type)
+                and not types.is_bool_type(rhs.type)
+            ):
+                expr.type = types.BoolType()
+                continue
+
             if types.is_bool_type(lhs.type) and expr.operator not in {
                 cpt.OperatorKind.EQUAL,
                 cpt.OperatorKind.NOT_EQUAL,
@@ -776,6 +794,12 @@ def type_check(program: cpt.Program, context: cpt.Context, options: dict[str, An
     Returns:
         None if type checking fails, the context object otherwise.
     """
+    # Symbols are declared anew
+    context.enums = {}
+
+    # Desugaring a well-typed program lets Booleans be counted, i.e., be added up and compared with integers
+    options["allow_counting"] = program.is_well_typed
+
     status = True
     for section in program.sections:
         is_good = type_check_section(section, set(), context, options)
-- 
2.43.0


From e72a9a8db19067eb6f4511f32af7634f82468f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:14 +0000
Subject: [PATCH 44/78] fix: keep the context of the current program when a new
 one cannot be parsed

---
 compiler/c2po/parse_c2po.py  | 7 ++++---
 compiler/c2po/parse_equiv.py | 7 ++++---
 compiler/c2po/parse_mltl.py  | 7 ++++---
 3 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/compiler/c2po/parse_c2po.py b/compiler/c2po/parse_c2po.py
index ce1f4c4..d7032a6 100644
--- a/compiler/c2po/parse_c2po.py
+++ b/compiler/c2po/parse_c2po.py
@@ -697,9 +697,6 @@ def parse_c2po(context: cpt.Context, options: dict[str, Any]) -> Optional[cpt.Pr
     contents = util.read_file(options["filename"])
     if contents is None:
         return None
-        
-    context.clear() 
-    context.set_spec_filename(options["filename"])
 
     lexer: C2POLexer = C2POLexer(options["filename"])
     mission_time: int = options["mission_time"] if options["mission_time"] > -1 else context.mission_time
@@ -709,6 +706,10 @@ def parse_c2po(context: cpt.Context, options: dict[str, Any]) -> Optional[cpt.Pr
     if not (lexer.status and parser.status):
         return None
 
+    # The current program and its context are kept unless there is a new one
+    context.clear()
+    context.set_spec_filename(options["filename"])
+
     return cpt.Program(0, sections)
 
 parse_c2po_command = command.Command(
diff --git a/compiler/c2po/parse_equiv.py b/compiler/c2po/parse_equiv.py
index dcb0836..4f5bedd 100644
--- a/compiler/c2po/parse_equiv.py
+++ b/compiler/c2po/parse_equiv.py
@@ -319,9 +319,6 @@ def parse_equiv(context: cpt.Context, options: dict[str, Any]) -> Optional[cpt.P
     contents = util.read_file(options["filename"])
     if contents is None:
         return None
-        
-    context.clear() 
-    context.set_spec_filename(options["filename"])
 
     lexer: MLTLEquivLexer = MLTLEquivLexer(options["filename"])
     parser: MLTLEquivParser = MLTLEquivParser(options["filename"])
@@ -330,6 +327,10 @@ def parse_equiv(context: cpt.Context, options: dict[str, Any]) -> Optional[cpt.P
     if not (lexer.status and parser.status):
         return None
 
+    # The current program and its context are kept unless there is a new one
+    context.clear()
+    context.set_spec_filename(options["filename"])
+
     program, signal_mapping = output
     context.bounds = parser.bounds
     context.constraints = parser.constraints
diff --git a/compiler/c2po/parse_mltl.py b/compiler/c2po/parse_mltl.py
index b5eee86..89cc401 100644
--- a/compiler/c2po/parse_mltl.py
+++ b/compiler/c2po/parse_mltl.py
@@ -272,9 +272,6 @@ def parse_mltl(context: cpt.Context, options: dict[str, Any]) -> Optional[cpt.Pr
     contents = util.read_file(options["filename"])
     if contents is None:
         return None
-        
-    context.clear() 
-    context.set_spec_filename(options["filename"])
 
     lexer: MLTLLexer = MLTLLexer(options["filename"])
     mission_time: int = options["mission_time"] if options["mission_time"] > -1 else context.mission_time
@@ -284,6 +281,10 @@ def parse_mltl(context: cpt.Context, options: dict[str, Any]) -> Optional[cpt.Pr
     if not (lexer.status and parser.status):
         return None
 
+    # The current program and its context are kept unless there is a new one
+    context.clear()
+    context.set_spec_filename(options["filename"])
+
     program, signal_mapping = output
     context.signal_mapping = signal_mapping
     cpt.assign_signal_ids(program, context, signal_mapping)
-- 
2.43.0


From 74ddc41f6c89dc258b236176aebcf2c7170181ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:52 +0000
Subject: [PATCH 45/78] fix: map the elements of arrays that the program does
 not contain yet

---
 compiler/c2po/cpt.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/compiler/c2po/cpt.py b/compiler/c2po/cpt.py
index ef568d1..ee60e9d 100644
--- a/compiler/c2po/cpt.py
+++ b/compiler/c2po/cpt.py
@@ -2024,6 +2024,12 @@ def assign_signal_ids(program: Program, context: Context, signal_mapping: types.
             else:
                 expr.signal_id = signal_mapping[expr.symbol]
 
+    # Elements of arrays only become part of the program when it is desugared
+    for definition in context.definitions.values():
+        for expr in postorder(definition, context):
+            if isinstance(expr, Signal) and expr.symbol in signal_mapping:
+                expr.signal_id = signal_mapping[expr.symbol]
+
     return missing_signals
 
 def to_infix_str(start: Expression) -> str:
-- 
2.43.0


From e69c823ba00d4cca325fdf47a4c09f6cc9dab568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:12 +0000
Subject: [PATCH 46/78] fix: size queues and place atomics by the parents
 within the program only

---
 compiler/c2po/atomics.py | 2 ++
 compiler/c2po/cpt.py     | 9 +++++++++
 compiler/c2po/scq.py     | 1 +
 3 files changed, 12 insertions(+)

diff --git a/compiler/c2po/atomics.py b/compiler/c2po/atomics.py
index 4a1effa..988ff72 100644
--- a/compiler/c2po/atomics.py
+++ b/compiler/c2po/atomics.py
@@ -35,6 +35,8 @@ def compute_atomics(program: cpt.Program, context: cpt.Context, options: dict[st
             new = cpt.Operator.LogicalNegate(expr.loc, new)
         expr.replace(new)
 
+    program.set_parents(context)
+
     aid: int = 0
 
     for expr in program.postorder(context):
diff --git a/compiler/c2po/cpt.py b/compiler/c2po/cpt.py
index ee60e9d..2a2b7b7 100644
--- a/compiler/c2po/cpt.py
+++ b/compiler/c2po/cpt.py
@@ -1396,6 +1396,15 @@ class Program(Node):
         for expr in self.postorder(context):
             expr.set_delays()
 
+    def set_parents(self, context: Context) -> None:
+        """Sets the parents of all expressions to those within this program, as expressions that were replaced can remain parents."""
+        exprs = list(self.postorder(context))
+        for expr in exprs:
+            expr.parents = set()
+        for expr in exprs:
+            for child in expr.children:
+                child.parents.add(expr)
+
     def get_max_wpd(self) -> int:
         """Returns the maximum worst-case propagation delay of all specifications in this `Program`."""
         return max([spec.get_expr().wpd for spec in self.get_specs() if isinstance(spec, Formula)])
diff --git a/compiler/c2po/scq.py b/compiler/c2po/scq.py
index eef8dc8..38f45be 100644
--- a/compiler/c2po/scq.py
+++ b/compiler/c2po/scq.py
@@ -12,6 +12,7 @@ def compute_scq_sizes(program: cpt.Program, context: cpt.Context, options: dict[
     total_scq_size = 0
 
     program.set_delays(context)
+    program.set_parents(context)
 
     for expr in cpt.postorder(cast("list[cpt.Expression]", program.get_specs()), context):
         if isinstance(expr, cpt.SpecSection):
-- 
2.43.0


From bdc0332d49dcccba4dcd54ae28a56bf1b41f7daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:19 +0000
Subject: [PATCH 47/78] fix: programs that refer to definitions, specifications
 or enums are not desugared

---
 compiler/c2po/cpt.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/compiler/c2po/cpt.py b/compiler/c2po/cpt.py
index 2a2b7b7..6df2cca 100644
--- a/compiler/c2po/cpt.py
+++ b/compiler/c2po/cpt.py
@@ -2369,6 +2369,12 @@ def is_desugared(program: Program, context: Context) -> bool:
             ),
         ):
             return False
+        if isinstance(expr, Variable) and (
+            expr.symbol in context.definitions
+            or expr.symbol in context.specifications
+            or expr.symbol not in context.variables
+        ):
+            return False
     return True
 
 def has_valid_scq_sizes(program: Program, context: Context) -> bool:
-- 
2.43.0


From 93d605eed5db2c42878b1ab4cf75763f88456029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:19 +0000
Subject: [PATCH 48/78] fix: compute the atomics of signals anew when the
 signal mapping has changed

---
 compiler/c2po/atomics.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/compiler/c2po/atomics.py b/compiler/c2po/atomics.py
index 988ff72..04d889a 100644
--- a/compiler/c2po/atomics.py
+++ b/compiler/c2po/atomics.py
@@ -37,6 +37,11 @@ def compute_atomics(program: cpt.Program, context: cpt.Context, options: dict[st
 
     program.set_parents(context)
 
+    # The atomics of signals follow the signal mapping, which may have changed since
+    if not context.enable_booleanizer:
+        context.atomic_id_map = {}
+        context.atomic_expr_map = {}
+
     aid: int = 0
 
     for expr in program.postorder(context):
-- 
2.43.0


From fe281cf1414147c35bbb2d47d614c03755b2054b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:57 +0000
Subject: [PATCH 49/78] fix: fail type checking when the elements of a declared
 array are not well-typed

---
 compiler/c2po/type_check.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/c2po/type_check.py b/compiler/c2po/type_check.py
index b5a93c1..c2e949d 100644
--- a/compiler/c2po/type_check.py
+++ b/compiler/c2po/type_check.py
@@ -713,7 +713,7 @@ def type_check_section(section: cpt.ProgramSection, symbols: set[str], context:
                     context.add_signal(f"{signal}[{i}]", declaration.type.member_type)
                     for i in range(0, declaration.type.size)
                 ]
-                [type_check_expr(sig, context, options) for sig in signals]
+                status = all([type_check_expr(sig, context, options) for sig in signals]) and status
     elif isinstance(section, cpt.DefineSection):
         context.set_any_time()
 
-- 
2.43.0


From 85a4da682a40caa2bc123f514c6ce10fbedad1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:40 +0000
Subject: [PATCH 50/78] fix: copy the definitions of the context with the
 program

---
 compiler/c2po/cpt.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/compiler/c2po/cpt.py b/compiler/c2po/cpt.py
index 6df2cca..f81d20f 100644
--- a/compiler/c2po/cpt.py
+++ b/compiler/c2po/cpt.py
@@ -1844,6 +1844,10 @@ def deepcopy_program_with_context(program: Program, context: Context) -> tuple[P
     new_program = program.deepcopy(new_context, memo)
 
     # Let the context refer to the expressions of the new program
+    new_context.definitions = {
+        symbol: deepcopy_expr(expr, new_context, memo)
+        for symbol, expr in context.definitions.items()
+    }
     new_context.atomic_id_map = {memo.get(id(e), e): i for e, i in context.atomic_id_map.items()}
     new_context.atomic_expr_map = {i: memo.get(id(e), e) for i, e in context.atomic_expr_map.items()}
 
-- 
2.43.0


From 49db70d80c1018d0995d664572de941c8bcd60ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:01 +0000
Subject: [PATCH 51/78] fix: type check a program again when the booleanizer is
 switched

---
 compiler/c2po/command.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/compiler/c2po/command.py b/compiler/c2po/command.py
index 3d0cbc4..b8ea968 100644
--- a/compiler/c2po/command.py
+++ b/compiler/c2po/command.py
@@ -529,11 +529,14 @@ set_r2u2_bin_path_command = Command(
 CommandRegistry.register(set_r2u2_bin_path_command)
 
 
-def enable_booleanizer(context: cpt.Context) -> ReturnCode:
-    """Command to enable the booleanizer.
+def enable_booleanizer(program: cpt.Program, context: cpt.Context) -> ReturnCode:
+    """Command to enable the booleanizer. Programs are type checked for one of the two.
 
+    `program` is the program.
     `context` is the context object.
     """
+    if not context.enable_booleanizer:
+        program.is_well_typed = False
     context.enable_booleanizer = True
     return ReturnCode.SUCCESS
 
@@ -542,17 +545,20 @@ enable_booleanizer_command = Command(
     name="enable_booleanizer",
     description="Enable Booleanizer expressions",
     options=[],
-    func=lambda program, context, options: enable_booleanizer(context),
+    func=lambda program, context, options: enable_booleanizer(program, context),
     guards=[],
 )
 CommandRegistry.register(enable_booleanizer_command)
 
 
-def disable_booleanizer(context: cpt.Context) -> ReturnCode:
-    """Command to disable the booleanizer.
+def disable_booleanizer(program: cpt.Program, context: cpt.Context) -> ReturnCode:
+    """Command to disable the booleanizer. Programs are type checked for one of the two.
 
+    `program` is the program.
     `context` is the context object.
     """
+    if context.enable_booleanizer:
+        program.is_well_typed = False
     context.enable_booleanizer = False
     return ReturnCode.SUCCESS
 
@@ -561,7 +567,7 @@ disable_booleanizer_command = Command(
     name="disable_booleanizer",
     description="Disable Booleanizer expressions",
     options=[],
-    func=lambda program, context, options: disable_booleanizer(context),
+    func=lambda program, context, options: disable_booleanizer(program, context),
     guards=[],
 )
 CommandRegistry.register(disable_booleanizer_command)
-- 
2.43.0


From a7868d312c72df9e34782b9c092e705070ab9a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:55 +0000
Subject: [PATCH 52/78] fix: accept the resolved initial values of prev when
 type checking again

---
 compiler/c2po/type_check.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/c2po/type_check.py b/compiler/c2po/type_check.py
index c2e949d..3998d96 100644
--- a/compiler/c2po/type_check.py
+++ b/compiler/c2po/type_check.py
@@ -628,7 +628,7 @@ def type_check_expr(start: cpt.Expression, context: cpt.Context, options: dict[s
                         )
                         return False
                     initial_expr.type = prev_expr.type
-            elif initial_expr.type.symbol in context.enums:
+            elif initial_expr.type.symbol in context.enums and not isinstance(initial_expr, cpt.Constant):
                 log.error(
                     f"Invalid initial value for '{expr.symbol}', must be of constant type (found '{initial_expr}')\n\t{expr}",
                     expr.loc,
-- 
2.43.0


From 4c1103e5ba5bbf80b3262d3e79dda0588d7e2179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:05 +0000
Subject: [PATCH 53/78] fix: end the recovery from a syntax error inside an
 ENUM section

After a syntax error the parser discards states until it can go on. In a
state with a default reduction (the start of a list of enumerators) it
reduced again instead, so that the same state was pushed and popped forever
and c2po hung.
---
 compiler/c2po/sly/yacc.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/compiler/c2po/sly/yacc.py b/compiler/c2po/sly/yacc.py
index 7adda8c..fca5bf9 100644
--- a/compiler/c2po/sly/yacc.py
+++ b/compiler/c2po/sly/yacc.py
@@ -2093,7 +2093,9 @@ class Parser(metaclass=ParserMeta):
             # Get the next symbol on the input.  If a lookahead symbol
             # is already set, we just use that. Otherwise, we'll pull
             # the next token off of the lookaheadstack or from the lexer
-            if self.state not in defaulted_states:
+            # (a default reduction while discarding states after an error
+            # would only push back what has just been popped)
+            if self.state not in defaulted_states or (lookahead and lookahead.type == 'error'):
                 if not lookahead:
                     if not lookaheadstack:
                         lookahead = next(tokens, None)  # Get the next token
-- 
2.43.0


From d5d2423977ccd08da1ae7c7f195c91bea7e22670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:12 +0000
Subject: [PATCH 54/78] fix: names that begin with prev are symbols

The keyword was a token of its own that matched the beginning of any name,
so 'previous' was read as 'prev' followed by 'ious'.
---
 compiler/c2po/parse_c2po.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/c2po/parse_c2po.py b/compiler/c2po/parse_c2po.py
index d7032a6..eb7b46d 100644
--- a/compiler/c2po/parse_c2po.py
+++ b/compiler/c2po/parse_c2po.py
@@ -56,7 +56,6 @@ class C2POLexer(sly.Lexer):
     # ARITH_PM    = r"\+/-|±"
 
     # Others
-    PREV = r'prev'
     CONTRACT_ASSIGN = r"=>"
     ASSIGN  = r":="
     SYMBOL  = r"[a-zA-Z_][a-zA-Z0-9_]*"
@@ -89,6 +88,7 @@ class C2POLexer(sly.Lexer):
     SYMBOL["pow"]  = ARITH_POW
     SYMBOL["sqrt"] = ARITH_SQRT
     SYMBOL["abs"]  = ARITH_ABS
+    SYMBOL["prev"] = PREV
     SYMBOL["xor"]  = LOG_XOR
     SYMBOL['G'] = TL_GLOBAL
     SYMBOL['F'] = TL_FUTURE
-- 
2.43.0


From 562d95bc61278dca9b9571c8fc4ce2795ab76e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:12 +0000
Subject: [PATCH 55/78] fix: refuse empty arrays

'{}' ended the parser with a NameError, and arrays without elements ended
the desugaring of anything applied to them with a ValueError. They have no
element type: report them, as arrays of a negative size are.
---
 compiler/c2po/parse_c2po.py | 4 ++--
 compiler/c2po/type_check.py | 4 ++++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/compiler/c2po/parse_c2po.py b/compiler/c2po/parse_c2po.py
index eb7b46d..dbddd36 100644
--- a/compiler/c2po/parse_c2po.py
+++ b/compiler/c2po/parse_c2po.py
@@ -325,7 +325,7 @@ class C2POParser(sly.Parser):
     @_("type LBRACK NUMERAL RBRACK")
     def type(self, p):
         size = int(p[2])
-        if size < 0:
+        if size <= 0:
             log.error(
                 f"Array sizes must be greater than zero (found '{size}')", 
                 log.FileLocation(self.filename, p.lineno)
@@ -413,7 +413,7 @@ class C2POParser(sly.Parser):
     # Empty array expression
     @_("LBRACE RBRACE")
     def expr(self, p):
-        return cpt.ArrayExpression(ln, [])
+        return cpt.ArrayExpression(log.FileLocation(self.filename, p.lineno), [])
 
     # Parameterized set aggregation expression
     @_("KW_FOREXACTLY LPAREN SYMBOL COLON expr COMMA expr RPAREN LPAREN expr RPAREN")
diff --git a/compiler/c2po/type_check.py b/compiler/c2po/type_check.py
index 3998d96..95953b8 100644
--- a/compiler/c2po/type_check.py
+++ b/compiler/c2po/type_check.py
@@ -158,6 +158,10 @@ def type_check_expr(start: cpt.Expression, context: cpt.Context, options: dict[s
         elif isinstance(expr, cpt.MissionTime):
             expr.type = types.IntType(True)
         elif isinstance(expr, cpt.ArrayExpression):
+            if len(expr.children) == 0:
+                log.error("empty arrays unsupported", expr.loc)
+                return False
+
             new_type = types.NoType()
             is_const = True
 
-- 
2.43.0


From 2ec3b3c78061dfad78524baea7465843735b4ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:55 +0000
Subject: [PATCH 56/78] fix: the variable of a set aggregation is unknown
 outside of it

Type checking an aggregation declared its variable for the remainder of the
program. A later use outside of any aggregation was well-typed, and was
assembled into an instruction without an operand.
---
 compiler/c2po/type_check.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/compiler/c2po/type_check.py b/compiler/c2po/type_check.py
index 95953b8..794f578 100644
--- a/compiler/c2po/type_check.py
+++ b/compiler/c2po/type_check.py
@@ -291,9 +291,7 @@ def type_check_expr(start: cpt.Expression, context: cpt.Context, options: dict[s
             s: cpt.ArrayExpression = expr.get_set()
             boundvar: cpt.Variable = expr.bound_var
 
-            if isinstance(s.type, types.ArrayType):
-                context.add_variable(boundvar.symbol, s.type.member_type)
-            else:
+            if not isinstance(s.type, types.ArrayType):
                 log.error(
                     f"set aggregation set must be Set type (found '{s.type}')",
                     expr.loc,
-- 
2.43.0


From aa45411af3a399e93640106c4438e45fe99bbd6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:25 +0000
Subject: [PATCH 57/78] fix: the variable of a set aggregation stands for the
 elements of its set

Inside of 'foreach(a: A)(a)' the name of a definition or specification
meant that definition or specification although it was type checked as an
element of the set. The name of a signal is a signal to the parser already:
refuse it.
---
 compiler/c2po/desugar.py    | 9 +++++----
 compiler/c2po/type_check.py | 4 ++++
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/compiler/c2po/desugar.py b/compiler/c2po/desugar.py
index a420ec4..92fcd80 100644
--- a/compiler/c2po/desugar.py
+++ b/compiler/c2po/desugar.py
@@ -18,14 +18,15 @@ def expand_definitions(program: cpt.Program, context: cpt.Context, options: dict
                 break
         context.definitions[symbol] = define
 
+    def is_free_variable(expr: cpt.Expression) -> bool:
+        return isinstance(expr, cpt.Variable) and expr.symbol not in context.bound_vars
+
     for expr in [
         expr
         for define in context.definitions.values()
         for expr in cpt.postorder(define, context)
-    ] + [expr for expr in program.postorder(context)]:
-        if not isinstance(expr, cpt.Variable):
-            continue
-
+        if is_free_variable(expr)
+    ] + [expr for expr in program.postorder(context) if is_free_variable(expr)]:
         if expr.symbol in context.definitions:
             expr.replace(context.definitions[expr.symbol])
         elif expr.symbol in context.specifications:
diff --git a/compiler/c2po/type_check.py b/compiler/c2po/type_check.py
index 794f578..27c33ac 100644
--- a/compiler/c2po/type_check.py
+++ b/compiler/c2po/type_check.py
@@ -291,6 +291,10 @@ def type_check_expr(start: cpt.Expression, context: cpt.Context, options: dict[s
             s: cpt.ArrayExpression = expr.get_set()
             boundvar: cpt.Variable = expr.bound_var
 
+            if boundvar.symbol in context.signals:
+                log.error(f"symbol '{boundvar.symbol}' already in use", expr.loc)
+                return False
+
             if not isinstance(s.type, types.ArrayType):
                 log.error(
                     f"set aggregation set must be Set type (found '{s.type}')",
-- 
2.43.0


From dd569695c0fb84e1aaf1bae25d4a20d7b0a80522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:25 +0000
Subject: [PATCH 58/78] fix: a structure is built from a value for each of its
 members

Missing and superfluous values went unnoticed.
---
 compiler/c2po/type_check.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/c2po/type_check.py b/compiler/c2po/type_check.py
index 27c33ac..43e79ed 100644
--- a/compiler/c2po/type_check.py
+++ b/compiler/c2po/type_check.py
@@ -268,7 +268,7 @@ def type_check_expr(start: cpt.Expression, context: cpt.Context, options: dict[s
             target_types = [m for m in context.structs[expr.symbol].values()]
             actual_types = [c.type for c in expr.children]
 
-            if any(
+            if len(target_types) != len(actual_types) or any(
                 [
                     target_type != actual_type
                     for target_type, actual_type in zip(target_types, actual_types)
-- 
2.43.0


From 0ababb333d9f4935aa33adc3f692cc92e4f64db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:23 +0000
Subject: [PATCH 59/78] fix: refuse a literal zero as the right operand of the
 modulus

---
 compiler/c2po/type_check.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/compiler/c2po/type_check.py b/compiler/c2po/type_check.py
index 43e79ed..9a6cd9c 100644
--- a/compiler/c2po/type_check.py
+++ b/compiler/c2po/type_check.py
@@ -456,7 +456,10 @@ def type_check_expr(start: cpt.Expression, context: cpt.Context, options: dict[s
             if all([c.type.is_const for c in expr.children]):
                 new_type.is_const = True
 
-            if expr.operator is cpt.OperatorKind.ARITHMETIC_DIVIDE:
+            if expr.operator in {
+                cpt.OperatorKind.ARITHMETIC_DIVIDE,
+                cpt.OperatorKind.ARITHMETIC_MODULO,
+            }:
                 rhs = expr.children[1]
                 # TODO: disallow division by non-const expression entirely
                 if isinstance(rhs, cpt.Constant) and rhs.value == 0:
-- 
2.43.0


From 1633df4b578c0fe4d68e85f602b2eb548f748ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:23 +0000
Subject: [PATCH 60/78] fix: refuse the modulus of floating-point numbers

---
 compiler/c2po/type_check.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/compiler/c2po/type_check.py b/compiler/c2po/type_check.py
index 9a6cd9c..300c86d 100644
--- a/compiler/c2po/type_check.py
+++ b/compiler/c2po/type_check.py
@@ -469,6 +469,16 @@ def type_check_expr(start: cpt.Expression, context: cpt.Context, options: dict[s
                     )
                     return False
                 
+            if (
+                expr.operator is cpt.OperatorKind.ARITHMETIC_MODULO
+                and types.is_float_type(new_type)
+            ):
+                log.error(
+                    f"Invalid operands for '{expr.symbol}', found 'float' but expected 'int'\n    {expr}",
+                    expr.loc,
+                )
+                return False
+
             if expr.operator is cpt.OperatorKind.ARITHMETIC_SQRT:
                 rhs = expr.children[0]
                 if rhs.type == types.IntType():
-- 
2.43.0


From 737e4fe3326fd41156ab5c94bf6b37b59e09dac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:04 +0000
Subject: [PATCH 61/78] fix: a symbol is declared once in a program

---
 compiler/c2po/type_check.py | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/compiler/c2po/type_check.py b/compiler/c2po/type_check.py
index 300c86d..f9483a9 100644
--- a/compiler/c2po/type_check.py
+++ b/compiler/c2po/type_check.py
@@ -759,15 +759,29 @@ def type_check_section(section: cpt.ProgramSection, symbols: set[str], context:
                 )
 
             symbols.add(struct.symbol)
+            members = [m for decl in struct.var_decls for m in decl.variables]
+            for member in struct.members:
+                if members.count(member) > 1:
+                    status = False
+                    log.error(
+                        f"member '{member}' of struct '{struct.symbol}' already in use",
+                        struct.loc,
+                    )
             context.add_struct(struct.symbol, struct.members)
     elif isinstance(section, cpt.EnumSection):
         for enum in section.enum_defs:
-            if enum.symbol in context.get_symbols():
+            if enum.symbol in symbols:
                 status = False
                 log.error(
                     f"Symbol '{enum.symbol}' already in use",
                     enum.loc,
                 )
+
+            symbols.add(enum.symbol)
+
+            # Enums may share the names of their members
+            shared = {name for members in context.enums.values() for name in members}
+            members = [member.symbol for member in enum.var_defs]
             for member_name, member_expr in enum.members.items():
                 if (not isinstance(member_expr, cpt.Constant)) or (not types.is_integer_type(member_expr.type)):
                     status = False
@@ -775,12 +789,14 @@ def type_check_section(section: cpt.ProgramSection, symbols: set[str], context:
                         f"Enum member {member_name} must be a constant integer, found {member_expr.type}",
                         enum.loc,
                     )
-                if member_name in context.get_symbols() or member_name == enum.symbol:
+                if member_name in symbols - shared or members.count(member_name) > 1:
                     status = False
                     log.error(
                         f"Symbol '{member_name}' already in use",
                         enum.loc,
                     )
+
+                symbols.add(member_name)
             context.add_enum(enum.symbol, enum.members)
     elif isinstance(section, cpt.SpecSection):
         if isinstance(section, cpt.FutureTimeSpecSection):
@@ -820,8 +836,9 @@ def type_check(program: cpt.Program, context: cpt.Context, options: dict[str, An
     options["allow_counting"] = program.is_well_typed
 
     status = True
+    symbols: set[str] = set()
     for section in program.sections:
-        is_good = type_check_section(section, set(), context, options)
+        is_good = type_check_section(section, symbols, context, options)
         status = status and is_good
 
     log.debug(1, f"type checking result: {status}")
-- 
2.43.0


From 0f741ae462af4eb08f0ade505665616825b140dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:18 +0000
Subject: [PATCH 62/78] fix: report a set aggregation over something that is
 not a set as an error of the specification

---
 compiler/c2po/type_check.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/compiler/c2po/type_check.py b/compiler/c2po/type_check.py
index f9483a9..b9e39d5 100644
--- a/compiler/c2po/type_check.py
+++ b/compiler/c2po/type_check.py
@@ -102,9 +102,9 @@ def type_check_expr(start: cpt.Expression, context: cpt.Context, options: dict[s
             if symbol in context.bound_vars:
                 set_expr = context.bound_vars[symbol]
                 if not types.is_array_type(set_expr.type):
-                    log.internal(
-                        f"set aggregation set not assigned to type 'set', found '{set_expr.type}'\n    "
-                        f"{expr}",
+                    log.error(
+                        f"set aggregation set must be Set type (found '{set_expr.type}')",
+                        set_expr.loc,
                     )
                     return False
 
-- 
2.43.0


From a3d85c258680d1bc88ba2c228672580514a5181a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:18 +0000
Subject: [PATCH 63/78] fix: keep the first of the definitions of a symbol

---
 compiler/c2po/type_check.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/compiler/c2po/type_check.py b/compiler/c2po/type_check.py
index b9e39d5..879f01a 100644
--- a/compiler/c2po/type_check.py
+++ b/compiler/c2po/type_check.py
@@ -737,7 +737,8 @@ def type_check_section(section: cpt.ProgramSection, symbols: set[str], context:
         context.set_any_time()
 
         for definition in section.defines:
-            if definition.symbol in symbols:
+            is_duplicate = definition.symbol in symbols
+            if is_duplicate:
                 status = False
                 log.error(
                     f"symbol '{definition.symbol}' already in use",
@@ -746,7 +747,7 @@ def type_check_section(section: cpt.ProgramSection, symbols: set[str], context:
 
             symbols.add(definition.symbol)
             is_good_def = type_check_expr(definition.expr, context, options)
-            if is_good_def:
+            if is_good_def and not is_duplicate:
                 context.add_definition(definition.symbol, definition.expr)
             status = status and is_good_def
     elif isinstance(section, cpt.StructSection):
-- 
2.43.0


From 548565bdda67e0874ca13e8c693e1562b041536f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:18 +0000
Subject: [PATCH 64/78] fix: refuse members of enums that are not representable
 as integers

---
 compiler/c2po/type_check.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/compiler/c2po/type_check.py b/compiler/c2po/type_check.py
index 879f01a..8c9aead 100644
--- a/compiler/c2po/type_check.py
+++ b/compiler/c2po/type_check.py
@@ -790,6 +790,8 @@ def type_check_section(section: cpt.ProgramSection, symbols: set[str], context:
                         f"Enum member {member_name} must be a constant integer, found {member_expr.type}",
                         enum.loc,
                     )
+                elif not type_check_expr(member_expr, context, options):
+                    status = False
                 if member_name in symbols - shared or members.count(member_name) > 1:
                     status = False
                     log.error(
-- 
2.43.0


From c04382e9289c46ef8877be8a240c0901425e3f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:44 +0000
Subject: [PATCH 65/78] fix: refuse sets whose elements are enum members of no
 particular enum

---
 compiler/c2po/type_check.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/compiler/c2po/type_check.py b/compiler/c2po/type_check.py
index 8c9aead..668f325 100644
--- a/compiler/c2po/type_check.py
+++ b/compiler/c2po/type_check.py
@@ -169,6 +169,13 @@ def type_check_expr(start: cpt.Expression, context: cpt.Context, options: dict[s
                 is_const = is_const and member.type.is_const
                 new_type = member.type
 
+            if types.is_enum_type(new_type) and new_type.symbol not in context.enums:
+                log.error(
+                    f"set '{expr}' cannot be of enum members only",
+                    expr.loc,
+                )
+                return False
+
             for member in expr.children:
                 if member.type != new_type:
                     log.error(
-- 
2.43.0


From 6e5ea9f979b38938c26a396e907b1e3285582711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:40 +0000
Subject: [PATCH 66/78] fix: refuse set aggregations over arrays of unknown
 size

---
 compiler/c2po/desugar.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/compiler/c2po/desugar.py b/compiler/c2po/desugar.py
index 92fcd80..809ec2a 100644
--- a/compiler/c2po/desugar.py
+++ b/compiler/c2po/desugar.py
@@ -225,6 +225,10 @@ def unroll_set_aggregation(program: cpt.Program, context: cpt.Context, options:
     Returns a ReturnCode.SUCCESS if successful, ReturnCode.ERROR otherwise.
     """
     def unroll(expr: cpt.SetAggregation) -> Optional[cpt.Expression]:
+        if isinstance(expr.get_set(), cpt.ArrayExpression) and len(expr.get_set().children) == 0:
+            log.error(f"set aggregation over an array of unknown size ({expr.symbol})", expr.loc)
+            return None
+
         if expr.operator is cpt.SetAggregationKind.FOR_EACH:
             for subexpr in cpt.postorder(expr.get_set(), context):
                 if not resolve_access(subexpr):
-- 
2.43.0


From 4d6eb12cd8c65d1c0588f4b747e841893f5dc70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:43 +0000
Subject: [PATCH 67/78] fix: print the number of forexactly, foratleast and
 foratmost

---
 compiler/c2po/cpt.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/compiler/c2po/cpt.py b/compiler/c2po/cpt.py
index f81d20f..c08334e 100644
--- a/compiler/c2po/cpt.py
+++ b/compiler/c2po/cpt.py
@@ -2105,7 +2105,11 @@ def to_infix_str(start: Expression) -> str:
                 s += f"{expr.symbol}({expr.bound_var} : "
                 stack.append((seen + 1, expr))
                 stack.append((0, expr.get_set()))
-            elif seen == 1:
+            elif seen == 1 and expr.get_num() is not None:
+                s += ", "
+                stack.append((seen + 1, expr))
+                stack.append((0, expr.get_num()))
+            elif seen == len(expr.children) - 2:
                 s += ")("
                 stack.append((seen + 1, expr))
                 stack.append((0, expr.get_expr()))
@@ -2228,7 +2232,11 @@ def to_prefix_str(start: Expression, with_internal_labels: bool = False) -> str:
                 s += f"({expr.symbol} ({expr.bound_var} : "
                 stack.append((seen + 1, expr))
                 stack.append((0, expr.get_set()))
-            elif seen == 1:
+            elif seen == 1 and expr.get_num() is not None:
+                s = s[:-1] + ", "
+                stack.append((seen + 1, expr))
+                stack.append((0, expr.get_num()))
+            elif seen == len(expr.children) - 2:
                 s = s[:-1] + ") "
                 stack.append((seen + 1, expr))
                 stack.append((0, expr.get_expr()))
-- 
2.43.0


From 8bfe1489dff59c8905636a1aa5c783387a2c4be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:43 +0000
Subject: [PATCH 68/78] fix: print enums in the syntax of the language

---
 compiler/c2po/cpt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/compiler/c2po/cpt.py b/compiler/c2po/cpt.py
index c08334e..c5428a9 100644
--- a/compiler/c2po/cpt.py
+++ b/compiler/c2po/cpt.py
@@ -1174,8 +1174,8 @@ class EnumDefinition(Node):
             self.members[var_def.symbol] = var_def.expr
 
     def __str__(self) -> str:
-        members_str_list = [str(s) + "," for s in self.var_defs]
-        return self.symbol + ": {" + " ".join(members_str_list) + "}"
+        members_str_list = [f"{s.symbol}: {s.expr}" for s in self.var_defs]
+        return self.symbol + ": {" + ", ".join(members_str_list) + "}"
     
     def deepcopy(self, context: Context, memo: dict[int, Expression]) -> EnumDefinition:
         var_defs = [v.deepcopy(context, memo) for v in self.var_defs]
-- 
2.43.0


From 9d4781566e279a2bf1da9dcb77caf523fee94f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:00 +0000
Subject: [PATCH 69/78] fix: write exclusive disjunctions in the MLTL standard,
 which has no xor

---
 compiler/c2po/cpt.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/compiler/c2po/cpt.py b/compiler/c2po/cpt.py
index c5428a9..870aca2 100644
--- a/compiler/c2po/cpt.py
+++ b/compiler/c2po/cpt.py
@@ -2308,10 +2308,13 @@ def to_mltl_std(program: Program, context: Context) -> str:
                 else:
                     mltl += ")"
             elif is_temporal_operator(expr) or is_logical_operator(expr):
+                # MLTL standard has no xor: p xor q = !(p <-> q)
+                is_xor = is_operator(expr, OperatorKind.LOGICAL_XOR)
+
                 if seen == len(expr.children):
-                    mltl += ")"
+                    mltl += "))" if is_xor else ")"
                 elif seen == 0:
-                    mltl += "("
+                    mltl += "(! (" if is_xor else "("
                     stack.append((seen + 1, expr))
                     stack.append((0, expr.children[seen]))
                 else:
@@ -2319,6 +2322,8 @@ def to_mltl_std(program: Program, context: Context) -> str:
                         symbol = "&"
                     elif is_operator(expr, OperatorKind.LOGICAL_OR):
                         symbol = "|"
+                    elif is_xor:
+                        symbol = "<->"
                     else:
                         symbol = expr.symbol
 
-- 
2.43.0


From f19fa7509a2ae2f93733eaf0c57774e288cfd6a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:33 +0000
Subject: [PATCH 70/78] fix: print floats without exponents, which the language
 does not have

---
 compiler/c2po/cpt.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/compiler/c2po/cpt.py b/compiler/c2po/cpt.py
index 870aca2..5bf9391 100644
--- a/compiler/c2po/cpt.py
+++ b/compiler/c2po/cpt.py
@@ -3,6 +3,7 @@ from __future__ import annotations
 import enum
 import pickle
 import re
+from decimal import Decimal
 from typing import Iterator, Optional, Union, cast, Any, NamedTuple, Callable
 from c2po import log, types, stats
 
@@ -161,6 +162,10 @@ class Constant(Expression):
             self.type = types.IntType(True)
         elif isinstance(value, float):
             self.type = types.FloatType(True)
+            if "e" in self.symbol:
+                # The input language has no exponents
+                self.symbol = f"{Decimal(self.symbol):f}"
+                self.symbol += "" if "." in self.symbol else ".0"
         else:
             raise ValueError(f"Bad value ({value})")
 
-- 
2.43.0


From 9ee25655d38d5a9b0087c6c33cb2759ffde8ecb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:52 +0000
Subject: [PATCH 71/78] fix: generate code for equivalences and true that is
 right in all bits of a word

---
 compiler/c2po/sabre.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/compiler/c2po/sabre.py b/compiler/c2po/sabre.py
index 88ddbc1..4fb07e8 100644
--- a/compiler/c2po/sabre.py
+++ b/compiler/c2po/sabre.py
@@ -54,7 +54,7 @@ def gen_code(
         # check if expr is a constant true/false
         if isinstance(expr, cpt.Constant) and expr.value in [True, False]:
             return line(
-                f"{fid[expr]}[({tau} - {word_wpd[expr]}) % {size[expr]}] = {int(expr.value)};", indent
+                f"{fid[expr]}[({tau} - {word_wpd[expr]}) % {size[expr]}] = {'~0' if expr.value else '0'};", indent
             )
         if cpt.is_operator(expr, cpt.OperatorKind.LOGICAL_NEGATE):
             return line(
@@ -83,7 +83,7 @@ def gen_code(
             rhs = expr.children[1]
             return line(
                 f"{fid[expr]}[({tau} - {word_wpd[expr]}) % {size[expr]}] = "
-                f"({fid[lhs]}[({tau} - {word_wpd[expr]}) % {size[expr]}] == {fid[rhs]}[({tau} - {word_wpd[expr]}) % {size[expr]}]);", indent
+                f"~ ({fid[lhs]}[({tau} - {word_wpd[expr]}) % {size[expr]}] ^ {fid[rhs]}[({tau} - {word_wpd[expr]}) % {size[expr]}]);", indent
             )
         elif cpt.is_operator(expr, cpt.OperatorKind.LOGICAL_XOR):
             lhs = expr.children[0]
-- 
2.43.0


From fa1f051a54c44d777f6594ca345e3168afd056d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:52 +0000
Subject: [PATCH 72/78] fix: end the interval of until in generated code at its
 upper bound

---
 compiler/c2po/sabre.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/compiler/c2po/sabre.py b/compiler/c2po/sabre.py
index 4fb07e8..42361a1 100644
--- a/compiler/c2po/sabre.py
+++ b/compiler/c2po/sabre.py
@@ -301,7 +301,7 @@ uint{word_size}_t until(uint{word_size}_t *a1, uint{word_size}_t *a2, uint{word_
             );
     }}
 
-    for(j = 1; j <= (({word_size // 2} < ((ub + 1) >> 1)) ? {word_size // 2} : (ub + 1) >> 1); j <<= 1) {{
+    for(j = 1; j <= (({word_size // 2} < ((ub - lb + 1) >> 1)) ? {word_size // 2} : (ub - lb + 1) >> 1); j <<= 1) {{
         for(i = 0; i < nbuf - 1; ++i) {{
             buf2[i] |= buf1[i] & ((buf2[i] << j) | (buf2[i+1] >> ({word_size} - j)));
             buf1[i] &= (buf1[i] << j) | (buf1[i+1] >> ({word_size} - j));
@@ -310,7 +310,7 @@ uint{word_size}_t until(uint{word_size}_t *a1, uint{word_size}_t *a2, uint{word_
         buf1[nbuf - 1] &= buf1[nbuf - 1] << j;
     }}
 
-    for(; j <= (ub + 1) >> 1; j <<= 1) {{
+    for(; j <= (ub - lb + 1) >> 1; j <<= 1) {{
         for(i = 0; (i + (j >> {log_word_size})) < nbuf; ++i) {{
             buf2[i] |= buf1[i] & buf2[i + (j >> {log_word_size})];
             buf1[i] &= buf1[i + (j >> {log_word_size})];
-- 
2.43.0


From ec81437071875c1408f2897d5daeb4eca25890cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:52 +0000
Subject: [PATCH 73/78] fix: shift by whole words, too, in generated code for
 intervals of several words

---
 compiler/c2po/sabre.py | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/compiler/c2po/sabre.py b/compiler/c2po/sabre.py
index 42361a1..24b7028 100644
--- a/compiler/c2po/sabre.py
+++ b/compiler/c2po/sabre.py
@@ -236,10 +236,11 @@ uint{word_size}_t future(uint{word_size}_t *a, uint{word_size}_t *buf, uint64_t
 
     if (((ub - lb + 1) & (j - 1)) != 0) {{
         uint64_t leftover_shift = (ub - lb + 1) & (j - 1);
-        for(i = 0; i < nbuf; ++i) {{ 
-            buf[i] |= ((leftover_shift & {word_size - 1}) == 0) ?
-                buf[i + (leftover_shift >> {log_word_size})] :
-                (buf[i] << leftover_shift) | (buf[i+1] >> ({word_size} - leftover_shift));
+        uint64_t leftover_words = leftover_shift >> {log_word_size}, leftover_bits = leftover_shift & {word_size - 1};
+        for(i = 0; i + leftover_words + (leftover_bits != 0) < nbuf; ++i) {{ 
+            buf[i] |= (leftover_bits == 0) ?
+                buf[i + leftover_words] :
+                (buf[i + leftover_words] << leftover_bits) | (buf[i + leftover_words + 1] >> ({word_size} - leftover_bits));
         }}
     }} 
   
@@ -273,10 +274,11 @@ uint{word_size}_t global(uint{word_size}_t *a, uint{word_size}_t *buf, uint64_t
 
     if (((ub - lb + 1) & (j - 1)) != 0) {{
         uint64_t leftover_shift = (ub - lb + 1) & (j - 1);
-        for(i = 0; i < nbuf; ++i) {{ 
-            buf[i] &= ((leftover_shift & {word_size - 1}) == 0) ?
-                buf[i + (leftover_shift >> {log_word_size})] :
-                (buf[i] << leftover_shift) | (buf[i+1] >> ({word_size} - leftover_shift));
+        uint64_t leftover_words = leftover_shift >> {log_word_size}, leftover_bits = leftover_shift & {word_size - 1};
+        for(i = 0; i + leftover_words + (leftover_bits != 0) < nbuf; ++i) {{ 
+            buf[i] &= (leftover_bits == 0) ?
+                buf[i + leftover_words] :
+                (buf[i + leftover_words] << leftover_bits) | (buf[i + leftover_words + 1] >> ({word_size} - leftover_bits));
         }}
     }} 
     
@@ -319,13 +321,14 @@ uint{word_size}_t until(uint{word_size}_t *a1, uint{word_size}_t *a2, uint{word_
 
     if (((ub - lb + 1) & (j - 1)) != 0) {{
         uint64_t leftover_shift = (ub - lb + 1) & (j - 1);
-        for(i = 0; i < nbuf; ++i) {{ 
-            buf2[i] |= ((leftover_shift & {word_size - 1}) == 0) ?
-                buf1[i] & buf2[i + (leftover_shift >> {log_word_size})] :
-                buf1[i] & ((buf2[i] << leftover_shift) | (buf2[i+1] >> ({word_size} - leftover_shift)));
-            buf1[i] &= ((leftover_shift & {word_size - 1}) == 0) ?
-                buf1[i + (leftover_shift >> {log_word_size})] :
-                (buf1[i] << leftover_shift) | (buf1[i+1] >> ({word_size} - leftover_shift));
+        uint64_t leftover_words = leftover_shift >> {log_word_size}, leftover_bits = leftover_shift & {word_size - 1};
+        for(i = 0; i + leftover_words + (leftover_bits != 0) < nbuf; ++i) {{ 
+            buf2[i] |= (leftover_bits == 0) ?
+                buf1[i] & buf2[i + leftover_words] :
+                buf1[i] & ((buf2[i + leftover_words] << leftover_bits) | (buf2[i + leftover_words + 1] >> ({word_size} - leftover_bits)));
+            buf1[i] &= (leftover_bits == 0) ?
+                buf1[i + leftover_words] :
+                (buf1[i + leftover_words] << leftover_bits) | (buf1[i + leftover_words + 1] >> ({word_size} - leftover_bits));
         }}
     }} 
 
-- 
2.43.0


From 9832bab841464bd8433f2e7791c60b732b43bbe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:05 +0000
Subject: [PATCH 74/78] fix: infer the number of columns that generated code
 needs from the names of signals

---
 compiler/c2po/sabre.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/compiler/c2po/sabre.py b/compiler/c2po/sabre.py
index 24b7028..ed98926 100644
--- a/compiler/c2po/sabre.py
+++ b/compiler/c2po/sabre.py
@@ -452,11 +452,6 @@ def generate_sabre_code(program: cpt.Program, context: cpt.Context, options: dic
     Returns:
         A ReturnCode.SUCCESS if the Sabre code was generated successfully, ReturnCode.ERROR otherwise.
     """
-    if options["nsigs"] == -1:
-        nsigs = program.get_num_signals(context)
-    else:
-        nsigs = options["nsigs"]
-    
     spec = None
     if options["formula"] is None:
         for spec_ in program.ft_spec_set.get_specs():
@@ -486,6 +481,18 @@ def generate_sabre_code(program: cpt.Program, context: cpt.Context, options: dic
                 log.error(f"formula symbol '{symbol}' is a contract")
                 return command.ReturnCode.ERROR
 
+    # Signal 'a<i>' is column i of the trace
+    try:
+        columns = 1 + max([int(str(e)[1:]) for e in cpt.postorder(spec.get_expr(), context) if isinstance(e, cpt.Signal)] + [0])
+    except ValueError:
+        log.error("signals must be named by their columns (a0, a1, ...)")
+        return command.ReturnCode.ERROR
+
+    nsigs = columns if options["nsigs"] == -1 else options["nsigs"]
+    if nsigs < columns:
+        log.error(f"{spec.symbol} needs {columns} signals")
+        return command.ReturnCode.ERROR
+
     code = gen_code(spec.get_expr(), context, options["word_size"], nsigs, options["raw_bytes"], options["profile"])
     if code is None:
         log.error(f"failed to generate Sabre code for {spec.symbol}")
-- 
2.43.0


From c1a70b22f0aa4ceec28c64822809fdb1dd545f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:05 +0000
Subject: [PATCH 75/78] fix: refuse operators for which no code can be
 generated

---
 compiler/c2po/sabre.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/compiler/c2po/sabre.py b/compiler/c2po/sabre.py
index ed98926..720562d 100644
--- a/compiler/c2po/sabre.py
+++ b/compiler/c2po/sabre.py
@@ -1,5 +1,5 @@
 import math
-from typing import cast, Any
+from typing import cast, Any, Optional
 
 from c2po import cpt, command, log
 
@@ -22,7 +22,7 @@ def gen_code(
     nsigs: int,
     raw_bytes: bool,
     profile: bool,
-) -> str:
+) -> Optional[str]:
     """
     Generate the Sabre code for the program.
     `formula` is the formula to generate the Sabre code for.
@@ -123,6 +123,11 @@ def gen_code(
         
         raise NotImplementedError(f"Operator '{expr.symbol}' not implemented")
 
+    for expr in cpt.postorder(formula, context):
+        if cpt.is_operator(expr, cpt.OperatorKind.RELEASE) or cpt.is_past_time_operator(expr):
+            log.error(f"operator '{expr.symbol}' not supported")
+            return None
+
     fid: dict[cpt.Expression, str] = {}
     size: dict[cpt.Expression, int] = {}
     word_wpd: dict[cpt.Expression, int] = {} # how many words to wait until all children are computed
-- 
2.43.0


From 54c550ebfedc9f798cfda29198679ab2501ebb6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:27 +0000
Subject: [PATCH 76/78] fix: generate traces with the columns of the signal
 mapping

---
 compiler/c2po/trace.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/compiler/c2po/trace.py b/compiler/c2po/trace.py
index 7d58277..463298f 100644
--- a/compiler/c2po/trace.py
+++ b/compiler/c2po/trace.py
@@ -114,9 +114,14 @@ def generate_trace(program: cpt.Program, context: cpt.Context, options: dict[str
     log.debug(1, f"generating trace of length {length}...")
     start_time = util.get_rusage_time()
 
-    variables: list[tuple[str, types.Type]] = sorted(
-        list(context.signals.items()), key=lambda x: context.signal_mapping[x[0]]
-    )
+    # The trace has every column up to the last one of a signal in the program
+    columns: dict[int, tuple[str, types.Type]] = {}
+    for symbol, type in context.signals.items():
+        if symbol in context.signal_mapping:
+            columns.setdefault(context.signal_mapping[symbol], (symbol, type))
+    variables: list[tuple[str, types.Type]] = [
+        columns.get(i, (f"unused_{i}", types.BoolType(False))) for i in range(max(columns, default=-1) + 1)
+    ]
 
     output_lines = [f"#{','.join(var_name for var_name, _ in variables)}"]
     for _ in range(length):
-- 
2.43.0


From 5aa5420e02c5ff41417b2c82808a9341f762d88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:27 +0000
Subject: [PATCH 77/78] fix: generate floats with the given number of decimal
 places

---
 compiler/c2po/trace.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/compiler/c2po/trace.py b/compiler/c2po/trace.py
index 463298f..ef691d5 100644
--- a/compiler/c2po/trace.py
+++ b/compiler/c2po/trace.py
@@ -106,7 +106,7 @@ def generate_trace(program: cpt.Program, context: cpt.Context, options: dict[str
     seed = options["seed"]
     output_file = options["output"]
     print_trace = options["print"]
-    float_precision = options["float_precision"] + 2
+    float_precision = max(options["float_precision"], 1)
 
     if seed is not None:
         random.seed(seed)
@@ -129,7 +129,7 @@ def generate_trace(program: cpt.Program, context: cpt.Context, options: dict[str
             ','.join(
                 str(random.randint(0, 1)) 
                 if types.is_bool_type(var_type)
-                else str(random.uniform(min_val, max_val))[:float_precision]
+                else f"{random.uniform(min_val, max_val):.{float_precision}f}"
                 if types.is_float_type(var_type)
                 else str(random.randint(int(min_val), int(max_val)))
                 for _, var_type in variables
-- 
2.43.0


From 8a469ea700834252b582b4a291e43050b2b0b3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:27 +0000
Subject: [PATCH 78/78] fix: refuse to generate values from an empty range

---
 compiler/c2po/trace.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/compiler/c2po/trace.py b/compiler/c2po/trace.py
index ef691d5..7e4cbcb 100644
--- a/compiler/c2po/trace.py
+++ b/compiler/c2po/trace.py
@@ -111,6 +111,10 @@ def generate_trace(program: cpt.Program, context: cpt.Context, options: dict[str
     if seed is not None:
         random.seed(seed)
 
+    if int(min_val) > int(max_val):
+        log.error(f"minimum value {min_val} is greater than maximum value {max_val}")
+        return command.ReturnCode.ERROR
+
     log.debug(1, f"generating trace of length {length}...")
     start_time = util.get_rusage_time()
 
-- 
2.43.0

