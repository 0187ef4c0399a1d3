From 0ee1d3ea5120e188afd1d17400b657f9a0790e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:46 +0000
Subject: [PATCH 01/49] fix: wake every iot_threadpool_wait caller, not just
 one of them

---
 src/c/threadpool.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/c/threadpool.c b/src/c/threadpool.c
index 42b590e..d4de189 100644
--- a/src/c/threadpool.c
+++ b/src/c/threadpool.c
@@ -116,7 +116,7 @@ static void * iot_threadpool_thread (void * arg)
       {
         pool->front = NULL;
         pool->rear = NULL;
-        pthread_cond_signal (&pool->work_cond); // Signal no jobs in queue
+        pthread_cond_broadcast (&pool->work_cond); // Signal no jobs in queue
       }
       if ((pool->jobs + 1) == pool->max_jobs)
       {
@@ -136,7 +136,7 @@ static void * iot_threadpool_thread (void * arg)
       iot_component_lock (comp);
       if (--pool->working == 0)
       {
-        pthread_cond_signal (&pool->work_cond); // Signal when no threads working
+        pthread_cond_broadcast (&pool->work_cond); // Signal when no threads working
       }
     }
     else
-- 
2.43.0


From 0c4e5e5cbc66620d183344e2ff0ef65bdd33dffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:00 +0000
Subject: [PATCH 02/49] fix: scheduler calculates its wake time with the lock
 held, so that no schedule added or start is missed

---
 src/c/scheduler.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/c/scheduler.c b/src/c/scheduler.c
index 892e838..3164755 100644
--- a/src/c/scheduler.c
+++ b/src/c/scheduler.c
@@ -154,15 +154,19 @@ static void * schedule_fn (void * data)
 static void * iot_scheduler_thread (void * arg)
 {
   iot_component_state_t state;
-  uint64_t next = iot_time_nsecs ();
+  uint64_t next;
   iot_scheduler_t * scheduler = (iot_scheduler_t*) arg;
   iot_data_t * queue = scheduler->queue;
 
-  nsToTimespec (next, &scheduler->schd_time);
   while (true)
   {
     state = iot_component_wait_and_lock (&scheduler->component, (uint32_t) IOT_COMPONENT_DELETED | (uint32_t) IOT_COMPONENT_RUNNING); // State wait
     if (state == IOT_COMPONENT_DELETED) break; // Exit thread on deletion
+
+    /* Calculate next execution time, with lock held so that no change to the queue can be missed */
+    iot_schedule_t * current = iot_schedule_queue_next (queue);
+    next = current ? current->start : (iot_time_nsecs () + IOT_SCHEDULER_DEFAULT_WAKE);
+    nsToTimespec (next, &scheduler->schd_time);
     pthread_cond_timedwait (&scheduler->component.cond, &scheduler->component.mutex, &scheduler->schd_time); // Schedule wait
     state = scheduler->component.state;
     if (state != IOT_COMPONENT_RUNNING)
@@ -174,7 +178,7 @@ static void * iot_scheduler_thread (void * arg)
     }
 
     /* Get the schedule at the front of the queue */
-    iot_schedule_t * current = iot_schedule_queue_next (queue);
+    current = iot_schedule_queue_next (queue);
     if (current && current->start < iot_time_nsecs ()) // If a schedule and ready to run
     {
       bool valid_current = atomic_load (&current->scheduled);
@@ -250,10 +254,7 @@ static void * iot_scheduler_thread (void * arg)
       {
         iot_log_trace (scheduler->logger, "Current schedule deleted");
       }
-      current = iot_schedule_queue_next (queue);
     }
-    next = current ? current->start : (iot_time_nsecs () + IOT_SCHEDULER_DEFAULT_WAKE);
-    nsToTimespec (next, &scheduler->schd_time); /* Calculate next execution time */
     iot_component_unlock (&scheduler->component);
   }
   iot_component_unlock (&scheduler->component);
-- 
2.43.0


From d8c5f478102b4c882f7c22776027952726b21b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:00 +0000
Subject: [PATCH 03/49] fix: iot_scheduler_free waits for the scheduler thread
 before releasing what it uses

---
 src/c/scheduler.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/c/scheduler.c b/src/c/scheduler.c
index 3164755..0433171 100644
--- a/src/c/scheduler.c
+++ b/src/c/scheduler.c
@@ -49,6 +49,7 @@ struct iot_scheduler_t
   iot_data_t * idle;              /* Map of idle schedules, keyed by unique schedule id */
   iot_logger_t * logger;          /* Optional logger */
   struct timespec schd_time;      /* Time for next schedule */
+  bool active;                    /* Whether the scheduler thread exists */
 };
 
 static inline void iot_schedule_add_ref (iot_schedule_t * schedule)
@@ -257,6 +258,8 @@ static void * iot_scheduler_thread (void * arg)
     }
     iot_component_unlock (&scheduler->component);
   }
+  scheduler->active = false;
+  pthread_cond_broadcast (&scheduler->component.cond); // Notify that thread has finished with scheduler
   iot_component_unlock (&scheduler->component);
   return NULL;
 }
@@ -270,7 +273,8 @@ iot_scheduler_t * iot_scheduler_alloc (int priority, int affinity, iot_logger_t
   scheduler->queue = iot_data_alloc_map (IOT_DATA_UINT64);
   iot_logger_add_ref (logger);
   iot_log_info (logger, "iot_scheduler_alloc (priority: %d affinity: %d)", priority, affinity);
-  iot_thread_create (NULL, iot_scheduler_thread, scheduler, priority, affinity, logger);
+  scheduler->active = true;
+  if (! iot_thread_create (NULL, iot_scheduler_thread, scheduler, priority, affinity, logger)) scheduler->active = false;
   return scheduler;
 }
 
@@ -441,9 +445,10 @@ void iot_scheduler_free (iot_scheduler_t * scheduler)
   {
     iot_log_trace (scheduler->logger, "iot_scheduler_free");
     iot_component_set_stopped (&scheduler->component); // Break schedule thread out of schedule wait
-    iot_wait_usecs (500u);
     iot_component_set_deleted (&scheduler->component); // Break schedule thread out of state wait
-    iot_wait_usecs (500u);
+    iot_component_lock (&scheduler->component);
+    while (scheduler->active) pthread_cond_wait (&scheduler->component.cond, &scheduler->component.mutex); // Wait for schedule thread to finish
+    iot_component_unlock (&scheduler->component);
     iot_scheduler_free_schedules (scheduler->queue);
     iot_scheduler_free_schedules (scheduler->idle);
     iot_logger_free (scheduler->logger);
-- 
2.43.0


From 90f51e7a1653377a5671bbd86308720fea41dcb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:00 +0000
Subject: [PATCH 04/49] fix: a finite schedule added again after its last
 repetition does not become infinite

---
 src/c/scheduler.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/c/scheduler.c b/src/c/scheduler.c
index 0433171..0917ae6 100644
--- a/src/c/scheduler.c
+++ b/src/c/scheduler.c
@@ -31,6 +31,7 @@ struct iot_schedule_t
   uint64_t period;                   /* The period of the schedule, in ns */
   uint64_t start;                    /* The start time of the schedule, in ns */
   uint64_t repeat;                   /* The number of repetitions, 0 == infinite */
+  uint64_t remaining;                /* The number of repetitions remaining, if not infinite */
   uint64_t id;                       /* Schedule unique id */
   _Atomic uint64_t dropped;          /* Number of events dropped */
   _Atomic bool concurrent;           /* Whether a schedule can be concurrently executed */
@@ -239,8 +240,9 @@ static void * iot_scheduler_thread (void * arg)
         /* Recalculate the next start time for the schedule */
         next = current->period + iot_time_nsecs ();
 
-        if ((current->repeat > 0u) && (--(current->repeat) == 0u)) // Last repetition
+        if ((current->repeat > 0u) && (--(current->remaining) == 0u)) // Last repetition
         {
+          current->remaining = current->repeat;
           iot_log_trace (scheduler->logger, "Schedule #%" PRIu64 " now idle", current->id);
           iot_schedule_queue_remove (scheduler, current);
           iot_schedule_idle_add (scheduler, current);
@@ -310,6 +312,7 @@ iot_schedule_t * iot_schedule_create (iot_scheduler_t * scheduler, iot_schedule_
   schedule->period = period;
   schedule->start = iot_time_nsecs () + delay;
   schedule->repeat = repeat;
+  schedule->remaining = repeat;
   schedule->threadpool = pool;
   schedule->priority = priority;
   schedule->id = atomic_fetch_add (&schedule_id_counter, 1u);
-- 
2.43.0


From 38ea948676b79fa1650cbb2da8cfe608f48292b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:00 +0000
Subject: [PATCH 05/49] fix: scheduler does not release a deleted schedule, or
 its pool, with the scheduler locked

---
 src/c/scheduler.c | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/c/scheduler.c b/src/c/scheduler.c
index 0917ae6..115aabc 100644
--- a/src/c/scheduler.c
+++ b/src/c/scheduler.c
@@ -152,6 +152,15 @@ static void * schedule_fn (void * data)
   return ret;
 }
 
+/* Release scheduler thread's reference to a schedule, called with lock held. If no longer in queue, may be the last
+   reference, so release without lock as the free function or a thread of the pool may be using the scheduler */
+static void iot_schedule_release (iot_scheduler_t * scheduler, iot_schedule_t * schedule, bool queued)
+{
+  if (!queued) iot_component_unlock (&scheduler->component);
+  iot_schedule_free (schedule);
+  if (!queued) iot_component_lock (&scheduler->component);
+}
+
 /* Scheduler thread function */
 static void * iot_scheduler_thread (void * arg)
 {
@@ -198,7 +207,8 @@ static void * iot_scheduler_thread (void * arg)
         if (atomic_load (&current->sync)) // Run schedule directly
         {
           iot_log_trace (scheduler->logger, "Running sync schedule #%" PRIu64 "", current->id);
-          schedule_fn (current);
+          current->function (current->arg);
+          iot_schedule_release (scheduler, current, valid_current);
         }
         else if (current->threadpool) // Run schedule from threadpool
         {
@@ -216,8 +226,8 @@ static void * iot_scheduler_thread (void * arg)
             {
               iot_log_warn (scheduler->logger, "Scheduled event dropped for schedule #%" PRIu64, current->id);
             }
-            valid_current = atomic_load (&current->refs) > 1u && atomic_load (&current->scheduled);;
-            iot_schedule_free (current);
+            valid_current = atomic_load (&current->refs) > 1u && atomic_load (&current->scheduled);
+            iot_schedule_release (scheduler, current, valid_current);
           }
         }
         else // Run schedule in new thread
@@ -225,8 +235,8 @@ static void * iot_scheduler_thread (void * arg)
           iot_log_trace (scheduler->logger, "Running schedule #%" PRIu64 " as thread", current->id);
           if (!iot_thread_create (NULL, schedule_fn, current, current->priority, IOT_THREAD_NO_AFFINITY, scheduler->logger))
           {
-            valid_current = atomic_load (&current->refs) > 1u;
-            iot_schedule_free (current);
+            valid_current = atomic_load (&current->refs) > 1u && atomic_load (&current->scheduled);
+            iot_schedule_release (scheduler, current, valid_current);
           }
         }
       }
-- 
2.43.0


From 728fde2df771118e4d04cc29c2b8ee796b34ca71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:50 +0000
Subject: [PATCH 06/49] fix: iterator has_next functions tell whether next will
 return a value

---
 src/c/data.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/c/data.c b/src/c/data.c
index 6f6b451..0875277 100644
--- a/src/c/data.c
+++ b/src/c/data.c
@@ -907,7 +907,7 @@ bool iot_data_list_iter_next (iot_data_list_iter_t * iter)
 bool iot_data_list_iter_has_next (const iot_data_list_iter_t * iter)
 {
   assert (iter);
-  return ((iter->_element == NULL) ||  iter->_element->next);
+  return ((iter->_element ? iter->_element->next : iter->_list->tail) != NULL);
 }
 
 bool iot_data_list_iter_prev (iot_data_list_iter_t * iter)
@@ -2299,7 +2299,7 @@ bool iot_data_map_iter_next (iot_data_map_iter_t * iter)
 bool iot_data_map_iter_has_next (const iot_data_map_iter_t * iter)
 {
   assert (iter && iter->_map);
-  return (iter->_count < iter->_map->size);
+  return ((iter->_node ? iot_node_next (iter->_node) : iot_node_start (iter->_map->tree)) != NULL);
 }
 
 static inline iot_node_t * iot_node_end (iot_node_t * node)
@@ -2403,7 +2403,7 @@ bool iot_data_array_iter_next (iot_data_array_iter_t * iter)
 bool iot_data_array_iter_has_next (const iot_data_array_iter_t * iter)
 {
   assert (iter);
-  return ((iter->_index == iter->_array->length) || (iter->_index + 1 < iter->_array->length));
+  return ((iter->_index < iter->_array->length ? iter->_index + 1 : 0) < iter->_array->length);
 }
 
 bool iot_data_array_iter_prev (iot_data_array_iter_t * iter)
@@ -2441,7 +2441,7 @@ bool iot_data_vector_iter_next (iot_data_vector_iter_t * iter)
 
 bool iot_data_vector_iter_has_next (const iot_data_vector_iter_t * iter)
 {
-  return ((iter->_index == iter->_vector->size) || (iter->_index + 1 < iter->_vector->size));
+  return ((iter->_index < iter->_vector->size ? iter->_index + 1 : 0) < iter->_vector->size);
 }
 
 bool iot_data_vector_iter_prev (iot_data_vector_iter_t * iter)
-- 
2.43.0


From fa12712b69eb8cb32ab6fae4dec7c564fdd16d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:28 +0000
Subject: [PATCH 07/49] fix: map removal rebalances after removing a black leaf

---
 src/c/data.c | 56 ++++++++++++++++++++++++++++------------------------
 1 file changed, 30 insertions(+), 26 deletions(-)

diff --git a/src/c/data.c b/src/c/data.c
index 0875277..589a5d4 100644
--- a/src/c/data.c
+++ b/src/c/data.c
@@ -2915,11 +2915,6 @@ static inline iot_node_t * iot_node_uncle (const iot_node_t * node)
   return gp ? ((node->parent == gp->left) ? gp->right : gp->left) : NULL;
 }
 
-static inline iot_node_t * iot_node_sibling (const iot_node_t * node)
-{
-  return IS_LEFT (node) ? node->parent->right : node->parent->left;
-}
-
 static inline iot_node_t * iot_node_alloc (iot_node_t * parent, iot_data_t * key, iot_data_t * value)
 {
   bool heap = iot_data_alloc_from_heap;
@@ -3025,24 +3020,28 @@ static void iot_node_insert_balance (iot_data_map_t * map, iot_node_t * k)
   map->tree->colour = IOT_NODE_BLACK;
 }
 
-static void iot_node_remove_balance (iot_data_map_t * map, iot_node_t * x)
+// Note that node x may be NULL (a removed black leaf), hence parent passed
+
+static void iot_node_remove_balance (iot_data_map_t * map, iot_node_t * x, iot_node_t * parent)
 {
   while (x != map->tree && IS_BLACK (x))
   {
-    iot_node_t * s = iot_node_sibling (x);
-    if (IS_LEFT (x))
+    iot_node_t * s;
+    if (x == parent->left)
     {
+      s = parent->right;
       if (IS_RED (s)) // case 3.1
       {
         s->colour = IOT_NODE_BLACK;
-        x->parent->colour = IOT_NODE_RED;
-        iot_node_rol (map, x->parent);
-        s = x->parent->right;
+        parent->colour = IOT_NODE_RED;
+        iot_node_rol (map, parent);
+        s = parent->right;
       }
       if (IS_LEFT_BLACK (s) && IS_RIGHT_BLACK (s)) // case 3.2
       {
         iot_node_set_colour (s, IOT_NODE_RED);
-        x = x->parent;
+        x = parent;
+        parent = x->parent;
       }
       else
       {
@@ -3051,29 +3050,31 @@ static void iot_node_remove_balance (iot_data_map_t * map, iot_node_t * x)
           iot_node_set_colour (s->left, IOT_NODE_BLACK);
           iot_node_set_colour (s, IOT_NODE_RED);
           iot_node_ror (map, s);
-          s = x->parent->right;
+          s = parent->right;
         }
         // case 3.4
-        iot_node_set_colour (s, iot_node_colour (x->parent));
-        x->parent->colour = IOT_NODE_BLACK;
+        iot_node_set_colour (s, iot_node_colour (parent));
+        parent->colour = IOT_NODE_BLACK;
         if (s) iot_node_set_colour (s->right, IOT_NODE_BLACK);
-        iot_node_rol (map, x->parent);
+        iot_node_rol (map, parent);
         x = map->tree;
       }
     }
     else
     {
+      s = parent->left;
       if (IS_RED (s)) // case 3.1
       {
         s->colour = IOT_NODE_BLACK;
-        x->parent->colour = IOT_NODE_RED;
-        iot_node_ror (map, x->parent);
-        s = x->parent->left;
+        parent->colour = IOT_NODE_RED;
+        iot_node_ror (map, parent);
+        s = parent->left;
       }
       if (IS_RIGHT_BLACK (s) && IS_LEFT_BLACK (s)) // case 3.2
       {
         iot_node_set_colour (s, IOT_NODE_RED);
-        x = x->parent;
+        x = parent;
+        parent = x->parent;
       }
       else
       {
@@ -3082,18 +3083,18 @@ static void iot_node_remove_balance (iot_data_map_t * map, iot_node_t * x)
           iot_node_set_colour (s->right, IOT_NODE_BLACK);
           iot_node_set_colour (s, IOT_NODE_RED);
           iot_node_rol (map, s);
-          s = x->parent->left;
+          s = parent->left;
         }
         // case 3.4
-        iot_node_set_colour (s, iot_node_colour (x->parent));
-        x->parent->colour = IOT_NODE_BLACK;
+        iot_node_set_colour (s, iot_node_colour (parent));
+        parent->colour = IOT_NODE_BLACK;
         if (s) iot_node_set_colour (s->left, IOT_NODE_BLACK);
-        iot_node_ror (map, x->parent);
+        iot_node_ror (map, parent);
         x = map->tree;
       }
     }
   }
-  x->colour = IOT_NODE_BLACK;
+  iot_node_set_colour (x, IOT_NODE_BLACK);
 }
 
 static inline iot_node_t * iot_node_find (const iot_node_t * node, const iot_data_t * key)
@@ -3146,6 +3147,7 @@ static bool iot_node_remove (iot_data_map_t * map, const iot_data_t * key)
   if (z)
   {
     iot_node_t * x;
+    iot_node_t * parent = z->parent;
     iot_node_t * y = z;
     iot_node_colour_t col = y->colour;
     if (z->left == NULL)
@@ -3165,10 +3167,12 @@ static bool iot_node_remove (iot_data_map_t * map, const iot_data_t * key)
       x = y->right;
       if (y->parent == z)
       {
+        parent = y;
         if (x) x->parent = y;
       }
       else
       {
+        parent = y->parent;
         iot_node_transplant (map, y, y->right);
         y->right = z->right;
         y->right->parent = y;
@@ -3179,7 +3183,7 @@ static bool iot_node_remove (iot_data_map_t * map, const iot_data_t * key)
       y->colour = z->colour;
     }
     iot_node_delete (z);
-    if (x && (col == IOT_NODE_BLACK)) iot_node_remove_balance (map, x);
+    if (col == IOT_NODE_BLACK) iot_node_remove_balance (map, x, parent);
   }
   return (z != NULL);
 }
-- 
2.43.0


From 259984bb66c1702ec3fbd5fb2d716e082fee4b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:47 +0000
Subject: [PATCH 08/49] fix: hash of data is that of its present content

---
 src/c/data-impl.h |  1 -
 src/c/data.c      | 93 +++++++++++++++++------------------------------
 2 files changed, 33 insertions(+), 61 deletions(-)

diff --git a/src/c/data-impl.h b/src/c/data-impl.h
index c4536da..1f127c4 100644
--- a/src/c/data-impl.h
+++ b/src/c/data-impl.h
@@ -33,7 +33,6 @@ struct iot_data_t
   bool heap : 1;
   bool constant : 1;
   bool composed : 1;
-  bool rehash : 1;
   bool tag1 : 1;
   bool tag2 : 1;
 };
diff --git a/src/c/data.c b/src/c/data.c
index 589a5d4..b12fa87 100644
--- a/src/c/data.c
+++ b/src/c/data.c
@@ -287,50 +287,54 @@ extern void iot_data_block_free (void  * ptr)
 #endif
 }
 
-static inline void iot_data_map_hash (iot_data_t * map, const iot_data_t * key, const iot_data_t * value)
+static inline uint32_t iot_data_map_hash (const iot_data_t * key, const iot_data_t * value)
 {
   uint32_t key_hash = iot_data_hash (key);
   uint32_t val_hash = iot_data_hash (value);
-  map->hash ^= key_hash;
-  if (val_hash != key_hash) map->hash ^= val_hash; // Only apply value hash if different from key hash or hashes cancel out
+  return (val_hash != key_hash) ? key_hash ^ val_hash : key_hash; // Only apply value hash if different from key hash or hashes cancel out
 }
 
+/* Note: The hash of composed data is not stored, as contained data may be changed, or be in use by another thread */
+
 uint32_t iot_data_hash (const iot_data_t * data)
 {
-  iot_data_t * da = (iot_data_t*) data;
-  if (da && da->rehash)
+  uint32_t hash = 0u;
+  if (data == NULL) return hash;
+  switch (data->type)
   {
-    da->hash = 0;
-    da->rehash = false;
-    if (da->type == IOT_DATA_VECTOR)
+    case IOT_DATA_VECTOR:
     {
       iot_data_vector_iter_t iter;
-      iot_data_vector_iter (da, &iter);
+      iot_data_vector_iter (data, &iter);
       while (iot_data_vector_iter_next (&iter))
       {
-        da->hash ^= iot_data_hash (iot_data_vector_iter_value (&iter));
+        hash ^= iot_data_hash (iot_data_vector_iter_value (&iter));
       }
+      break;
     }
-    else if (da->type == IOT_DATA_LIST)
+    case IOT_DATA_LIST:
     {
       iot_data_list_iter_t iter;
-      iot_data_list_iter (da, &iter);
+      iot_data_list_iter (data, &iter);
       while (iot_data_list_iter_next (&iter))
       {
-        da->hash ^= iot_data_hash (iot_data_list_iter_value (&iter));
+        hash ^= iot_data_hash (iot_data_list_iter_value (&iter));
       }
+      break;
     }
-    else // IOT_DATA_MAP
+    case IOT_DATA_MAP:
     {
       iot_data_map_iter_t iter;
-      iot_data_map_iter (da, &iter);
+      iot_data_map_iter (data, &iter);
       while (iot_data_map_iter_next (&iter))
       {
-        iot_data_map_hash (da, iot_data_map_iter_key (&iter), iot_data_map_iter_value (&iter));
+        hash ^= iot_data_map_hash (iot_data_map_iter_key (&iter), iot_data_map_iter_value (&iter));
       }
+      break;
     }
+    default: hash = data->hash; break;
   }
-  return da ? da->hash : 0u;
+  return hash;
 }
 
 static inline void iot_element_free (iot_element_t * element)
@@ -875,7 +879,6 @@ static void iot_data_list_remove_element (iot_data_list_t * list, iot_element_t
     element->next->prev = element->prev;
     element->prev->next = element->next;
     list->head->length--;
-    list->base.rehash = true;
     iot_element_free (element);
   }
   iot_data_free (value);
@@ -941,8 +944,6 @@ iot_data_t * iot_data_list_iter_replace (const iot_data_list_iter_t * iter, iot_
   iot_data_t * res = (iter->_element) ? iter->_element->value : NULL;
   if (res)
   {
-    iot_data_t * base = (iot_data_t*) &iter->_list->base;
-    base->rehash = true;
     iter->_element->value = value;
   }
   return res;
@@ -978,7 +979,6 @@ void iot_data_list_tail_push (iot_data_t * list, iot_data_t * value)
     impl->head = impl->tail;
   }
   impl->head->length++;
-  list->hash ^= iot_data_hash (value);
 }
 
 iot_data_t * iot_data_list_tail_pop (iot_data_t * list)
@@ -1000,7 +1000,6 @@ iot_data_t * iot_data_list_tail_pop (iot_data_t * list)
     {
       impl->head = NULL;
     }
-    list->rehash = true;
     iot_element_free (element);
   }
   return value;
@@ -1024,7 +1023,6 @@ void iot_data_list_head_push (iot_data_t * list, iot_data_t * value)
     impl->tail = impl->head;
     impl->head->length = 1;
   }
-  list->hash ^= iot_data_hash (value);
 }
 
 iot_data_t * iot_data_list_head_pop (iot_data_t * list)
@@ -1046,7 +1044,6 @@ iot_data_t * iot_data_list_head_pop (iot_data_t * list)
     {
       impl->tail = NULL;
     }
-    list->rehash = true;
     iot_element_free (element);
   }
   return value;
@@ -1246,16 +1243,16 @@ static void iot_data_inc_dec (iot_data_t * data, bool inc)
   iot_data_union_t * val = &((iot_data_value_t*) data)->value;
   switch (data->type)
   {
-    case IOT_DATA_INT8: inc ? val->i8++ : val->i8--; break;
-    case IOT_DATA_UINT8: inc ? val->ui8++ : val->ui8--; break;
-    case IOT_DATA_INT16: inc ? val->i16++ : val->i16--; break;
-    case IOT_DATA_UINT16: inc ? val->ui16++ : val->ui16--; break;
-    case IOT_DATA_INT32: inc ? val->i32++ : val->i32--; break;
-    case IOT_DATA_UINT32: inc ? val->ui32++ : val->ui32--; break;
-    case IOT_DATA_INT64: inc ? val->i64++ : val->i64--; break;
-    case IOT_DATA_UINT64: inc ? val->ui64++ : val->ui64--; break;
-    case IOT_DATA_FLOAT32: inc ? val->f32++ : val->f32--; break;
-    case IOT_DATA_FLOAT64: inc ? val->f64++ : val->f64--; break;
+    case IOT_DATA_INT8: inc ? val->i8++ : val->i8--; data->hash = (uint32_t) val->i8; break;
+    case IOT_DATA_UINT8: inc ? val->ui8++ : val->ui8--; data->hash = (uint32_t) val->ui8; break;
+    case IOT_DATA_INT16: inc ? val->i16++ : val->i16--; data->hash = (uint32_t) val->i16; break;
+    case IOT_DATA_UINT16: inc ? val->ui16++ : val->ui16--; data->hash = (uint32_t) val->ui16; break;
+    case IOT_DATA_INT32: inc ? val->i32++ : val->i32--; data->hash = (uint32_t) val->i32; break;
+    case IOT_DATA_UINT32: inc ? val->ui32++ : val->ui32--; data->hash = (uint32_t) val->ui32; break;
+    case IOT_DATA_INT64: inc ? val->i64++ : val->i64--; data->hash = (uint32_t) val->i64; break;
+    case IOT_DATA_UINT64: inc ? val->ui64++ : val->ui64--; data->hash = (uint32_t) val->ui64; break;
+    case IOT_DATA_FLOAT32: inc ? val->f32++ : val->f32--; data->hash = (uint32_t) val->f32; break;
+    case IOT_DATA_FLOAT64: inc ? val->f64++ : val->f64--; data->hash = (uint32_t) val->f64; break;
     default: break;
   }
 }
@@ -1730,11 +1727,7 @@ bool iot_data_map_remove (iot_data_t * map, const iot_data_t * key)
   if (key)
   {
     iot_data_map_t * mp = (iot_data_map_t*) map;
-    if ((ret = iot_node_remove (mp, key)))
-    {
-      mp->base.rehash = true;
-      mp->size--;
-    }
+    if ((ret = iot_node_remove (mp, key))) mp->size--;
   }
   return ret;
 }
@@ -2004,16 +1997,7 @@ void iot_data_vector_add (iot_data_t * vector, uint32_t index, iot_data_t * val)
   assert (vector && (vector->type == IOT_DATA_VECTOR));
   assert (index < arr->size);
   assert ((val == NULL) || (val && (vector->element_type == IOT_DATA_MULTI || vector->element_type == val->type))); // Check element type matches for fixed type vector
-  iot_data_t * element = arr->values[index];
-  if (element)
-  {
-    vector->rehash = true;
-    iot_data_free (element);
-  }
-  else
-  {
-    vector->hash ^= iot_data_hash (val);
-  }
+  iot_data_free (arr->values[index]);
   arr->values[index] = val;
 }
 
@@ -2049,7 +2033,6 @@ void iot_data_vector_resize (iot_data_t * vector, uint32_t size)
     vec->values = realloc (vec->values, size * sizeof (iot_data_t*));
     memset (&vec->values[vec->size], 0, (size - vec->size) * sizeof (iot_data_t*));
   }
-  vector->rehash = vec->size != size;
   vec->size = size;
 }
 
@@ -2485,14 +2468,6 @@ iot_data_t * iot_data_vector_iter_replace_value (const iot_data_vector_iter_t *
   if (iter->_index < vector->size)
   {
     res = vector->values[iter->_index];
-    if (res)
-    {
-      vector->base.rehash = true;
-    }
-    else
-    {
-      if (value) vector->base.hash ^= iot_data_hash (value);
-    }
     vector->values[iter->_index] = value;
   }
   return res;
@@ -3193,7 +3168,6 @@ static bool iot_node_add (iot_data_map_t * map, iot_data_t * key, iot_data_t * v
   iot_node_t * node = iot_node_find (map->tree, key);
   if (node)
   {
-    map->base.rehash = true;
     iot_data_free (key);
     iot_data_free (node->value);
     node->value = value;
@@ -3201,7 +3175,6 @@ static bool iot_node_add (iot_data_map_t * map, iot_data_t * key, iot_data_t * v
   else
   {
     iot_node_insert (map, key, value);
-    iot_data_map_hash (&map->base, key, value);
   }
   return (node == NULL);
 }
-- 
2.43.0


From a96a21317ab3ac960c0aae62d803f5d7deab0bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:47 +0000
Subject: [PATCH 09/49] fix: iot_data_vector_find skips empty slots

---
 src/c/data.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c/data.c b/src/c/data.c
index b12fa87..a871a22 100644
--- a/src/c/data.c
+++ b/src/c/data.c
@@ -2488,7 +2488,7 @@ const iot_data_t * iot_data_vector_find (const iot_data_t * vector, iot_data_cmp
   while (iot_data_vector_iter_next (&iter))
   {
     result = iot_data_vector_iter_value (&iter);
-    if (cmp (result, arg)) break;
+    if (result && cmp (result, arg)) break;
     result = NULL;
   }
   return result;
-- 
2.43.0


From ee44bfe55ba9a530a9b3f2f841162cea5643e351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:15 +0000
Subject: [PATCH 10/49] fix: iot_data_binary_take allocates the size of the
 array, and arrays of length zero are all alike

---
 src/c/data.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/c/data.c b/src/c/data.c
index a871a22..0850264 100644
--- a/src/c/data.c
+++ b/src/c/data.c
@@ -1535,10 +1535,11 @@ extern void * iot_data_binary_take (iot_data_t * data, uint32_t * len)
     ret = array->data;
     array->data = NULL;
     array->length = 0u;
+    array->base.hash = 0u;
   }
   else
   {
-    ret = malloc (array->length);
+    ret = malloc (*len);
     memcpy (ret, array->data, *len);
   }
   return ret;
@@ -1582,8 +1583,9 @@ extern iot_data_t * iot_data_alloc_array (void * data, uint32_t length, iot_data
   array->base.element_type = type;
   array->data = length ? data : NULL;
   array->length = length;
-  array->base.hash = data ? iot_hash_data (data, size) : 0;
+  array->base.hash = length ? iot_hash_data (data, size) : 0;
   array->base.release = data ? (ownership != IOT_DATA_REF) : false;
+  if (length == 0 && ownership == IOT_DATA_TAKE) free (data);
   if (length && data && (ownership == IOT_DATA_COPY))
   {
     array->data = malloc (size);
-- 
2.43.0


From 0cc37c1a3cb6f6c4974981609f678ce974318c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:15 +0000
Subject: [PATCH 11/49] fix: iot_data_array_transform does not read beyond the
 array

---
 src/c/data.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/c/data.c b/src/c/data.c
index 0850264..227031b 100644
--- a/src/c/data.c
+++ b/src/c/data.c
@@ -740,8 +740,9 @@ iot_data_t * iot_data_array_transform (const iot_data_t * array, iot_data_type_t
     iot_data_array_iter (array, &iter);
     while (iot_data_array_iter_next (&iter))
     {
-      const iot_data_union_t * element = iot_data_array_iter_value (&iter);
-      if (iot_data_cast_val (*element, ptr, array->element_type, type))
+      iot_data_union_t element = { 0 };
+      memcpy (&element, iot_data_array_iter_value (&iter), iot_data_type_sizes[array->element_type]);
+      if (iot_data_cast_val (element, ptr, array->element_type, type))
       {
         ptr += esize;
         asize++;
-- 
2.43.0


From 73ef94e5fa16b368bc24f50b80ba801fc76abcc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:17 +0000
Subject: [PATCH 12/49] fix: casts to 64 bit integers refuse values beyond
 their range, and NaN

---
 src/c/data.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/c/data.c b/src/c/data.c
index 227031b..65957cb 100644
--- a/src/c/data.c
+++ b/src/c/data.c
@@ -500,6 +500,14 @@ static bool iot_data_cast_val (const iot_data_union_t in, void * out, iot_data_t
   // Check value within max/min for target type
   if ((out_type < IOT_DATA_FLOAT64) && (VALUE () > max_vals[out_type] || VALUE () < min_vals[out_type])) return false;
 
+  // Maximum values of 64 bit integers are rounded up as a double, and NaN is not a value of any integer type
+  if (out_type <= IOT_DATA_UINT64)
+  {
+    if (dfloat && (uval.f64 != uval.f64)) return false;
+    if ((out_type == IOT_DATA_INT64) && (dfloat ? (uval.f64 >= 0x1p63) : (usign && uval.ui64 > INT64_MAX))) return false;
+    if ((out_type == IOT_DATA_UINT64) && dfloat && (uval.f64 >= 0x1p64)) return false;
+  }
+
   // Cast to target type
   switch (out_type)
   {
-- 
2.43.0


From 877215b4b5a74a0c2b5426a00771e82e83e81dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:30 +0000
Subject: [PATCH 13/49] fix: iot_data_vector_dimensions of vectors of mixed
 depth or with empty elements

---
 src/c/data.c | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/src/c/data.c b/src/c/data.c
index 65957cb..bab1669 100644
--- a/src/c/data.c
+++ b/src/c/data.c
@@ -2107,24 +2107,19 @@ static uint32_t iot_data_vector_depth (const iot_data_t * vector)
   return depth + 1u;
 }
 
-static bool iot_data_vector_dims (const iot_data_t * vector, uint32_t * dims, uint32_t * total)
+static bool iot_data_vector_dims (const iot_data_t * vector, uint32_t * dims, uint32_t depth, bool first)
 {
   uint32_t size = iot_data_vector_size (vector);
-  uint32_t vecs = iot_data_vector_element_count (vector, IOT_DATA_VECTOR, false);
-  if (*dims == 0)
+  if (first) *dims = size;
+  bool ok = (*dims == size); // All vectors of a dimension must be of the same size
+  if (depth > 1u) // All elements also vectors
   {
-    *dims = size;
-    *total = *total ? *total * size : size;
-  }
-  bool ok = (*dims == size);
-  if (ok && (size == vecs)) // Only regard as multidimensional vector if all elements also vectors
-  {
-    dims++;
     iot_data_vector_iter_t iter;
     iot_data_vector_iter (vector, &iter);
     while (ok && iot_data_vector_iter_next (&iter))
     {
-      ok = iot_data_vector_dims (iot_data_vector_iter_value (&iter), dims, total);
+      ok = iot_data_vector_dims (iot_data_vector_iter_value (&iter), dims + 1, depth - 1u, first);
+      first = false;
     }
   }
   return ok;
@@ -2137,14 +2132,15 @@ iot_data_t * iot_data_vector_dimensions (const iot_data_t * vector, uint32_t * t
   uint32_t depth = iot_data_vector_depth (vector);
   uint32_t * dims = calloc (depth, sizeof (uint32_t));
   *total = 0u;
-  if (iot_data_vector_dims (vector, dims, total))
+  if (iot_data_vector_dims (vector, dims, depth, true))
   {
+    *total = 1u;
+    for (uint32_t i = 0u; i < depth; i++) *total *= dims[i];
     dimarray = iot_data_alloc_array (dims, depth, IOT_DATA_UINT32, IOT_DATA_TAKE);
   }
   else
   {
     free (dims);
-    *total = 0u;
   }
   return dimarray;
 }
-- 
2.43.0


From f9f123302ecc58e3cc0733992c83250f95302d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:38 +0000
Subject: [PATCH 14/49] fix: text that is not a value of the numeric type is
 refused

---
 src/c/data.c | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/src/c/data.c b/src/c/data.c
index bab1669..e250dad 100644
--- a/src/c/data.c
+++ b/src/c/data.c
@@ -10,6 +10,8 @@
 #include "iot/uuid.h"
 #include <stdarg.h>
 #include <float.h>
+#include <ctype.h>
+#include <errno.h>
 
 #define IOT_DATA_IS_COMPOSED_TYPE(t) ((t) >= IOT_DATA_VECTOR && (t) <= IOT_DATA_MAP)
 #define IOT_DATA_IS_FLOAT_TYPE(t) ((t) == IOT_DATA_FLOAT32 || (t) == IOT_DATA_FLOAT64)
@@ -1215,15 +1217,37 @@ void iot_data_free (iot_data_t * data)
   }
 }
 
+static bool iot_data_parse_number (iot_data_type_t type, const char * value, iot_data_union_t * un)
+{
+  char * end = NULL;
+  iot_data_union_t in = { 0 };
+  bool ok = true;
+  errno = 0;
+  if (type == IOT_DATA_FLOAT32) un->f32 = strtof (value, &end);
+  else if (type == IOT_DATA_FLOAT64) un->f64 = strtod (value, &end);
+  else if (IOT_DATA_IS_SIGNED_TYPE (type))
+  {
+    in.i64 = strtoll (value, &end, 10);
+    ok = (errno == 0) && iot_data_cast_val (in, un, IOT_DATA_INT64, type);
+  }
+  else
+  {
+    in.ui64 = strtoull (value, &end, 10);
+    ok = (errno == 0) && (in.ui64 == 0u || strchr (value, '-') == NULL) && iot_data_cast_val (in, un, IOT_DATA_UINT64, type);
+  }
+  ok = ok && (end != value);
+  while (ok && isspace ((unsigned char) *end)) end++;
+  return ok && (*end == '\0');
+}
+
 iot_data_t * iot_data_alloc_from_string (iot_data_type_t type, const char * value)
 {
-  static const char * fmt [] =  { "%"SCNd8,"%"SCNu8,"%"SCNd16,"%"SCNu16,"%"SCNd32,"%"SCNu32,"%"SCNd64,"%"SCNu64,"%f","%lf" };
-  assert (value && ((type == IOT_DATA_STRING) || strlen (value)));
+  assert (value);
 
   if (type < IOT_DATA_BOOL)
   {
     iot_data_union_t un = { 0 };
-    if (sscanf (value, fmt[type], &un) == 1)
+    if (iot_data_parse_number (type, value, &un))
     {
       switch (type)
       {
@@ -1241,7 +1265,7 @@ iot_data_t * iot_data_alloc_from_string (iot_data_type_t type, const char * valu
       }
     }
   }
-  if (type == IOT_DATA_BOOL) return iot_data_alloc_bool (value[0] == 't' || value[0] == 'T');
+  if (type == IOT_DATA_BOOL) return (value[0] == '\0') ? NULL : iot_data_alloc_bool (value[0] == 't' || value[0] == 'T');
   if (type == IOT_DATA_STRING) return iot_data_alloc_string (value, IOT_DATA_COPY);
   return NULL;
 }
-- 
2.43.0


From 31706c18058d128870d6b7b0c17756a3b7bead60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:49 +0000
Subject: [PATCH 15/49] fix: comparison by value of signed and unsigned
 integers

---
 src/c/data.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/c/data.c b/src/c/data.c
index e250dad..07e4238 100644
--- a/src/c/data.c
+++ b/src/c/data.c
@@ -552,9 +552,9 @@ static int iot_data_cmp (const iot_data_t * v1, const iot_data_t * v2, bool by_v
       if (IOT_DATA_IS_SIGNED_TYPE (v1->type))
       {
         if (IOT_DATA_IS_SIGNED_TYPE (v2->type)) return (uv1.i64 == uv2.i64) ? 0 : ((uv1.i64 < uv2.i64) ? -1 : 1);
-        return (uv1.i64 == uv2.ui64) ? 0 : ((uv1.i64 < uv2.ui64) ? -1 : 1);
+        if (uv1.i64 < 0) return -1; // Negative value less than any unsigned
       }
-      if (IOT_DATA_IS_SIGNED_TYPE (v2->type)) return (uv1.ui64 == uv2.i64) ? 0 : ((uv1.ui64 < uv2.i64) ? -1 : 1);
+      else if (IOT_DATA_IS_SIGNED_TYPE (v2->type) && (uv2.i64 < 0)) return 1;
       return (uv1.ui64 == uv2.ui64) ? 0 : ((uv1.ui64 < uv2.ui64) ? -1 : 1);
     }
     return (v1->type < v2->type) ? -1 : 1;
-- 
2.43.0


From ece1e23f55f01ff1f971d77e3d2ea3c190649867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:02 +0000
Subject: [PATCH 16/49] fix: iot_data_map_base64_to_array accepts maps with
 keys of multiple types

---
 src/c/data.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c/data.c b/src/c/data.c
index 07e4238..f2065e3 100644
--- a/src/c/data.c
+++ b/src/c/data.c
@@ -1837,7 +1837,7 @@ uint32_t iot_data_map_size (const iot_data_t * map)
 bool iot_data_map_base64_to_array (const iot_data_t * map, const iot_data_t * key)
 {
   assert (map && (map->type == IOT_DATA_MAP));
-  assert (key && key->type == map->key_type);
+  assert (key && (key->type == map->key_type || map->key_type == IOT_DATA_MULTI));
 
   iot_data_t * array = NULL;
   const iot_data_map_t * mp = (const iot_data_map_t*) map;
-- 
2.43.0


From 55844323bac6bce66788de673e0f07de1ed41f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:06 +0000
Subject: [PATCH 17/49] fix: a copy has metadata of its own

---
 src/c/data.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/c/data.c b/src/c/data.c
index f2065e3..50a8d90 100644
--- a/src/c/data.c
+++ b/src/c/data.c
@@ -2685,9 +2685,7 @@ iot_data_t * iot_data_copy (const iot_data_t * data)
     }
     case IOT_DATA_POINTER:
     {
-      ret = (iot_data_t*) data;
-      iot_data_add_ref (ret);
-      break;
+      return iot_data_add_ref (data);
     }
     default: // basic types
     {
@@ -2697,7 +2695,7 @@ iot_data_t * iot_data_copy (const iot_data_t * data)
       ret = (iot_data_t*) val;
     }
   }
-  ret->base.meta = iot_data_add_ref (data->base.meta);
+  ret->base.meta = iot_data_copy (data->base.meta);
   return ret;
 }
 
-- 
2.43.0


From 0917475800728ac0421704fb4954f2eaddc3bb85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:06 +0000
Subject: [PATCH 18/49] fix: iot_data_compress of vectors with empty slots

---
 src/c/data.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/c/data.c b/src/c/data.c
index 50a8d90..d5f16d5 100644
--- a/src/c/data.c
+++ b/src/c/data.c
@@ -1084,6 +1084,7 @@ bool iot_data_is_nan (const iot_data_t * data)
 
 static void iot_data_cache_add (iot_data_t * cache, iot_data_t ** data)
 {
+  if (*data == NULL) return; // Empty vector slot
   iot_data_t * cached = (iot_data_t*) iot_data_map_get (cache, *data);
   if (cached)
   {
-- 
2.43.0


From d1e22c86eb414c97426720539a16c40ee3d6378c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:00 +0000
Subject: [PATCH 19/49] fix: compressing data lost types and metadata of equal
 values

---
 src/c/data.c | 32 +++++++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/src/c/data.c b/src/c/data.c
index d5f16d5..1c41063 100644
--- a/src/c/data.c
+++ b/src/c/data.c
@@ -1082,15 +1082,41 @@ bool iot_data_is_nan (const iot_data_t * data)
   return type == IOT_DATA_FLOAT32 ? iot_data_f32 (data) != iot_data_f32 (data) : iot_data_f64 (data) != iot_data_f64 (data);
 }
 
+/* Whether equal data is also the same in the types and metadata that are not part of its value */
+
+static bool iot_data_interchangeable (const iot_data_t * d1, const iot_data_t * d2)
+{
+  iot_data_iter_t iter1;
+  iot_data_iter_t iter2;
+  if (d1 == d2 || d1 == NULL) return true;
+  if (d1->element_type != d2->element_type || d1->key_type != d2->key_type) return false;
+  if (d1->tag1 != d2->tag1 || d1->tag2 != d2->tag2 || !iot_data_equal (d1->base.meta, d2->base.meta)) return false;
+  if (!d1->composed) return true;
+  iot_data_iter (d1, &iter1);
+  iot_data_iter (d2, &iter2);
+  while (iot_data_iter_next (&iter1) && iot_data_iter_next (&iter2))
+  {
+    if (!iot_data_interchangeable (iot_data_iter_value (&iter1), iot_data_iter_value (&iter2))) return false;
+    if (d1->type == IOT_DATA_MAP && !iot_data_interchangeable (iot_data_map_iter_key (&iter1._iter.map), iot_data_map_iter_key (&iter2._iter.map))) return false;
+  }
+  return true;
+}
+
 static void iot_data_cache_add (iot_data_t * cache, iot_data_t ** data)
 {
   if (*data == NULL) return; // Empty vector slot
   iot_data_t * cached = (iot_data_t*) iot_data_map_get (cache, *data);
   if (cached)
   {
-    iot_data_free (*data);
-    iot_data_add_ref (cached);
-    *data = cached;
+    if (iot_data_interchangeable (cached, *data))
+    {
+      iot_data_free (*data);
+      *data = iot_data_add_ref (cached);
+    }
+    else
+    {
+      iot_data_compress_with_cache (*data, cache);
+    }
   }
   else
   {
-- 
2.43.0


From 39c221277baf3f47610ab3d9dedc8a907b6b1776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:57 +0000
Subject: [PATCH 20/49] fix: path operations on paths that do not match the
 data

---
 src/c/data.c | 149 +++++++++++++++++++++++++++------------------------
 1 file changed, 79 insertions(+), 70 deletions(-)

diff --git a/src/c/data.c b/src/c/data.c
index 1c41063..06f83e5 100644
--- a/src/c/data.c
+++ b/src/c/data.c
@@ -2798,20 +2798,35 @@ extern iot_data_t * iot_data_shallow_copy (const iot_data_t * src)
   return result;
 }
 
+/* Whether a path entry can be applied to data: a key of the type of a map, or an index in the range of a vector */
+
+static bool iot_data_path_applies (const iot_data_t * data, const iot_data_t * entry)
+{
+  if (data->type == IOT_DATA_MAP) return (data->key_type == IOT_DATA_MULTI) || (data->key_type == entry->type);
+  return (data->type == IOT_DATA_VECTOR) && (entry->type == IOT_DATA_UINT32) && (iot_data_ui32 (entry) < iot_data_vector_size (data));
+}
+
+static const iot_data_t * iot_data_path_get (const iot_data_t * data, const iot_data_t * entry)
+{
+  if (! iot_data_path_applies (data, entry)) return NULL;
+  return (data->type == IOT_DATA_MAP) ? iot_data_map_get (data, entry) : iot_data_vector_get (data, iot_data_ui32 (entry));
+}
+
+static void iot_data_path_set (iot_data_t * data, const iot_data_t * entry, iot_data_t * value)
+{
+  (data->type == IOT_DATA_MAP) ? iot_data_map_add (data, iot_data_add_ref (entry), value) : iot_data_vector_add (data, iot_data_ui32 (entry), value);
+}
+
 extern const iot_data_t * iot_data_get_at (const iot_data_t * data, const iot_data_t * path)
 {
   assert (data && path);
-  const iot_data_t * result = data;
-  if (iot_data_list_length (path) > 0)
+  iot_data_list_iter_t iter;
+  iot_data_list_iter (path, &iter);
+  while (data && iot_data_list_iter_prev (&iter))
   {
-    assert (data->type == IOT_DATA_MAP || data->type == IOT_DATA_VECTOR);
-    iot_data_t * p = iot_data_copy (path);
-    iot_data_t * index = iot_data_list_head_pop (p);
-    result = (data->type == IOT_DATA_MAP) ? iot_data_get_at (iot_data_map_get (data, index), p) : iot_data_get_at (iot_data_vector_get (data, iot_data_ui32 (index)), p);
-    iot_data_free (index);
-    iot_data_free (p);
+    data = iot_data_path_get (data, iot_data_list_iter_value (&iter));
   }
-  return result;
+  return data;
 }
 
 extern void iot_data_list_empty (iot_data_t * list)
@@ -2820,94 +2835,88 @@ extern void iot_data_list_empty (iot_data_t * list)
   while ((element = iot_data_list_head_pop (list))) iot_data_free (element);
 }
 
-extern iot_data_t * iot_data_add_at (const iot_data_t * data, const iot_data_t * path, iot_data_t * val)
+static iot_data_t * iot_data_add_at_entry (const iot_data_t * data, iot_data_list_iter_t iter, iot_data_t * val)
 {
-  assert (data && path && val);
-  iot_data_t * result;
-  if (iot_data_list_length (path) > 0)
-  {
-    assert (data->type == IOT_DATA_MAP || data->type == IOT_DATA_VECTOR);
-    iot_data_t * p = iot_data_copy (path);
-    iot_data_t * index = iot_data_list_head_pop (p);
-    result = iot_data_shallow_copy (data);
-    (data->type == IOT_DATA_MAP) ?
-      iot_data_map_add (result, iot_data_add_ref (index), iot_data_add_at (iot_data_map_get (data, index), p, val)) :
-      iot_data_vector_add (result, iot_data_ui32 (index), iot_data_add_at (iot_data_vector_get (data, iot_data_ui32 (index)), p, val));
-    iot_data_free (index);
-    iot_data_free (p);
+  if (! iot_data_list_iter_prev (&iter)) return val;
+  const iot_data_t * entry = iot_data_list_iter_value (&iter);
+  const iot_data_t * child = iot_data_path_get (data, entry);
+  iot_data_list_iter_t next = iter;
+  iot_data_t * result = iot_data_shallow_copy (data);
+  if (iot_data_path_applies (data, entry) && (child || ! iot_data_list_iter_prev (&next)))
+  {
+    iot_data_path_set (result, entry, iot_data_add_at_entry (child, iter, val));
   }
   else
   {
-    result = val;
+    iot_data_free (val);
   }
   return result;
 }
 
-extern iot_data_t * iot_data_remove_at (const iot_data_t * data, const iot_data_t * path)
+extern iot_data_t * iot_data_add_at (const iot_data_t * data, const iot_data_t * path, iot_data_t * val)
+{
+  assert (data && path && val);
+  iot_data_list_iter_t iter;
+  iot_data_list_iter (path, &iter);
+  return iot_data_add_at_entry (data, iter, val);
+}
+
+static iot_data_t * iot_data_remove_at_entry (const iot_data_t * data, iot_data_list_iter_t iter)
 {
-  assert (data && path);
   iot_data_t * result = iot_data_shallow_copy (data);
-  if (iot_data_list_length (path) > 0)
+  if (iot_data_list_iter_prev (&iter))
   {
-    assert (data->type == IOT_DATA_MAP || data->type == IOT_DATA_VECTOR);
-    iot_data_t * p = iot_data_copy (path);
-    iot_data_t * index = iot_data_list_head_pop (p);
-    if (data->type == IOT_DATA_MAP)
+    const iot_data_t * entry = iot_data_list_iter_value (&iter);
+    iot_data_list_iter_t next = iter;
+    if (iot_data_list_iter_prev (&next))
     {
-      if (iot_data_list_length (p) > 0)
-      {
-        iot_data_map_add (result, iot_data_add_ref (index), iot_data_remove_at (iot_data_map_get (result, index), p));
-      }
-      else
-      {
-        iot_data_map_remove (result, index);
-      }
+      const iot_data_t * child = iot_data_path_get (data, entry);
+      if (child) iot_data_path_set (result, entry, iot_data_remove_at_entry (child, iter));
     }
-    else
+    else if (iot_data_path_applies (data, entry))
     {
-      uint32_t i = iot_data_ui32 (index);
-      if (iot_data_list_length (p) > 0)
+      if (data->type == IOT_DATA_MAP)
       {
-        iot_data_vector_add (result, i, iot_data_remove_at (iot_data_vector_get (result, i), p));
+        iot_data_map_remove (result, entry);
       }
       else
       {
-        iot_data_vector_add (result, i, NULL);
-        iot_data_vector_compact (result);
+        uint32_t size = iot_data_vector_size (data);
+        for (uint32_t i = iot_data_ui32 (entry) + 1; i < size; i++)
+        {
+          iot_data_vector_add (result, i - 1, iot_data_add_ref (iot_data_vector_get (data, i)));
+        }
+        iot_data_vector_resize (result, size - 1);
       }
     }
-    iot_data_free (index);
-    iot_data_free (p);
   }
   return result;
 }
 
+extern iot_data_t * iot_data_remove_at (const iot_data_t * data, const iot_data_t * path)
+{
+  assert (data && path);
+  iot_data_list_iter_t iter;
+  iot_data_list_iter (path, &iter);
+  return iot_data_remove_at_entry (data, iter);
+}
+
+static iot_data_t * iot_data_update_at_entry (const iot_data_t * data, iot_data_list_iter_t iter, iot_data_update_fn fn, void * arg)
+{
+  if (! iot_data_list_iter_prev (&iter)) return fn (data, arg);
+  const iot_data_t * entry = iot_data_list_iter_value (&iter);
+  const iot_data_t * child = iot_data_path_get (data, entry);
+  iot_data_t * result = iot_data_shallow_copy (data);
+  if (child) iot_data_path_set (result, entry, iot_data_update_at_entry (child, iter, fn, arg));
+  return result;
+}
+
 extern iot_data_t * iot_data_update_at (const iot_data_t * data, const iot_data_t * path, iot_data_update_fn fn, void * arg)
 {
-  iot_data_t * result;
   assert (data && path && fn);
-  if (iot_data_list_length (path) == 0)
-  {
-    result = fn (data, arg);
-  }
-  else
-  {
-    result = iot_data_shallow_copy (data);
-    iot_data_t * p = iot_data_copy (path);
-    iot_data_t * index = iot_data_list_head_pop (p);
-    if (data->type == IOT_DATA_MAP)
-    {
-      const iot_data_t * val = iot_data_map_get (data, index);
-      if (val) iot_data_map_add (result, iot_data_add_ref (index), iot_data_update_at (val, p, fn, arg));
-    }
-    else if (data->type == IOT_DATA_VECTOR)
-    {
-      iot_data_vector_add (result, iot_data_ui32 (index), iot_data_update_at (iot_data_vector_get (data, iot_data_ui32 (index)), p, fn, arg));
-    }
-    iot_data_free (index);
-    iot_data_free (p);
-  }
-  return result;
+  iot_data_list_iter_t iter;
+  iot_data_list_iter (path, &iter);
+  return iot_data_update_at_entry (data, iter, fn, arg);
 }
 
 /* Red/Black binary tree manipulation functions. Implements iot_data_map_t.
-- 
2.43.0


From 8fd91ae8509d29cb729c70afd051d8e737379fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:57 +0000
Subject: [PATCH 21/49] fix: crash writing a vector with empty slots as JSON

---
 src/c/data-json.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/c/data-json.c b/src/c/data-json.c
index 2d2306d..da28b65 100644
--- a/src/c/data-json.c
+++ b/src/c/data-json.c
@@ -76,6 +76,11 @@ static void iot_data_dump_json_ptr (iot_string_holder_t * holder, const void * p
 
 static void iot_data_dump_json (iot_string_holder_t * holder, const iot_data_t * data)
 {
+  if (data == NULL) // Empty vector slot
+  {
+    iot_data_strcat (holder, "null");
+    return;
+  }
   switch (data->type)
   {
     case IOT_DATA_STRING:
-- 
2.43.0


From 94c27f0d17ca70b71fd0cc497fb827e804e2ad21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:57 +0000
Subject: [PATCH 22/49] fix: sign of negative infinity lost in JSON

---
 src/c/data-json.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/c/data-json.c b/src/c/data-json.c
index da28b65..7734e4e 100644
--- a/src/c/data-json.c
+++ b/src/c/data-json.c
@@ -65,9 +65,9 @@ static void iot_data_dump_json_ptr (iot_string_holder_t * holder, const void * p
     case IOT_DATA_INT64: snprintf (buff, IOT_VAL_BUFF_SIZE, "%" PRId64, *(const int64_t *) ptr); break;
     case IOT_DATA_UINT64: snprintf (buff, IOT_VAL_BUFF_SIZE, "%" PRIu64, *(const uint64_t *) ptr); break;
     case IOT_DATA_FLOAT32:
-      (fpclassify (*(const float*) ptr) == FP_INFINITE) ? snprintf (buff, IOT_VAL_BUFF_SIZE, "1e400") : snprintf (buff, IOT_VAL_BUFF_SIZE, "%.8e", *(const float*) ptr); break;
+      (fpclassify (*(const float*) ptr) == FP_INFINITE) ? snprintf (buff, IOT_VAL_BUFF_SIZE, "%s1e400", (*(const float*) ptr < 0) ? "-" : "") : snprintf (buff, IOT_VAL_BUFF_SIZE, "%.8e", *(const float*) ptr); break;
     case IOT_DATA_FLOAT64:
-      (fpclassify (*(const double*) ptr) == FP_INFINITE) ? snprintf (buff, IOT_VAL_BUFF_SIZE, "1e800") : snprintf (buff, IOT_VAL_BUFF_SIZE, "%.16e", *(const double*) ptr); break;
+      (fpclassify (*(const double*) ptr) == FP_INFINITE) ? snprintf (buff, IOT_VAL_BUFF_SIZE, "%s1e800", (*(const double*) ptr < 0) ? "-" : "") : snprintf (buff, IOT_VAL_BUFF_SIZE, "%.16e", *(const double*) ptr); break;
     case IOT_DATA_NULL: strncpy (buff, "null", IOT_VAL_BUFF_SIZE); break;
     default: strncpy (buff, (*(const bool*) ptr) ? "true" : "false", IOT_VAL_BUFF_SIZE); break;
   }
-- 
2.43.0


From a3f26e680d65047323da284cb12be91d8088990e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:05 +0000
Subject: [PATCH 23/49] fix: decoding of JSON unicode escapes

---
 src/c/data-json.c | 56 ++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 50 insertions(+), 6 deletions(-)

diff --git a/src/c/data-json.c b/src/c/data-json.c
index 7734e4e..f7344bb 100644
--- a/src/c/data-json.c
+++ b/src/c/data-json.c
@@ -8,7 +8,6 @@
 #include "iot/base64.h"
 #include "data-impl.h"
 #include <math.h>
-#include <uchar.h>
 
 #define IOT_JSON_BUFF_SIZE 512u
 #define IOT_VAL_BUFF_SIZE 31u
@@ -198,6 +197,40 @@ extern char * iot_data_to_json_with_buffer (const iot_data_t * data, char * buff
   return holder.str;
 }
 
+static uint32_t iot_data_hex4_from_json (const char * str)
+{
+  uint32_t val = 0;
+  sscanf (str, "%4" SCNx32, &val);
+  return val;
+}
+
+static char * iot_data_utf8_encode (char * dst, uint32_t cp)
+{
+  if (cp < 0x80u)
+  {
+    *dst++ = (char) cp;
+  }
+  else if (cp < 0x800u)
+  {
+    *dst++ = (char) (0xc0u | (cp >> 6));
+    *dst++ = (char) (0x80u | (cp & 0x3fu));
+  }
+  else if (cp < 0x10000u)
+  {
+    *dst++ = (char) (0xe0u | (cp >> 12));
+    *dst++ = (char) (0x80u | ((cp >> 6) & 0x3fu));
+    *dst++ = (char) (0x80u | (cp & 0x3fu));
+  }
+  else
+  {
+    *dst++ = (char) (0xf0u | (cp >> 18));
+    *dst++ = (char) (0x80u | ((cp >> 12) & 0x3fu));
+    *dst++ = (char) (0x80u | ((cp >> 6) & 0x3fu));
+    *dst++ = (char) (0x80u | (cp & 0x3fu));
+  }
+  return dst;
+}
+
 static char * iot_data_string_from_json_token (const char * json, const iot_json_tok_t * token)
 {
   size_t len = (size_t) (token->end - token->start);
@@ -220,12 +253,23 @@ static char * iot_data_string_from_json_token (const char * json, const iot_json
           case 'u':
             if (src + 4 < json + token->start + len)
             {
-              char32_t wc;
-              mbstate_t ps = { 0 };
-              sscanf (++src, "%4" SCNx32, &wc);
-              size_t charsz = c32rtomb (dst, wc, &ps);
-              if (charsz > 0) dst += charsz;
+              uint32_t cp = iot_data_hex4_from_json (++src);
               src += 3;
+              if (cp >= 0xd800u && cp <= 0xdfffu) // Surrogate, only valid as a high and low pair
+              {
+                uint32_t low = 0;
+                if (cp < 0xdc00u && (src + 6 < json + token->start + len) && src[1] == '\\' && src[2] == 'u') low = iot_data_hex4_from_json (src + 3);
+                if (low >= 0xdc00u && low <= 0xdfffu)
+                {
+                  cp = 0x10000u + ((cp - 0xd800u) << 10) + (low - 0xdc00u);
+                  src += 6;
+                }
+                else
+                {
+                  cp = 0xfffdu; // Replacement character
+                }
+              }
+              dst = iot_data_utf8_encode (dst, cp);
             }
             break;
           default:
-- 
2.43.0


From bbfc91622b8ad8e276174292221aaaf71942bfb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:07 +0000
Subject: [PATCH 24/49] fix: structure of JSON documents not checked when
 building data

---
 src/c/data-json.c | 69 ++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 54 insertions(+), 15 deletions(-)

diff --git a/src/c/data-json.c b/src/c/data-json.c
index f7344bb..d6155cf 100644
--- a/src/c/data-json.c
+++ b/src/c/data-json.c
@@ -12,7 +12,7 @@
 #define IOT_JSON_BUFF_SIZE 512u
 #define IOT_VAL_BUFF_SIZE 31u
 
-static iot_data_t * iot_data_value_from_json (iot_json_tok_t ** tokens, const char * json, bool ordered, iot_data_t * cache);
+static iot_data_t * iot_data_value_from_json (iot_json_tok_t ** tokens, const iot_json_tok_t * end, const char * json, bool ordered, iot_data_t * cache);
 
 static inline void iot_data_strcat (iot_string_holder_t * holder, const char * add)
 {
@@ -342,7 +342,19 @@ static iot_data_t * iot_data_primitive_from_json (iot_json_tok_t ** tokens, cons
   return ret;
 }
 
-static iot_data_t * iot_data_map_from_json (iot_json_tok_t ** tokens, const char * json, bool ordered, iot_data_t * cache)
+/* Functions to build data from tokens return NULL if the tokens are not structured as JSON. Object members without a simple key and single value are ignored. */
+
+static void iot_data_skip_json (iot_json_tok_t ** tokens, const iot_json_tok_t * end)
+{
+  uint32_t elements = 1;
+  while (elements-- && (*tokens < end))
+  {
+    elements += (*tokens)->size;
+    (*tokens)++;
+  }
+}
+
+static iot_data_t * iot_data_map_from_json (iot_json_tok_t ** tokens, const iot_json_tok_t * end, const char * json, bool ordered, iot_data_t * cache)
 {
   uint32_t elements = (*tokens)->size;
   iot_data_t * map = iot_data_alloc_map (IOT_DATA_STRING);
@@ -350,17 +362,31 @@ static iot_data_t * iot_data_map_from_json (iot_json_tok_t ** tokens, const char
   uint32_t i = 0;
 
   (*tokens)++;
-  while  (elements--)
+  while (elements--)
   {
-    iot_data_t * key = iot_data_string_from_json (tokens, json, cache);
+    if ((*tokens < end) && (((*tokens)->size != 1) || ((*tokens)->type == IOT_JSON_OBJECT) || ((*tokens)->type == IOT_JSON_ARRAY)))
+    {
+      iot_data_skip_json (tokens, end);
+      if (ordered) iot_data_vector_resize (ordering, iot_data_vector_size (ordering) - 1);
+      continue;
+    }
+    iot_data_t * key = (*tokens < end) ? iot_data_string_from_json (tokens, json, cache) : NULL;
+    iot_data_t * value = iot_data_value_from_json (tokens, end, json, ordered, cache);
+    if (value == NULL)
+    {
+      iot_data_free (key);
+      iot_data_free (ordering);
+      iot_data_free (map);
+      return NULL;
+    }
     if (ordered) iot_data_vector_add (ordering, i++, iot_data_add_ref (key));
-    iot_data_map_add (map, key, iot_data_value_from_json (tokens, json, ordered, cache));
+    iot_data_map_add (map, key, value);
   }
   if (ordered) iot_data_set_metadata (map, ordering,IOT_DATA_STATIC (&iot_data_order));
   return map;
 }
 
-static iot_data_t * iot_data_vector_from_json (iot_json_tok_t ** tokens, const char * json, bool ordered, iot_data_t * cache)
+static iot_data_t * iot_data_vector_from_json (iot_json_tok_t ** tokens, const iot_json_tok_t * end, const char * json, bool ordered, iot_data_t * cache)
 {
   uint32_t elements = (*tokens)->size;
   uint32_t index = 0;
@@ -369,20 +395,33 @@ static iot_data_t * iot_data_vector_from_json (iot_json_tok_t ** tokens, const c
   (*tokens)++;
   while (elements--)
   {
-    iot_data_vector_add (vector, index++, iot_data_value_from_json (tokens, json, ordered, cache));
+    iot_data_t * value = iot_data_value_from_json (tokens, end, json, ordered, cache);
+    if (value == NULL)
+    {
+      iot_data_free (vector);
+      return NULL;
+    }
+    iot_data_vector_add (vector, index++, value);
   }
   return vector;
 }
 
-static iot_data_t * iot_data_value_from_json (iot_json_tok_t ** tokens, const char * json, bool ordered, iot_data_t * cache)
+static iot_data_t * iot_data_value_from_json (iot_json_tok_t ** tokens, const iot_json_tok_t * end, const char * json, bool ordered, iot_data_t * cache)
 {
   iot_data_t * data = NULL;
-  switch ((*tokens)->type)
+  if (*tokens < end)
   {
-    case IOT_JSON_PRIMITIVE: data = iot_data_primitive_from_json (tokens, json); break;
-    case IOT_JSON_OBJECT: data = iot_data_map_from_json (tokens, json, ordered, cache); break;
-    case IOT_JSON_ARRAY: data = iot_data_vector_from_json (tokens, json, ordered, cache); break;
-    default: data = iot_data_string_from_json (tokens, json, cache); break;
+    switch ((*tokens)->type)
+    {
+      case IOT_JSON_OBJECT: data = iot_data_map_from_json (tokens, end, json, ordered, cache); break;
+      case IOT_JSON_ARRAY: data = iot_data_vector_from_json (tokens, end, json, ordered, cache); break;
+      default:
+        if ((*tokens)->size == 0) // Simple values contain nothing
+        {
+          data = ((*tokens)->type == IOT_JSON_PRIMITIVE) ? iot_data_primitive_from_json (tokens, json) : iot_data_string_from_json (tokens, json, cache);
+        }
+        break;
+    }
   }
   return data;
 }
@@ -426,10 +465,10 @@ extern iot_data_t * iot_data_from_json_with_cache (const char * json, bool order
 
     iot_json_init (&parser);
     used = iot_json_parse (&parser, json, strlen (json), tptr, count);
-    if (used && (used <= count))
+    if ((used > 0) && (used <= (int32_t) count))
     {
       iot_data_t * km = cache ? cache : iot_data_alloc_map (IOT_DATA_STRING);
-      data = iot_data_value_from_json (&tptr, json, ordered, km);
+      data = iot_data_value_from_json (&tptr, tokens + used, json, ordered, km);
       if (cache == NULL) iot_data_free (km);
     }
     free (tokens);
-- 
2.43.0


From 3b13378375c11e4bdd06a7c164ab479193be2e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:34 +0000
Subject: [PATCH 25/49] fix: write floating values whose upper bits are zero to
 CBOR as floating values

---
 src/c/data-cbor.c | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/c/data-cbor.c b/src/c/data-cbor.c
index 609f549..dba6976 100644
--- a/src/c/data-cbor.c
+++ b/src/c/data-cbor.c
@@ -78,6 +78,26 @@ static void iot_data_cbor_write_int (iot_cbor_holder_t * holder, int64_t value)
   iot_data_cbor_write_uint (holder, value < 0 ? -value : value, value < 0 ? 0x20 : 0);
 }
 
+static void iot_data_cbor_write_f32 (iot_cbor_holder_t * holder, const void * ptr)
+{
+  uint32_t value;
+  memcpy (&value, ptr, sizeof (value));
+  value = htobe32 (value);
+  iot_cbor_holder_check_size (holder, 1 + sizeof (value));
+  holder->data[holder->index++] = 0xfa;
+  iot_data_cbor_write_bytes (holder, &value, sizeof (value));
+}
+
+static void iot_data_cbor_write_f64 (iot_cbor_holder_t * holder, const void * ptr)
+{
+  uint64_t value;
+  memcpy (&value, ptr, sizeof (value));
+  value = htobe64 (value);
+  iot_cbor_holder_check_size (holder, 1 + sizeof (value));
+  holder->data[holder->index++] = 0xfb;
+  iot_data_cbor_write_bytes (holder, &value, sizeof (value));
+}
+
 static void iot_data_dump_cbor_ptr (iot_cbor_holder_t * holder, const void * ptr, const iot_data_type_t type)
 {
   switch (type)
@@ -90,8 +110,8 @@ static void iot_data_dump_cbor_ptr (iot_cbor_holder_t * holder, const void * ptr
     case IOT_DATA_UINT32: iot_data_cbor_write_uint (holder, *(const uint32_t *) ptr, 0); break;
     case IOT_DATA_INT64: iot_data_cbor_write_int (holder, *(const int64_t *) ptr); break;
     case IOT_DATA_UINT64: iot_data_cbor_write_uint (holder, *(const uint64_t *) ptr, 0); break;
-    case IOT_DATA_FLOAT32: iot_data_cbor_write_uint (holder, *(const uint32_t *) ptr, 0xe0); break;
-    case IOT_DATA_FLOAT64: iot_data_cbor_write_uint (holder, *(const uint64_t *) ptr, 0xe0); break;
+    case IOT_DATA_FLOAT32: iot_data_cbor_write_f32 (holder, ptr); break;
+    case IOT_DATA_FLOAT64: iot_data_cbor_write_f64 (holder, ptr); break;
     case IOT_DATA_NULL:
       iot_cbor_holder_check_size (holder, 1); holder->data[holder->index++] = 0xf6; break;
     default:
@@ -129,18 +149,14 @@ static void iot_data_dump_cbor (iot_cbor_holder_t * holder, const iot_data_t * d
       break;
     case IOT_DATA_FLOAT32:
     {
-      uint32_t v;
       float f = iot_data_f32 (data);
-      memcpy (&v, &f, sizeof (v));
-      iot_data_cbor_write_uint (holder, v, 0xe0);
+      iot_data_cbor_write_f32 (holder, &f);
       break;
     }
     case IOT_DATA_FLOAT64:
     {
-      uint64_t v;
       double d = iot_data_f64 (data);
-      memcpy (&v, &d, sizeof (v));
-      iot_data_cbor_write_uint (holder, v, 0xe0);
+      iot_data_cbor_write_f64 (holder, &d);
       break;
     }
     case IOT_DATA_BOOL:
-- 
2.43.0


From 972b4c00208105e1286fea2157ea5ea5bdeec240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:34 +0000
Subject: [PATCH 26/49] fix: write CBOR null for empty vector slots

---
 src/c/data-cbor.c | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/c/data-cbor.c b/src/c/data-cbor.c
index dba6976..89cdafa 100644
--- a/src/c/data-cbor.c
+++ b/src/c/data-cbor.c
@@ -121,6 +121,12 @@ static void iot_data_dump_cbor_ptr (iot_cbor_holder_t * holder, const void * ptr
 
 static void iot_data_dump_cbor (iot_cbor_holder_t * holder, const iot_data_t * data)
 {
+  if (data == NULL) // Empty vector slot or map entry without value
+  {
+    iot_cbor_holder_check_size (holder, 1);
+    holder->data[holder->index++] = 0xf6;
+    return;
+  }
   switch (data->type)
   {
     case IOT_DATA_UINT8:
@@ -225,15 +231,7 @@ static void iot_data_dump_cbor (iot_cbor_holder_t * holder, const iot_data_t * d
         const iot_data_t * key = iot_data_map_iter_key (&iter);
         const iot_data_t * value = iot_data_map_iter_value (&iter);
         iot_data_dump_cbor (holder, key);
-        if (value)
-        {
-          iot_data_dump_cbor (holder, value);
-        }
-        else
-        {
-          iot_cbor_holder_check_size (holder, 1);
-          holder->data[holder->index++] = 0xf6;  // null
-        }
+        iot_data_dump_cbor (holder, value);
       }
       break;
     }
-- 
2.43.0


From 34e5a8fb65eba23f49d0cea667559d8c92bfec18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:53 +0000
Subject: [PATCH 27/49] fix: log unresolved numeric configuration values to the
 default logger when none is given

---
 src/c/config.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/c/config.c b/src/c/config.c
index 78df114..63d19e5 100644
--- a/src/c/config.c
+++ b/src/c/config.c
@@ -34,6 +34,7 @@ static bool iot_config_cast (const iot_data_t * map, const char * key, void * va
   bool ret = (data && iot_data_cast (data, type, val));
   if (! ret)
   {
+    if (logger == NULL) logger = iot_logger_default ();
     iot_log_error (logger, "Failed to resolve %s configuration value for: %s", iot_data_type_string (type), key);
   }
   return ret;
-- 
2.43.0


From af1f668e2df374bfba12ea80619ba4d0aa2bf09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:28 +0000
Subject: [PATCH 28/49] fix: refuse XML documents that end within an element or
 have anything but comments after the root

---
 src/c/data-xml.c | 11 +++++++++--
 src/c/yxml.c     |  7 ++++---
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/c/data-xml.c b/src/c/data-xml.c
index 37b7a1e..9b30657 100644
--- a/src/c/data-xml.c
+++ b/src/c/data-xml.c
@@ -18,6 +18,7 @@ static iot_data_t * iot_data_map_from_xml (bool root, yxml_t * x, iot_string_hol
   iot_data_t * attrs = iot_data_alloc_map (IOT_DATA_STRING);
   const char * elem_name = x->elem;
   bool more = true;
+  bool complete = false;
   holder->str[0] = '\0';
   holder->free = holder->size - 1;
   iot_data_string_map_add (elem, "name", iot_data_alloc_string (elem_name, IOT_DATA_COPY));
@@ -33,9 +34,8 @@ static iot_data_t * iot_data_map_from_xml (bool root, yxml_t * x, iot_string_hol
         {
           if (root)
           {
-            iot_data_free (elem);
+            iot_data_free (elem); // Continue, as only comments and such may follow the root element
             elem = child;
-            more = false;
           }
           else
           {
@@ -70,6 +70,7 @@ static iot_data_t * iot_data_map_from_xml (bool root, yxml_t * x, iot_string_hol
           holder->free = holder->size - 1;
         }
         more = false;
+        complete = true;
         break;
       }
       case YXML_ATTRVAL:
@@ -100,6 +101,12 @@ static iot_data_t * iot_data_map_from_xml (bool root, yxml_t * x, iot_string_hol
       default: break;
     }
   }
+  if (root) complete = (elem && yxml_eof (x) == YXML_OK);
+  if (elem && ! complete) // Document ended within element
+  {
+    iot_data_free (elem);
+    elem = NULL;
+  }
   return elem;
 }
 
diff --git a/src/c/yxml.c b/src/c/yxml.c
index 7007a5f..a0985a9 100644
--- a/src/c/yxml.c
+++ b/src/c/yxml.c
@@ -641,8 +641,9 @@ yxml_ret_t yxml_parse(yxml_t *x, int _ch) {
 		if(yxml_isName(ch))
 			return yxml_elemclose(x, ch);
 		if(yxml_isSP(ch)) {
-			x->state = YXMLS_etag2;
-			return yxml_elemcloseend(x);
+			yxml_ret_t r = yxml_elemcloseend(x);
+			x->state = YXMLS_etag2; /* Also for the root element, as its '>' is still to come */
+			return r;
 		}
 		if(ch == (unsigned char)'>') {
 			x->state = YXMLS_misc2;
@@ -653,7 +654,7 @@ yxml_ret_t yxml_parse(yxml_t *x, int _ch) {
 		if(yxml_isSP(ch))
 			return YXML_OK;
 		if(ch == (unsigned char)'>') {
-			x->state = YXMLS_misc2;
+			x->state = x->stacklen ? YXMLS_misc2 : YXMLS_misc3;
 			return YXML_OK;
 		}
 		break;
-- 
2.43.0


From 8aaa6199d044b52584ff7c0529c977d739f65795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:28 +0000
Subject: [PATCH 29/49] fix: accept question marks before the end of an XML
 processing instruction

---
 src/c/yxml.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/c/yxml.c b/src/c/yxml.c
index a0985a9..976f4bd 100644
--- a/src/c/yxml.c
+++ b/src/c/yxml.c
@@ -847,6 +847,8 @@ yxml_ret_t yxml_parse(yxml_t *x, int _ch) {
 			x->state = x->nextstate;
 			return yxml_pivalend(x);
 		}
+		if(ch == (unsigned char)'?')
+			return yxml_datapi1(x, ch); /* Content, unless the last one before '>' */
 		if(yxml_isChar(ch)) {
 			x->state = YXMLS_pi2;
 			return yxml_datapi2(x, ch);
-- 
2.43.0


From fbdabff83a8f234755bc604e6078b263ee480d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:28 +0000
Subject: [PATCH 30/49] fix: accept all XML character references, refuse those
 to surrogates

---
 src/c/yxml.c | 2 +-
 src/c/yxml.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/c/yxml.c b/src/c/yxml.c
index 976f4bd..54abcbf 100644
--- a/src/c/yxml.c
+++ b/src/c/yxml.c
@@ -316,7 +316,7 @@ static yxml_ret_t yxml_refend(yxml_t *x, yxml_ret_t ret) {
 	}
 
 	/* Codepoints not allowed in the XML 1.1 definition of a Char */
-	if(!ch || ch > 0x10FFFF || ch == 0xFFFE || ch == 0xFFFF || (ch-0xDFFF) < 0x7FF)
+	if(!ch || ch > 0x10FFFF || ch == 0xFFFE || ch == 0xFFFF || (ch-0xD800) < 0x800)
 		return YXML_EREF;
 	yxml_setutf8(x->data, ch);
 	return ret;
diff --git a/src/c/yxml.h b/src/c/yxml.h
index 9992bc3..96fbd2b 100644
--- a/src/c/yxml.h
+++ b/src/c/yxml.h
@@ -93,7 +93,7 @@ typedef struct {
 	 * - "&#N;" and "&#xN;", where dec(n) > 127. The referenced Unicode
 	 *   character is then encoded in multiple UTF-8 bytes.
 	 */
-	char data[8];
+	char data[9];
 
 	/* Name of the current attribute. Changed after YXML_ATTRSTART, valid up to
 	 * and including the next YXML_ATTREND. */
-- 
2.43.0


From eebb92ec96d445baf0785c6d8a6fc3813effbe53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:52 +0000
Subject: [PATCH 31/49] fix: refuse YAML aliases instead of misreading the
 document

---
 src/c/data-yaml.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/c/data-yaml.c b/src/c/data-yaml.c
index b6d4c4d..fe71d09 100644
--- a/src/c/data-yaml.c
+++ b/src/c/data-yaml.c
@@ -10,6 +10,11 @@
 
 static iot_data_t * iot_data_map_from_yaml (yaml_parser_t *parser, iot_data_t **exception);
 
+static void iot_data_yaml_alias (const yaml_event_t *event, iot_data_t **exception)
+{
+  *exception = iot_data_alloc_string_fmt ("Unsupported alias: %s at line %zu", (const char *)event->data.alias.anchor, event->start_mark.line);
+}
+
 static iot_data_t * iot_data_string_from_yaml (const yaml_event_t *event)
 {
   return iot_data_alloc_string ((const char *)event->data.scalar.value, IOT_DATA_COPY);
@@ -95,6 +100,9 @@ static iot_data_t * iot_data_vector_from_yaml (yaml_parser_t *parser, iot_data_t
       case YAML_SEQUENCE_START_EVENT:
         elem = iot_data_vector_from_yaml (parser, exception);
         break;
+      case YAML_ALIAS_EVENT:
+        iot_data_yaml_alias (&event, exception);
+        break;
       case YAML_SEQUENCE_END_EVENT:
         done = true;
         break;
@@ -151,6 +159,9 @@ static iot_data_t * iot_data_map_from_yaml (yaml_parser_t *parser, iot_data_t **
       case YAML_SEQUENCE_START_EVENT:
         elem = iot_data_vector_from_yaml (parser, exception);
         break;
+      case YAML_ALIAS_EVENT:
+        iot_data_yaml_alias (&event, exception);
+        break;
       case YAML_MAPPING_END_EVENT:
         done = true;
         break;
@@ -216,6 +227,10 @@ iot_data_t * iot_data_from_yaml (const char * yaml, iot_data_t **exception)
         result = iot_data_vector_from_yaml (&parser, exception);
         done = true;
         break;
+      case YAML_ALIAS_EVENT:
+        iot_data_yaml_alias (&event, exception);
+        done = true;
+        break;
       case YAML_STREAM_END_EVENT:
         done = true;
         break;
-- 
2.43.0


From 77eb3cff5ea801c5b8cd17414b1be5f6eea88af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:44 +0000
Subject: [PATCH 32/49] fix: read YAML integers beyond 64 bits as floating
 values instead of the nearest limit

---
 src/c/data-yaml.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/c/data-yaml.c b/src/c/data-yaml.c
index fe71d09..4aa9231 100644
--- a/src/c/data-yaml.c
+++ b/src/c/data-yaml.c
@@ -6,6 +6,7 @@
 #include "iot/data.h"
 #include "data-impl.h"
 #include <math.h>
+#include <errno.h>
 #include <yaml.h>
 
 static iot_data_t * iot_data_map_from_yaml (yaml_parser_t *parser, iot_data_t **exception);
@@ -43,16 +44,18 @@ static iot_data_t * iot_data_value_from_yaml (const yaml_event_t *event)
       char *e;
       if (*val == '-')
       {
+        errno = 0;
         long long ll = strtoll (val, &e, 0);
-        if (*e == '\0')
+        if (*e == '\0' && errno == 0)
         {
           ret = iot_data_alloc_i64 (ll);
         }
       }
-      if (ret == NULL)
+      else
       {
+        errno = 0;
         unsigned long long ull = strtoull (val, &e, 0);
-        if (*e == '\0')
+        if (*e == '\0' && errno == 0)
         {
           ret = ull < INT64_MAX ? iot_data_alloc_i64 (ull) : iot_data_alloc_ui64 (ull);
         }
-- 
2.43.0


From 64f541687cc2e890979735e2e820e8ca678ee63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:52 +0000
Subject: [PATCH 33/49] fix: report failures of file writes and reads and
 remove the temporary file

---
 src/c/file.c | 36 +++++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/src/c/file.c b/src/c/file.c
index b1c4445..fa30dfa 100644
--- a/src/c/file.c
+++ b/src/c/file.c
@@ -6,7 +6,6 @@
  */
 
 #include "iot/file.h"
-#include <limits.h>
 
 #ifdef IOT_HAS_FILE
 #ifdef _AZURESPHERE_
@@ -71,6 +70,7 @@ extern bool iot_file_delete (const char * path)
 #else // _AZURESPHERE_
 #include <dirent.h>
 #include <regex.h>
+#include <sys/stat.h>
 
 bool iot_file_delete (const char * path)
 {
@@ -87,16 +87,21 @@ uint8_t * iot_file_read_binary (const char * path, size_t * len)
   FILE * fd = fopen (path, "r");
   if (fd)
   {
-    fseek (fd, 0, SEEK_END);
-    size = ftell (fd);
-    if (size) // Return NULL if file empty
+    struct stat info;
+    if ((fstat (fileno (fd), &info) == 0) && S_ISREG (info.st_mode) && (info.st_size > 0)) // Return NULL if file empty or unreadable
     {
-      rewind (fd);
+      size = (size_t) info.st_size;
       ret = malloc (size + 1); // Allocate extra byte so can be NULL terminated if a string
-      size_t items = fread (ret, size, 1u, fd);
-      assert (items == 1);
-      (void) items;
-      ret[size] = 0; // String NULL terminator
+      if (fread (ret, size, 1u, fd) == 1u)
+      {
+        ret[size] = 0; // String NULL terminator
+      }
+      else
+      {
+        free (ret);
+        ret = NULL;
+        size = 0;
+      }
     }
     fclose (fd);
   }
@@ -108,17 +113,18 @@ bool iot_file_write_binary (const char * path, const uint8_t * binary, size_t le
 {
   assert (path && binary);
   bool ok = false;
-  char tmp_path[PATH_MAX];
-  strncpy (tmp_path, path, PATH_MAX - 5);
-  tmp_path[PATH_MAX-5] = '\0';
+  char * tmp_path = malloc (strlen (path) + sizeof (".new"));
+  strcpy (tmp_path, path);
   strcat (tmp_path, ".new");
   FILE *fd = fopen (tmp_path, "w");
   if (fd)
   {
-    ok = (fwrite (binary, len, 1u, fd) == 1u);
-    fclose (fd);
-    if (ok) rename (tmp_path, path);
+    ok = (fwrite (binary, 1u, len, fd) == len);
+    ok = (fclose (fd) == 0) && ok;
+    ok = ok && (rename (tmp_path, path) == 0);
+    if (! ok) remove (tmp_path);
   }
+  free (tmp_path);
   return ok;
 }
 
-- 
2.43.0


From 73b2f6041392daa29976b23321bbe6754ceaebea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:52 +0000
Subject: [PATCH 34/49] fix: listing configurations of a missing directory and
 names merely ending in json

---
 src/c/file.c  | 6 +++++-
 src/c/store.c | 5 +++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/c/file.c b/src/c/file.c
index fa30dfa..828f0de 100644
--- a/src/c/file.c
+++ b/src/c/file.c
@@ -146,7 +146,11 @@ iot_data_t * iot_file_list (const char * directory, const char * regex_str)
   DIR *d = opendir (directory);
   if (!d) goto DONE;
   regex_t regex;
-  if (regex_str && regcomp (&regex, regex_str, REG_NOSUB) != 0) goto DONE;
+  if (regex_str && regcomp (&regex, regex_str, REG_NOSUB) != 0)
+  {
+    closedir (d);
+    goto DONE;
+  }
   list = iot_data_alloc_list ();
   const struct dirent *dir;
   while ((dir = readdir (d)))
diff --git a/src/c/store.c b/src/c/store.c
index 87cf2ac..0025478 100644
--- a/src/c/store.c
+++ b/src/c/store.c
@@ -96,14 +96,15 @@ bool iot_store_config_delete (const char * name, const char * uri)
 iot_data_t * iot_store_config_list (const char * directory)
 {
 #ifndef _AZURESPHERE_
-  static const char extension_regex[] = ".json$";
+  static const char extension_regex[] = "\\.json$";
   iot_data_t * file_list = iot_file_list (directory, extension_regex);
+  if (! file_list) return NULL;
   iot_data_list_iter_t list_iter;
   iot_data_list_iter (file_list, &list_iter);
   while (iot_data_list_iter_next (&list_iter))
   {
     const char *full_name = iot_data_list_iter_string_value (&list_iter);
-    const char *new_name = strndup (full_name, strlen (full_name) - (sizeof (extension_regex) - 2));
+    const char *new_name = strndup (full_name, strlen (full_name) - (sizeof (extension_regex) - 3));
     iot_data_t *old_iot = iot_data_list_iter_replace (&list_iter, iot_data_alloc_string (new_name, IOT_DATA_TAKE));
     iot_data_free (old_iot);
   }
-- 
2.43.0


From f20ba5e476926167a721f6f11b370a0daff62aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:58 +0000
Subject: [PATCH 35/49] fix: listing components of a category when a type has
 none

---
 src/c/container.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c/container.c b/src/c/container.c
index 188c38e..6d711fd 100644
--- a/src/c/container.c
+++ b/src/c/container.c
@@ -452,7 +452,7 @@ iot_data_t * iot_container_list_components (iot_container_t * cont, const char *
   while (iot_data_list_iter_next (&iter))
   {
     const iot_component_t * comp = iot_data_list_iter_pointer_value (&iter);
-    if ((category == NULL) || (strcmp (category, comp->factory->category) == 0)) // Filter on category if set
+    if ((category == NULL) || (comp->factory->category && (strcmp (category, comp->factory->category) == 0))) // Filter on category if set
     {
       iot_data_list_tail_push (list, iot_component_read ((iot_component_t*) comp));
     }
-- 
2.43.0


From ecd72c4520c6f4e72cfd0433c6d36c53849226e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:43 +0000
Subject: [PATCH 36/49] fix: detect reference cycles through components being
 created by container initialisation

---
 src/c/container.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/c/container.c b/src/c/container.c
index 6d711fd..f5bec8d 100644
--- a/src/c/container.c
+++ b/src/c/container.c
@@ -171,12 +171,15 @@ static bool iot_container_typed_load (iot_container_t * cont, const char * cname
     const iot_component_factory_t *factory = iot_component_factory_find (ctype);
     if (factory)
     {
+      iot_load_in_progress_t this = {cname, iot_load_in_progress};
+      iot_load_in_progress = &this;
       char * config = (iot_config->load) (cname, iot_config->uri);
       if (config)
       {
         iot_component_create (cont, cname, factory, config);
         free (config);
       }
+      iot_load_in_progress = this.next;
       result = true;
     }
     else
@@ -193,8 +196,7 @@ static bool iot_container_load_locked (iot_container_t * cont, const char * cnam
 
   if (! result)
   {
-    iot_load_in_progress_t this = {cname, iot_load_in_progress};
-    iot_load_in_progress_t *loading = iot_load_in_progress;
+    const iot_load_in_progress_t *loading = iot_load_in_progress;
     assert (iot_config && cont);
 
     // Check for cycles
@@ -205,7 +207,6 @@ static bool iot_container_load_locked (iot_container_t * cont, const char * cnam
     }
     if (!loading)
     {
-      iot_load_in_progress = &this;
       char * config = (iot_config->load) (cont->name, iot_config->uri);
       iot_data_t * map = iot_component_config_to_map (config, cont->logger);
       free (config);
@@ -216,7 +217,6 @@ static bool iot_container_load_locked (iot_container_t * cont, const char * cnam
         if (ctype) result = iot_container_typed_load (cont, cname, ctype);
       }
       iot_data_free (map);
-      iot_load_in_progress = this.next;
     }
     else
     {
-- 
2.43.0


From dbaaf8f362986b663ed3b710297fd49b0fb01c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:06 +0000
Subject: [PATCH 37/49] fix: ignore components whose configured type is not a
 string

---
 src/c/container.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/c/container.c b/src/c/container.c
index f5bec8d..b393bde 100644
--- a/src/c/container.c
+++ b/src/c/container.c
@@ -270,6 +270,7 @@ bool iot_container_init (iot_container_t * cont)
     {
       cname = iot_data_map_iter_string_key (&iter);
       ctype = iot_data_map_iter_string_value (&iter);
+      if (ctype == NULL) continue;
       config = (iot_config->load) (cname, iot_config->uri);
 
       if ((iot_component_factory_find (ctype) == NULL) && config)
@@ -284,7 +285,14 @@ bool iot_container_init (iot_container_t * cont)
     {
       cname = iot_data_map_iter_string_key (&iter);
       ctype = iot_data_map_iter_string_value (&iter);
-      iot_container_typed_load (cont, cname, ctype);
+      if (ctype)
+      {
+        iot_container_typed_load (cont, cname, ctype);
+      }
+      else
+      {
+        iot_log_warn (cont->logger, "Type of component %s is not a string", cname);
+      }
     }
     iot_data_free (map);
   }
-- 
2.43.0


From f1a21915913cf3e08f501a45f3a239f486d7c2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:06 +0000
Subject: [PATCH 38/49] fix: reconfiguring a component without a container
 configuration

---
 src/c/component.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c/component.c b/src/c/component.c
index 01cad95..5d43d17 100644
--- a/src/c/component.c
+++ b/src/c/component.c
@@ -53,7 +53,7 @@ bool iot_component_reconfig (iot_component_t * component, iot_container_t * cont
   {
     const iot_container_config_t * config = iot_container_get_config ();
     iot_data_map_merge (component->config, map);
-    if (config->save)
+    if (config && config->save)
     {
       char * json = iot_data_to_json (component->config);
       (config->save) (component->name, config->uri, json);
-- 
2.43.0


From e3a52ada31fe7a22e704f07f1caac1bce6d235f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:31 +0000
Subject: [PATCH 39/49] fix: copy the component name into component data

---
 src/c/component.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c/component.c b/src/c/component.c
index 5d43d17..40c2d76 100644
--- a/src/c/component.c
+++ b/src/c/component.c
@@ -161,7 +161,7 @@ extern iot_data_t * iot_component_read (iot_component_t * component)
   assert (component);
   iot_data_t * data = iot_data_alloc_map (IOT_DATA_STRING);
   pthread_mutex_lock (&component->mutex);
-  iot_data_map_add (data, IOT_DATA_STATIC (&iot_data_consts.name), iot_data_alloc_string (component->name, IOT_DATA_REF));
+  iot_data_map_add (data, IOT_DATA_STATIC (&iot_data_consts.name), iot_data_alloc_string (component->name, IOT_DATA_COPY));
   iot_data_map_add (data, IOT_DATA_STATIC (&iot_data_consts.type), iot_data_alloc_string (component->factory->type, IOT_DATA_REF));
   iot_data_map_add (data, IOT_DATA_STATIC (&iot_data_consts.state), iot_data_alloc_string (iot_component_state_name (component->state), IOT_DATA_REF));
   iot_data_map_add (data, IOT_DATA_STATIC (&iot_data_consts.config), iot_data_add_ref (component->config));
-- 
2.43.0


From 11d58efb939112c7826e93ec6e7a31dcb88b7df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:13 +0000
Subject: [PATCH 40/49] fix: serialise component creation and protect the
 component list of a container

---
 src/c/container.c | 95 +++++++++++++++++++++++++++++++++++++----------
 1 file changed, 76 insertions(+), 19 deletions(-)

diff --git a/src/c/container.c b/src/c/container.c
index b393bde..ab35d7f 100644
--- a/src/c/container.c
+++ b/src/c/container.c
@@ -25,7 +25,8 @@ struct iot_container_t
   iot_logger_t * logger;
   iot_data_t * components;
   char * name;
-  pthread_rwlock_t lock;
+  pthread_rwlock_t lock;       // Held for write to delete components
+  pthread_mutex_t list_mutex;  // Protects links of components list, as components can be added under the read lock
 };
 
 typedef struct iot_load_in_progress_t
@@ -44,6 +45,49 @@ static iot_load_in_progress_t * iot_load_in_progress = NULL;
   static pthread_mutex_t iot_container_mutex = PTHREAD_MUTEX_INITIALIZER;
 #endif
 
+/* Component creation is serialised, but recursive as components can find (so load) others on creation */
+
+static pthread_mutex_t iot_load_mutex;
+static pthread_once_t iot_load_once = PTHREAD_ONCE_INIT;
+
+static void iot_load_init (void)
+{
+  pthread_mutexattr_t attr;
+  pthread_mutexattr_init (&attr);
+  pthread_mutexattr_settype (&attr, PTHREAD_MUTEX_RECURSIVE);
+  pthread_mutex_init (&iot_load_mutex, &attr);
+  pthread_mutexattr_destroy (&attr);
+}
+
+static void iot_load_lock (void)
+{
+  pthread_once (&iot_load_once, iot_load_init);
+  pthread_mutex_lock (&iot_load_mutex);
+}
+
+static void iot_load_unlock (void)
+{
+  pthread_mutex_unlock (&iot_load_mutex);
+}
+
+/* Iteration of components, in creation order (next) or reverse (prev) */
+
+static iot_component_t * iot_container_next (iot_container_t * cont, iot_data_list_iter_t * iter)
+{
+  pthread_mutex_lock (&cont->list_mutex);
+  iot_component_t * comp = iot_data_list_iter_next (iter) ? (iot_component_t*) iot_data_list_iter_pointer_value (iter) : NULL;
+  pthread_mutex_unlock (&cont->list_mutex);
+  return comp;
+}
+
+static iot_component_t * iot_container_prev (iot_container_t * cont, iot_data_list_iter_t * iter)
+{
+  pthread_mutex_lock (&cont->list_mutex);
+  iot_component_t * comp = iot_data_list_iter_prev (iter) ? (iot_component_t*) iot_data_list_iter_pointer_value (iter) : NULL;
+  pthread_mutex_unlock (&cont->list_mutex);
+  return comp;
+}
+
 static void iot_component_free (void * ptr)
 {
   iot_component_t * component = ptr;
@@ -90,7 +134,11 @@ static void iot_component_create (iot_container_t * cont, const char *cname, con
   comp->config = map;
   comp->name = strdup (cname);
   comp->factory = factory;
+  pthread_rwlock_rdlock (&cont->lock);
+  pthread_mutex_lock (&cont->list_mutex);
   iot_data_list_head_push (cont->components, iot_data_alloc_pointer (comp, iot_component_free));
+  pthread_mutex_unlock (&cont->list_mutex);
+  pthread_rwlock_unlock (&cont->lock);
 #if defined (_AZURESPHERE_) && ! defined (NDEBUG)
   Log_Debug ("iot_component_create: %s (Total Memory: %" PRIu32 " kB)\n", cname, (uint32_t) Applications_GetTotalMemoryUsageInKB ());
 #endif
@@ -118,11 +166,16 @@ static bool iot_component_cmp (const iot_data_t * value, const void * arg)
   return (strcmp ((const char*) arg, comp->name) == 0);
 }
 
-static const iot_component_t * iot_container_find_component_locked (const iot_container_t * cont, const char * name)
+static const iot_component_t * iot_container_find_component_locked (iot_container_t * cont, const char * name)
 {
   assert (cont && name);
+  pthread_rwlock_rdlock (&cont->lock);
+  pthread_mutex_lock (&cont->list_mutex);
   const iot_data_t * value = iot_data_list_find (cont->components, iot_component_cmp, name);
-  return (const iot_component_t*) (value ? iot_data_pointer (value) : NULL);
+  const iot_component_t * comp = (const iot_component_t*) (value ? iot_data_pointer (value) : NULL);
+  pthread_mutex_unlock (&cont->list_mutex);
+  pthread_rwlock_unlock (&cont->lock);
+  return comp;
 }
 
 #ifdef IOT_BUILD_DYNAMIC_LOAD
@@ -244,6 +297,7 @@ iot_container_t * iot_container_alloc (const char * name)
   cont->logger = iot_logger_default ();
   cont->components = iot_data_alloc_typed_list (IOT_DATA_POINTER);
   pthread_rwlock_init (&cont->lock, NULL);
+  pthread_mutex_init (&cont->list_mutex, NULL);
   iot_logger_start (cont->logger);
   return cont;
 }
@@ -262,6 +316,7 @@ bool iot_container_init (iot_container_t * cont)
     const char * ctype;
     iot_data_map_iter_t iter;
     iot_data_map_iter (map, &iter);
+    iot_load_lock ();
 
 #ifdef IOT_BUILD_DYNAMIC_LOAD
 
@@ -294,6 +349,7 @@ bool iot_container_init (iot_container_t * cont)
         iot_log_warn (cont->logger, "Type of component %s is not a string", cname);
       }
     }
+    iot_load_unlock ();
     iot_data_free (map);
   }
   return (map != NULL);
@@ -304,13 +360,14 @@ void iot_container_free (iot_container_t * cont)
   if (cont)
   {
     iot_data_free (cont->components);
+    pthread_mutex_destroy (&cont->list_mutex);
     pthread_rwlock_destroy (&cont->lock);
     free (cont->name);
     free (cont);
   }
 }
 
-static void iot_container_running (const iot_container_t * cont)
+static void iot_container_running (iot_container_t * cont)
 {
   static const uint64_t sleep_msecs = IOT_CONTAINER_RUN_WAIT_MS;
   iot_data_list_iter_t iter;
@@ -321,9 +378,8 @@ static void iot_container_running (const iot_container_t * cont)
   while (true)
   {
     iot_data_list_iter (cont->components, &iter);
-    while (iot_data_list_iter_next (&iter))
+    while ((comp = iot_container_next (cont, &iter)))
     {
-      comp = (iot_component_t*) iot_data_list_iter_pointer_value (&iter);
       if (comp->state != IOT_COMPONENT_RUNNING) goto AGAIN;
     }
     break;
@@ -334,9 +390,8 @@ AGAIN:
 
   // Invoke running callbacks
   iot_data_list_iter (cont->components, &iter);
-  while (iot_data_list_iter_next (&iter))
+  while ((comp = iot_container_next (cont, &iter)))
   {
-    comp = (iot_component_t*) iot_data_list_iter_pointer_value (&iter);
     if (comp->running_fn) (comp->running_fn) (comp, tries == IOT_CONTAINER_RUN_RETRIES);
   }
 }
@@ -345,16 +400,15 @@ void iot_container_start (iot_container_t * cont)
 {
   pthread_rwlock_rdlock (&cont->lock);
   iot_data_list_iter_t iter;
+  iot_component_t * comp;
   iot_data_list_iter (cont->components, &iter);
-  while (iot_data_list_iter_next (&iter))
+  while ((comp = iot_container_next (cont, &iter)))
   {
-    iot_component_t * comp = (iot_component_t*) iot_data_list_iter_pointer_value (&iter);
     if (comp->starting_fn) (comp->starting_fn) (comp);
   }
   iot_data_list_iter (cont->components, &iter);
-  while (iot_data_list_iter_next (&iter))
+  while ((comp = iot_container_next (cont, &iter)))
   {
-    iot_component_t * comp = (iot_component_t*) iot_data_list_iter_pointer_value (&iter);
     (comp->start_fn) (comp);
 #if defined (_AZURESPHERE_) && ! defined (NDEBUG)
     Log_Debug ("iot_container_start: %s (Total Memory: %" PRIu32 " kB)\n", comp->name, (uint32_t) Applications_GetTotalMemoryUsageInKB ());
@@ -367,17 +421,16 @@ void iot_container_start (iot_container_t * cont)
 void iot_container_stop (iot_container_t * cont)
 {
   iot_data_list_iter_t iter;
+  iot_component_t * comp;
   pthread_rwlock_rdlock (&cont->lock);
   iot_data_list_iter (cont->components, &iter);
-  while (iot_data_list_iter_prev (&iter))
+  while ((comp = iot_container_prev (cont, &iter)))
   {
-    iot_component_t * comp = (iot_component_t*) iot_data_list_iter_pointer_value (&iter);
     if (comp->stopping_fn) (comp->stopping_fn) (comp);
   }
   iot_data_list_iter (cont->components, &iter);
-  while (iot_data_list_iter_prev (&iter))
+  while ((comp = iot_container_prev (cont, &iter)))
   {
-    iot_component_t * comp = (iot_component_t*) iot_data_list_iter_pointer_value (&iter);
     (comp->stop_fn) (comp);
   }
   pthread_rwlock_unlock (&cont->lock);
@@ -406,6 +459,7 @@ extern const iot_component_factory_t * iot_component_factory_find (const char *
 void iot_container_add_component (iot_container_t * cont, const char * ctype, const char *cname, const char * config)
 {
   assert (cont && ctype && cname && config);
+  iot_load_lock ();
   const iot_component_factory_t * factory = iot_component_factory_find (ctype);
 
 #ifdef IOT_BUILD_DYNAMIC_LOAD
@@ -422,6 +476,7 @@ void iot_container_add_component (iot_container_t * cont, const char * ctype, co
   {
     iot_log_error (cont->logger, "Could not find or load Factory: %s", ctype);
   }
+  iot_load_unlock ();
 }
 
 iot_component_t * iot_container_find_component (iot_container_t * cont, const char * name)
@@ -434,8 +489,10 @@ iot_component_t * iot_container_find_component (iot_container_t * cont, const ch
     comp = iot_container_find_component_locked (cont, name);
     if (iot_config && !comp)
     {
+      iot_load_lock ();
       iot_container_load_locked (cont, name);
       comp = iot_container_find_component_locked (cont, name);
+      iot_load_unlock ();
     }
     pthread_rwlock_unlock (&cont->lock);
   }
@@ -455,14 +512,14 @@ iot_data_t * iot_container_list_components (iot_container_t * cont, const char *
   assert (cont);
   iot_data_t * list = iot_data_alloc_list ();
   iot_data_list_iter_t iter;
+  iot_component_t * comp;
   pthread_rwlock_rdlock (&cont->lock);
   iot_data_list_iter (cont->components, &iter);
-  while (iot_data_list_iter_next (&iter))
+  while ((comp = iot_container_next (cont, &iter)))
   {
-    const iot_component_t * comp = iot_data_list_iter_pointer_value (&iter);
     if ((category == NULL) || (comp->factory->category && (strcmp (category, comp->factory->category) == 0))) // Filter on category if set
     {
-      iot_data_list_tail_push (list, iot_component_read ((iot_component_t*) comp));
+      iot_data_list_tail_push (list, iot_component_read (comp));
     }
   }
   pthread_rwlock_unlock (&cont->lock);
-- 
2.43.0


From f8af6fe5148c2c01c8e44bb210add9a3d5741253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:08 +0000
Subject: [PATCH 41/49] fix: keep the level set on a stopped logger until it is
 started again

---
 src/c/logger.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/c/logger.c b/src/c/logger.c
index 5ff1ef0..84bada4 100644
--- a/src/c/logger.c
+++ b/src/c/logger.c
@@ -91,7 +91,10 @@ void iot_log__log (iot_logger_t * l, iot_loglevel_t level, ...)
 void iot_logger_set_level (iot_logger_t * logger, iot_loglevel_t level)
 {
   assert (logger);
-  logger->level = level;
+  iot_logger_impl_t * impl = (iot_logger_impl_t*) logger;
+  impl->save = level;
+  if (iot_component_lock (&logger->component) != IOT_COMPONENT_STOPPED) logger->level = level; // If stopped set on next start
+  iot_component_unlock (&logger->component);
 }
 
 iot_logger_t * iot_logger_alloc_custom (const char * name, iot_loglevel_t level, bool start, iot_logger_t * next, iot_log_function_t impl, void * ctx, iot_log_free_fn_t freectx)
@@ -137,17 +140,18 @@ void iot_logger_start (iot_logger_t * logger)
 {
   assert (logger);
   const iot_logger_impl_t * impl = (const iot_logger_impl_t*) logger;
-  iot_component_set_running (&logger->component);
-  logger->level = impl->save;
+  if (iot_component_set_running (&logger->component)) logger->level = impl->save;
 }
 
 void iot_logger_stop (iot_logger_t * logger)
 {
   assert (logger);
   iot_logger_impl_t * impl = (iot_logger_impl_t*) logger;
-  iot_component_set_stopped (&logger->component);
-  impl->save = logger->level;
-  logger->level = IOT_LOG_NONE;
+  if (iot_component_set_stopped (&logger->component))
+  {
+    if (logger->level != IOT_LOG_NONE) impl->save = logger->level;
+    logger->level = IOT_LOG_NONE;
+  }
 }
 
 static inline size_t iot_logger_format_log (iot_logger_impl_t * logger, iot_loglevel_t level, uint64_t timestamp, const char * message)
-- 
2.43.0


From 792a72a1f7dad2050079aef5f8fcf8723d4330c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:58 +0000
Subject: [PATCH 42/49] fix: take a reference to the new next logger before
 releasing the old one

---
 src/c/logger.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c/logger.c b/src/c/logger.c
index 84bada4..0ea0d75 100644
--- a/src/c/logger.c
+++ b/src/c/logger.c
@@ -280,8 +280,8 @@ const char * iot_logger_level_to_string (iot_loglevel_t level)
 void iot_logger_set_next (iot_logger_t * logger, iot_logger_t * next)
 {
   iot_logger_impl_t * logimpl = (iot_logger_impl_t*) logger;
+  iot_logger_add_ref (next); // Before release, as may be the current next logger
   iot_logger_free ((iot_logger_t*) logimpl->next);
-  iot_logger_add_ref (next);
   logimpl->next = (iot_logger_impl_t*) next;
 }
 
-- 
2.43.0


From e3e27e0cb0ba1db61a49a9c912747f7de3396cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:47 +0000
Subject: [PATCH 43/49] fix: length of a truncated log message

---
 src/c/logger.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/c/logger.c b/src/c/logger.c
index 0ea0d75..c226230 100644
--- a/src/c/logger.c
+++ b/src/c/logger.c
@@ -160,7 +160,9 @@ static inline size_t iot_logger_format_log (iot_logger_impl_t * logger, iot_logl
 #ifdef IOT_HAS_PRCTL
   prctl (PR_GET_NAME, tname);
 #endif
-  return (size_t) snprintf (logger->buff, sizeof (logger->buff), "[%s:%" PRIu64 ":%s:%s] %s\n", tname, timestamp, logger->name, iot_log_levels[level], message);
+  int len = snprintf (logger->buff, sizeof (logger->buff), "[%s:%" PRIu64 ":%s:%s] %s\n", tname, timestamp, logger->name, iot_log_levels[level], message);
+  if (len < 0) return 0;
+  return ((size_t) len < sizeof (logger->buff)) ? (size_t) len : sizeof (logger->buff) - 1; // Message may have been truncated
 }
 
 static inline void iot_logger_log_to_fd (iot_logger_impl_t * logger, FILE * fd, iot_loglevel_t level, uint64_t timestamp, const char *message)
-- 
2.43.0


From 57eca93181b436c340fb7ac6d266698bca76fcc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:36 +0000
Subject: [PATCH 44/49] fix: bound the host name copied from a udp logger
 configuration

---
 src/c/logger.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/c/logger.c b/src/c/logger.c
index c226230..b3405f8 100644
--- a/src/c/logger.c
+++ b/src/c/logger.c
@@ -320,7 +320,8 @@ static iot_component_t * iot_logger_config (iot_container_t * cont, const iot_da
       const char * sep = strchr (to, ':');
       if (sep)
       {
-        strncpy (target, to, (size_t) (sep - to));
+        size_t len = (size_t) (sep - to);
+        strncpy (target, to, (len < sizeof (target)) ? len : sizeof (target) - 1);
         host = target;
         to = sep + 1;
       }
-- 
2.43.0


From c9fe83eec00138ce8a7fdefeb554cecc596ade1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:26 +0000
Subject: [PATCH 45/49] fix: reconfiguring a stopped logger

---
 src/c/logger.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c/logger.c b/src/c/logger.c
index b3405f8..3e6c042 100644
--- a/src/c/logger.c
+++ b/src/c/logger.c
@@ -339,7 +339,7 @@ static iot_component_t * iot_logger_config (iot_container_t * cont, const iot_da
 static bool iot_logger_reconfig (iot_component_t * comp, iot_container_t * cont, const iot_data_t * map)
 {
   (void) cont;
-  ((iot_logger_t*) comp)->level = iot_logger_config_level (map);
+  iot_logger_set_level ((iot_logger_t*) comp, iot_logger_config_level (map));
   return true;
 }
 
-- 
2.43.0


From 9aae11ea563a6e5e77284e658d349c4c71ff4843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:15 +0000
Subject: [PATCH 46/49] fix: first use of the default logger by several threads

---
 src/c/logger.c | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/c/logger.c b/src/c/logger.c
index 3e6c042..afbf039 100644
--- a/src/c/logger.c
+++ b/src/c/logger.c
@@ -53,18 +53,19 @@ static iot_logger_impl_t iot_logger_dfl;
 
 static void iot_log_console (iot_logger_t * logger, iot_loglevel_t level, uint64_t timestamp, const char * message, const void *ctx);
 
+static void iot_logger_default_init (void)
+{
+  memset (&iot_logger_dfl, 0, sizeof (iot_logger_dfl));
+  iot_component_init (&iot_logger_dfl.base.component, IOT_LOGGER_FACTORY, (iot_component_start_fn_t) iot_logger_start, (iot_component_stop_fn_t) iot_logger_stop);
+  iot_logger_dfl.base.level = iot_logger_dfl.save = IOT_LOGLEVEL_DEFAULT;
+  iot_logger_dfl.impl = iot_log_console;
+}
+
 iot_logger_t * iot_logger_default (void)
 {
-  static iot_logger_t * logger = NULL;
-  if (logger == NULL)
-  {
-    logger = &iot_logger_dfl.base;
-    memset (&iot_logger_dfl, 0, sizeof (iot_logger_dfl));
-    iot_component_init (&logger->component, IOT_LOGGER_FACTORY, (iot_component_start_fn_t) iot_logger_start, (iot_component_stop_fn_t) iot_logger_stop);
-    iot_logger_dfl.base.level = iot_logger_dfl.save = IOT_LOGLEVEL_DEFAULT;
-    iot_logger_dfl.impl = iot_log_console;
-  }
-  return logger;
+  static pthread_once_t once = PTHREAD_ONCE_INIT;
+  pthread_once (&once, iot_logger_default_init); // May first be used by several threads
+  return &iot_logger_dfl.base;
 }
 
 void iot_log__va_log (iot_logger_t * l, iot_loglevel_t level, const char* fmt, va_list args)
-- 
2.43.0


From c9d35fc9a4da73fbebd41d616c5eef30704bbfdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:59 +0000
Subject: [PATCH 47/49] fix: thread priority validity on first use by several
 threads

---
 src/c/thread.c | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/src/c/thread.c b/src/c/thread.c
index f5d779b..021774e 100644
--- a/src/c/thread.c
+++ b/src/c/thread.c
@@ -35,14 +35,7 @@ static void * zephyr_func_wrapper (void * data)
 
 bool iot_thread_priority_valid (int priority)
 {
-  static int max_priority = -2;
-  static int min_priority = -2;
-  if (max_priority == -2)
-  {
-    max_priority = sched_get_priority_max (SCHED_FIFO);
-    min_priority = sched_get_priority_min (SCHED_FIFO);
-  }
-  return (priority >= min_priority && priority <= max_priority);
+  return (priority >= sched_get_priority_min (SCHED_FIFO) && priority <= sched_get_priority_max (SCHED_FIFO));
 }
 
 bool iot_thread_create (pthread_t * tid, iot_thread_fn_t func, void * arg, int priority, int affinity, iot_logger_t * logger)
-- 
2.43.0


From 5a81fde63f3e8eb8f1da72c8eb54d42cd7896b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:59 +0000
Subject: [PATCH 48/49] fix: thread created with default attributes is detached

---
 src/c/thread.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/c/thread.c b/src/c/thread.c
index 021774e..be1a83a 100644
--- a/src/c/thread.c
+++ b/src/c/thread.c
@@ -105,7 +105,11 @@ bool iot_thread_create (pthread_t * tid, iot_thread_fn_t func, void * arg, int p
   ret = pthread_create (tid, &attr, func, arg);
   if (ret != 0)
   {
-    ret = pthread_create (tid, NULL, func, arg);
+    pthread_attr_t detached; // Retry with default attributes, but still detached as thread never joined
+    pthread_attr_init (&detached);
+    pthread_attr_setdetachstate (&detached, PTHREAD_CREATE_DETACHED);
+    ret = pthread_create (tid, &detached, func, arg);
+    pthread_attr_destroy (&detached);
     if (ret != 0) iot_log_error (logger, "pthread_create failed ret: %d", ret);
   }
   pthread_attr_destroy (&attr);
-- 
2.43.0


From 8a6740493794220d4d357e83b25165cc2a66b9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:59 +0000
Subject: [PATCH 49/49] fix: pool thread that could not be created is not
 waited for

---
 src/c/threadpool.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/c/threadpool.c b/src/c/threadpool.c
index d4de189..836b161 100644
--- a/src/c/threadpool.c
+++ b/src/c/threadpool.c
@@ -179,6 +179,7 @@ iot_threadpool_t * iot_threadpool_alloc (uint16_t threads, uint32_t max_jobs, in
     th->id = created;
     if (! iot_thread_create (&th->tid, iot_threadpool_thread, th, default_prio, affinity, logger))
     {
+      th->deleted = true; // No thread, so id not valid
       break;
     }
   }
-- 
2.43.0

