From 07daed43c17a47ebd83cc7878bc835ed24ed0ea9 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 16:32:21 +0000
Subject: [PATCH 01/45] fix: dense Jacobian with an explicit AD mode used
 operation nodes of a released code handler

---
 include/cppad/cg/model/model_c_source_gen_jac.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/cppad/cg/model/model_c_source_gen_jac.hpp b/include/cppad/cg/model/model_c_source_gen_jac.hpp
index d6f5085..5f41327 100644
--- a/include/cppad/cg/model/model_c_source_gen_jac.hpp
+++ b/include/cppad/cg/model/model_c_source_gen_jac.hpp
@@ -44,8 +44,10 @@ void ModelCSourceGen<Base>::generateJacobianSource() {
     if (_jacMode == JacobianADMode::Automatic) {
         jac = _fun.Jacobian(indVars);
     } else if (_jacMode == JacobianADMode::Forward) {
+        _fun.Forward(0, indVars); // point at which the Jacobian is evaluated
         JacobianFor(_fun, indVars, jac);
     } else {
+        _fun.Forward(0, indVars); // point at which the Jacobian is evaluated
         JacobianRev(_fun, indVars, jac);
     }
 
-- 
2.43.0


From 63f2fe829db7c4afc51583a7f1b70b9395cc4464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:49 +0000
Subject: [PATCH 02/45] fix: thread pool woke only one of several threads
 waiting for the queued work

---
 include/cppad/cg/model/threadpool/pthread_pool.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cppad/cg/model/threadpool/pthread_pool.c b/include/cppad/cg/model/threadpool/pthread_pool.c
index 5ecf34c..08b63bb 100644
--- a/include/cppad/cg/model/threadpool/pthread_pool.c
+++ b/include/cppad/cg/model/threadpool/pthread_pool.c
@@ -1065,7 +1065,7 @@ static void* thread_do(Thread* thread) {
         pthread_mutex_lock(&thpool->thcount_lock);
         thpool->num_threads_working--;
         if (!thpool->num_threads_working) {
-            pthread_cond_signal(&thpool->threads_all_idle);
+            pthread_cond_broadcast(&thpool->threads_all_idle);
         }
         pthread_mutex_unlock(&thpool->thcount_lock);
     }
-- 
2.43.0


From 4a0e8b6a3ec1140a5c85f206e12ee4b1769f9e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:49 +0000
Subject: [PATCH 03/45] fix: guided scheduling walked past the end of the job
 list

---
 include/cppad/cg/model/threadpool/pthread_pool.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cppad/cg/model/threadpool/pthread_pool.c b/include/cppad/cg/model/threadpool/pthread_pool.c
index 08b63bb..5530f20 100644
--- a/include/cppad/cg/model/threadpool/pthread_pool.c
+++ b/include/cppad/cg/model/threadpool/pthread_pool.c
@@ -1330,7 +1330,7 @@ static WorkGroup* jobqueue_pull(ThPool* thpool,
                     break;
                 }
                 job = job->prev;
-            } while (job != queue->front);
+            } while (job != NULL);
 
             if (cppadcg_pool_verbose) {
                 fprintf(stdout, "jobqueue_pull(): Thread %i given a work group with %i jobs for %e s (target: %e s)\n", id, group->size, duration, target_duration);
-- 
2.43.0


From 3e76c3d3f944484932694e0a205a1d12a7a09658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:49 +0000
Subject: [PATCH 04/45] fix: static work groups were never executed after a
 change of the scheduling strategy

---
 include/cppad/cg/model/threadpool/pthread_pool.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/cppad/cg/model/threadpool/pthread_pool.c b/include/cppad/cg/model/threadpool/pthread_pool.c
index 5530f20..42b77df 100644
--- a/include/cppad/cg/model/threadpool/pthread_pool.c
+++ b/include/cppad/cg/model/threadpool/pthread_pool.c
@@ -112,7 +112,7 @@ typedef struct JobQueue {
     pthread_mutex_t rwmutex;             /* used for queue r/w access */
     Job  *front;                         /* pointer to front of queue */
     Job  *rear;                          /* pointer to rear  of queue */
-    WorkGroup* group_front;              /* previously created work groups (SCHED_STATIC scheduling only)*/
+    WorkGroup* group_front;              /* previously created work groups (SCHED_STATIC scheduling only) */
     BSem *has_jobs;                      /* flag as binary semaphore  */
     int   len;                           /* number of jobs in queue   */
     float total_time;                    /* total expected time to complete the work */
@@ -1255,8 +1255,8 @@ static WorkGroup* jobqueue_pull(ThPool* thpool,
     int i;
     JobQueue* queue = thpool->jobqueue;
 
-    if (schedule_strategy == SCHED_STATIC && queue->group_front != NULL) {
-        // STATIC
+    if (queue->group_front != NULL) {
+        // STATIC (also groups queued before a change of strategy)
         group = queue->group_front;
 
         queue->group_front = group->prev;
-- 
2.43.0


From 41e00414b4ed0c7d65b52871eed469f3a3e11d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:49 +0000
Subject: [PATCH 05/45] fix: static scheduling reused a job distribution made
 for more threads

---
 include/cppad/cg/model/threadpool/pthread_pool.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/cppad/cg/model/threadpool/pthread_pool.c b/include/cppad/cg/model/threadpool/pthread_pool.c
index 42b77df..780af2f 100644
--- a/include/cppad/cg/model/threadpool/pthread_pool.c
+++ b/include/cppad/cg/model/threadpool/pthread_pool.c
@@ -657,7 +657,12 @@ static int jobqueue_push_static_jobs(ThPool* thpool,
     }
 
 
-    if (nJobs > 0 && (lastElapsedChanged || jobs2thread[0] < 0)) {
+    // a distribution can only be reused if it was created for at least as many work groups
+    for (j = 0; j < nJobs && !lastElapsedChanged; ++j) {
+        lastElapsedChanged = jobs2thread[j] < 0 || jobs2thread[j] >= num_threads;
+    }
+
+    if (nJobs > 0 && lastElapsedChanged) {
         durations = (float*) malloc(num_threads * sizeof(float));
         if (durations == NULL) {
             fprintf(stderr, "jobqueue_push_static_jobs(): Could not allocate memory\n");
-- 
2.43.0


From d9b1472df77d9a391628b05776485325c88772cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:12 +0000
Subject: [PATCH 06/45] fix: thread pool leaked or twice released work groups
 of verbose executions

---
 .../cppad/cg/model/threadpool/pthread_pool.c  | 46 ++++++++++---------
 1 file changed, 24 insertions(+), 22 deletions(-)

diff --git a/include/cppad/cg/model/threadpool/pthread_pool.c b/include/cppad/cg/model/threadpool/pthread_pool.c
index 780af2f..a8d1356 100644
--- a/include/cppad/cg/model/threadpool/pthread_pool.c
+++ b/include/cppad/cg/model/threadpool/pthread_pool.c
@@ -803,15 +803,17 @@ static void thpool_wait(ThPool* thpool) {
     }
     thpool->jobqueue->total_time = 0;
     thpool->jobqueue->highest_expected_return = 0;
-    pthread_mutex_unlock(&thpool->thcount_lock);
 
+    /* no thread is working (and another caller could also be waiting) */
     thpool_cleanup(thpool);
+    pthread_mutex_unlock(&thpool->thcount_lock);
 }
 
 
 /**
  * Called to clean-up after waiting for a thread pool to end the current work.
- * It is only required when  cppadcg_pool_verbose  was enabled.
+ * There are only work groups to clean-up if  cppadcg_pool_verbose  was enabled
+ * when they were executed.
  *
  * @param thpool
  */
@@ -824,27 +826,25 @@ void thpool_cleanup(ThPool* thpool) {
     WorkGroup* workGroup;
     WorkGroup* workGroupPrev;
 
-    if (!cppadcg_pool_verbose) {
-        return;
-    }
-
     for (int j = 0; j < thpool->num_threads; ++j) {
         thread = thpool->threads[j];
 
         workGroup = thread->processed_groups;
         while (workGroup != NULL) {
-            timespec_diff(&workGroup->endTime, &workGroup->startTime, &diffTime);
-            fprintf(stdout, "# Thread %i, Group %i, started at %ld.%.9ld, ended at %ld.%.9ld, elapsed %ld.%.9ld, executed %i jobs\n",
-                    thread->id, gid, workGroup->startTime.tv_sec, workGroup->startTime.tv_nsec, workGroup->endTime.tv_sec, workGroup->endTime.tv_nsec, diffTime.tv_sec,
-                    diffTime.tv_nsec, workGroup->size);
-
-            for (int i = 0; i < workGroup->size; ++i) {
-                Job* job = &workGroup->jobs[i];
-
-                timespec_diff(&job->endTime, &job->startTime, &diffTime);
-                fprintf(stdout, "## Thread %i, Group %i, Job %i, started at %ld.%.9ld, ended at %ld.%.9ld, elapsed %ld.%.9ld\n",
-                        thread->id, gid, job->id, job->startTime.tv_sec, job->startTime.tv_nsec, job->endTime.tv_sec, job->endTime.tv_nsec, diffTime.tv_sec,
-                        diffTime.tv_nsec);
+            if (cppadcg_pool_verbose) {
+                timespec_diff(&workGroup->endTime, &workGroup->startTime, &diffTime);
+                fprintf(stdout, "# Thread %i, Group %i, started at %ld.%.9ld, ended at %ld.%.9ld, elapsed %ld.%.9ld, executed %i jobs\n",
+                        thread->id, gid, workGroup->startTime.tv_sec, workGroup->startTime.tv_nsec, workGroup->endTime.tv_sec, workGroup->endTime.tv_nsec, diffTime.tv_sec,
+                        diffTime.tv_nsec, workGroup->size);
+
+                for (int i = 0; i < workGroup->size; ++i) {
+                    Job* job = &workGroup->jobs[i];
+
+                    timespec_diff(&job->endTime, &job->startTime, &diffTime);
+                    fprintf(stdout, "## Thread %i, Group %i, Job %i, started at %ld.%.9ld, ended at %ld.%.9ld, elapsed %ld.%.9ld\n",
+                            thread->id, gid, job->id, job->startTime.tv_sec, job->startTime.tv_nsec, job->endTime.tv_sec, job->endTime.tv_nsec, diffTime.tv_sec,
+                            diffTime.tv_nsec);
+                }
             }
 
             gid++;
@@ -974,6 +974,7 @@ static void* thread_do(Thread* thread) {
     thpool_function_type func_buff;
     void* arg_buff;
     int i;
+    int verbose;
 
     /* Set thread name for profiling and debugging */
     char thread_name[128] = {0};
@@ -1019,14 +1020,15 @@ static void* thread_do(Thread* thread) {
             if (workGroup == NULL)
                 break;
 
-            if (cppadcg_pool_verbose) {
+            verbose = cppadcg_pool_verbose; // it can change while the jobs are executed
+            if (verbose) {
                 get_monotonic_time2(&workGroup->startTime);
             }
 
             for (i = 0; i < workGroup->size; ++i) {
                 job = &workGroup->jobs[i];
 
-                if (cppadcg_pool_verbose) {
+                if (verbose) {
                     get_monotonic_time2(&job->startTime);
                 }
 
@@ -1047,12 +1049,12 @@ static void* thread_do(Thread* thread) {
                     }
                 }
 
-                if (cppadcg_pool_verbose) {
+                if (verbose) {
                     get_monotonic_time2(&job->endTime);
                 }
             }
 
-            if (cppadcg_pool_verbose) {
+            if (verbose) {
                 get_monotonic_time2(&workGroup->endTime);
 
                 if (thread->processed_groups == NULL) {
-- 
2.43.0


From a8da762cb5b727fc9342f5094cb63e613440df90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:12 +0000
Subject: [PATCH 07/45] fix: waiting for the thread pool discarded the timing
 of jobs added by other callers

---
 include/cppad/cg/model/threadpool/pthread_pool.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/cppad/cg/model/threadpool/pthread_pool.c b/include/cppad/cg/model/threadpool/pthread_pool.c
index a8d1356..fc025ea 100644
--- a/include/cppad/cg/model/threadpool/pthread_pool.c
+++ b/include/cppad/cg/model/threadpool/pthread_pool.c
@@ -801,8 +801,12 @@ static void thpool_wait(ThPool* thpool) {
     while (thpool->jobqueue->len || thpool->jobqueue->group_front || thpool->num_threads_working) {  //// PROBLEM HERE!!!! len is not locked!!!!
         pthread_cond_wait(&thpool->threads_all_idle, &thpool->thcount_lock);
     }
-    thpool->jobqueue->total_time = 0;
-    thpool->jobqueue->highest_expected_return = 0;
+    pthread_mutex_lock(&thpool->jobqueue->rwmutex);
+    if (thpool->jobqueue->len == 0) { // another caller might have added new jobs
+        thpool->jobqueue->total_time = 0;
+        thpool->jobqueue->highest_expected_return = 0;
+    }
+    pthread_mutex_unlock(&thpool->jobqueue->rwmutex);
 
     /* no thread is working (and another caller could also be waiting) */
     thpool_cleanup(thpool);
-- 
2.43.0


From ae270ea92399f70ab556c83192070c212cb068f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:12 +0000
Subject: [PATCH 08/45] fix: queued jobs were not released when the thread pool
 was shut down

---
 .../cppad/cg/model/threadpool/pthread_pool.c  | 22 +++++++++----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/include/cppad/cg/model/threadpool/pthread_pool.c b/include/cppad/cg/model/threadpool/pthread_pool.c
index fc025ea..0d505f2 100644
--- a/include/cppad/cg/model/threadpool/pthread_pool.c
+++ b/include/cppad/cg/model/threadpool/pthread_pool.c
@@ -1128,18 +1128,18 @@ static int jobqueue_init(ThPool* thpool) {
 /* Clear the queue */
 static void jobqueue_clear(ThPool* thpool) {
     WorkGroup* group;
-    int size;
+    Job* job;
 
-    do {
-        group = jobqueue_pull(thpool, -1);
-        if (group == NULL) {
-            size = 0;
-        } else {
-            size = group->size;
-            free(group->jobs);
-            free(group);
-        }
-    } while (size > 0);
+    while ((group = thpool->jobqueue->group_front) != NULL) {
+        thpool->jobqueue->group_front = group->prev;
+        free(group->jobs);
+        free(group);
+    }
+
+    while ((job = thpool->jobqueue->front) != NULL) {
+        thpool->jobqueue->front = job->prev;
+        free(job);
+    }
 
     thpool->jobqueue->front = NULL;
     thpool->jobqueue->rear = NULL;
-- 
2.43.0


From 751a519d27ff3c823fe12786c253dc3dcd5bc3f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:12 +0000
Subject: [PATCH 09/45] fix: thread pool shutdown returned while its threads
 were still running

---
 .../cppad/cg/model/threadpool/pthread_pool.c  | 29 +++++++------------
 1 file changed, 10 insertions(+), 19 deletions(-)

diff --git a/include/cppad/cg/model/threadpool/pthread_pool.c b/include/cppad/cg/model/threadpool/pthread_pool.c
index 0d505f2..22e1641 100644
--- a/include/cppad/cg/model/threadpool/pthread_pool.c
+++ b/include/cppad/cg/model/threadpool/pthread_pool.c
@@ -889,26 +889,16 @@ static void thpool_destroy(ThPool* thpool) {
     /* No need to destory if it's NULL */
     if (thpool == NULL) return;
 
-    volatile int threads_total = thpool->num_threads_alive;
+    int n;
 
     /* End each thread 's infinite loop */
     thpool->threads_keepalive = 0;
 
-    /* Give one second to kill idle threads */
-    double TIMEOUT = 1.0;
-    time_t start, end;
-    double tpassed = 0.0;
-    time(&start);
-    while (tpassed < TIMEOUT && thpool->num_threads_alive) {
-        bsem_post_all(thpool->jobqueue->has_jobs);
-        time(&end);
-        tpassed = difftime(end, start);
-    }
-
-    /* Poll remaining threads */
-    while (thpool->num_threads_alive) {
-        bsem_post_all(thpool->jobqueue->has_jobs);
-        sleep(1);
+    /* Wake the idle threads and wait for all of them to end
+     * (a thread which ends wakes the next one) */
+    bsem_post_all(thpool->jobqueue->has_jobs);
+    for (n = 0; n < thpool->num_threads; n++) {
+        pthread_join(thpool->threads[n]->pthread, NULL);
     }
 
     /* cleanup current work groups */
@@ -919,8 +909,7 @@ static void thpool_destroy(ThPool* thpool) {
     free(thpool->jobqueue);
 
     /* Deallocs */
-    int n;
-    for (n = 0; n < threads_total; n++) {
+    for (n = 0; n < thpool->num_threads; n++) {
         thread_destroy(thpool->threads[n]);
     }
     free(thpool->threads);
@@ -956,7 +945,6 @@ static int thread_init(ThPool* thpool,
     (*thread)->processed_groups = NULL;
 
     pthread_create(&(*thread)->pthread, NULL, (void*) thread_do, (*thread));
-    pthread_detach((*thread)->pthread);
     return 0;
 }
 
@@ -1085,6 +1073,9 @@ static void* thread_do(Thread* thread) {
     thpool->num_threads_alive--;
     pthread_mutex_unlock(&thpool->thcount_lock);
 
+    /* this thread could have been the only one to be woken */
+    bsem_post(queue->has_jobs);
+
     return NULL;
 }
 
-- 
2.43.0


From 541a3668058f5152a79f086141f934d7d77a25ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:51 +0000
Subject: [PATCH 10/45] fix: thread pool creation hung or crashed when a thread
 could not be created

---
 .../cppad/cg/model/threadpool/pthread_pool.c  | 23 ++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/include/cppad/cg/model/threadpool/pthread_pool.c b/include/cppad/cg/model/threadpool/pthread_pool.c
index 22e1641..994e9e4 100644
--- a/include/cppad/cg/model/threadpool/pthread_pool.c
+++ b/include/cppad/cg/model/threadpool/pthread_pool.c
@@ -507,11 +507,22 @@ struct ThPool* thpool_init(int num_threads) {
     /* Thread init */
     int n;
     for (n = 0; n < num_threads; n++) {
-        thread_init(thpool, &thpool->threads[n], n);
+        if (thread_init(thpool, &thpool->threads[n], n) != 0) {
+            break; // use only the threads already created
+        }
+    }
+    thpool->num_threads = n;
+
+    if (n == 0) {
+        free(thpool->threads);
+        jobqueue_destroy(thpool);
+        free(thpool->jobqueue);
+        free(thpool);
+        return NULL;
     }
 
     /* Wait for threads to initialize */
-    while (thpool->num_threads_alive != num_threads) {}
+    while (thpool->num_threads_alive != thpool->num_threads) {}
 
     return thpool;
 }
@@ -944,7 +955,12 @@ static int thread_init(ThPool* thpool,
     (*thread)->id = id;
     (*thread)->processed_groups = NULL;
 
-    pthread_create(&(*thread)->pthread, NULL, (void*) thread_do, (*thread));
+    if (pthread_create(&(*thread)->pthread, NULL, (void*) thread_do, (*thread)) != 0) {
+        fprintf(stderr, "thread_init(): Could not create thread\n");
+        free(*thread);
+        *thread = NULL;
+        return -1;
+    }
     return 0;
 }
 
@@ -1106,6 +1122,7 @@ static int jobqueue_init(ThPool* thpool) {
 
     queue->has_jobs = (BSem*) malloc(sizeof(BSem));
     if (queue->has_jobs == NULL) {
+        free(queue);
         return -1;
     }
 
-- 
2.43.0


From 7c1357b4441ae3aa72311d42439ae370da0e8082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:51 +0000
Subject: [PATCH 11/45] fix: jobs were lost when memory for them could not be
 allocated

---
 .../cppad/cg/model/threadpool/pthread_pool.c  | 38 ++++++++++++++-----
 1 file changed, 28 insertions(+), 10 deletions(-)

diff --git a/include/cppad/cg/model/threadpool/pthread_pool.c b/include/cppad/cg/model/threadpool/pthread_pool.c
index 994e9e4..1793c31 100644
--- a/include/cppad/cg/model/threadpool/pthread_pool.c
+++ b/include/cppad/cg/model/threadpool/pthread_pool.c
@@ -244,8 +244,8 @@ void cppadcg_thpool_add_job(thpool_function_type function,
     if (!cppadcg_pool_disabled) {
         cppadcg_thpool_prepare();
         if (cppadcg_pool != NULL) {
-            thpool_add_job(cppadcg_pool, function, arg, avgElapsed, elapsed);
-            return;
+            if (thpool_add_job(cppadcg_pool, function, arg, avgElapsed, elapsed) == 0)
+                return;
         }
     }
 
@@ -265,8 +265,8 @@ void cppadcg_thpool_add_jobs(thpool_function_type functions[],
     if (!cppadcg_pool_disabled) {
         cppadcg_thpool_prepare();
         if (cppadcg_pool != NULL) {
-            thpool_add_jobs(cppadcg_pool, functions, args, avgElapsed, elapsed, order, job2Thread, nJobs, lastElapsedChanged);
-            return;
+            if (thpool_add_jobs(cppadcg_pool, functions, args, avgElapsed, elapsed, order, job2Thread, nJobs, lastElapsedChanged) == 0)
+                return;
         }
     }
 
@@ -596,6 +596,9 @@ static int thpool_add_jobs(ThPool* thpool,
         newjobs[i] = (Job*) malloc(sizeof(Job));
         if (newjobs[i] == NULL) {
             fprintf(stderr, "thpool_add_jobs(): Could not allocate memory for new jobs\n");
+            for (j = 0; j < i; ++j) {
+                free(newjobs[j]);
+            }
             return -1;
         }
 
@@ -617,11 +620,12 @@ static int thpool_add_jobs(ThPool* thpool,
 
     /* add jobs to queue */
     if (schedule_strategy == SCHED_STATIC && avgElapsed != NULL && order != NULL && nJobs > 0 && avgElapsed[0] > 0) {
-        return jobqueue_push_static_jobs(thpool, newjobs, avgElapsed, job2Thread, nJobs, lastElapsedChanged);
-    } else {
-        jobqueue_multipush(thpool->jobqueue, newjobs, nJobs);
-        return 0;
+        if (jobqueue_push_static_jobs(thpool, newjobs, avgElapsed, job2Thread, nJobs, lastElapsedChanged) == 0)
+            return 0;
     }
+
+    jobqueue_multipush(thpool->jobqueue, newjobs, nJobs);
+    return 0;
 }
 
 /**
@@ -731,9 +735,23 @@ static int jobqueue_push_static_jobs(ThPool* thpool,
      */
     for (i = 0; i < num_threads; ++i) {
         group = (WorkGroup*) malloc(sizeof(WorkGroup));
-        group->size = 0;
-        group->jobs = (Job*) malloc(n_jobs[i] * sizeof(Job));
         groups[i] = group;
+        if (group != NULL) {
+            group->size = 0;
+            group->jobs = (Job*) malloc((n_jobs[i] + 1) * sizeof(Job));
+        }
+        if (group == NULL || group->jobs == NULL) {
+            fprintf(stderr, "jobqueue_push_static_jobs(): Could not allocate memory\n");
+            free(group);
+            for (j = 0; j < i; ++j) {
+                free(groups[j]->jobs);
+                free(groups[j]);
+            }
+            free(durations);
+            free(n_jobs);
+            free(groups);
+            return -1;
+        }
     }
     for (i = 0; i < num_threads - 1; ++i) {
         groups[i]->prev = groups[i + 1];
-- 
2.43.0


From 16fb6ae3d21b16b3cf48f2834e56355f56933c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:51 +0000
Subject: [PATCH 12/45] fix: thread pool crashed when there was no memory to
 take jobs from the queue

---
 .../cppad/cg/model/threadpool/pthread_pool.c  | 36 +++++++++++++------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/include/cppad/cg/model/threadpool/pthread_pool.c b/include/cppad/cg/model/threadpool/pthread_pool.c
index 1793c31..02973c5 100644
--- a/include/cppad/cg/model/threadpool/pthread_pool.c
+++ b/include/cppad/cg/model/threadpool/pthread_pool.c
@@ -126,6 +126,7 @@ typedef struct Thread {
     pthread_t pthread;                   /* pointer to actual thread             */
     struct ThPool* thpool;               /* access to ThPool                     */
     WorkGroup* processed_groups;         /* processed work groups (verbose only) */
+    WorkGroup spare_group;               /* used when there is no memory for a new work group */
 } Thread;
 
 
@@ -1080,7 +1081,9 @@ static void* thread_do(Thread* thread) {
                 }
             }
 
-            if (verbose) {
+            if (workGroup == &thread->spare_group) {
+                free(workGroup->jobs);
+            } else if (verbose) {
                 get_monotonic_time2(&workGroup->endTime);
 
                 if (thread->processed_groups == NULL) {
@@ -1266,15 +1269,24 @@ static void jobqueue_extract_single_group(JobQueue* queue,
     Job* job = jobqueue_extract_single(queue);
     if(job != NULL) {
         group->size = 1;
-        group->jobs = (Job*) malloc(sizeof(Job));
-        group->jobs[0] = *job; // copy
-        free(job);
+        group->jobs = job;
     } else {
         group->size = 0;
         group->jobs = NULL;
     }
 }
 
+/**
+ * Creates a new work group for a thread of the pool (never fails)
+ */
+static WorkGroup* workgroup_new(ThPool* thpool,
+                                int id) {
+    WorkGroup* group = (WorkGroup*) malloc(sizeof(WorkGroup));
+    if (group == NULL)
+        group = &thpool->threads[id]->spare_group;
+    return group;
+}
+
 /**
  * Get jobs from the queue(removes them from the queue)
  *
@@ -1305,7 +1317,7 @@ static WorkGroup* jobqueue_pull(ThPool* thpool,
 
     } else if (schedule_strategy == SCHED_DYNAMIC || queue->len == 1 || queue->total_time <= 0) {
         // SCHED_DYNAMIC
-        group = (WorkGroup*) malloc(sizeof(WorkGroup));
+        group = workgroup_new(thpool, id);
         group->prev = NULL;
 
         if (cppadcg_pool_verbose) {
@@ -1327,7 +1339,7 @@ static WorkGroup* jobqueue_pull(ThPool* thpool,
         jobqueue_extract_single_group(thpool->jobqueue, group);
     } else { // schedule_strategy == SCHED_GUIDED
         // SCHED_GUIDED
-        group = (WorkGroup*) malloc(sizeof(WorkGroup));
+        group = workgroup_new(thpool, id);
         group->prev = NULL;
 
         job = queue->front;
@@ -1374,10 +1386,14 @@ static WorkGroup* jobqueue_pull(ThPool* thpool,
             }
 
             group->jobs = (Job*) malloc(group->size * sizeof(Job));
-            for (i = 0; i < group->size; ++i) {
-                job = jobqueue_extract_single(thpool->jobqueue);
-                group->jobs[i] = *job; // copy
-                free(job);
+            if (group->jobs == NULL) {
+                jobqueue_extract_single_group(thpool->jobqueue, group);
+            } else {
+                for (i = 0; i < group->size; ++i) {
+                    job = jobqueue_extract_single(thpool->jobqueue);
+                    group->jobs[i] = *job; // copy
+                    free(job);
+                }
             }
 
             duration_next = current_time + duration; // the time when the current work is expected to end
-- 
2.43.0


From 28d835ea43c4845b702df2c27e92d5b03e9219dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:51 +0000
Subject: [PATCH 13/45] fix: concurrent first calls could create several thread
 pools

---
 include/cppad/cg/model/threadpool/pthread_pool.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/cppad/cg/model/threadpool/pthread_pool.c b/include/cppad/cg/model/threadpool/pthread_pool.c
index 02973c5..4594c7b 100644
--- a/include/cppad/cg/model/threadpool/pthread_pool.c
+++ b/include/cppad/cg/model/threadpool/pthread_pool.c
@@ -44,6 +44,7 @@ typedef struct ThPool ThPool;
 typedef void (* thpool_function_type)(void*);
 
 static ThPool* volatile cppadcg_pool = NULL;
+static pthread_mutex_t cppadcg_pool_mutex = PTHREAD_MUTEX_INITIALIZER; /* creation of the pool */
 static int cppadcg_pool_n_threads = 2;
 static int cppadcg_pool_disabled = 0; // false
 static int cppadcg_pool_verbose = 0; // false
@@ -233,9 +234,11 @@ int cppadcg_thpool_is_verbose() {
 }
 
 void cppadcg_thpool_prepare() {
+    pthread_mutex_lock(&cppadcg_pool_mutex);
     if(cppadcg_pool == NULL) {
         cppadcg_pool = thpool_init(cppadcg_pool_n_threads);
     }
+    pthread_mutex_unlock(&cppadcg_pool_mutex);
 }
 
 void cppadcg_thpool_add_job(thpool_function_type function,
-- 
2.43.0


From f8d96e7b5cdada13b19e2d48efa390ee40b15f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:39 +0000
Subject: [PATCH 14/45] fix: concurrent evaluations of a multithreaded model
 corrupted each other's job order

---
 include/cppad/cg/model/model_c_source_gen_impl.hpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/cppad/cg/model/model_c_source_gen_impl.hpp b/include/cppad/cg/model/model_c_source_gen_impl.hpp
index c178270..99b95a9 100644
--- a/include/cppad/cg/model/model_c_source_gen_impl.hpp
+++ b/include/cppad/cg/model/model_c_source_gen_impl.hpp
@@ -677,24 +677,25 @@ void ModelCSourceGen<Base>::printFunctionStartPThreads(std::ostringstream& cache
     cache << "   static cppadcg_thpool_function_type execute_functions[" << size << "] = ";
     repeatFill("exec_func");
     cache << "\n";
-    cache << "   static float ref_elapsed[" << size << "] = ";
+    // the timing information must not be shared with other threads using the same model
+    cache << "   static __thread float ref_elapsed[" << size << "] = ";
     repeatFill("0");
     cache << "\n";
-    cache << "   static float elapsed[" << size << "] = ";
+    cache << "   static __thread float elapsed[" << size << "] = ";
     repeatFill("0");
     cache << "\n"
-            "   static int order[" << size << "] = {";
+            "   static __thread int order[" << size << "] = {";
     for (size_t i = 0; i < size; ++i) {
         if (i != 0) cache << ", ";
         cache << i;
     }
     cache << "};\n"
-            "   static int job2Thread[" << size << "] = ";
+            "   static __thread int job2Thread[" << size << "] = ";
     repeatFill("-1");
     cache << "\n"
-            "   static int last_elapsed_changed = 1;\n"
+            "   static __thread int last_elapsed_changed = 1;\n"
             "   unsigned int nBench = cppadcg_thpool_get_n_time_meas();\n"
-            "   static unsigned int n_meas = 0;\n"
+            "   static __thread unsigned int n_meas = 0;\n"
             "   int do_benchmark = " << (size > 0 ? "(n_meas < nBench && !cppadcg_thpool_is_disabled())" : "0") << ";\n"
             "   float* elapsed_p = do_benchmark ? elapsed : NULL;\n";
 }
-- 
2.43.0


From f663a91ae5327a077d4f0a2f3fb5e867c7f00438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:50 +0000
Subject: [PATCH 15/45] fix: multithreaded Jacobian/Hessian wrote to
 unallocated job arguments when out of memory

---
 include/cppad/cg/model/model_c_source_gen_hes.hpp  | 11 ++++++++++-
 include/cppad/cg/model/model_c_source_gen_impl.hpp |  7 +++----
 include/cppad/cg/model/model_c_source_gen_jac.hpp  | 11 ++++++++++-
 3 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/include/cppad/cg/model/model_c_source_gen_hes.hpp b/include/cppad/cg/model/model_c_source_gen_hes.hpp
index 282ed78..6f04b9e 100644
--- a/include/cppad/cg/model/model_c_source_gen_hes.hpp
+++ b/include/cppad/cg/model/model_c_source_gen_hes.hpp
@@ -497,8 +497,17 @@ std::string ModelCSourceGen<Base>::generateSparseHessianRev2MultiThreadSource(co
 
         printFunctionStartPThreads(_cache, hessInfo.size());
         _cache << "\n"
+                "   argsData = (ExecArgStruct*) malloc(" << hessInfo.size() << " * sizeof(ExecArgStruct));\n"
+                "   if(argsData == NULL) {\n"
+                "      // not enough memory to use the thread pool\n"
+                "      for(i = 0; i < " << hessInfo.size() << "; ++i) {\n"
+                "         outLocal[0] = &hess[offset[i]];\n"
+                "         (*p[i])(" << argsLocal << ");\n"
+                "      }\n"
+                "      return;\n"
+                "   }\n"
                 "   for(i = 0; i < " << hessInfo.size() << "; ++i) {\n"
-                "      args[i] = (ExecArgStruct*) malloc(sizeof(ExecArgStruct));\n"
+                "      args[i] = &argsData[i];\n"
                 "      args[i]->func = p[i];\n"
                 "      args[i]->in = inLocal;\n"
                 "      args[i]->out[0] = &hess[offset[i]];\n"
diff --git a/include/cppad/cg/model/model_c_source_gen_impl.hpp b/include/cppad/cg/model/model_c_source_gen_impl.hpp
index 99b95a9..e1a8db4 100644
--- a/include/cppad/cg/model/model_c_source_gen_impl.hpp
+++ b/include/cppad/cg/model/model_c_source_gen_impl.hpp
@@ -673,7 +673,8 @@ void ModelCSourceGen<Base>::printFunctionStartPThreads(std::ostringstream& cache
         cache << "};";
     };
 
-    cache << "   ExecArgStruct* args[" << size << "];\n";
+    cache << "   ExecArgStruct* argsData;\n"
+            "   ExecArgStruct* args[" << size << "];\n";
     cache << "   static cppadcg_thpool_function_type execute_functions[" << size << "] = ";
     repeatFill("exec_func");
     cache << "\n";
@@ -707,9 +708,7 @@ void ModelCSourceGen<Base>::printFunctionEndPThreads(std::ostringstream& cache,
             "\n"
             "   cppadcg_thpool_wait();\n"
             "\n"
-            "   for(i = 0; i < " << size << "; ++i) {\n"
-            "      free(args[i]);\n"
-            "   }\n"
+            "   free(argsData);\n"
             "\n"
             "   if(do_benchmark) {\n"
             "      cppadcg_thpool_update_order(ref_elapsed, n_meas, elapsed, order, " << size << ");\n"
diff --git a/include/cppad/cg/model/model_c_source_gen_jac.hpp b/include/cppad/cg/model/model_c_source_gen_jac.hpp
index 5f41327..10ab1b3 100644
--- a/include/cppad/cg/model/model_c_source_gen_jac.hpp
+++ b/include/cppad/cg/model/model_c_source_gen_jac.hpp
@@ -442,8 +442,17 @@ std::string ModelCSourceGen<Base>::generateSparseJacobianForRevMultiThreadSource
 
         printFunctionStartPThreads(_cache, jacInfo.size());
         _cache << "\n"
+                "   argsData = (ExecArgStruct*) malloc(" << jacInfo.size() << " * sizeof(ExecArgStruct));\n"
+                "   if(argsData == NULL) {\n"
+                "      // not enough memory to use the thread pool\n"
+                "      for(i = 0; i < " << jacInfo.size() << "; ++i) {\n"
+                "         outLocal[0] = &jac[offset[i]];\n"
+                "         (*p[i])(" << argsLocal << ");\n"
+                "      }\n"
+                "      return;\n"
+                "   }\n"
                 "   for(i = 0; i < " << jacInfo.size() << "; ++i) {\n"
-                "      args[i] = (ExecArgStruct*) malloc(sizeof(ExecArgStruct));\n"
+                "      args[i] = &argsData[i];\n"
                 "      args[i]->func = p[i];\n"
                 "      args[i]->in = inLocal;\n"
                 "      args[i]->out[0] = &jac[offset[i]];\n"
-- 
2.43.0


From cad5e01dbbd7446b7efb82bdec93d70a2b13b979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:50 +0000
Subject: [PATCH 16/45] fix: sparse directional derivatives used an unallocated
 buffer when out of memory

---
 include/cppad/cg/model/model_c_source_gen_for1.hpp | 4 ++++
 include/cppad/cg/model/model_c_source_gen_rev1.hpp | 4 ++++
 include/cppad/cg/model/model_c_source_gen_rev2.hpp | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/include/cppad/cg/model/model_c_source_gen_for1.hpp b/include/cppad/cg/model/model_c_source_gen_for1.hpp
index a5d64d5..fc8d1d3 100644
--- a/include/cppad/cg/model/model_c_source_gen_for1.hpp
+++ b/include/cppad/cg/model/model_c_source_gen_for1.hpp
@@ -283,6 +283,10 @@ void ModelCSourceGen<Base>::generateForwardOneSources() {
             "   }\n"
             "\n"
             "   compressed = (" << _baseTypeName << "*) malloc(nnzMax * sizeof(" << _baseTypeName << "));\n"
+            "   if (compressed == NULL) {\n"
+            "      free(txPos);\n"
+            "      return -1; // failure to allocate memory\n"
+            "   }\n"
             "\n"
             "   for (j = 0; j < " << n << "; j++)\n"
             "      x[j] = tx[j * 2];\n"
diff --git a/include/cppad/cg/model/model_c_source_gen_rev1.hpp b/include/cppad/cg/model/model_c_source_gen_rev1.hpp
index 41f6ef0..647d1d6 100644
--- a/include/cppad/cg/model/model_c_source_gen_rev1.hpp
+++ b/include/cppad/cg/model/model_c_source_gen_rev1.hpp
@@ -289,6 +289,10 @@ void ModelCSourceGen<Base>::generateReverseOneSources() {
             "   }\n"
             "\n"
             "   compressed = (" << _baseTypeName << "*) malloc(nnzMax * sizeof(" << _baseTypeName << "));\n"
+            "   if (compressed == NULL) {\n"
+            "      free(pyPos);\n"
+            "      return -1; // failure to allocate memory\n"
+            "   }\n"
             "\n"
             "   for (ei = 0; ei < nnzPy; ei++) {\n"
             "      i = pyPos[ei];\n"
diff --git a/include/cppad/cg/model/model_c_source_gen_rev2.hpp b/include/cppad/cg/model/model_c_source_gen_rev2.hpp
index 295d4df..b83ad9f 100644
--- a/include/cppad/cg/model/model_c_source_gen_rev2.hpp
+++ b/include/cppad/cg/model/model_c_source_gen_rev2.hpp
@@ -331,6 +331,10 @@ void ModelCSourceGen<Base>::generateReverseTwoSources() {
             "        x[j] = tx[j * 2];\n"
             "\n"
             "   compressed = (" << _baseTypeName << "*) malloc(nnzMax * sizeof(" << _baseTypeName << "));\n"
+            "   if (compressed == NULL) {\n"
+            "      free(txPos);\n"
+            "      return -1; // failure to allocate memory\n"
+            "   }\n"
             "\n"
             "   for (ej = 0; ej < nnzTx; ej++) {\n"
             "      j = txPos[ej];\n"
-- 
2.43.0


From 480b3877862dd7aa9b9b41332b5dcb49f4356872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:54 +0000
Subject: [PATCH 17/45] fix: external functions overwrote the results of sparse
 directional derivatives

---
 include/cppad/cg/model/functor_generic_model.hpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/include/cppad/cg/model/functor_generic_model.hpp b/include/cppad/cg/model/functor_generic_model.hpp
index c645685..61e77d0 100644
--- a/include/cppad/cg/model/functor_generic_model.hpp
+++ b/include/cppad/cg/model/functor_generic_model.hpp
@@ -48,7 +48,8 @@ protected:
     std::vector<std::string> _atomicNames; // names of the atomic/external functions required by this model
     std::vector<ExternalFunctionWrapper<Base>* > _atomic;
     size_t _missingAtomicFunctions;
-    CppAD::vector<Base> _tx, _ty, _px, _py;
+    CppAD::vector<Base> _tx, _ty, _px, _py; // used by the external functions
+    CppAD::vector<Base> _compressed; // results of the sparse directional derivatives
     // original model function
     void (*_zero)(Base const*const*, Base * const*, LangCAtomicFun);
     // first order forward mode
@@ -480,8 +481,8 @@ public:
         unsigned long const* pos;
         size_t nnz = 0;
 
-        _ty.resize(_m);
-        Base* compressed = &_ty[0];
+        _compressed.resize(_m);
+        Base* compressed = &_compressed[0];
 
         _inHess[0] = x.data();
         _out[0] = compressed;
@@ -546,8 +547,8 @@ public:
         unsigned long const* pos;
         size_t nnz = 0;
 
-        _px.resize(_n);
-        Base* compressed = &_px[0];
+        _compressed.resize(_n);
+        Base* compressed = &_compressed[0];
 
         _inHess[0] = x.data();
         _out[0] = compressed;
@@ -616,8 +617,8 @@ public:
         unsigned long const* pos;
         size_t nnz = 0;
 
-        _px.resize(_n);
-        Base* compressed = &_px[0];
+        _compressed.resize(_n);
+        Base* compressed = &_compressed[0];
 
         const Base * in[3];
         in[0] = x.data();
-- 
2.43.0


From 3a441c209e0ba20b2bd7a5e0294d93bd04e23b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:54 +0000
Subject: [PATCH 18/45] fix: threads of a model evaluation called external
 functions with shared buffers

---
 include/cppad/cg/model/functor_generic_model.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/cppad/cg/model/functor_generic_model.hpp b/include/cppad/cg/model/functor_generic_model.hpp
index 61e77d0..89bf818 100644
--- a/include/cppad/cg/model/functor_generic_model.hpp
+++ b/include/cppad/cg/model/functor_generic_model.hpp
@@ -16,6 +16,7 @@
  * Author: Joao Leal
  */
 
+#include <mutex>
 #include <typeinfo>
 
 namespace CppAD {
@@ -48,6 +49,7 @@ protected:
     std::vector<std::string> _atomicNames; // names of the atomic/external functions required by this model
     std::vector<ExternalFunctionWrapper<Base>* > _atomic;
     size_t _missingAtomicFunctions;
+    std::mutex _externalMutex; // the threads of a model evaluation share the external functions
     CppAD::vector<Base> _tx, _ty, _px, _py; // used by the external functions
     CppAD::vector<Base> _compressed; // results of the sparse directional derivatives
     // original model function
@@ -1101,6 +1103,7 @@ private:
         auto* libModel = static_cast<FunctorGenericModel<Base>*> (libModelIn);
         ExternalFunctionWrapper<Base>* externalFunc = libModel->_atomic[atomicIndex];
 
+        std::lock_guard<std::mutex> lock(libModel->_externalMutex);
         return externalFunc->forward(*libModel, q, p, tx, *ty);
     }
 
@@ -1113,6 +1116,7 @@ private:
         auto* libModel = static_cast<FunctorGenericModel<Base>*> (libModelIn);
         ExternalFunctionWrapper<Base>* externalFunc = libModel->_atomic[atomicIndex];
 
+        std::lock_guard<std::mutex> lock(libModel->_externalMutex);
         return externalFunc->reverse(*libModel, p, tx, *px, py);
     }
 #ifdef CPPAD_CG_SYSTEM_LINUX
-- 
2.43.0


From 5cf85fc5eb8c1d243fb156c2fe478c9172de1948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:05 +0000
Subject: [PATCH 19/45] fix: failures of external functions were silently
 ignored

---
 .../cppad/cg/model/functor_generic_model.hpp  | 59 ++++++++++++++++++-
 1 file changed, 57 insertions(+), 2 deletions(-)

diff --git a/include/cppad/cg/model/functor_generic_model.hpp b/include/cppad/cg/model/functor_generic_model.hpp
index 89bf818..cd37fc9 100644
--- a/include/cppad/cg/model/functor_generic_model.hpp
+++ b/include/cppad/cg/model/functor_generic_model.hpp
@@ -16,6 +16,7 @@
  * Author: Joao Leal
  */
 
+#include <exception>
 #include <mutex>
 #include <typeinfo>
 
@@ -50,6 +51,7 @@ protected:
     std::vector<ExternalFunctionWrapper<Base>* > _atomic;
     size_t _missingAtomicFunctions;
     std::mutex _externalMutex; // the threads of a model evaluation share the external functions
+    std::exception_ptr _externalError; // the failure of an external function in the current evaluation
     CppAD::vector<Base> _tx, _ty, _px, _py; // used by the external functions
     CppAD::vector<Base> _compressed; // results of the sparse directional derivatives
     // original model function
@@ -350,6 +352,7 @@ public:
         _out[0] = dep.data();
 
         (*_zero)(&_in[0], &_out[0], _atomicFuncArg);
+        checkExternalFunctions();
     }
 
     void ForwardZero(const std::vector<const Base*> &x,
@@ -363,6 +366,7 @@ public:
         _out[0] = dep.data();
 
         (*_zero)(&x[0], &_out[0], _atomicFuncArg);
+        checkExternalFunctions();
     }
 
     void ForwardZero(const CppAD::vector<bool>& vx,
@@ -381,6 +385,7 @@ public:
         _out[0] = ty.data();
 
         (*_zero)(&_in[0], &_out[0], _atomicFuncArg);
+        checkExternalFunctions();
 
         if (vx.size() > 0) {
             CPPADCG_ASSERT_KNOWN(vx.size() >= _n, "Invalid vx size")
@@ -417,6 +422,7 @@ public:
         _out[0] = jac.data();
 
         (*_jacobian)(&_in[0], &_out[0], _atomicFuncArg);
+        checkExternalFunctions();
     }
 
     bool isHessianAvailable() override {
@@ -441,6 +447,7 @@ public:
         _out[0] = hess.data();
 
         (*_hessian)(&_inHess[0], &_out[0], _atomicFuncArg);
+        checkExternalFunctions();
     }
 
     bool isForwardOneAvailable() override {
@@ -458,6 +465,7 @@ public:
         CPPADCG_ASSERT_KNOWN(_missingAtomicFunctions == 0, "Some atomic functions used by the compiled model have not been specified yet")
 
         int ret = (*_forwardOne)(tx.data(), ty.data(), _atomicFuncArg);
+        checkExternalFunctions();
 
         CPPADCG_ASSERT_KNOWN(ret == 0, "First-order forward mode failed.") // generic failure
     }
@@ -495,6 +503,7 @@ public:
 
             _inHess[1] = &tx1[ej];
             int ret = (*_sparseForwardOne)(j, &_inHess[0], &_out[0], _atomicFuncArg);
+            checkExternalFunctions();
 
             CPPADCG_ASSERT_KNOWN(ret == 0, "First-order forward mode failed.") // generic failure
 
@@ -524,6 +533,7 @@ public:
         CPPADCG_ASSERT_KNOWN(_missingAtomicFunctions == 0, "Some atomic functions used by the compiled model have not been specified yet")
 
         int ret = (*_reverseOne)(tx.data(), ty.data(), px.data(), py.data(), _atomicFuncArg);
+        checkExternalFunctions();
 
         CPPADCG_ASSERT_KNOWN(ret == 0, "First-order reverse mode failed.")
     }
@@ -561,6 +571,7 @@ public:
 
             _inHess[1] = &py[ei];
             int ret = (*_sparseReverseOne)(i, &_inHess[0], &_out[0], _atomicFuncArg);
+            checkExternalFunctions();
 
             CPPADCG_ASSERT_KNOWN(ret == 0, "First-order reverse mode failed.")
 
@@ -591,6 +602,7 @@ public:
         CPPADCG_ASSERT_KNOWN(_missingAtomicFunctions == 0, "Some atomic functions used by the compiled model have not been specified yet")
 
         int ret = (*_reverseTwo)(tx.data(), ty.data(), px.data(), py.data(), _atomicFuncArg);
+        checkExternalFunctions();
 
         CPPADCG_ASSERT_KNOWN(ret != 1, "Second-order reverse mode failed: py[2*i] (i=0...m) must be zero.")
         CPPADCG_ASSERT_KNOWN(ret == 0, "Second-order reverse mode failed.")
@@ -633,6 +645,7 @@ public:
 
             in[1] = &tx1[ej];
             int ret = (*_sparseReverseTwo)(j, &in[0], &_out[0], _atomicFuncArg);
+            checkExternalFunctions();
 
             CPPADCG_ASSERT_KNOWN(ret == 0, "Second-order reverse mode failed.") // generic failure
 
@@ -670,6 +683,7 @@ public:
             _out[0] = &compressed[0];
 
             (*_sparseJacobian)(&_in[0], &_out[0], _atomicFuncArg);
+            checkExternalFunctions();
         }
 
         createDenseFromSparse(compressed,
@@ -703,6 +717,7 @@ public:
             _out[0] = &jac[0];
 
             (*_sparseJacobian)(&_in[0], &_out[0], _atomicFuncArg);
+            checkExternalFunctions();
             std::copy(drow, drow + nnz, row.begin());
             std::copy(dcol, dcol + nnz, col.begin());
         }
@@ -732,6 +747,7 @@ public:
             _out[0] = jac.data();
 
             (*_sparseJacobian)(&_in[0], &_out[0], _atomicFuncArg);
+            checkExternalFunctions();
         }
     }
 
@@ -756,6 +772,7 @@ public:
             _out[0] = jac.data();
 
             (*_sparseJacobian)(&x[0], &_out[0], _atomicFuncArg);
+            checkExternalFunctions();
         }
     }
 
@@ -788,6 +805,7 @@ public:
             _out[0] = &compressed[0];
 
             (*_sparseHessian)(&_inHess[0], &_out[0], _atomicFuncArg);
+            checkExternalFunctions();
         }
 
         createDenseFromSparse(compressed,
@@ -827,6 +845,7 @@ public:
             _out[0] = &hess[0];
 
             (*_sparseHessian)(&_inHess[0], &_out[0], _atomicFuncArg);
+            checkExternalFunctions();
         }
     }
 
@@ -856,6 +875,7 @@ public:
             _out[0] = hess.data();
 
             (*_sparseHessian)(&_inHess[0], &_out[0], _atomicFuncArg);
+            checkExternalFunctions();
         }
     }
 
@@ -883,6 +903,7 @@ public:
             _out[0] = hess.data();
 
             (*_sparseHessian)(&_inHess[0], &_out[0], _atomicFuncArg);
+            checkExternalFunctions();
         }
     }
 
@@ -1094,6 +1115,36 @@ private:
         return false;
     }
 
+    /**
+     * Calls an external function and saves its failure, since it can neither
+     * be thrown through the model library nor from one of its threads.
+     */
+    template<class Call>
+    inline bool callExternalFunction(int atomicIndex,
+                                     Call call) {
+        try {
+            if (call())
+                return true;
+            throw CGException("The evaluation of the external function '", _atomicNames[atomicIndex], "' failed.");
+        } catch (...) {
+            if (!_externalError)
+                _externalError = std::current_exception();
+        }
+        return false;
+    }
+
+    /**
+     * Reports the failure of an external function during the evaluation of
+     * the model library which has just ended.
+     */
+    inline void checkExternalFunctions() {
+        if (_externalError) {
+            std::exception_ptr e = std::move(_externalError);
+            _externalError = nullptr;
+            std::rethrow_exception(e);
+        }
+    }
+
     static int atomicForward(void* libModelIn,
                              int atomicIndex,
                              int q,
@@ -1104,7 +1155,9 @@ private:
         ExternalFunctionWrapper<Base>* externalFunc = libModel->_atomic[atomicIndex];
 
         std::lock_guard<std::mutex> lock(libModel->_externalMutex);
-        return externalFunc->forward(*libModel, q, p, tx, *ty);
+        return libModel->callExternalFunction(atomicIndex, [&]() {
+            return externalFunc->forward(*libModel, q, p, tx, *ty);
+        });
     }
 
     static int atomicReverse(void* libModelIn,
@@ -1117,7 +1170,9 @@ private:
         ExternalFunctionWrapper<Base>* externalFunc = libModel->_atomic[atomicIndex];
 
         std::lock_guard<std::mutex> lock(libModel->_externalMutex);
-        return externalFunc->reverse(*libModel, p, tx, *px, py);
+        return libModel->callExternalFunction(atomicIndex, [&]() {
+            return externalFunc->reverse(*libModel, p, tx, *px, py);
+        });
     }
 #ifdef CPPAD_CG_SYSTEM_LINUX
     friend class LinuxDynamicLib<Base>;
-- 
2.43.0


From 34105b8b5028eb543f0edef8a05d013fe3790fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:50 +0000
Subject: [PATCH 20/45] fix: results of atomic functions used by other
 dependents were read before being assigned

---
 include/cppad/cg/code_handler_impl.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/cppad/cg/code_handler_impl.hpp b/include/cppad/cg/code_handler_impl.hpp
index c4b8217..e707e81 100644
--- a/include/cppad/cg/code_handler_impl.hpp
+++ b/include/cppad/cg/code_handler_impl.hpp
@@ -1563,8 +1563,11 @@ void CodeHandler<Base>::checkVariableCreation(Node& root) {
                 }
 
                 // determine if this variable should be temporary/dependent variable
+                // (an array element which is also a dependent variable already
+                // has an ID and, therefore, it must be assigned before it is used)
                 if (_lang->createsNewVariable(arg, getTotalUsageCount(arg), opCount) ||
-                    _lang->requiresVariableArgument(code.getOperationType(), argIndex)) {
+                    _lang->requiresVariableArgument(code.getOperationType(), argIndex) ||
+                    (aType == CGOpCode::ArrayElement && _varId[arg] != 0)) {
 
                     addToEvaluationQueue(arg);
 
-- 
2.43.0


From 05132ed5232f46c3ec686fbed2dde92733cea857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:53 +0000
Subject: [PATCH 21/45] fix: multithreaded sparse Hessian used wrong weights
 for reordered columns

The wrapper functions are called with the arguments of the sparse
second-order functions, where the weights are the third argument.
---
 include/cppad/cg/model/model_c_source_gen_hes.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cppad/cg/model/model_c_source_gen_hes.hpp b/include/cppad/cg/model/model_c_source_gen_hes.hpp
index 6f04b9e..6ff34ec 100644
--- a/include/cppad/cg/model/model_c_source_gen_hes.hpp
+++ b/include/cppad/cg/model/model_c_source_gen_hes.hpp
@@ -419,7 +419,7 @@ std::string ModelCSourceGen<Base>::generateSparseHessianRev2MultiThreadSource(co
                 "\n"
                 "   inLocal[0] = in[0];\n"
                 "   inLocal[1] = &inLocal1;\n"
-                "   inLocal[2] = in[1];\n"
+                "   inLocal[2] = in[2];\n"
                 "   outLocal[0] = compressed;\n";
         _cache << "   " << functionRev2 << "_" << rev2Suffix << index << "(" << argsLocal << ");\n";
         for (size_t e = 0; e < els.size(); e++) {
-- 
2.43.0


From 498afce08e60086acfd706e8990d54bca3b9a226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:59 +0000
Subject: [PATCH 22/45] fix: ModelLibraryCSourceGen::saveSources() did not
 compile when used

---
 include/cppad/cg/model/model_library_c_source_gen_impl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cppad/cg/model/model_library_c_source_gen_impl.hpp b/include/cppad/cg/model/model_library_c_source_gen_impl.hpp
index 6d8804a..f473f09 100644
--- a/include/cppad/cg/model/model_library_c_source_gen_impl.hpp
+++ b/include/cppad/cg/model/model_library_c_source_gen_impl.hpp
@@ -79,7 +79,7 @@ void ModelLibraryCSourceGen<Base>::saveSources(const std::string& sourcesFolder)
 
     // save/generate model sources
     for (const auto& it : _models) {
-        saveSources(sourcesFolder, it.second->getSources());
+        saveSources(sourcesFolder, it.second->getSources(_multiThreading, this));
     }
 
     // save/generate library sources
-- 
2.43.0


From a1df6ae3f0eba64e5e008cc19da45008b30d5367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:08 +0000
Subject: [PATCH 23/45] fix: running external tools could deadlock, kill or
 disturb the calling process

callExecutable() wrote all its input before reading any output, stopped
reading large outputs (and then waited for the blocked executable), treated
interrupted system calls as failures or as the end of the output, was
killed by SIGPIPE when the executable did not read its input, left exit
handlers and buffered output of the caller to be executed by the child
process, and leaked its pipes to concurrently started executables.
Failed write calls are now continued, the pipes are not inherited, and the
child is always waited for.
---
 .../cppad/cg/model/system/linux_system.hpp    | 330 ++++++++++++------
 1 file changed, 214 insertions(+), 116 deletions(-)

diff --git a/include/cppad/cg/model/system/linux_system.hpp b/include/cppad/cg/model/system/linux_system.hpp
index 1b0c932..9aa5f48 100644
--- a/include/cppad/cg/model/system/linux_system.hpp
+++ b/include/cppad/cg/model/system/linux_system.hpp
@@ -17,6 +17,11 @@
  */
 
 #if CPPAD_CG_SYSTEM_LINUX
+#include <cerrno>
+#include <cstring>
+#include <fcntl.h>
+#include <poll.h>
+#include <signal.h>
 #include <unistd.h>
 #include <sys/types.h>
 #include <sys/wait.h>
@@ -68,15 +73,111 @@ public:
     FDHandler write;
 public:
 
+    /**
+     * Creates the pipe with descriptors which are not inherited by executed
+     * programs and which are not mistaken for the standard streams.
+     */
     inline void create() {
         int fd[2]; /** file descriptors used to communicate between processes*/
+#ifndef CPPAD_CG_SYSTEM_APPLE
+        if (pipe2(fd, O_CLOEXEC) < 0) {
+            throw CGException("Failed to create pipe");
+        }
+#else
         if (pipe(fd) < 0) {
             throw CGException("Failed to create pipe");
         }
+        fcntl(fd[0], F_SETFD, FD_CLOEXEC);
+        fcntl(fd[1], F_SETFD, FD_CLOEXEC);
+#endif
         read.fd = fd[0];
         read.closed = false;
         write.fd = fd[1];
         write.closed = false;
+
+        moveAboveStandardStreams(read);
+        moveAboveStandardStreams(write);
+    }
+
+private:
+
+    inline static void moveAboveStandardStreams(FDHandler& handler) {
+        if (handler.fd <= STDERR_FILENO) {
+            int fd = fcntl(handler.fd, F_DUPFD_CLOEXEC, STDERR_FILENO + 1);
+            if (fd < 0) {
+                throw CGException("Failed to create pipe");
+            }
+            handler.close();
+            handler.fd = fd;
+            handler.closed = false;
+        }
+    }
+};
+
+/**
+ * Utility class which waits for the end of a child process
+ */
+class ChildHandler {
+public:
+    pid_t pid;
+public:
+
+    inline ChildHandler() : pid(-1) {
+    }
+
+    /**
+     * Waits for the process to end.
+     *
+     * @param status the process status
+     * @return true if the status could be determined
+     */
+    inline bool wait(int& status) {
+        pid_t ret;
+        do {
+            ret = waitpid(pid, &status, 0);
+        } while (ret < 0 && errno == EINTR);
+        pid = -1;
+        return ret >= 0;
+    }
+
+    inline ~ChildHandler() {
+        int status;
+        if (pid > 0) {
+            wait(status);
+        }
+    }
+};
+
+/**
+ * Utility class which prevents the current thread from receiving a SIGPIPE
+ */
+class SigPipeBlocker {
+private:
+    sigset_t sigPipe_;
+    sigset_t oldMask_;
+    bool wasPending_;
+public:
+
+    inline SigPipeBlocker() {
+        sigset_t pending;
+        sigemptyset(&pending);
+        sigpending(&pending);
+        wasPending_ = sigismember(&pending, SIGPIPE) == 1;
+
+        sigemptyset(&sigPipe_);
+        sigaddset(&sigPipe_, SIGPIPE);
+        pthread_sigmask(SIG_BLOCK, &sigPipe_, &oldMask_);
+    }
+
+    inline ~SigPipeBlocker() {
+        sigset_t pending;
+        sigemptyset(&pending);
+        sigpending(&pending);
+        if (!wasPending_ && sigismember(&pending, SIGPIPE) == 1) {
+            int sig;
+            sigwait(&sigPipe_, &sig); // discard it
+        }
+        pthread_sigmask(SIG_SETMASK, &oldMask_, nullptr);
     }
 };
 
@@ -199,8 +300,21 @@ inline void callExecutable(const std::string& executable,
                            const std::vector<std::string>& args,
                            std::string* stdOutErrMessage,
                            const std::string* stdInMessage) {
+    // limit for the text read from the executable
+    const size_t MAX_OUTPUT_SIZE = 10000000;
+
     std::string execName = filenameFromPath(executable);
 
+    // only async-signal-safe functions can be used by the child process
+    std::vector<char*> args2(args.size() + 2);
+    args2[0] = const_cast<char*> (execName.c_str());
+    for (size_t i = 0; i < args.size(); i++) {
+        args2[i + 1] = const_cast<char*> (args[i].c_str());
+    }
+    args2.back() = (char *) nullptr; // END
+
+    ChildHandler child; // must be destroyed after the pipes
+
     PipeHandler pipeMsg; // file descriptors used to communicate between processes
     pipeMsg.create();
 
@@ -213,104 +327,55 @@ inline void callExecutable(const std::string& executable,
     if (stdInMessage != nullptr) {
         //Create pipe for piping source to the compiler
         pipeSrc.create();
+        // the executable might not read its standard input
+        if (fcntl(pipeSrc.write.fd, F_SETFL, O_NONBLOCK) < 0) {
+            throw CGException("Failed to create pipe");
+        }
     }
 
     //Fork the compiler, pipe source to it, wait for the compiler to exit
-    pid_t pid = fork();
-    if (pid < 0) {
+    child.pid = fork();
+    if (child.pid < 0) {
         throw CGException("Failed to fork process");
     }
 
-    if (pid == 0) {
+    if (child.pid == 0) {
         /***********************************************************************
          * Child process
          **********************************************************************/
-        pipeMsg.read.close();
-
-        if (stdInMessage != nullptr) {
-            pipeSrc.write.close(); // close write end of pipe
-            // Send pipe input to stdin
-            close(STDIN_FILENO);
-            if (dup2(pipeSrc.read.fd, STDIN_FILENO) == -1) {
-                perror("redirecting stdin");
-                exit(EXIT_FAILURE);
-            }
-        }
-
-        if(stdOutErrMessage != nullptr) {
-            pipeStdOutErr.read.close(); // close read end of pipe
-
-            // redirect stdout
-            if (dup2(pipeStdOutErr.write.fd, STDOUT_FILENO) == -1) {
-                perror("redirecting stdout");
-                exit(EXIT_FAILURE);
-            }
-
-            // redirect stderr
-            if (dup2(pipeStdOutErr.write.fd, STDERR_FILENO) == -1) {
-                perror("redirecting stderr");
-                exit(EXIT_FAILURE);
-            }
-        }
-
-        auto toCharArray = [](const std::string & args) {
-            const size_t s = args.size() + 1;
-            char* args2 = new char[s];
-            for (size_t c = 0; c < s - 1; c++) {
-                args2[c] = args.at(c);
-            }
-            args2[s - 1] = '\0';
-            return args2;
+        auto redirect = [](int fd, int stdFd) {
+            int ret;
+            do {
+                ret = dup2(fd, stdFd);
+            } while (ret == -1 && errno == EINTR);
+            return ret != -1;
         };
 
-        std::vector<char*> args2(args.size() + 2);
-        args2[0] = toCharArray(execName);
-        for (size_t i = 0; i < args.size(); i++) {
-            args2[i + 1] = toCharArray(args[i]);
+        // all other descriptors are closed by the execution of the program
+        if ((stdInMessage == nullptr || redirect(pipeSrc.read.fd, STDIN_FILENO)) &&
+                (stdOutErrMessage == nullptr || (redirect(pipeStdOutErr.write.fd, STDOUT_FILENO) &&
+                                                 redirect(pipeStdOutErr.write.fd, STDERR_FILENO)))) {
+            execv(executable.c_str(), &args2[0]);
         }
-        args2.back() = (char *) nullptr; // END             
 
-        int eCode = execv(executable.c_str(), &args2[0]);
-
-        for (size_t i = 0; i < args.size(); i++) {
-            delete [] args2[i];
-        }
-
-        if(stdOutErrMessage != nullptr) {
-            pipeStdOutErr.write.close();
-        }
-
-        if (eCode < 0) {
-            char buf[512];
-#ifndef CPPAD_CG_SYSTEM_APPLE
-            std::string error = executable + ": " + strerror_r(errno, buf, 511); // thread safe
-#else
-            std::string error = executable + ": ";
-            strerror_r(errno, buf, 511); // thread safe
-            error += std::string(buf);
-#endif
-            ssize_t size = error.size() + 1;
-            if (write(pipeMsg.write.fd, error.c_str(), size) != size) {
-                std::cerr << "Failed to send message to parent process" << std::endl;
-            }
-            std::cerr << "*** ERROR: exec failed" << std::endl;
-            exit(EXIT_FAILURE);
-        }
+        int error = errno;
+        ssize_t n;
+        do {
+            n = write(pipeMsg.write.fd, &error, sizeof (error));
+        } while (n < 0 && errno == EINTR);
 
-        exit(EXIT_SUCCESS);
+        // must not execute the exit handlers of the parent process
+        _exit(EXIT_FAILURE);
     }
 
     /***************************************************************************
      * Parent process
      **************************************************************************/
     pipeMsg.write.close();
-    if(stdOutErrMessage != nullptr) {
-        pipeStdOutErr.write.close();
-    }
+    pipeStdOutErr.write.close();
+    pipeSrc.read.close();
 
-    auto readCErrorMsg = []() {
-        int error = errno;
-        errno = 0;
+    auto cErrorMsg = [](int error) {
         char buf[512];
 #ifndef CPPAD_CG_SYSTEM_APPLE
         return std::string(strerror_r(error, buf, 512));
@@ -321,53 +386,86 @@ inline void callExecutable(const std::string& executable,
     };
 
     std::string writeError;
-    if (stdInMessage != nullptr) {
-        // close read end of pipe
-        pipeSrc.read.close();
-        //Pipe source to the executable
-        ssize_t writeFlag = write(pipeSrc.write.fd, stdInMessage->c_str(), stdInMessage->size());
-        if (writeFlag == -1)
-            writeError = readCErrorMsg() + " ";
-        pipeSrc.write.close();
-    }
+    std::string messageErr;
+    std::string messageStdOutErr;
+    int childError = 0;
+    size_t childErrorSize = 0;
+    size_t written = 0;
+
+    {
+        SigPipeBlocker sigPipeBlocker;
+        char buffer[4096];
+
+        if (stdInMessage != nullptr && stdInMessage->empty()) {
+            pipeSrc.write.close();
+        }
 
-    //Wait for the executable to exit
-    int status;
-    // Read message from the child
-    std::ostringstream messageErr;
-    std::ostringstream messageStdOutErr;
-    size_t size = 0;
-    char buffer[128];
-    do {
-        ssize_t n;
-        if(stdOutErrMessage != nullptr) {
-            while ((n = read(pipeStdOutErr.read.fd, buffer, sizeof (buffer))) > 0) {
-                messageStdOutErr.write(buffer, n);
-                size += n;
-                if (size > 1e4) break;
+        while (!pipeMsg.read.closed || !pipeStdOutErr.read.closed || !pipeSrc.write.closed) {
+            // closed descriptors are ignored
+            struct pollfd fds[3] = {
+                {pipeMsg.read.closed ? -1 : pipeMsg.read.fd, POLLIN, 0},
+                {pipeStdOutErr.read.closed ? -1 : pipeStdOutErr.read.fd, POLLIN, 0},
+                {pipeSrc.write.closed ? -1 : pipeSrc.write.fd, POLLOUT, 0}
+            };
+
+            if (poll(fds, 3, -1) < 0) {
+                if (errno == EINTR) continue;
+                throw CGException("Failed to communicate with '", executable, "': ", cErrorMsg(errno));
             }
-        }
 
-        while ((n = read(pipeMsg.read.fd, buffer, sizeof (buffer))) > 0) {
-            messageErr.write(buffer, n);
-            size += n;
-            if (size > 1e4) break;
-        }
+            if (fds[0].revents != 0) {
+                // error message from the child
+                ssize_t n = read(pipeMsg.read.fd, reinterpret_cast<char*> (&childError) + childErrorSize,
+                                 sizeof (childError) - childErrorSize);
+                if (n > 0) {
+                    childErrorSize += n;
+                }
+                if (n == 0 || (n < 0 && errno != EINTR) || childErrorSize == sizeof (childError)) {
+                    pipeMsg.read.close();
+                }
+            }
+
+            if (fds[1].revents != 0) {
+                // output of the executable
+                ssize_t n = read(pipeStdOutErr.read.fd, buffer, sizeof (buffer));
+                if (n > 0) {
+                    messageStdOutErr.append(buffer, n);
+                }
+                if (n == 0 || (n < 0 && errno != EINTR) || messageStdOutErr.size() > MAX_OUTPUT_SIZE) {
+                    pipeStdOutErr.read.close();
+                }
+            }
 
-        if (waitpid(pid, &status, 0) < 0) {
-            throw CGException("Waitpid failed for pid ", pid, " [", readCErrorMsg(), "]");
+            if (fds[2].revents != 0) {
+                //Pipe source to the executable
+                ssize_t n = write(pipeSrc.write.fd, stdInMessage->c_str() + written, stdInMessage->size() - written);
+                if (n >= 0) {
+                    written += n;
+                } else if (errno != EINTR && errno != EAGAIN) {
+                    writeError = cErrorMsg(errno) + " ";
+                }
+                if (written == stdInMessage->size() || !writeError.empty()) {
+                    pipeSrc.write.close();
+                }
+            }
         }
-    } while (!WIFEXITED(status) && !WIFSIGNALED(status));
+    }
 
-    pipeMsg.read.close();
-    if(stdOutErrMessage != nullptr) {
-        pipeStdOutErr.read.close();
+    //Wait for the executable to exit
+    int status;
+    pid_t pid = child.pid;
+    if (!child.wait(status)) {
+        throw CGException("Waitpid failed for pid ", pid, " [", cErrorMsg(errno), "]");
+    }
+
+    if (childErrorSize == sizeof (childError)) {
+        messageErr = executable + ": " + cErrorMsg(childError);
     }
 
     if (!writeError.empty()) {
         std::ostringstream s;
         s << "Failed to write to pipe";
-        if (size > 0) s << ": " << messageErr.str();
+        if (!messageErr.empty()) s << ": " << messageErr;
         else s << ": " << writeError;
         throw CGException(s.str());
     }
@@ -376,18 +474,18 @@ inline void callExecutable(const std::string& executable,
         if (WEXITSTATUS(status) != EXIT_SUCCESS) {
             std::ostringstream s;
             s << "Executable '" << executable << "' (pid " << pid << ") exited with code " << WEXITSTATUS(status);
-            if (size > 0) s << ": " << messageErr.str();
+            if (!messageErr.empty()) s << ": " << messageErr;
             throw CGException(s.str());
         }
     } else if (WIFSIGNALED(status)) {
         std::ostringstream s;
         s << "Executable '" << executable << "' (pid " << pid << ") terminated by signal " << WTERMSIG(status);
-        if (size > 0) s << ": " << messageErr.str();
+        if (!messageErr.empty()) s << ": " << messageErr;
         throw CGException(s.str());
     }
 
     if (stdOutErrMessage != nullptr) {
-        *stdOutErrMessage = messageStdOutErr.str();
+        *stdOutErrMessage = std::move(messageStdOutErr);
     }
 }
 
-- 
2.43.0


From fbc7acab7c87388ffc85d02608c325757948ee72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:40 +0000
Subject: [PATCH 24/45] fix: ClangCompiler created bitcode instead of object
 files after generateLLVMBitCode()

---
 include/cppad/cg/model/compiler/clang_compiler.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cppad/cg/model/compiler/clang_compiler.hpp b/include/cppad/cg/model/compiler/clang_compiler.hpp
index af5c2fc..d220037 100644
--- a/include/cppad/cg/model/compiler/clang_compiler.hpp
+++ b/include/cppad/cg/model/compiler/clang_compiler.hpp
@@ -79,6 +79,7 @@ public:
             this->_compileFlags.pop_back();
             throw;
         }
+        this->_compileFlags.pop_back();
     }
 
     /**
-- 
2.43.0


From 42f7a321937b021fa449e29bce897a498e3289b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:40 +0000
Subject: [PATCH 25/45] fix: failures to save source files were ignored

---
 .../cg/model/compiler/abstract_c_compiler.hpp  |  5 +----
 .../model/model_library_c_source_gen_impl.hpp  |  6 +-----
 .../save_files_model_library_processor.hpp     |  6 +-----
 include/cppad/cg/model/system/system.hpp       | 18 ++++++++++++++++++
 4 files changed, 21 insertions(+), 14 deletions(-)

diff --git a/include/cppad/cg/model/compiler/abstract_c_compiler.hpp b/include/cppad/cg/model/compiler/abstract_c_compiler.hpp
index d50f0b5..5dab753 100644
--- a/include/cppad/cg/model/compiler/abstract_c_compiler.hpp
+++ b/include/cppad/cg/model/compiler/abstract_c_compiler.hpp
@@ -217,11 +217,8 @@ public:
 
             if (_saveToDiskFirst) {
                 // save a new source file to disk
-                std::ofstream sourceFile;
                 std::string srcfile = system::createPath(_sourcesFolder, it->first);
-                sourceFile.open(srcfile.c_str());
-                sourceFile << it->second;
-                sourceFile.close();
+                system::saveFile(srcfile, it->second);
 
                 // compile the file
                 compileFile(srcfile, file, posIndepCode);
diff --git a/include/cppad/cg/model/model_library_c_source_gen_impl.hpp b/include/cppad/cg/model/model_library_c_source_gen_impl.hpp
index f473f09..cad9106 100644
--- a/include/cppad/cg/model/model_library_c_source_gen_impl.hpp
+++ b/include/cppad/cg/model/model_library_c_source_gen_impl.hpp
@@ -94,11 +94,7 @@ void ModelLibraryCSourceGen<Base>::saveSources(const std::string& sourcesFolder,
                                                const std::map<std::string, std::string>& sources) {
     for (const auto& it : sources) {
         // for debugging purposes only
-        std::ofstream sourceFile;
-        std::string file = system::createPath(sourcesFolder, it.first);
-        sourceFile.open(file.c_str());
-        sourceFile << it.second;
-        sourceFile.close();
+        system::saveFile(system::createPath(sourcesFolder, it.first), it.second);
     }
 }
 
diff --git a/include/cppad/cg/model/save_files_model_library_processor.hpp b/include/cppad/cg/model/save_files_model_library_processor.hpp
index 69a3850..b115082 100644
--- a/include/cppad/cg/model/save_files_model_library_processor.hpp
+++ b/include/cppad/cg/model/save_files_model_library_processor.hpp
@@ -42,11 +42,7 @@ public:
     inline void saveSourcesTo(const std::string& sourcesFolder) {
 
         auto saveFile = [&](const std::string& filename, const std::string& source){
-            std::ofstream sourceFile;
-            std::string file = system::createPath(sourcesFolder, filename);
-            sourceFile.open(file.c_str());
-            sourceFile << source;
-            sourceFile.close();
+            system::saveFile(system::createPath(sourcesFolder, filename), source);
         };
 
         system::createFolder(sourcesFolder);
diff --git a/include/cppad/cg/model/system/system.hpp b/include/cppad/cg/model/system/system.hpp
index ad3cba9..9923de7 100644
--- a/include/cppad/cg/model/system/system.hpp
+++ b/include/cppad/cg/model/system/system.hpp
@@ -96,6 +96,24 @@ inline bool isDirectory(const std::string& path);
  */
 inline bool isFile(const std::string& path);
 
+/**
+ * Saves a text in a file (an existing file is replaced)
+ *
+ * @param path the path to the file
+ * @param text the content of the file
+ * @throws CGException on failure to save the complete text
+ */
+inline void saveFile(const std::string& path,
+                     const std::string& text) {
+    std::ofstream file;
+    file.open(path.c_str());
+    file << text;
+    file.close();
+    if (!file) {
+        throw CGException("Failed to save file '", path, "'");
+    }
+}
+
 /**
  * Calls an external executable (system dependent).
  * In the case of an error during execution an exception will be thrown.
-- 
2.43.0


From 304d50735d22b24ede5a55f78767ace59f41dc3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:40 +0000
Subject: [PATCH 26/45] fix: a library created with a custom extension was not
 the one loaded

---
 .../linux/linux_dynamic_model_library_processor.hpp    | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/cppad/cg/model/dynamic_lib/linux/linux_dynamic_model_library_processor.hpp b/include/cppad/cg/model/dynamic_lib/linux/linux_dynamic_model_library_processor.hpp
index 3f8d074..9875b85 100644
--- a/include/cppad/cg/model/dynamic_lib/linux/linux_dynamic_model_library_processor.hpp
+++ b/include/cppad/cg/model/dynamic_lib/linux/linux_dynamic_model_library_processor.hpp
@@ -22,12 +22,18 @@ namespace cg {
 template<class Base>
 std::unique_ptr<DynamicLib<Base>> DynamicModelLibraryProcessor<Base>::loadDynamicLibrary() {
     std::unique_ptr<DynamicLib<Base>> lib;
+    std::string libname = _libraryName;
+    if (_customLibExtension != nullptr)
+        libname += *_customLibExtension;
+    else
+        libname += system::SystemInfo<>::DYNAMIC_LIB_EXTENSION;
+
     const auto it = _options.find("dlOpenMode");
     if (it == _options.end()) {
-        lib.reset(new LinuxDynamicLib<Base>(_libraryName + system::SystemInfo<>::DYNAMIC_LIB_EXTENSION));
+        lib.reset(new LinuxDynamicLib<Base>(libname));
     } else {
         int dlOpenMode = std::stoi(it->second);
-        lib.reset(new LinuxDynamicLib<Base>(_libraryName + system::SystemInfo<>::DYNAMIC_LIB_EXTENSION, dlOpenMode));
+        lib.reset(new LinuxDynamicLib<Base>(libname, dlOpenMode));
     }
     return lib;
 }
-- 
2.43.0


From a083722a293e34c4b31368d7a84b4e3bf3be3d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:41 +0000
Subject: [PATCH 27/45] fix: creating a static library kept the objects of an
 existing library

---
 include/cppad/cg/model/dynamic_lib/ar_archiver.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/cppad/cg/model/dynamic_lib/ar_archiver.hpp b/include/cppad/cg/model/dynamic_lib/ar_archiver.hpp
index 48ff2ba..4723200 100644
--- a/include/cppad/cg/model/dynamic_lib/ar_archiver.hpp
+++ b/include/cppad/cg/model/dynamic_lib/ar_archiver.hpp
@@ -69,6 +69,11 @@ public:
             std::cout << "building library '" << library << "'" << std::endl;
         }
 
+        // otherwise the members of an existing library would be kept
+        if (system::isFile(library) && std::remove(library.c_str()) != 0) {
+            throw CGException("Failed to replace library '", library, "'");
+        }
+
         system::callExecutable(_arPath, args);
 
         if (timer != nullptr) {
-- 
2.43.0


From 9290bee49bbd9cbc6f51ca220297acad6e8172c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:08 +0000
Subject: [PATCH 28/45] fix: source files with the same name silently replaced
 each other in libraries

---
 .../dynamic_lib/dynamic_library_processor.hpp |  8 +++++++
 .../cg/model/model_library_c_source_gen.hpp   | 13 +++++++++++
 .../model/model_library_c_source_gen_impl.hpp | 22 ++++++++++++++++---
 .../save_files_model_library_processor.hpp    | 22 ++++++++-----------
 4 files changed, 49 insertions(+), 16 deletions(-)

diff --git a/include/cppad/cg/model/dynamic_lib/dynamic_library_processor.hpp b/include/cppad/cg/model/dynamic_lib/dynamic_library_processor.hpp
index 9f40a4f..268329a 100644
--- a/include/cppad/cg/model/dynamic_lib/dynamic_library_processor.hpp
+++ b/include/cppad/cg/model/dynamic_lib/dynamic_library_processor.hpp
@@ -130,9 +130,11 @@ public:
         this->modelLibraryHelper_->startingJob("", JobTimer::DYNAMIC_MODEL_LIBRARY);
 
         const std::map<std::string, ModelCSourceGen < Base>*>&models = this->modelLibraryHelper_->getModels();
+        std::set<std::string> sourceNames;
         try {
             for (const auto& p : models) {
                 const std::map<std::string, std::string>& modelSources = this->getSources(*p.second);
+                ModelLibraryCSourceGen<Base>::addSourceNames(sourceNames, modelSources);
 
                 this->modelLibraryHelper_->startingJob("", JobTimer::COMPILING_FOR_MODEL);
                 compiler.compileSources(modelSources, true, this->modelLibraryHelper_);
@@ -140,9 +142,11 @@ public:
             }
 
             const std::map<std::string, std::string>& sources = this->getLibrarySources();
+            ModelLibraryCSourceGen<Base>::addSourceNames(sourceNames, sources);
             compiler.compileSources(sources, true, this->modelLibraryHelper_);
 
             const std::map<std::string, std::string>& customSource = this->modelLibraryHelper_->getCustomSources();
+            ModelLibraryCSourceGen<Base>::addSourceNames(sourceNames, customSource);
             compiler.compileSources(customSource, true, this->modelLibraryHelper_);
 
             std::string libname = _libraryName;
@@ -187,9 +191,11 @@ public:
         this->modelLibraryHelper_->startingJob("", JobTimer::STATIC_MODEL_LIBRARY);
 
         const std::map<std::string, ModelCSourceGen<Base>*>& models = this->modelLibraryHelper_->getModels();
+        std::set<std::string> sourceNames;
         try {
             for (const auto& p : models) {
                 const std::map<std::string, std::string>& modelSources = this->getSources(*p.second);
+                ModelLibraryCSourceGen<Base>::addSourceNames(sourceNames, modelSources);
 
                 this->modelLibraryHelper_->startingJob("", JobTimer::COMPILING_FOR_MODEL);
                 compiler.compileSources(modelSources, posIndepCode, this->modelLibraryHelper_);
@@ -197,9 +203,11 @@ public:
             }
 
             const std::map<std::string, std::string>& sources = this->getLibrarySources();
+            ModelLibraryCSourceGen<Base>::addSourceNames(sourceNames, sources);
             compiler.compileSources(sources, posIndepCode, this->modelLibraryHelper_);
 
             const std::map<std::string, std::string>& customSource = this->modelLibraryHelper_->getCustomSources();
+            ModelLibraryCSourceGen<Base>::addSourceNames(sourceNames, customSource);
             compiler.compileSources(customSource, posIndepCode, this->modelLibraryHelper_);
 
             std::string libname = _libraryName;
diff --git a/include/cppad/cg/model/model_library_c_source_gen.hpp b/include/cppad/cg/model/model_library_c_source_gen.hpp
index 38f50a6..2922aee 100644
--- a/include/cppad/cg/model/model_library_c_source_gen.hpp
+++ b/include/cppad/cg/model/model_library_c_source_gen.hpp
@@ -176,6 +176,19 @@ public:
      * @return model library sources
      */
     virtual const std::map<std::string, std::string>& getLibrarySources();
+
+    /**
+     * Verifies that source files do not replace other source files of the
+     * same library.
+     *
+     * @param names the names of the previous source files (the names of the
+     *              new source files are added to it)
+     * @param sources the new source files
+     * @throws CGException if there is already a source file with the same name
+     */
+    static void addSourceNames(std::set<std::string>& names,
+                               const std::map<std::string, std::string>& sources);
+
 protected:
 
     virtual void generateVersionSource(std::map<std::string, std::string>& sources);
diff --git a/include/cppad/cg/model/model_library_c_source_gen_impl.hpp b/include/cppad/cg/model/model_library_c_source_gen_impl.hpp
index cad9106..298323d 100644
--- a/include/cppad/cg/model/model_library_c_source_gen_impl.hpp
+++ b/include/cppad/cg/model/model_library_c_source_gen_impl.hpp
@@ -77,16 +77,32 @@ void ModelLibraryCSourceGen<Base>::saveSources(const std::string& sourcesFolder)
     // create the folder if it does not exist
     system::createFolder(sourcesFolder);
 
+    std::set<std::string> names;
+    auto save = [&](const std::map<std::string, std::string>& sources) {
+        addSourceNames(names, sources);
+        saveSources(sourcesFolder, sources);
+    };
+
     // save/generate model sources
     for (const auto& it : _models) {
-        saveSources(sourcesFolder, it.second->getSources(_multiThreading, this));
+        save(it.second->getSources(_multiThreading, this));
     }
 
     // save/generate library sources
-    saveSources(sourcesFolder, getLibrarySources());
+    save(getLibrarySources());
 
     // save custom user sources
-    saveSources(sourcesFolder, getCustomSources());
+    save(getCustomSources());
+}
+
+template<class Base>
+void ModelLibraryCSourceGen<Base>::addSourceNames(std::set<std::string>& names,
+                                                  const std::map<std::string, std::string>& sources) {
+    for (const auto& it : sources) {
+        if (!names.insert(it.first).second) {
+            throw CGException("There is more than one source file named '", it.first, "'");
+        }
+    }
 }
 
 template<class Base>
diff --git a/include/cppad/cg/model/save_files_model_library_processor.hpp b/include/cppad/cg/model/save_files_model_library_processor.hpp
index b115082..e83a24e 100644
--- a/include/cppad/cg/model/save_files_model_library_processor.hpp
+++ b/include/cppad/cg/model/save_files_model_library_processor.hpp
@@ -41,8 +41,12 @@ public:
 
     inline void saveSourcesTo(const std::string& sourcesFolder) {
 
-        auto saveFile = [&](const std::string& filename, const std::string& source){
-            system::saveFile(system::createPath(sourcesFolder, filename), source);
+        std::set<std::string> names;
+        auto saveFiles = [&](const std::map<std::string, std::string>& sources) {
+            ModelLibraryCSourceGen<Base>::addSourceNames(names, sources);
+            for (const auto& it : sources) {
+                system::saveFile(system::createPath(sourcesFolder, it.first), it.second);
+            }
         };
 
         system::createFolder(sourcesFolder);
@@ -50,20 +54,12 @@ public:
         const std::map<std::string, ModelCSourceGen<Base>*>& models = this->modelLibraryHelper_->getModels();
 
         for (const auto& itm : models) {
-            const std::map<std::string, std::string>& sources = this->getSources(*itm.second);
-
-            for (const auto& it : sources) {
-                saveFile(it.first, it.second);
-            }
+            saveFiles(this->getSources(*itm.second));
         }
 
-        for (const auto& it : this->modelLibraryHelper_->getLibrarySources()) {
-            saveFile(it.first, it.second);
-        }
+        saveFiles(this->modelLibraryHelper_->getLibrarySources());
 
-        for (const auto& it : this->modelLibraryHelper_->getCustomSources()) {
-            saveFile(it.first, it.second);
-        }
+        saveFiles(this->modelLibraryHelper_->getCustomSources());
     }
 
     inline static void saveLibrarySourcesTo(ModelLibraryCSourceGen<Base>& modelLibraryHelper,
-- 
2.43.0


From 0105382f038283e81a5a74ae04acb8b9ebf57e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:58 +0000
Subject: [PATCH 29/45] fix: job timing was left unbalanced by exceptions

Jobs interrupted by an exception remained open forever, and an exception in
one listener prevented the other listeners from being notified.
---
 include/cppad/cg/code_handler_impl.hpp        |   2 +
 include/cppad/cg/cppadcg.hpp                  |   1 +
 include/cppad/cg/job_timer.hpp                | 173 +++++++++++++-----
 .../cg/model/compiler/abstract_c_compiler.hpp |   2 +
 .../cg/model/compiler/clang_compiler.hpp      |   2 +
 .../cppad/cg/model/compiler/gcc_compiler.hpp  |   2 +
 .../cg/model/dynamic_lib/ar_archiver.hpp      |   2 +
 .../dynamic_lib/dynamic_library_processor.hpp |   4 +
 .../cg/model/model_c_source_gen_impl.hpp      |   2 +
 9 files changed, 149 insertions(+), 41 deletions(-)

diff --git a/include/cppad/cg/code_handler_impl.hpp b/include/cppad/cg/code_handler_impl.hpp
index e707e81..09df59b 100644
--- a/include/cppad/cg/code_handler_impl.hpp
+++ b/include/cppad/cg/code_handler_impl.hpp
@@ -272,6 +272,8 @@ void CodeHandler<Base>::generateCode(std::ostream& out,
     using namespace std::chrono;
     steady_clock::time_point beginTime;
 
+    JobScope jobScope(_jobTimer);
+
     if (_jobTimer != nullptr) {
         _jobTimer->startingJob("source for '" + jobName + "'");
     } else if (_verbose) {
diff --git a/include/cppad/cg/cppadcg.hpp b/include/cppad/cg/cppadcg.hpp
index 8dc5691..47c9fa5 100644
--- a/include/cppad/cg/cppadcg.hpp
+++ b/include/cppad/cg/cppadcg.hpp
@@ -47,6 +47,7 @@ static_assert(false,
 #include <forward_list>
 #include <set>
 #include <cstddef>
+#include <exception>
 #include <stdexcept>
 #include <cstdio>
 #include <cstdlib>
diff --git a/include/cppad/cg/job_timer.hpp b/include/cppad/cg/job_timer.hpp
index 7044b6d..5d8e752 100644
--- a/include/cppad/cg/job_timer.hpp
+++ b/include/cppad/cg/job_timer.hpp
@@ -263,72 +263,163 @@ public:
 
         _jobs.push_back(Job(type, jobName));
 
-        if (_verbose) {
-            OStreamConfigRestore osr(std::cout);
-
-            Job& job = _jobs.back();
+        auto l = _listeners.begin();
+        try {
+            if (_verbose) {
+                printStart(type, prefix);
+            }
 
-            size_t indent = 0;
-            if (_jobs.size() > 1) {
-                Job& parent = _jobs[_jobs.size() - 2]; // must be after adding job
-                if (!parent._nestedJobs) {
-                    parent._nestedJobs = true;
-                    std::cout << "\n";
+            // notify listeners
+            for (; l != _listeners.end(); ++l) {
+                (*l)->jobStarted(_jobs);
+            }
+        } catch (...) {
+            // the job will not be performed
+            auto elapsed = std::chrono::steady_clock::now() - _jobs.back().beginTime();
+            for (auto l2 = _listeners.begin(); l2 != l; ++l2) {
+                try {
+                    (*l2)->jobEndended(_jobs, elapsed);
+                } catch (...) {
+                    // report the first error only
                 }
-                indent = _indent * (_jobs.size() - 1);
             }
-
-            _os.str("");
-            if (indent > 0) _os << std::string(indent, ' ');
-            if (!prefix.empty()) _os << prefix << " ";
-            _os << type.getActionName() << " " << job.name() << " ...";
-
-            char f = std::cout.fill();
-            std::cout << std::setw(_maxLineWidth) << std::setfill('.') << std::left << _os.str();
-            std::cout.flush();
-            std::cout.fill(f); // restore fill character
+            _jobs.pop_back();
+            throw;
         }
+    }
 
-        // notify listeners
-        for (JobListener* l : _listeners) {
-            l->jobStarted(_jobs);
+    inline void finishedJob() {
+        finishedJob(true);
+    }
+
+    /**
+     * Ends jobs which were interrupted by an exception.
+     *
+     * @param jobCount the number of jobs which should continue
+     */
+    inline void abortJobs(size_t jobCount) noexcept {
+        while (_jobs.size() > jobCount) {
+            try {
+                finishedJob(false);
+            } catch (...) {
+                // the job has been removed
+            }
         }
     }
 
-    inline void finishedJob() {
+private:
+
+    inline void finishedJob(bool success) {
         using namespace std::chrono;
 
         CPPADCG_ASSERT_UNKNOWN(_jobs.size() > 0);
 
-        Job& job = _jobs.back();
+        std::chrono::steady_clock::duration elapsed = steady_clock::now() - _jobs.back().beginTime();
 
-        std::chrono::steady_clock::duration elapsed = steady_clock::now() - job.beginTime();
+        // the job must be finished for all listeners even if there are exceptions
+        std::exception_ptr error;
 
         if (_verbose) {
-            OStreamConfigRestore osr(std::cout);
-
-            if (job._nestedJobs) {
-                _os.str("");
-                if (!_jobs.empty())
-                    _os << std::string(_indent * (_jobs.size() - 1), ' ');
-                _os << job.getType().getActionEndName() << " " << job.name() << " ...";
-
-                char f = std::cout.fill();
-                std::cout << std::setw(_maxLineWidth) << std::setfill('.') << std::left << _os.str();
-                std::cout.fill(f); // restore fill character
+            try {
+                printEnd(elapsed, success);
+            } catch (...) {
+                error = std::current_exception();
             }
-
-            std::cout << " done [" << std::fixed << std::setprecision(3) << duration<float>(elapsed).count() << "]" << std::endl;
         }
 
         // notify listeners
         for (JobListener* l : _listeners) {
-            l->jobEndended(_jobs, elapsed);
+            try {
+                l->jobEndended(_jobs, elapsed);
+            } catch (...) {
+                if (!error) {
+                    error = std::current_exception();
+                }
+            }
         }
 
         _jobs.pop_back();
+
+        if (error) {
+            std::rethrow_exception(error);
+        }
+    }
+
+    inline void printStart(const JobType& type,
+                           const std::string& prefix) {
+        OStreamConfigRestore osr(std::cout);
+
+        Job& job = _jobs.back();
+
+        size_t indent = 0;
+        if (_jobs.size() > 1) {
+            Job& parent = _jobs[_jobs.size() - 2]; // must be after adding job
+            if (!parent._nestedJobs) {
+                parent._nestedJobs = true;
+                std::cout << "\n";
+            }
+            indent = _indent * (_jobs.size() - 1);
+        }
+
+        _os.str("");
+        if (indent > 0) _os << std::string(indent, ' ');
+        if (!prefix.empty()) _os << prefix << " ";
+        _os << type.getActionName() << " " << job.name() << " ...";
+
+        char f = std::cout.fill();
+        std::cout << std::setw(_maxLineWidth) << std::setfill('.') << std::left << _os.str();
+        std::cout.flush();
+        std::cout.fill(f); // restore fill character
     }
 
+    inline void printEnd(std::chrono::steady_clock::duration elapsed,
+                         bool success) {
+        using namespace std::chrono;
+
+        OStreamConfigRestore osr(std::cout);
+
+        Job& job = _jobs.back();
+
+        if (job._nestedJobs) {
+            _os.str("");
+            if (!_jobs.empty())
+                _os << std::string(_indent * (_jobs.size() - 1), ' ');
+            _os << job.getType().getActionEndName() << " " << job.name() << " ...";
+
+            char f = std::cout.fill();
+            std::cout << std::setw(_maxLineWidth) << std::setfill('.') << std::left << _os.str();
+            std::cout.fill(f); // restore fill character
+        }
+
+        std::cout << (success ? " done [" : " failed [") << std::fixed << std::setprecision(3)
+                << duration<float>(elapsed).count() << "]" << std::endl;
+    }
+
+};
+
+/**
+ * Utility class which ends the jobs started in its scope when they are
+ * interrupted by an exception
+ */
+class JobScope {
+private:
+    JobTimer* _timer;
+    size_t _jobCount;
+public:
+
+    inline explicit JobScope(JobTimer* timer) :
+        _timer(timer),
+        _jobCount(timer != nullptr ? timer->getJobCount() : 0) {
+    }
+
+    JobScope(const JobScope&) = delete;
+    JobScope& operator=(const JobScope&) = delete;
+
+    inline ~JobScope() {
+        if (_timer != nullptr) {
+            _timer->abortJobs(_jobCount);
+        }
+    }
 };
 
 } // END cg namespace
diff --git a/include/cppad/cg/model/compiler/abstract_c_compiler.hpp b/include/cppad/cg/model/compiler/abstract_c_compiler.hpp
index 5dab753..f1f0f0a 100644
--- a/include/cppad/cg/model/compiler/abstract_c_compiler.hpp
+++ b/include/cppad/cg/model/compiler/abstract_c_compiler.hpp
@@ -188,6 +188,8 @@ public:
             system::createFolder(_sourcesFolder);
         }
 
+        JobScope jobScope(timer);
+
         // compile each source code file into a different object file
         for (it = sources.begin(); it != sources.end(); ++it) {
             count++;
diff --git a/include/cppad/cg/model/compiler/clang_compiler.hpp b/include/cppad/cg/model/compiler/clang_compiler.hpp
index d220037..e48deef 100644
--- a/include/cppad/cg/model/compiler/clang_compiler.hpp
+++ b/include/cppad/cg/model/compiler/clang_compiler.hpp
@@ -109,6 +109,8 @@ public:
             args.push_back(it);
         }
 
+        JobScope jobScope(timer);
+
         if (timer != nullptr) {
             timer->startingJob("'" + library + "'", JobTimer::COMPILING_DYNAMIC_LIBRARY);
         } else if (this->_verbose) {
diff --git a/include/cppad/cg/model/compiler/gcc_compiler.hpp b/include/cppad/cg/model/compiler/gcc_compiler.hpp
index eb14d9a..077a7a3 100644
--- a/include/cppad/cg/model/compiler/gcc_compiler.hpp
+++ b/include/cppad/cg/model/compiler/gcc_compiler.hpp
@@ -66,6 +66,8 @@ public:
             args.push_back(it);
         }
 
+        JobScope jobScope(timer);
+
         if (timer != nullptr) {
             timer->startingJob("'" + library + "'", JobTimer::COMPILING_DYNAMIC_LIBRARY);
         } else if (this->_verbose) {
diff --git a/include/cppad/cg/model/dynamic_lib/ar_archiver.hpp b/include/cppad/cg/model/dynamic_lib/ar_archiver.hpp
index 4723200..40a6d30 100644
--- a/include/cppad/cg/model/dynamic_lib/ar_archiver.hpp
+++ b/include/cppad/cg/model/dynamic_lib/ar_archiver.hpp
@@ -63,6 +63,8 @@ public:
         args.push_back(library); // Output file name
         args.insert(args.end(), objectFiles.begin(), objectFiles.end());
 
+        JobScope jobScope(timer);
+
         if (timer != nullptr) {
             timer->startingJob("'" + library + "'", JobTimer::ASSEMBLE_STATIC_LIBRARY);
         } else if (_verbose) {
diff --git a/include/cppad/cg/model/dynamic_lib/dynamic_library_processor.hpp b/include/cppad/cg/model/dynamic_lib/dynamic_library_processor.hpp
index 268329a..1d13f6c 100644
--- a/include/cppad/cg/model/dynamic_lib/dynamic_library_processor.hpp
+++ b/include/cppad/cg/model/dynamic_lib/dynamic_library_processor.hpp
@@ -127,6 +127,8 @@ public:
         // backup output format so that it can be restored
         OStreamConfigRestore coutb(std::cout);
 
+        JobScope jobScope(this->modelLibraryHelper_);
+
         this->modelLibraryHelper_->startingJob("", JobTimer::DYNAMIC_MODEL_LIBRARY);
 
         const std::map<std::string, ModelCSourceGen < Base>*>&models = this->modelLibraryHelper_->getModels();
@@ -188,6 +190,8 @@ public:
         // backup output format so that it can be restored
         OStreamConfigRestore coutb(std::cout);
 
+        JobScope jobScope(this->modelLibraryHelper_);
+
         this->modelLibraryHelper_->startingJob("", JobTimer::STATIC_MODEL_LIBRARY);
 
         const std::map<std::string, ModelCSourceGen<Base>*>& models = this->modelLibraryHelper_->getModels();
diff --git a/include/cppad/cg/model/model_c_source_gen_impl.hpp b/include/cppad/cg/model/model_c_source_gen_impl.hpp
index e1a8db4..14aa40a 100644
--- a/include/cppad/cg/model/model_c_source_gen_impl.hpp
+++ b/include/cppad/cg/model/model_c_source_gen_impl.hpp
@@ -102,6 +102,8 @@ void ModelCSourceGen<Base>::generateSources(MultiThreadingType multiThreadingTyp
                                             JobTimer* timer) {
     _jobTimer = timer;
 
+    JobScope jobScope(timer);
+
     generateLoops();
 
     startingJob("'" + _name + "'", JobTimer::SOURCE_FOR_MODEL);
-- 
2.43.0


From a05c74f6c90d58a0937ab4de0c35e43c746247f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:41 +0000
Subject: [PATCH 30/45] fix: running out of memory while describing an error
 terminated the process

The constructor of CGException which assembles a message allocates memory
but was declared noexcept, so that a failed allocation ended the process
instead of being reported to the caller.
---
 include/cppad/cg/exception.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/cppad/cg/exception.hpp b/include/cppad/cg/exception.hpp
index 3bc3ff4..c98efec 100644
--- a/include/cppad/cg/exception.hpp
+++ b/include/cppad/cg/exception.hpp
@@ -39,7 +39,7 @@ public:
     inline CGException(CGException&& e) = default;
 
     template<typename... Ts>
-    explicit CGException(const Ts&... ts) noexcept {
+    explicit CGException(const Ts&... ts) {
         std::ostringstream s;
         createMessage(s, ts...);
         _message = s.str();
@@ -56,13 +56,13 @@ public:
 private:
 
     template <typename T, typename... Ts>
-    inline void createMessage(std::ostringstream& s, const T& t, const Ts&... ts) noexcept {
+    inline void createMessage(std::ostringstream& s, const T& t, const Ts&... ts) {
         s << t;
         createMessage(s, ts...);
     }
 
     template <typename T>
-    inline void createMessage(std::ostringstream& s, const T& t) noexcept {
+    inline void createMessage(std::ostringstream& s, const T& t) {
         s << t;
     }
 
-- 
2.43.0


From 0c0ec502b449f26e8ec2d7113742341553f76d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:18 +0000
Subject: [PATCH 31/45] fix: moving models or libraries left dangling pointers

A library kept the address of a model which had been moved, models kept the
address of a library which had been moved, and the atomic function created
by asAtomic() kept the address of the object its model had been moved from.
All of them were used by later evaluations and by the destructors.
---
 .../cppad/cg/model/atomic_generic_model.hpp   | 43 +++++++++++--------
 .../dynamic_lib/linux/linux_dynamiclib.hpp    | 20 +++++++--
 .../linux/linux_dynamiclib_model.hpp          |  4 ++
 .../cppad/cg/model/functor_generic_model.hpp  |  2 +-
 .../cppad/cg/model/functor_model_library.hpp  | 12 ++++++
 include/cppad/cg/model/generic_model.hpp      |  4 ++
 6 files changed, 63 insertions(+), 22 deletions(-)

diff --git a/include/cppad/cg/model/atomic_generic_model.hpp b/include/cppad/cg/model/atomic_generic_model.hpp
index 722ea67..41d056e 100644
--- a/include/cppad/cg/model/atomic_generic_model.hpp
+++ b/include/cppad/cg/model/atomic_generic_model.hpp
@@ -27,7 +27,7 @@ namespace cg {
 template <class Base>
 class CGAtomicGenericModel : public atomic_base<Base> {
 protected:
-    GenericModel<Base>& model_;
+    GenericModel<Base>* model_;
 public:
 
     /**
@@ -38,12 +38,21 @@ public:
      */
     CGAtomicGenericModel(GenericModel<Base>& model) :
         atomic_base<Base>(model.getName()),
-        model_(model) {
+        model_(&model) {
         this->option(CppAD::atomic_base<Base>::set_sparsity_enum);
     }
 
     virtual ~CGAtomicGenericModel() = default;
 
+    /**
+     * Defines the object which now holds the compiled model.
+     *
+     * @param model The compiled model.
+     */
+    void setModel(GenericModel<Base>& model) noexcept {
+        model_ = &model;
+    }
+
     template <class ADVector>
     void operator()(const ADVector& ax, ADVector& ay, size_t id = 0) {
         this->atomic_base<Base>::operator()(ax, ay, id);
@@ -56,10 +65,10 @@ public:
                  const CppAD::vector<Base>& tx,
                  CppAD::vector<Base>& ty) override {
         if (p == 0) {
-            model_.ForwardZero(vx, vy, tx, ty);
+            model_->ForwardZero(vx, vy, tx, ty);
             return true;
         } else if (p == 1) {
-            model_.ForwardOne(tx, ty);
+            model_->ForwardOne(tx, ty);
             return true;
         }
 
@@ -72,10 +81,10 @@ public:
                  CppAD::vector<Base>& px,
                  const CppAD::vector<Base>& py) override {
         if (p == 0) {
-            model_.ReverseOne(tx, ty, px, py);
+            model_->ReverseOne(tx, ty, px, py);
             return true;
         } else if (p == 1) {
-            model_.ReverseTwo(tx, ty, px, py);
+            model_->ReverseTwo(tx, ty, px, py);
             return true;
         }
 
@@ -92,13 +101,13 @@ public:
     bool for_sparse_jac(size_t q,
                         const CppAD::vector<std::set<size_t> >& r,
                         CppAD::vector<std::set<size_t> >& s) override {
-        size_t n = model_.Domain();
-        size_t m = model_.Range();
+        size_t n = model_->Domain();
+        size_t m = model_->Range();
         for (size_t i = 0; i < m; i++) {
             s[i].clear();
         }
 
-        const std::vector<std::set<size_t> > jacSparsity = model_.JacobianSparsitySet();
+        const std::vector<std::set<size_t> > jacSparsity = model_->JacobianSparsitySet();
 
         // S(x) =  f'(x) * R
         CppAD::cg::multMatrixMatrixSparsity(jacSparsity, r, s, m, n, q);
@@ -116,13 +125,13 @@ public:
     bool rev_sparse_jac(size_t q,
                         const CppAD::vector<std::set<size_t> >& rT,
                         CppAD::vector<std::set<size_t> >& sT) override {
-        size_t n = model_.Domain();
-        size_t m = model_.Range();
+        size_t n = model_->Domain();
+        size_t m = model_->Range();
         for (size_t i = 0; i < n; i++) {
             sT[i].clear();
         }
 
-        const std::vector<std::set<size_t> > jacSparsity = model_.JacobianSparsitySet();
+        const std::vector<std::set<size_t> > jacSparsity = model_->JacobianSparsitySet();
 
         // S(x)^T = ( R * f'(x) )^T = f'(x)^T * R^T
         CppAD::cg::multMatrixTransMatrixSparsity(jacSparsity, rT, sT, m, n, q);
@@ -148,14 +157,14 @@ public:
                         const CppAD::vector<std::set<size_t> >& r,
                         const CppAD::vector<std::set<size_t> >& u,
                         CppAD::vector<std::set<size_t> >& v) override {
-        size_t n = model_.Domain();
-        size_t m = model_.Range();
+        size_t n = model_->Domain();
+        size_t m = model_->Range();
 
         for (size_t i = 0; i < n; i++) {
             v[i].clear();
         }
 
-        const std::vector<std::set<size_t> > jacSparsity = model_.JacobianSparsitySet();
+        const std::vector<std::set<size_t> > jacSparsity = model_->JacobianSparsitySet();
 
         /**
          *  V(x)  =  f'^T(x) U(x)  +  Sum(  s(x)i  f''(x)  R   )
@@ -174,14 +183,14 @@ public:
 
         if (allSelected) {
             // TODO: use reverseTwo sparsity instead of the HessianSparsity (they can be different!!!)
-            std::vector<std::set<size_t> > sparsitySF2R = model_.HessianSparsitySet(); // f''(x)
+            std::vector<std::set<size_t> > sparsitySF2R = model_->HessianSparsitySet(); // f''(x)
             sparsitySF2R.resize(n);
             CppAD::cg::multMatrixMatrixSparsity(sparsitySF2R, r, v, n, n, q); // f''(x) * R
         } else {
             std::vector<std::set<size_t> > sparsitySF2R(n);
             for (size_t i = 0; i < m; i++) {
                 if (s[i]) {
-                    CppAD::cg::addMatrixSparsity(model_.HessianSparsitySet(i), sparsitySF2R); // f''_i(x)
+                    CppAD::cg::addMatrixSparsity(model_->HessianSparsitySet(i), sparsitySF2R); // f''_i(x)
                 }
             }
             CppAD::cg::multMatrixMatrixSparsity(sparsitySF2R, r, v, n, n, q); // f''(x) * R
diff --git a/include/cppad/cg/model/dynamic_lib/linux/linux_dynamiclib.hpp b/include/cppad/cg/model/dynamic_lib/linux/linux_dynamiclib.hpp
index 73b6024..bb522ae 100644
--- a/include/cppad/cg/model/dynamic_lib/linux/linux_dynamiclib.hpp
+++ b/include/cppad/cg/model/dynamic_lib/linux/linux_dynamiclib.hpp
@@ -32,10 +32,11 @@ namespace cg {
 template<class Base>
 class LinuxDynamicLib : public DynamicLib<Base> {
 protected:
-    const std::string _dynLibName;
+    std::string _dynLibName;
     /// the dynamic library handler
     void* _dynLibHandle;
-    std::set<LinuxDynamicLibModel<Base>*> _models;
+    /// the models which currently use this library
+    std::vector<LinuxDynamicLibModel<Base>*> _models;
 public:
 
     explicit LinuxDynamicLib(std::string dynLibName,
@@ -67,6 +68,12 @@ public:
             _dynLibHandle(other._dynLibHandle),
             _models(std::move(other._models)) {
         other._dynLibHandle = nullptr;
+        other._models.clear();
+
+        // the models belong to the new object
+        for (LinuxDynamicLibModel<Base>* model : _models) {
+            model->_dynLib = this;
+        }
     }
 
     LinuxDynamicLib(const LinuxDynamicLib&) = delete;
@@ -79,7 +86,7 @@ public:
             return m;
         }
         m.reset(new LinuxDynamicLibModel<Base> (this, modelName));
-        _models.insert(m.get());
+        _models.push_back(m.get());
         return m;
     }
 
@@ -117,7 +124,12 @@ public:
 protected:
 
     virtual void destroyed(LinuxDynamicLibModel<Base>* model) {
-        _models.erase(model);
+        _models.erase(std::remove(_models.begin(), _models.end(), model), _models.end());
+    }
+
+    virtual void moved(LinuxDynamicLibModel<Base>* from,
+                       LinuxDynamicLibModel<Base>* to) noexcept {
+        std::replace(_models.begin(), _models.end(), from, to);
     }
 
     friend class LinuxDynamicLibModel<Base>;
diff --git a/include/cppad/cg/model/dynamic_lib/linux/linux_dynamiclib_model.hpp b/include/cppad/cg/model/dynamic_lib/linux/linux_dynamiclib_model.hpp
index 242af9a..c537730 100644
--- a/include/cppad/cg/model/dynamic_lib/linux/linux_dynamiclib_model.hpp
+++ b/include/cppad/cg/model/dynamic_lib/linux/linux_dynamiclib_model.hpp
@@ -41,6 +41,10 @@ public:
             FunctorGenericModel<Base>(std::move(other)),
             _dynLib(other._dynLib) {
         other._dynLib = nullptr;
+
+        if (_dynLib != nullptr) {
+            _dynLib->moved(&other, this);
+        }
     }
 
     virtual ~LinuxDynamicLibModel() {
diff --git a/include/cppad/cg/model/functor_generic_model.hpp b/include/cppad/cg/model/functor_generic_model.hpp
index cd37fc9..8a03c77 100644
--- a/include/cppad/cg/model/functor_generic_model.hpp
+++ b/include/cppad/cg/model/functor_generic_model.hpp
@@ -40,7 +40,7 @@ protected:
 protected:
     bool _isLibraryReady;
     /// the model name
-    const std::string _name;
+    std::string _name;
     size_t _m;
     size_t _n;
     std::vector<const Base*> _in;
diff --git a/include/cppad/cg/model/functor_model_library.hpp b/include/cppad/cg/model/functor_model_library.hpp
index b3b5098..84ec35e 100644
--- a/include/cppad/cg/model/functor_model_library.hpp
+++ b/include/cppad/cg/model/functor_model_library.hpp
@@ -61,6 +61,18 @@ public:
             _setThreadPoolNumberOfTimeMeas(other._setThreadPoolNumberOfTimeMeas),
             _getThreadPoolNumberOfTimeMeas(other._getThreadPoolNumberOfTimeMeas) {
         other._onClose = nullptr;
+        other._setThreadPoolDisabled = nullptr;
+        other._isThreadPoolDisabled = nullptr;
+        other._setThreads = nullptr;
+        other._getThreads = nullptr;
+        other._setSchedulerStrategy = nullptr;
+        other._getSchedulerStrategy = nullptr;
+        other._setThreadPoolVerbose = nullptr;
+        other._isThreadPoolVerbose = nullptr;
+        other._setThreadPoolGuidedMaxWork = nullptr;
+        other._getThreadPoolGuidedMaxWork = nullptr;
+        other._setThreadPoolNumberOfTimeMeas = nullptr;
+        other._getThreadPoolNumberOfTimeMeas = nullptr;
     }
 
     std::set<std::string> getModelNames() override {
diff --git a/include/cppad/cg/model/generic_model.hpp b/include/cppad/cg/model/generic_model.hpp
index 91fa9e6..5c60ad2 100644
--- a/include/cppad/cg/model/generic_model.hpp
+++ b/include/cppad/cg/model/generic_model.hpp
@@ -41,6 +41,10 @@ public:
             _atomic(other._atomic),
             _evalAtomicForwardOne4CppAD(other._evalAtomicForwardOne4CppAD) {
         other._atomic = nullptr;
+
+        if (_atomic != nullptr) {
+            _atomic->setModel(*this);
+        }
     }
 
     inline virtual ~GenericModel() {
-- 
2.43.0


From 71e366cc88cd80c7b58840fd03cd2f13ed315e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:18 +0000
Subject: [PATCH 32/45] fix: a rejected dynamic library was never unloaded

When the validation of a library in the constructor of LinuxDynamicLib
throws, its destructor is not called and the library stayed loaded.
---
 .../cppad/cg/model/dynamic_lib/linux/linux_dynamiclib.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/cppad/cg/model/dynamic_lib/linux/linux_dynamiclib.hpp b/include/cppad/cg/model/dynamic_lib/linux/linux_dynamiclib.hpp
index bb522ae..0fbd134 100644
--- a/include/cppad/cg/model/dynamic_lib/linux/linux_dynamiclib.hpp
+++ b/include/cppad/cg/model/dynamic_lib/linux/linux_dynamiclib.hpp
@@ -59,7 +59,13 @@ public:
         CPPADCG_ASSERT_KNOWN(_dynLibHandle != nullptr, ("Failed to dynamically load library '" + _dynLibName + "': " + dlerror()).c_str())
 
         // validate the dynamic library
-        this->validate();
+        try {
+            this->validate();
+        } catch (...) {
+            // the destructor will not be called
+            dlclose(_dynLibHandle);
+            throw;
+        }
     }
 
     inline LinuxDynamicLib(LinuxDynamicLib&& other) noexcept :
-- 
2.43.0


From cfef6e2a44cf6121903d781ef7245eade698caa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:18 +0000
Subject: [PATCH 33/45] fix: failing to replace an external function left a
 dangling pointer

The previous wrapper was deleted before the allocation of the new one.
---
 include/cppad/cg/model/functor_generic_model.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/cppad/cg/model/functor_generic_model.hpp b/include/cppad/cg/model/functor_generic_model.hpp
index 8a03c77..54240d9 100644
--- a/include/cppad/cg/model/functor_generic_model.hpp
+++ b/include/cppad/cg/model/functor_generic_model.hpp
@@ -1103,12 +1103,13 @@ private:
         size_t n = _atomicNames.size();
         for (size_t i = 0; i < n; i++) {
             if (name == _atomicNames[i]) {
+                ExternalFunctionWrapper<Base>* wrapper = new Wrapper(atomic); // might fail
                 if (_atomic[i] == nullptr) {
                     _missingAtomicFunctions--;
                 } else {
                     delete _atomic[i];
                 }
-                _atomic[i] = new Wrapper(atomic);
+                _atomic[i] = wrapper;
                 return true;
             }
         }
-- 
2.43.0


From c77489ffc480ffde66c8386361218878c26daa52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:36 +0000
Subject: [PATCH 34/45] fix: atomic function usage was determined with the
 wrong independent variables

---
 include/cppad/cg/atomic_dependency_locator.hpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/include/cppad/cg/atomic_dependency_locator.hpp b/include/cppad/cg/atomic_dependency_locator.hpp
index 4ae2389..310001e 100644
--- a/include/cppad/cg/atomic_dependency_locator.hpp
+++ b/include/cppad/cg/atomic_dependency_locator.hpp
@@ -53,10 +53,12 @@ private:
     std::map<size_t, AtomicUseInfo<Base>> atomicInfo_;
     std::map<OperationNode<Base>*, std::set<size_t> > indeps_;
     CodeHandler<Base> handler_;
+    size_t firstIndep_; // position of the first independent variable in the code handler
 public:
 
     inline AtomicDependencyLocator(ADFun<CG<Base> >& fun) :
-        fun_(fun) {
+        fun_(fun),
+        firstIndep_(0) {
     }
 
     inline const std::map<size_t, AtomicUseInfo<Base>>& findAtomicsUsage() {
@@ -70,8 +72,12 @@ public:
         std::vector<CG<Base> > x(n);
         handler_.makeVariables(x);
 
-        // make sure the position in the code handler is the same as the independent index
-        assert(x.size() == 0 || (x[0].getOperationNode()->getHandlerPosition() == 0 && x[x.size() - 1].getOperationNode()->getHandlerPosition() == x.size() - 1));
+        // make sure the independent variables have consecutive positions in the code handler
+        // (other nodes, created by the code handler itself, might be placed before them)
+        if (n > 0) {
+            firstIndep_ = x[0].getOperationNode()->getHandlerPosition();
+            assert(x[n - 1].getOperationNode()->getHandlerPosition() == firstIndep_ + n - 1);
+        }
 
         std::vector<CG<Base> > dep = fun_.Forward(0, x);
 
@@ -98,8 +104,8 @@ private:
         CGOpCode op = node->getOperationType();
         if (op == CGOpCode::Inv) {
             std::set<size_t> indeps;
-            // particular case where the position in the code handler is the same as the independent index
-            indeps.insert(node->getHandlerPosition());
+            // particular case where the position in the code handler provides the independent index
+            indeps.insert(node->getHandlerPosition() - firstIndep_);
             return indeps;
         }
 
-- 
2.43.0


From 2ee05249c24e9f7daec9180a3b648544a67161b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:36 +0000
Subject: [PATCH 35/45] fix: names and altered nodes of a source generation
 remained for the next one

---
 include/cppad/cg/code_handler.hpp      | 16 ++++++++
 include/cppad/cg/code_handler_impl.hpp | 52 +++++++++++++++++++-------
 2 files changed, 54 insertions(+), 14 deletions(-)

diff --git a/include/cppad/cg/code_handler.hpp b/include/cppad/cg/code_handler.hpp
index 053acb6..2ee2d27 100644
--- a/include/cppad/cg/code_handler.hpp
+++ b/include/cppad/cg/code_handler.hpp
@@ -38,6 +38,22 @@ public:
 protected:
     struct LoopData; // forward declaration
 
+    /**
+     * Undoes the changes made to the nodes during a source code generation
+     * (even when it is interrupted by an exception)
+     */
+    class NodeRestoreScope {
+    private:
+        CodeHandler<Base>& _handler;
+        // whether or not each node had a name before the source generation
+        std::vector<bool> _named;
+    public:
+        inline explicit NodeRestoreScope(CodeHandler<Base>& handler);
+        NodeRestoreScope(const NodeRestoreScope&) = delete;
+        NodeRestoreScope& operator=(const NodeRestoreScope&) = delete;
+        inline ~NodeRestoreScope();
+    };
+
 protected:
     // counter used to determine visitation IDs for the operation tree
     size_t _idVisit;
diff --git a/include/cppad/cg/code_handler_impl.hpp b/include/cppad/cg/code_handler_impl.hpp
index 09df59b..8ae3ec1 100644
--- a/include/cppad/cg/code_handler_impl.hpp
+++ b/include/cppad/cg/code_handler_impl.hpp
@@ -297,7 +297,6 @@ void CodeHandler<Base>::generateCode(std::ostream& out,
     _currentScopeColor = 0;
     _scopes.reserve(4);
     _scopes.resize(1);
-    _alteredNodes.clear();
     _evaluationOrder.adjustSize();
     _lastUsageOrder.adjustSize();
     _totalUseCount.adjustSize();
@@ -316,6 +315,9 @@ void CodeHandler<Base>::generateCode(std::ostream& out,
     }
     _used = true;
 
+    // also if the source generation is interrupted by an exception
+    NodeRestoreScope nodeRestoreScope(*this);
+
     /**
      * the first variable IDs are for the independent variables
      */
@@ -453,17 +455,6 @@ void CodeHandler<Base>::generateCode(std::ostream& out,
      */
     _atomicFunctionName2Index.clear();
 
-    // restore altered nodes
-    for (const auto& itAlt : _alteredNodes) {
-        Node* tmp = itAlt.first;
-        Node* opClone = itAlt.second;
-        if (tmp->getOperationType() == CGOpCode::Tmp && !tmp->getInfo().empty()) { // some might have already been restored
-            tmp->setOperation(opClone->getOperationType(), opClone->getArguments());
-            tmp->getInfo() = opClone->getInfo();
-        }
-    }
-    _alteredNodes.clear();
-
     if (_jobTimer != nullptr) {
         _jobTimer->finishedJob();
     } else if (_verbose) {
@@ -1012,6 +1003,7 @@ inline void CodeHandler<Base>::replaceWithConditionalTempVar(Node& tmp,
     /**
      * Change original variable
      */
+    _alteredNodes.push_back(std::make_pair(&tmp, opClone));
     tmp.setOperation(CGOpCode::Tmp, {tmpArg, *endIf});
     tmp.getInfo().resize(1); // used to mark that this node was altered here
 
@@ -1062,8 +1054,6 @@ inline void CodeHandler<Base>::replaceWithConditionalTempVar(Node& tmp,
     for (size_t a = 0; a < aSize; a++) {
         updateVarScopeUsage(cargs[a].getOperation(), newScopeColor, oldScope);
     }
-
-    _alteredNodes.push_back(std::make_pair(&tmp, opClone));
 }
 
 template<class Base>
@@ -2159,6 +2149,40 @@ inline void CodeHandler<Base>::increaseTotalUsageCount(const Node& node) {
     _totalUseCount[node]++;
 }
 
+template<class Base>
+CodeHandler<Base>::NodeRestoreScope::NodeRestoreScope(CodeHandler<Base>& handler) :
+    _handler(handler) {
+    const size_t n = handler._codeBlocks.size();
+    _named.resize(n);
+    for (size_t i = 0; i < n; ++i) {
+        _named[i] = handler._codeBlocks[i]->getName() != nullptr;
+    }
+}
+
+template<class Base>
+CodeHandler<Base>::NodeRestoreScope::~NodeRestoreScope() {
+    // restore altered nodes
+    for (const auto& itAlt : _handler._alteredNodes) {
+        Node* tmp = itAlt.first;
+        Node* opClone = itAlt.second;
+        if (tmp->getOperationType() == CGOpCode::Tmp && !tmp->getInfo().empty()) { // some might have already been restored
+            // nothing here can fail since the clone is not used anymore
+            tmp->getArguments().swap(opClone->getArguments());
+            tmp->setOperation(opClone->getOperationType(), tmp->getArguments());
+            tmp->getInfo().swap(opClone->getInfo());
+        }
+    }
+    _handler._alteredNodes.clear();
+
+    // the names given by the variable name generator or by the language
+    // are only valid for this source code
+    for (size_t i = 0; i < _named.size(); ++i) {
+        if (!_named[i]) {
+            _handler._codeBlocks[i]->clearName();
+        }
+    }
+}
+
 template<class Base>
 inline void CodeHandler<Base>::resetManagedNodes() {
     _variableOrder.clear();
-- 
2.43.0


From 68ec3ebed89e2a7e2392c07929b9713308b8537a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:36 +0000
Subject: [PATCH 36/45] fix: an interrupted source generation left incomplete
 sources behind

---
 include/cppad/cg/model/model_c_source_gen.hpp | 13 +++++-
 .../cg/model/model_c_source_gen_impl.hpp      | 43 ++++++++++++++++++-
 .../cg/model/model_library_c_source_gen.hpp   |  3 ++
 .../model/model_library_c_source_gen_impl.hpp | 15 ++++---
 4 files changed, 65 insertions(+), 9 deletions(-)

diff --git a/include/cppad/cg/model/model_c_source_gen.hpp b/include/cppad/cg/model/model_c_source_gen.hpp
index 5119108..4b29951 100644
--- a/include/cppad/cg/model/model_c_source_gen.hpp
+++ b/include/cppad/cg/model/model_c_source_gen.hpp
@@ -280,6 +280,10 @@ protected:
      * Generated source code (maps file names to content)
      */
     std::map<std::string, std::string> _sources;
+    /**
+     * The type of multithreading used by the generated source code
+     */
+    MultiThreadingType _sourcesMultiThreading;
 public:
 
     /**
@@ -313,7 +317,8 @@ public:
         _atomicsInfo(nullptr),
         _maxAssignPerFunc(20000),
         _maxOperationsPerAssignment(1000),
-        _jobTimer(nullptr) {
+        _jobTimer(nullptr),
+        _sourcesMultiThreading(MultiThreadingType::NONE) {
 
         CPPADCG_ASSERT_KNOWN(!_name.empty(), "Model name cannot be empty")
         CPPADCG_ASSERT_KNOWN((_name[0] >= 'a' && _name[0] <= 'z') ||
@@ -925,6 +930,12 @@ protected:
     const std::map<std::string, std::string>& getSources(MultiThreadingType multiThreadingType,
                                                          JobTimer* timer);
 
+    /**
+     * Discards the generated source code and all the information which is
+     * only used to create it
+     */
+    inline void clearSources();
+
     virtual void generateSources(MultiThreadingType multiThreadingType,
                                  JobTimer* timer = nullptr);
 
diff --git a/include/cppad/cg/model/model_c_source_gen_impl.hpp b/include/cppad/cg/model/model_c_source_gen_impl.hpp
index 14aa40a..b829d8d 100644
--- a/include/cppad/cg/model/model_c_source_gen_impl.hpp
+++ b/include/cppad/cg/model/model_c_source_gen_impl.hpp
@@ -91,12 +91,50 @@ VariableNameGenerator<Base>* ModelCSourceGen<Base>::createVariableNameGenerator(
 template<class Base>
 const std::map<std::string, std::string>& ModelCSourceGen<Base>::getSources(MultiThreadingType multiThreadingType,
                                                                             JobTimer* timer) {
+    if (!_sources.empty() && _sourcesMultiThreading != multiThreadingType) {
+        clearSources(); // must generate the sources again
+    }
+
     if (_sources.empty()) {
-        generateSources(multiThreadingType, timer);
+        try {
+            generateSources(multiThreadingType, timer);
+        } catch (...) {
+            clearSources(); // never provide incomplete sources
+            throw;
+        }
+        _sourcesMultiThreading = multiThreadingType;
     }
     return _sources;
 }
 
+template<class Base>
+void ModelCSourceGen<Base>::clearSources() {
+    _sources.clear();
+    _cache.clear();
+    _cache.str("");
+    _zeroEvaluated = false;
+    _atomicFunctions.clear();
+
+    _jacSparsity = LocalSparsityInfo();
+    _hessSparsity = LocalSparsityInfo();
+    _hessSparsities.clear();
+
+    _loopFor1Groups.clear();
+    _nonLoopFor1Elements.clear();
+    _loopRev1Groups.clear();
+    _nonLoopRev1Elements.clear();
+    _loopRev2Groups.clear();
+    _nonLoopRev2Elements.clear();
+
+    delete _funNoLoops;
+    _funNoLoops = nullptr;
+
+    for (LoopModel<Base>* it : _loopTapes) {
+        delete it;
+    }
+    _loopTapes.clear();
+}
+
 template<class Base>
 void ModelCSourceGen<Base>::generateSources(MultiThreadingType multiThreadingType,
                                             JobTimer* timer) {
@@ -249,7 +287,8 @@ template<class Base>
 const std::map<size_t, AtomicUseInfo<Base> >& ModelCSourceGen<Base>::getAtomicsInfo() {
     if (_atomicsInfo == nullptr) {
         AtomicDependencyLocator<Base> adl(_fun);
-        _atomicsInfo = new std::map<size_t, AtomicUseInfo<Base> >(adl.findAtomicsUsage());
+        std::map<size_t, AtomicUseInfo<Base> > info = adl.findAtomicsUsage();
+        _atomicsInfo = new std::map<size_t, AtomicUseInfo<Base> >(std::move(info));
     }
     return *_atomicsInfo;
 }
diff --git a/include/cppad/cg/model/model_library_c_source_gen.hpp b/include/cppad/cg/model/model_library_c_source_gen.hpp
index 2922aee..9776458 100644
--- a/include/cppad/cg/model/model_library_c_source_gen.hpp
+++ b/include/cppad/cg/model/model_library_c_source_gen.hpp
@@ -155,6 +155,9 @@ public:
      * @param multiThreading multithreading support type
      */
     inline void setMultiThreading(MultiThreadingType multiThreading) {
+        if (_multiThreading != multiThreading) {
+            _libSources.clear(); // must regenerate library sources again
+        }
         _multiThreading = multiThreading;
     }
 
diff --git a/include/cppad/cg/model/model_library_c_source_gen_impl.hpp b/include/cppad/cg/model/model_library_c_source_gen_impl.hpp
index 298323d..7bff376 100644
--- a/include/cppad/cg/model/model_library_c_source_gen_impl.hpp
+++ b/include/cppad/cg/model/model_library_c_source_gen_impl.hpp
@@ -117,10 +117,11 @@ void ModelLibraryCSourceGen<Base>::saveSources(const std::string& sourcesFolder,
 template<class Base>
 const std::map<std::string, std::string>& ModelLibraryCSourceGen<Base>::getLibrarySources() {
     if (_libSources.empty()) {
-        generateVersionSource(_libSources);
-        generateModelsSource(_libSources);
-        generateOnCloseSource(_libSources);
-        generateThreadPoolSources(_libSources);
+        std::map<std::string, std::string> libSources; // never provide incomplete sources
+        generateVersionSource(libSources);
+        generateModelsSource(libSources);
+        generateOnCloseSource(libSources);
+        generateThreadPoolSources(libSources);
 
         if(_multiThreading != MultiThreadingType::NONE) {
             bool usingMultiThreading = false;
@@ -133,13 +134,15 @@ const std::map<std::string, std::string>& ModelLibraryCSourceGen<Base>::getLibra
 
             if (usingMultiThreading) {
                 if (_multiThreading == MultiThreadingType::PTHREADS) {
-                    _libSources["thread_pool.c"] = CPPADCG_PTHREAD_POOL_C_FILE;
+                    libSources["thread_pool.c"] = CPPADCG_PTHREAD_POOL_C_FILE;
 
                 } else if (_multiThreading == MultiThreadingType::OPENMP) {
-                    _libSources["thread_pool.c"] = CPPADCG_OPENMP_C_FILE;
+                    libSources["thread_pool.c"] = CPPADCG_OPENMP_C_FILE;
                 }
             }
         }
+
+        _libSources.swap(libSources);
     }
 
     return _libSources;
-- 
2.43.0


From fcf7d2723c5cd1538be8bcdcd7bce53bae86ccdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:36 +0000
Subject: [PATCH 37/45] fix: an interrupted loop detection left a recording and
 memory behind

---
 include/cppad/cg/cppadcg.hpp                  |  1 +
 .../dae_index_reduction/bipartite_graph.hpp   |  2 +
 .../cg/dae_index_reduction/dummy_deriv.hpp    |  1 +
 .../cg/patterns/dependent_pattern_matcher.hpp | 37 ++++++++++++----
 .../index/sectioned_index_pattern.hpp         | 12 +++---
 include/cppad/cg/patterns/loop.hpp            | 32 ++++++++++----
 include/cppad/cg/smart_containers.hpp         |  8 ++++
 include/cppad/cg/tape_recording_scope.hpp     | 42 +++++++++++++++++++
 8 files changed, 113 insertions(+), 22 deletions(-)
 create mode 100644 include/cppad/cg/tape_recording_scope.hpp

diff --git a/include/cppad/cg/cppadcg.hpp b/include/cppad/cg/cppadcg.hpp
index 47c9fa5..8735cee 100644
--- a/include/cppad/cg/cppadcg.hpp
+++ b/include/cppad/cg/cppadcg.hpp
@@ -95,6 +95,7 @@ static_assert(false,
 // ---------------------------------------------------------------------------
 // some utilities
 #include <cppad/cg/smart_containers.hpp>
+#include <cppad/cg/tape_recording_scope.hpp>
 #include <cppad/cg/ostream_config_restore.hpp>
 #include <cppad/cg/array_view.hpp>
 
diff --git a/include/cppad/cg/dae_index_reduction/bipartite_graph.hpp b/include/cppad/cg/dae_index_reduction/bipartite_graph.hpp
index 5ccd5ae..7bee35a 100644
--- a/include/cppad/cg/dae_index_reduction/bipartite_graph.hpp
+++ b/include/cppad/cg/dae_index_reduction/bipartite_graph.hpp
@@ -621,6 +621,7 @@ public:
             for (size_t j = 0; j < x.size(); j++) {
                 indepNew[j] = x[j];
             }
+            TapeRecordingScope<CGBase> recording;
             Independent(indepNew);
 
             // variables with the relationship between x dxdt and t
@@ -690,6 +691,7 @@ public:
             for (size_t j = 0; j < x.size(); j++) {
                 indepNew[j] = x[j];
             }
+            TapeRecordingScope<CGBase> recording;
             Independent(indepNew);
 
             if (d < newEquations.size() - 1) {
diff --git a/include/cppad/cg/dae_index_reduction/dummy_deriv.hpp b/include/cppad/cg/dae_index_reduction/dummy_deriv.hpp
index 63c9344..8c651aa 100644
--- a/include/cppad/cg/dae_index_reduction/dummy_deriv.hpp
+++ b/include/cppad/cg/dae_index_reduction/dummy_deriv.hpp
@@ -1257,6 +1257,7 @@ protected:
             }
         }
 
+        TapeRecordingScope<CGBase> recording;
         Independent(indepNewOrder);
 
         /**
diff --git a/include/cppad/cg/patterns/dependent_pattern_matcher.hpp b/include/cppad/cg/patterns/dependent_pattern_matcher.hpp
index cb6ef97..6d057c4 100644
--- a/include/cppad/cg/patterns/dependent_pattern_matcher.hpp
+++ b/include/cppad/cg/patterns/dependent_pattern_matcher.hpp
@@ -161,11 +161,23 @@ public:
         loopTapes.clear();
         for (size_t l = 0; l < loops_.size(); l++) {
             Loop<Base>* loop = loops_[l];
-            loopTapes.insert(loop->releaseLoopModel());
+            loopTapes.insert(loop->getModel());
+            loop->releaseLoopModel();
         }
     }
 
     virtual ~DependentPatternMatcher() {
+        // most equations are owned by loops
+        for (EquationPattern<Base>* eq : equations_) {
+            bool inLoop = false;
+            for (const Loop<Base>* loop : loops_) {
+                inLoop = inLoop || loop->equations.find(eq) != loop->equations.end();
+            }
+            if (!inLoop) {
+                delete eq;
+            }
+        }
+
         for (size_t l = 0; l < loops_.size(); l++) {
             delete loops_[l];
         }
@@ -268,7 +280,7 @@ private:
 
             // create a loop for this equation
             auto* loop = new Loop<Base>(*eq);
-            loops_.push_back(loop);
+            loops_.push_back(loop); // the required memory is already reserved
             equation2Loop_[eq] = loop;
         }
 
@@ -304,8 +316,9 @@ private:
                 /**
                  * There are shared variables among the two equation patterns
                  */
+                totalOps2validDepsMem.push_back(nullptr);
                 auto* totalOps2validDeps = new TotalOps2validDepsType();
-                totalOps2validDepsMem.push_back(totalOps2validDeps);
+                totalOps2validDepsMem.back() = totalOps2validDeps;
                 size_t maxOps = 0; // the maximum number of shared operations between two dependents
 
                 bool canCombine = true;
@@ -388,7 +401,9 @@ private:
                  */
                 SmartSetPointer<set<size_t> > dependentRelationsBak;
                 for (const set<size_t>* its : dependentRelations) {
-                    dependentRelationsBak.insert(new set<size_t>(*its));
+                    std::unique_ptr<set<size_t> > bak(new set<size_t>(*its));
+                    dependentRelationsBak.insert(bak.get());
+                    bak.release();
                 }
 
                 // relationships between dependents for the resulting merged loop
@@ -774,13 +789,17 @@ private:
                 x[j] = independents_[j].getValue();
         }
 
+        TapeRecordingScope<CGBase> recording;
         CppAD::Independent(x);
         std::vector<AD<CGBase> > y = evaluator.evaluate(x, nonLoopDeps);
 
         std::unique_ptr<ADFun<CGBase> > tapeNoLoops(new ADFun<CGBase>());
         tapeNoLoops->Dependent(y);
 
-        return new LoopFreeModel<Base>(tapeNoLoops.release(), depTape2Orig);
+        auto* loopFreeModel = new LoopFreeModel<Base>(tapeNoLoops.get(), depTape2Orig);
+        tapeNoLoops.release(); // now owned by the loop free model
+
+        return loopFreeModel;
     }
 
     std::vector<EquationPattern<Base>*> findRelatedVariables() {
@@ -808,8 +827,9 @@ private:
                 }
 
                 if (eqCurr_ == nullptr || !used.empty()) {
+                    equations_.push_back(nullptr);
                     eqCurr_ = new EquationPattern<Base>(dependents_[iDepRef], iDepRef);
-                    equations_.push_back(eqCurr_);
+                    equations_.back() = eqCurr_;
                 }
 
                 auto it = itRef;
@@ -1318,8 +1338,9 @@ private:
 
         } else {
             // dependent 1 and dependent 2 not in any relation set
-            auto* related = new std::set<size_t>();
-            dependentRelations.insert(related);
+            std::unique_ptr<std::set<size_t> > newRelated(new std::set<size_t>());
+            dependentRelations.insert(newRelated.get());
+            auto* related = newRelated.release();
             related->insert(dep1);
             related->insert(dep2);
             dep2Relations[dep1] = related;
diff --git a/include/cppad/cg/patterns/index/sectioned_index_pattern.hpp b/include/cppad/cg/patterns/index/sectioned_index_pattern.hpp
index 4330e8b..658b505 100644
--- a/include/cppad/cg/patterns/index/sectioned_index_pattern.hpp
+++ b/include/cppad/cg/patterns/index/sectioned_index_pattern.hpp
@@ -89,7 +89,7 @@ public:
                 }
             }
 
-            LinearIndexPattern* p = new LinearIndexPattern(xOffset, dy, dx, b);
+            std::unique_ptr<LinearIndexPattern> p(new LinearIndexPattern(xOffset, dy, dx, b));
             if (dy == 0 && prevPattern != nullptr) { // constant
                 // can we take the last element out of the previous section?
                 while (xStart > 0 && prevPattern->evaluate(xStart - 1) == b) {
@@ -103,10 +103,10 @@ public:
                     }
                 }
             }
-            linearSections[xStart] = p;
+            linearSections[xStart] = p.get();
 
             prevXStart = xStart;
-            prevPattern = p;
+            prevPattern = p.release();
             xStart = lastLinear;
 
             if (linearSections.size() == maxCount && xStart != indexes.size()) {
@@ -168,7 +168,7 @@ public:
                 }
             }
 
-            LinearIndexPattern* p = new LinearIndexPattern(xOffset, dy, dx, b);
+            std::unique_ptr<LinearIndexPattern> p(new LinearIndexPattern(xOffset, dy, dx, b));
             size_t xStart = pStart->first;
             if (dy == 0 && prevPattern != nullptr) { // constant
                 // can we take the last element from the previous section?
@@ -192,10 +192,10 @@ public:
                     }
                 }
             }
-            linearSections[xStart] = p;
+            linearSections[xStart] = p.get();
 
             prevStart = pStart;
-            prevPattern = p;
+            prevPattern = p.release();
             pStart = pNextSection;
 
             if (linearSections.size() == maxCount && pStart != x2y.end()) {
diff --git a/include/cppad/cg/patterns/loop.hpp b/include/cppad/cg/patterns/loop.hpp
index 825894b..d8292ba 100644
--- a/include/cppad/cg/patterns/loop.hpp
+++ b/include/cppad/cg/patterns/loop.hpp
@@ -235,8 +235,7 @@ public:
         CPPADCG_ASSERT_UNKNOWN(iterationCount_ == other.iterationCount_)
 
 
-        equations.insert(other.equations.begin(), other.equations.end());
-        other.equations.clear(); // so that it does not delete the equations
+        takeEquations(other);
 
         CPPADCG_ASSERT_UNKNOWN(eqGroups_.size() == 1)
         CPPADCG_ASSERT_UNKNOWN(other.eqGroups_.size() == 1)
@@ -263,8 +262,7 @@ public:
         eqGroups_.insert(eqGroups_.end(), other.eqGroups_.begin(), other.eqGroups_.end());
 
         size_t nEq = equations.size();
-        equations.insert(other.equations.begin(), other.equations.end());
-        other.equations.clear(); // so that it does not delete the equations
+        takeEquations(other);
 
         /**
          * Update equation index
@@ -634,10 +632,11 @@ private:
             const OperationNode<Base>* operation = it.first;
             const OperationIndexedIndependents<Base>& opInd = it.second;
 
+            arg2IndepOrder_.push_front(nullptr);
             auto* arg2orderPos = new OperationArgumentsIndepOrder<Base>();
-            op2Arg2IndepOrder_[operation] = arg2orderPos;
+            arg2IndepOrder_.front() = arg2orderPos;
 
-            arg2IndepOrder_.push_front(arg2orderPos);
+            op2Arg2IndepOrder_[operation] = arg2orderPos;
 
             // loop all arguments
             size_t aSize = opInd.arg2Independents.size();
@@ -686,8 +685,9 @@ private:
                     arg2orderPos->arg2Order[argumentIndex] = match;
                 } else {
                     // brand new independent variable order
+                    availableOrders.push_back(nullptr);
                     auto* iOrder = new IndependentOrder<Base>(order);
-                    availableOrders.push_back(iOrder);
+                    availableOrders.back() = iOrder;
                     arg2orderPos->arg2Order[argumentIndex] = iOrder;
                 }
 
@@ -825,6 +825,7 @@ private:
         /**
          * register the independent variables
          */
+        TapeRecordingScope<CGB> recording;
         CppAD::Independent(loopIndeps);
 
         /**
@@ -926,7 +927,7 @@ private:
             nonIndexedIndependents[s] = origJ2CloneIt->first;
         }
 
-        loopModel_ = new LoopModel<Base>(funIndexed.release(),
+        loopModel_ = new LoopModel<Base>(funIndexed.get(),
                                          containsAtoms,
                                          iterationCount_,
                                          dependentOrigIndexes,
@@ -934,9 +935,24 @@ private:
                                          nonIndexedIndependents,
                                          temporaryIndependents);
 
+        funIndexed.release(); // now owned by the loop model
+
         loopModel_->detectIndexPatterns();
     }
 
+    /**
+     * Becomes the owner of the equations of another loop.
+     * Each equation is always owned by only one loop, even if this operation
+     * is interrupted by an exception.
+     */
+    inline void takeEquations(Loop<Base>& other) {
+        while (!other.equations.empty()) {
+            auto it = other.equations.begin();
+            equations.insert(*it);
+            other.equations.erase(it); // so that it does not delete the equation
+        }
+    }
+
     inline Argument<Base> makeGraphClones(const EquationPattern<Base>& eq,
                                           OperationNode<Base>& node) {
 
diff --git a/include/cppad/cg/smart_containers.hpp b/include/cppad/cg/smart_containers.hpp
index 925e9f4..ec0962c 100644
--- a/include/cppad/cg/smart_containers.hpp
+++ b/include/cppad/cg/smart_containers.hpp
@@ -200,6 +200,14 @@ public:
         l.push_front(x);
     }
 
+    inline Base*& front() {
+        return l.front();
+    }
+
+    inline Base*& back() {
+        return l.back();
+    }
+
     inline void pop_front() {
         l.pop_front();
     }
diff --git a/include/cppad/cg/tape_recording_scope.hpp b/include/cppad/cg/tape_recording_scope.hpp
new file mode 100644
index 0000000..dce0e12
--- /dev/null
+++ b/include/cppad/cg/tape_recording_scope.hpp
@@ -0,0 +1,42 @@
+#ifndef CPPAD_CG_TAPE_RECORDING_SCOPE_INCLUDED
+#define CPPAD_CG_TAPE_RECORDING_SCOPE_INCLUDED
+/* --------------------------------------------------------------------------
+ *  CppADCodeGen: C++ Algorithmic Differentiation with Source Code Generation:
+ *    Copyright (C) 2020 Joao Leal
+ *
+ *  CppADCodeGen is distributed under multiple licenses:
+ *
+ *   - Eclipse Public License Version 1.0 (EPL1), and
+ *   - GNU General Public License Version 3 (GPL3).
+ *
+ *  EPL1 terms and conditions can be found in the file "epl-v10.txt", while
+ *  terms and conditions for the GPL3 can be found in the file "gpl3.txt".
+ * ----------------------------------------------------------------------------
+ * Author: Joao Leal
+ */
+
+namespace CppAD {
+namespace cg {
+
+/**
+ * Utility class which aborts the operation recording started in its scope
+ * when it is interrupted by an exception.
+ * It has no effect if the recording was already stopped.
+ */
+template<class Base>
+class TapeRecordingScope {
+public:
+    inline TapeRecordingScope() = default;
+
+    TapeRecordingScope(const TapeRecordingScope&) = delete;
+    TapeRecordingScope& operator=(const TapeRecordingScope&) = delete;
+
+    inline ~TapeRecordingScope() {
+        AD<Base>::abort_recording();
+    }
+};
+
+} // END cg namespace
+} // END CppAD namespace
+
+#endif
-- 
2.43.0


From 1921addc895a2bdc1b140fc8ae18dd3fec82b1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:11 +0000
Subject: [PATCH 38/45] fix: source code was silently truncated when there was
 not enough memory

---
 include/cppad/cg/cppadcg.hpp                  |  1 +
 .../c/lang_c_default_hessian_var_name_gen.hpp |  2 +-
 .../lang_c_default_reverse2_var_name_gen.hpp  |  2 +-
 .../cg/lang/c/lang_c_default_var_name_gen.hpp |  2 +-
 include/cppad/cg/lang/c/lang_c_util.hpp       |  4 +-
 include/cppad/cg/lang/c/language_c.hpp        |  8 +--
 include/cppad/cg/lang/c/language_c_arrays.hpp |  2 +-
 .../cg/lang/c/language_c_index_patterns.hpp   |  6 +--
 include/cppad/cg/lang/c/language_c_loops.hpp  |  2 +-
 include/cppad/cg/lang/dot/dot_util.hpp        |  2 +-
 include/cppad/cg/lang/dot/language_dot.hpp    |  4 +-
 .../lang/dot/language_dot_index_patterns.hpp  |  4 +-
 .../latex/lang_latex_default_var_name_gen.hpp |  2 +-
 .../cppad/cg/lang/latex/language_latex.hpp    |  6 +--
 .../cg/lang/latex/language_latex_arrays.hpp   |  2 +-
 .../latex/language_latex_index_patterns.hpp   |  6 +--
 .../lang_mathml_default_var_name_gen.hpp      |  2 +-
 .../cppad/cg/lang/mathml/language_mathml.hpp  |  6 +--
 .../cg/lang/mathml/language_mathml_arrays.hpp |  2 +-
 .../mathml/language_mathml_index_patterns.hpp |  4 +-
 include/cppad/cg/model/model_c_source_gen.hpp |  2 +-
 .../cg/model/model_c_source_gen_for0.hpp      |  2 +-
 .../cg/model/model_c_source_gen_for1.hpp      |  4 +-
 .../cppad/cg/model/model_c_source_gen_hes.hpp |  4 +-
 .../cg/model/model_c_source_gen_impl.hpp      |  5 +-
 .../cppad/cg/model/model_c_source_gen_jac.hpp |  4 +-
 .../cg/model/model_c_source_gen_rev1.hpp      |  4 +-
 .../cg/model/model_c_source_gen_rev2.hpp      |  4 +-
 .../cg/model/model_library_c_source_gen.hpp   |  2 +-
 .../patterns/model_c_source_gen_loops.hpp     |  2 +-
 .../model_c_source_gen_loops_for1.hpp         |  4 +-
 .../model_c_source_gen_loops_rev1.hpp         |  4 +-
 .../model_c_source_gen_loops_rev2.hpp         |  4 +-
 include/cppad/cg/strict_stream.hpp            | 53 +++++++++++++++++++
 34 files changed, 110 insertions(+), 57 deletions(-)
 create mode 100644 include/cppad/cg/strict_stream.hpp

diff --git a/include/cppad/cg/cppadcg.hpp b/include/cppad/cg/cppadcg.hpp
index 8735cee..208e9aa 100644
--- a/include/cppad/cg/cppadcg.hpp
+++ b/include/cppad/cg/cppadcg.hpp
@@ -96,6 +96,7 @@ static_assert(false,
 // some utilities
 #include <cppad/cg/smart_containers.hpp>
 #include <cppad/cg/tape_recording_scope.hpp>
+#include <cppad/cg/strict_stream.hpp>
 #include <cppad/cg/ostream_config_restore.hpp>
 #include <cppad/cg/array_view.hpp>
 
diff --git a/include/cppad/cg/lang/c/lang_c_default_hessian_var_name_gen.hpp b/include/cppad/cg/lang/c/lang_c_default_hessian_var_name_gen.hpp
index 7c1e70e..bc84808 100644
--- a/include/cppad/cg/lang/c/lang_c_default_hessian_var_name_gen.hpp
+++ b/include/cppad/cg/lang/c/lang_c_default_hessian_var_name_gen.hpp
@@ -36,7 +36,7 @@ protected:
     // array name of the independent variables
     const std::string _multName;
     // auxiliary string stream
-    std::stringstream _ss;
+    StrictStringStream _ss;
 public:
 
     LangCDefaultHessianVarNameGenerator(VariableNameGenerator<Base>* nameGen,
diff --git a/include/cppad/cg/lang/c/lang_c_default_reverse2_var_name_gen.hpp b/include/cppad/cg/lang/c/lang_c_default_reverse2_var_name_gen.hpp
index 7f33f81..bbfbe34 100644
--- a/include/cppad/cg/lang/c/lang_c_default_reverse2_var_name_gen.hpp
+++ b/include/cppad/cg/lang/c/lang_c_default_reverse2_var_name_gen.hpp
@@ -40,7 +40,7 @@ protected:
     // array name of the independent variables (2nd level)
     const std::string _level2Name;
     // auxiliary string stream
-    std::stringstream _ss;
+    StrictStringStream _ss;
 public:
 
     LangCDefaultReverse2VarNameGenerator(VariableNameGenerator<Base>* nameGen,
diff --git a/include/cppad/cg/lang/c/lang_c_default_var_name_gen.hpp b/include/cppad/cg/lang/c/lang_c_default_var_name_gen.hpp
index 9f794c5..92b7bb7 100644
--- a/include/cppad/cg/lang/c/lang_c_default_var_name_gen.hpp
+++ b/include/cppad/cg/lang/c/lang_c_default_var_name_gen.hpp
@@ -28,7 +28,7 @@ template<class Base>
 class LangCDefaultVariableNameGenerator : public VariableNameGenerator<Base> {
 protected:
     // auxiliary string stream
-    std::stringstream _ss;
+    StrictStringStream _ss;
     // array name of the dependent variables
     std::string _depName;
     // array name of the independent variables
diff --git a/include/cppad/cg/lang/c/lang_c_util.hpp b/include/cppad/cg/lang/c/lang_c_util.hpp
index ef0ad6e..7120fcb 100644
--- a/include/cppad/cg/lang/c/lang_c_util.hpp
+++ b/include/cppad/cg/lang/c/lang_c_util.hpp
@@ -60,7 +60,7 @@ inline void printModel(ADFun<CG<Base> >& fun,
     LangCCustomVariableNameGenerator<Base> nameGen(depNames, indepNames,
                                                    "y", "x", "z", "array");
 
-    std::ostringstream code;
+    StrictOStringStream code;
     handler.generateCode(code, langC, dep0, nameGen);
     std::cout << "\n" << code.str() << std::endl;
 }
@@ -83,7 +83,7 @@ inline void printExpression(const CG<Base>& dep,
         std::vector<CG<Base> > depv(1);
         depv[0] = dep;
 
-        std::ostringstream code;
+        StrictOStringStream code;
         handler.generateCode(code, langC, depv, nameGen);
         out << code.str();
     } else {
diff --git a/include/cppad/cg/lang/c/language_c.hpp b/include/cppad/cg/lang/c/language_c.hpp
index 11ee40d..6a7c496 100644
--- a/include/cppad/cg/lang/c/language_c.hpp
+++ b/include/cppad/cg/lang/c/language_c.hpp
@@ -69,11 +69,11 @@ protected:
     // variable name used for the atomic functions array
     std::string _atomicArgName;
     // output stream for the generated source code
-    std::ostringstream _code;
+    StrictOStringStream _code;
     // creates the variable names
     VariableNameGenerator<Base>* _nameGen;
     // auxiliary string stream
-    std::ostringstream _ss;
+    StrictOStringStream _ss;
     //
     LangStreamStack<Base> _streamStack;
     //
@@ -1912,7 +1912,7 @@ protected:
         if (lnode.getIterationCountNode() != nullptr) {
             iterationCount = *lnode.getIterationCountNode()->getIndex().getName();
         } else {
-            std::ostringstream oss;
+            StrictOStringStream oss;
             oss << lnode.getIterationCount();
             iterationCount = oss.str();
         }
@@ -2091,7 +2091,7 @@ protected:
     template<class Output>
     void writeParameter(const Base& value, Output& output) {
         // make sure all digits of floating point values are printed
-        std::ostringstream os;
+        StrictOStringStream os;
         os << std::setprecision(_parameterPrecision) << value;
 
         std::string number = os.str();
diff --git a/include/cppad/cg/lang/c/language_c_arrays.hpp b/include/cppad/cg/lang/c/language_c_arrays.hpp
index 0147a91..a75c51c 100644
--- a/include/cppad/cg/lang/c/language_c_arrays.hpp
+++ b/include/cppad/cg/lang/c/language_c_arrays.hpp
@@ -130,7 +130,7 @@ inline size_t LanguageC<Base>::printArrayCreationUsingLoop(size_t startPos,
     const size_t argSize = args.size();
     size_t i = starti + 1;
 
-    std::ostringstream arrayAssign;
+    StrictOStringStream arrayAssign;
 
     const Argument<Base>& ref = args[starti];
     if (ref.getOperation() != nullptr) {
diff --git a/include/cppad/cg/lang/c/language_c_index_patterns.hpp b/include/cppad/cg/lang/c/language_c_index_patterns.hpp
index ac94520..df4478f 100644
--- a/include/cppad/cg/lang/c/language_c_index_patterns.hpp
+++ b/include/cppad/cg/lang/c/language_c_index_patterns.hpp
@@ -21,7 +21,7 @@ namespace cg {
 
 template<class Base>
 inline void LanguageC<Base>::generateNames4RandomIndexPatterns(const std::set<RandomIndexPattern*>& randomPatterns) {
-    std::ostringstream os;
+    StrictOStringStream os;
 
     std::set<std::string> usedNames;
 
@@ -202,7 +202,7 @@ inline std::string LanguageC<Base>::indexPattern2String(const IndexPattern& ip,
 template<class Base>
 inline std::string LanguageC<Base>::indexPattern2String(const IndexPattern& ip,
                                                         const std::vector<const std::string*>& indexes) {
-    std::stringstream ss;
+    StrictStringStream ss;
     switch (ip.getType()) {
         case IndexPatternType::Linear: // y = x * a + b
         {
@@ -287,7 +287,7 @@ inline std::string LanguageC<Base>::linearIndexPattern2String(const LinearIndexP
     long b = lip.getLinearConstantTerm();
     long xOffset = lip.getXOffset();
 
-    std::stringstream ss;
+    StrictStringStream ss;
     if (dy != 0) {
         if (xOffset != 0) {
             ss << "(";
diff --git a/include/cppad/cg/lang/c/language_c_loops.hpp b/include/cppad/cg/lang/c/language_c_loops.hpp
index fea15b5..c411a2d 100644
--- a/include/cppad/cg/lang/c/language_c_loops.hpp
+++ b/include/cppad/cg/lang/c/language_c_loops.hpp
@@ -144,7 +144,7 @@ inline size_t LanguageC<Base>::printLoopIndexedDepsUsingLoop(const std::vector<O
     op2->getInfo()[1] = (std::numeric_limits<size_t>::max)(); // just to be safe (this would be the index pattern id in the handler)
     op2->getArguments().push_back(_info->auxIterationIndexOp);
 
-    std::ostringstream rightAssign;
+    StrictOStringStream rightAssign;
     
     rightAssign << _nameGen->generateIndexedDependent(*op2, 0, *p2dip);
 
diff --git a/include/cppad/cg/lang/dot/dot_util.hpp b/include/cppad/cg/lang/dot/dot_util.hpp
index abee383..9570a26 100644
--- a/include/cppad/cg/lang/dot/dot_util.hpp
+++ b/include/cppad/cg/lang/dot/dot_util.hpp
@@ -38,7 +38,7 @@ inline void printDotExpression(CG<Base>& dep,
         std::vector<CG<Base> > depv(1);
         depv[0] = dep;
 
-        std::ostringstream code;
+        StrictOStringStream code;
         handler.generateCode(code, langDot, depv, nameGen);
         out << code.str();
     } else {
diff --git a/include/cppad/cg/lang/dot/language_dot.hpp b/include/cppad/cg/lang/dot/language_dot.hpp
index a7c67c8..243397b 100644
--- a/include/cppad/cg/lang/dot/language_dot.hpp
+++ b/include/cppad/cg/lang/dot/language_dot.hpp
@@ -35,11 +35,11 @@ protected:
     // new line characters
     std::string _endline;
     // output stream for the generated source code
-    std::ostringstream _code;
+    StrictOStringStream _code;
     // creates the variable names
     VariableNameGenerator <Base>* _nameGen;
     // auxiliary string stream
-    std::ostringstream _ss;
+    StrictOStringStream _ss;
     //
     size_t _independentSize;
     //
diff --git a/include/cppad/cg/lang/dot/language_dot_index_patterns.hpp b/include/cppad/cg/lang/dot/language_dot_index_patterns.hpp
index e563027..7cfdce8 100644
--- a/include/cppad/cg/lang/dot/language_dot_index_patterns.hpp
+++ b/include/cppad/cg/lang/dot/language_dot_index_patterns.hpp
@@ -21,7 +21,7 @@ namespace cg {
 
 template<class Base>
 inline void LanguageDot<Base>::generateNames4RandomIndexPatterns(const std::set<RandomIndexPattern*>& randomPatterns) {
-    std::ostringstream os;
+    StrictOStringStream os;
 
     std::set<std::string> usedNames;
 
@@ -145,7 +145,7 @@ template<class Base>
 inline void LanguageDot<Base>::indexPattern2String(std::ostream& os,
                                                       const IndexPattern& ip,
                                                       const std::vector<const OperationNode<Base>*>& indexes) {
-    std::stringstream ss;
+    StrictStringStream ss;
     switch (ip.getType()) {
         case IndexPatternType::Linear: // y = x * a + b
         {
diff --git a/include/cppad/cg/lang/latex/lang_latex_default_var_name_gen.hpp b/include/cppad/cg/lang/latex/lang_latex_default_var_name_gen.hpp
index 8a40ffb..910f9d8 100644
--- a/include/cppad/cg/lang/latex/lang_latex_default_var_name_gen.hpp
+++ b/include/cppad/cg/lang/latex/lang_latex_default_var_name_gen.hpp
@@ -28,7 +28,7 @@ template<class Base>
 class LangLatexDefaultVariableNameGenerator : public VariableNameGenerator<Base> {
 protected:
     // auxiliary string stream
-    std::stringstream _ss;
+    StrictStringStream _ss;
     // array name of the dependent variables
     std::string _depName;
     // array name of the independent variables
diff --git a/include/cppad/cg/lang/latex/language_latex.hpp b/include/cppad/cg/lang/latex/language_latex.hpp
index e419ffb..3e6193f 100644
--- a/include/cppad/cg/lang/latex/language_latex.hpp
+++ b/include/cppad/cg/lang/latex/language_latex.hpp
@@ -93,11 +93,11 @@ protected:
     // new line characters
     std::string _endline;
     // output stream for the generated source code
-    std::ostringstream _code;
+    StrictOStringStream _code;
     // creates the variable names
     VariableNameGenerator<Base>* _nameGen;
     // auxiliary string stream
-    std::ostringstream _ss;
+    StrictOStringStream _ss;
     //
     size_t _independentSize;
     //
@@ -2068,7 +2068,7 @@ protected:
 
     virtual void printParameter(const Base& value) {
         // make sure all digits of floating point values are printed
-        std::ostringstream os;
+        StrictOStringStream os;
         os << std::setprecision(_parameterPrecision) << value;
 
         std::string number = os.str();
diff --git a/include/cppad/cg/lang/latex/language_latex_arrays.hpp b/include/cppad/cg/lang/latex/language_latex_arrays.hpp
index 0d242a7..58f399c 100644
--- a/include/cppad/cg/lang/latex/language_latex_arrays.hpp
+++ b/include/cppad/cg/lang/latex/language_latex_arrays.hpp
@@ -145,7 +145,7 @@ inline size_t LanguageLatex<Base>::printArrayCreationUsingLoop(size_t startPos,
     const size_t argSize = args.size();
     size_t i = starti + 1;
 
-    std::ostringstream arrayAssign;
+    StrictOStringStream arrayAssign;
 
     const Argument<Base>& ref = args[starti];
     if (ref.getOperation() != nullptr) {
diff --git a/include/cppad/cg/lang/latex/language_latex_index_patterns.hpp b/include/cppad/cg/lang/latex/language_latex_index_patterns.hpp
index a5738e2..e7eb82f 100644
--- a/include/cppad/cg/lang/latex/language_latex_index_patterns.hpp
+++ b/include/cppad/cg/lang/latex/language_latex_index_patterns.hpp
@@ -21,7 +21,7 @@ namespace cg {
 
 template<class Base>
 inline void LanguageLatex<Base>::generateNames4RandomIndexPatterns(const std::set<RandomIndexPattern*>& randomPatterns) {
-    std::ostringstream os;
+    StrictOStringStream os;
 
     std::set<std::string> usedNames;
 
@@ -159,7 +159,7 @@ inline std::string LanguageLatex<Base>::indexPattern2String(const IndexPattern&
 template<class Base>
 inline std::string LanguageLatex<Base>::indexPattern2String(const IndexPattern& ip,
                                                             const std::vector<const OperationNode<Base>*>& indexes) {
-    std::stringstream ss;
+    StrictStringStream ss;
     switch (ip.getType()) {
         case IndexPatternType::Linear: // y = x * a + b
         {
@@ -238,7 +238,7 @@ inline std::string LanguageLatex<Base>::linearIndexPattern2String(const LinearIn
     long b = lip.getLinearConstantTerm();
     long xOffset = lip.getXOffset();
 
-    std::stringstream ss;
+    StrictStringStream ss;
     if (dy != 0) {
         if (xOffset != 0) {
             ss << "\\left(";
diff --git a/include/cppad/cg/lang/mathml/lang_mathml_default_var_name_gen.hpp b/include/cppad/cg/lang/mathml/lang_mathml_default_var_name_gen.hpp
index d2ecb42..86f83d7 100644
--- a/include/cppad/cg/lang/mathml/lang_mathml_default_var_name_gen.hpp
+++ b/include/cppad/cg/lang/mathml/lang_mathml_default_var_name_gen.hpp
@@ -28,7 +28,7 @@ template<class Base>
 class LangMathMLDefaultVariableNameGenerator : public VariableNameGenerator<Base> {
 protected:
     // auxiliary string stream
-    std::stringstream _ss;
+    StrictStringStream _ss;
     // array name of the dependent variables
     std::string _depName;
     // array name of the independent variables
diff --git a/include/cppad/cg/lang/mathml/language_mathml.hpp b/include/cppad/cg/lang/mathml/language_mathml.hpp
index 0a4602d..71e6dec 100644
--- a/include/cppad/cg/lang/mathml/language_mathml.hpp
+++ b/include/cppad/cg/lang/mathml/language_mathml.hpp
@@ -70,11 +70,11 @@ protected:
     // new line characters
     std::string _endline;
     // output stream for the generated source code
-    std::ostringstream _code;
+    StrictOStringStream _code;
     // creates the variable names
     VariableNameGenerator<Base>* _nameGen;
     // auxiliary string stream
-    std::ostringstream _ss;
+    StrictOStringStream _ss;
     //
     size_t _independentSize;
     //
@@ -2053,7 +2053,7 @@ protected:
 
     virtual void printParameter(const Base& value) {
         // make sure all digits of floating point values are printed
-        std::ostringstream os;
+        StrictOStringStream os;
         os << std::setprecision(_parameterPrecision) << value;
 
         std::string number = os.str();
diff --git a/include/cppad/cg/lang/mathml/language_mathml_arrays.hpp b/include/cppad/cg/lang/mathml/language_mathml_arrays.hpp
index bb122c1..e389f2d 100644
--- a/include/cppad/cg/lang/mathml/language_mathml_arrays.hpp
+++ b/include/cppad/cg/lang/mathml/language_mathml_arrays.hpp
@@ -144,7 +144,7 @@ inline size_t LanguageMathML<Base>::printArrayCreationUsingLoop(size_t startPos,
     const size_t argSize = args.size();
     size_t i = starti + 1;
 
-    std::ostringstream arrayAssign;
+    StrictOStringStream arrayAssign;
 
     const Argument<Base>& ref = args[starti];
     if (ref.getOperation() != nullptr) {
diff --git a/include/cppad/cg/lang/mathml/language_mathml_index_patterns.hpp b/include/cppad/cg/lang/mathml/language_mathml_index_patterns.hpp
index ec1eddf..8cfa374 100644
--- a/include/cppad/cg/lang/mathml/language_mathml_index_patterns.hpp
+++ b/include/cppad/cg/lang/mathml/language_mathml_index_patterns.hpp
@@ -21,7 +21,7 @@ namespace cg {
 
 template<class Base>
 inline void LanguageMathML<Base>::generateNames4RandomIndexPatterns(const std::set<RandomIndexPattern*>& randomPatterns) {
-    std::ostringstream os;
+    StrictOStringStream os;
 
     std::set<std::string> usedNames;
 
@@ -158,7 +158,7 @@ template<class Base>
 inline void LanguageMathML<Base>::indexPattern2String(std::ostream& os,
                                                       const IndexPattern& ip,
                                                       const std::vector<const OperationNode<Base>*>& indexes) {
-    std::stringstream ss;
+    StrictStringStream ss;
     switch (ip.getType()) {
         case IndexPatternType::Linear: // y = x * a + b
         {
diff --git a/include/cppad/cg/model/model_c_source_gen.hpp b/include/cppad/cg/model/model_c_source_gen.hpp
index 4b29951..f17bc35 100644
--- a/include/cppad/cg/model/model_c_source_gen.hpp
+++ b/include/cppad/cg/model/model_c_source_gen.hpp
@@ -229,7 +229,7 @@ protected:
     /**
      * A string cache for code generation
      */
-    std::ostringstream _cache;
+    StrictOStringStream _cache;
     /**
      * maximum number of assignments per function (~ lines)
      */
diff --git a/include/cppad/cg/model/model_c_source_gen_for0.hpp b/include/cppad/cg/model/model_c_source_gen_for0.hpp
index 59789dc..7db6269 100644
--- a/include/cppad/cg/model/model_c_source_gen_for0.hpp
+++ b/include/cppad/cg/model/model_c_source_gen_for0.hpp
@@ -54,7 +54,7 @@ void ModelCSourceGen<Base>::generateZeroSource() {
     langC.setParameterPrecision(_parameterPrecision);
     langC.setGenerateFunction(_name + "_" + FUNCTION_FORWAD_ZERO);
 
-    std::ostringstream code;
+    StrictOStringStream code;
     std::unique_ptr<VariableNameGenerator<Base> > nameGen(createVariableNameGenerator());
 
     handler.generateCode(code, langC, dep, *nameGen, _atomicFunctions, jobName);
diff --git a/include/cppad/cg/model/model_c_source_gen_for1.hpp b/include/cppad/cg/model/model_c_source_gen_for1.hpp
index fc8d1d3..cbecfb8 100644
--- a/include/cppad/cg/model/model_c_source_gen_for1.hpp
+++ b/include/cppad/cg/model/model_c_source_gen_for1.hpp
@@ -121,7 +121,7 @@ void ModelCSourceGen<Base>::generateSparseForwardOneSourcesWithAtomics(const std
         _cache << _name << "_" << FUNCTION_SPARSE_FORWARD_ONE << "_indep" << j;
         langC.setGenerateFunction(_cache.str());
 
-        std::ostringstream code;
+        StrictOStringStream code;
         std::unique_ptr<VariableNameGenerator<Base> > nameGen(createVariableNameGenerator("dy"));
         LangCDefaultHessianVarNameGenerator<Base> nameGenHess(nameGen.get(), "dx", n);
 
@@ -208,7 +208,7 @@ void ModelCSourceGen<Base>::generateSparseForwardOneSourcesNoAtomics(const std::
         _cache << _name << "_" << FUNCTION_SPARSE_FORWARD_ONE << "_indep" << j;
         langC.setGenerateFunction(_cache.str());
 
-        std::ostringstream code;
+        StrictOStringStream code;
         std::unique_ptr<VariableNameGenerator<Base> > nameGen(createVariableNameGenerator("dy"));
         LangCDefaultHessianVarNameGenerator<Base> nameGenHess(nameGen.get(), "dx", n);
 
diff --git a/include/cppad/cg/model/model_c_source_gen_hes.hpp b/include/cppad/cg/model/model_c_source_gen_hes.hpp
index 6ff34ec..6e1d121 100644
--- a/include/cppad/cg/model/model_c_source_gen_hes.hpp
+++ b/include/cppad/cg/model/model_c_source_gen_hes.hpp
@@ -68,7 +68,7 @@ void ModelCSourceGen<Base>::generateHessianSource() {
     langC.setParameterPrecision(_parameterPrecision);
     langC.setGenerateFunction(_name + "_" + FUNCTION_HESSIAN);
 
-    std::ostringstream code;
+    StrictOStringStream code;
     std::unique_ptr<VariableNameGenerator<Base> > nameGen(createVariableNameGenerator("hess"));
     LangCDefaultHessianVarNameGenerator<Base> nameGenHess(nameGen.get(), n);
 
@@ -216,7 +216,7 @@ void ModelCSourceGen<Base>::generateSparseHessianSourceDirectly() {
     langC.setParameterPrecision(_parameterPrecision);
     langC.setGenerateFunction(_name + "_" + FUNCTION_SPARSE_HESSIAN);
 
-    std::ostringstream code;
+    StrictOStringStream code;
     std::unique_ptr<VariableNameGenerator<Base> > nameGen(createVariableNameGenerator("hess"));
     LangCDefaultHessianVarNameGenerator<Base> nameGenHess(nameGen.get(), n);
 
diff --git a/include/cppad/cg/model/model_c_source_gen_impl.hpp b/include/cppad/cg/model/model_c_source_gen_impl.hpp
index b829d8d..b92d009 100644
--- a/include/cppad/cg/model/model_c_source_gen_impl.hpp
+++ b/include/cppad/cg/model/model_c_source_gen_impl.hpp
@@ -110,7 +110,6 @@ const std::map<std::string, std::string>& ModelCSourceGen<Base>::getSources(Mult
 template<class Base>
 void ModelCSourceGen<Base>::clearSources() {
     _sources.clear();
-    _cache.clear();
     _cache.str("");
     _zeroEvaluated = false;
     _atomicFunctions.clear();
@@ -461,7 +460,7 @@ void ModelCSourceGen<Base>::generateSparsity2DSource2(const std::string& functio
                                                                          "unsigned long* nnz"});
     _cache << " {\n";
 
-    std::ostringstream os;
+    StrictOStringStream os;
 
     std::vector<size_t> nnzs(sparsities.size());
 
@@ -552,7 +551,7 @@ void ModelCSourceGen<Base>::generateSparsity1DSource2(const std::string& functio
         const std::vector<size_t>& els = it.second;
         if (!els.empty()) {
             _cache << "   ";
-            std::ostringstream os;
+            StrictOStringStream os;
             os << "els" << it.first;
             LanguageC<Base>::printStaticIndexArray(_cache, os.str(), els);
 
diff --git a/include/cppad/cg/model/model_c_source_gen_jac.hpp b/include/cppad/cg/model/model_c_source_gen_jac.hpp
index 10ab1b3..65153b0 100644
--- a/include/cppad/cg/model/model_c_source_gen_jac.hpp
+++ b/include/cppad/cg/model/model_c_source_gen_jac.hpp
@@ -59,7 +59,7 @@ void ModelCSourceGen<Base>::generateJacobianSource() {
     langC.setParameterPrecision(_parameterPrecision);
     langC.setGenerateFunction(_name + "_" + FUNCTION_JACOBIAN);
 
-    std::ostringstream code;
+    StrictOStringStream code;
     std::unique_ptr<VariableNameGenerator<Base> > nameGen(createVariableNameGenerator("jac"));
 
     handler.generateCode(code, langC, jac, *nameGen, _atomicFunctions, jobName);
@@ -143,7 +143,7 @@ void ModelCSourceGen<Base>::generateSparseJacobianSource(bool forward) {
     langC.setParameterPrecision(_parameterPrecision);
     langC.setGenerateFunction(_name + "_" + FUNCTION_SPARSE_JACOBIAN);
 
-    std::ostringstream code;
+    StrictOStringStream code;
     std::unique_ptr<VariableNameGenerator<Base> > nameGen(createVariableNameGenerator("jac"));
 
     handler.generateCode(code, langC, jac, *nameGen, _atomicFunctions, jobName);
diff --git a/include/cppad/cg/model/model_c_source_gen_rev1.hpp b/include/cppad/cg/model/model_c_source_gen_rev1.hpp
index 647d1d6..d53af5f 100644
--- a/include/cppad/cg/model/model_c_source_gen_rev1.hpp
+++ b/include/cppad/cg/model/model_c_source_gen_rev1.hpp
@@ -126,7 +126,7 @@ void ModelCSourceGen<Base>::generateSparseReverseOneSourcesWithAtomics(const std
         _cache << _name << "_" << FUNCTION_SPARSE_REVERSE_ONE << "_dep" << i;
         langC.setGenerateFunction(_cache.str());
 
-        std::ostringstream code;
+        StrictOStringStream code;
         std::unique_ptr<VariableNameGenerator<Base> > nameGen(createVariableNameGenerator("dw"));
         LangCDefaultHessianVarNameGenerator<Base> nameGenHess(nameGen.get(), "py", n);
 
@@ -214,7 +214,7 @@ void ModelCSourceGen<Base>::generateSparseReverseOneSourcesNoAtomics(const std::
         _cache << _name << "_" << FUNCTION_SPARSE_REVERSE_ONE << "_dep" << i;
         langC.setGenerateFunction(_cache.str());
 
-        std::ostringstream code;
+        StrictOStringStream code;
         std::unique_ptr<VariableNameGenerator<Base> > nameGen(createVariableNameGenerator("dw"));
         LangCDefaultHessianVarNameGenerator<Base> nameGenHess(nameGen.get(), "py", n);
 
diff --git a/include/cppad/cg/model/model_c_source_gen_rev2.hpp b/include/cppad/cg/model/model_c_source_gen_rev2.hpp
index b83ad9f..d701b39 100644
--- a/include/cppad/cg/model/model_c_source_gen_rev2.hpp
+++ b/include/cppad/cg/model/model_c_source_gen_rev2.hpp
@@ -134,7 +134,7 @@ void ModelCSourceGen<Base>::generateSparseReverseTwoSourcesWithAtomics(const std
         _cache << _name << "_" << FUNCTION_SPARSE_REVERSE_TWO << "_indep" << j;
         langC.setGenerateFunction(_cache.str());
 
-        std::ostringstream code;
+        StrictOStringStream code;
         std::unique_ptr<VariableNameGenerator<Base> > nameGen(createVariableNameGenerator("px"));
         LangCDefaultReverse2VarNameGenerator<Base> nameGenRev2(nameGen.get(), n, 1);
 
@@ -237,7 +237,7 @@ void ModelCSourceGen<Base>::generateSparseReverseTwoSourcesNoAtomics(const std::
         _cache << _name << "_" << FUNCTION_SPARSE_REVERSE_TWO << "_indep" << j;
         langC.setGenerateFunction(_cache.str());
 
-        std::ostringstream code;
+        StrictOStringStream code;
         std::unique_ptr<VariableNameGenerator<Base> > nameGen(createVariableNameGenerator("px"));
         LangCDefaultReverse2VarNameGenerator<Base> nameGenRev2(nameGen.get(), n, 1);
 
diff --git a/include/cppad/cg/model/model_library_c_source_gen.hpp b/include/cppad/cg/model/model_library_c_source_gen.hpp
index 9776458..e656e45 100644
--- a/include/cppad/cg/model/model_library_c_source_gen.hpp
+++ b/include/cppad/cg/model/model_library_c_source_gen.hpp
@@ -67,7 +67,7 @@ protected:
     /**
      * temporary stream to generate source code
      */
-    std::ostringstream _cache;
+    StrictOStringStream _cache;
 public:
 
     /**
diff --git a/include/cppad/cg/model/patterns/model_c_source_gen_loops.hpp b/include/cppad/cg/model/patterns/model_c_source_gen_loops.hpp
index a51536d..25052a6 100644
--- a/include/cppad/cg/model/patterns/model_c_source_gen_loops.hpp
+++ b/include/cppad/cg/model/patterns/model_c_source_gen_loops.hpp
@@ -1198,7 +1198,7 @@ std::string generateGlobalForRevWithLoopsFunctionSource(const std::map<size_t, s
     string args = langC.generateDefaultFunctionArguments();
     string noLoopFunc = functionName + "_noloop_" + suffix;
 
-    std::ostringstream out;
+    StrictOStringStream out;
     out << LanguageC<Base>::ATOMICFUN_STRUCT_DEFINITION << "\n"
             "\n";
     ModelCSourceGen<Base>::generateFunctionDeclarationSource(out, functionName, "noloop_" + suffix, nonLoopElements, argsDcl);
diff --git a/include/cppad/cg/model/patterns/model_c_source_gen_loops_for1.hpp b/include/cppad/cg/model/patterns/model_c_source_gen_loops_for1.hpp
index 0a676c0..56436ab 100644
--- a/include/cppad/cg/model/patterns/model_c_source_gen_loops_for1.hpp
+++ b/include/cppad/cg/model/patterns/model_c_source_gen_loops_for1.hpp
@@ -349,7 +349,7 @@ void ModelCSourceGen<Base>::prepareSparseForwardOneWithLoops(const std::map<size
             langC.setParameterPrecision(_parameterPrecision);
 
             _cache.str("");
-            std::ostringstream code;
+            StrictOStringStream code;
             std::unique_ptr<VariableNameGenerator<Base> > nameGen(createVariableNameGenerator("dy"));
             LangCDefaultHessianVarNameGenerator<Base> nameGenHess(nameGen.get(), "dx", n);
 
@@ -435,7 +435,7 @@ void ModelCSourceGen<Base>::createForwardOneWithLoopsNL(CodeHandler<Base>& handl
     _cache << _name << "_" << FUNCTION_SPARSE_FORWARD_ONE << "_noloop_indep" << j;
     langC.setGenerateFunction(_cache.str());
 
-    std::ostringstream code;
+    StrictOStringStream code;
     std::unique_ptr<VariableNameGenerator<Base> > nameGen(createVariableNameGenerator("dy"));
     LangCDefaultHessianVarNameGenerator<Base> nameGenHess(nameGen.get(), "dx", n);
 
diff --git a/include/cppad/cg/model/patterns/model_c_source_gen_loops_rev1.hpp b/include/cppad/cg/model/patterns/model_c_source_gen_loops_rev1.hpp
index d8d8f5f..0591500 100644
--- a/include/cppad/cg/model/patterns/model_c_source_gen_loops_rev1.hpp
+++ b/include/cppad/cg/model/patterns/model_c_source_gen_loops_rev1.hpp
@@ -284,7 +284,7 @@ void ModelCSourceGen<Base>::prepareSparseReverseOneWithLoops(const std::map<size
             langC.setParameterPrecision(_parameterPrecision);
 
             _cache.str("");
-            std::ostringstream code;
+            StrictOStringStream code;
             std::unique_ptr<VariableNameGenerator<Base> > nameGen(createVariableNameGenerator("dw"));
             LangCDefaultHessianVarNameGenerator<Base> nameGenHess(nameGen.get(), "dy", n);
 
@@ -370,7 +370,7 @@ void ModelCSourceGen<Base>::createReverseOneWithLoopsNL(CodeHandler<Base>& handl
     _cache << _name << "_" << FUNCTION_SPARSE_REVERSE_ONE << "_noloop_dep" << i;
     langC.setGenerateFunction(_cache.str());
 
-    std::ostringstream code;
+    StrictOStringStream code;
     std::unique_ptr<VariableNameGenerator<Base> > nameGen(createVariableNameGenerator("dw"));
     LangCDefaultHessianVarNameGenerator<Base> nameGenHess(nameGen.get(), "dy", n);
 
diff --git a/include/cppad/cg/model/patterns/model_c_source_gen_loops_rev2.hpp b/include/cppad/cg/model/patterns/model_c_source_gen_loops_rev2.hpp
index 6ba1b34..f2cdfb0 100644
--- a/include/cppad/cg/model/patterns/model_c_source_gen_loops_rev2.hpp
+++ b/include/cppad/cg/model/patterns/model_c_source_gen_loops_rev2.hpp
@@ -384,7 +384,7 @@ void ModelCSourceGen<Base>::prepareSparseReverseTwoWithLoops(const std::map<size
             langC.setFunctionIndexArgument(indexJrowDcl);
             langC.setParameterPrecision(_parameterPrecision);
 
-            std::ostringstream code;
+            StrictOStringStream code;
             std::unique_ptr<VariableNameGenerator<Base> > nameGen(createVariableNameGenerator("px"));
             LangCDefaultReverse2VarNameGenerator<Base> nameGenRev2(nameGen.get(), n, 1);
 
@@ -531,7 +531,7 @@ void ModelCSourceGen<Base>::prepareSparseReverseTwoWithLoops(const std::map<size
                 string functionName = _cache.str();
                 langC.setGenerateFunction(functionName);
 
-                std::ostringstream code;
+                StrictOStringStream code;
                 std::unique_ptr<VariableNameGenerator<Base> > nameGen(createVariableNameGenerator("px"));
                 LangCDefaultReverse2VarNameGenerator<Base> nameGenRev2(nameGen.get(), n, 1);
 
diff --git a/include/cppad/cg/strict_stream.hpp b/include/cppad/cg/strict_stream.hpp
new file mode 100644
index 0000000..9a57c45
--- /dev/null
+++ b/include/cppad/cg/strict_stream.hpp
@@ -0,0 +1,53 @@
+#ifndef CPPAD_CG_STRICT_STREAM_INCLUDED
+#define CPPAD_CG_STRICT_STREAM_INCLUDED
+/* --------------------------------------------------------------------------
+ *  CppADCodeGen: C++ Algorithmic Differentiation with Source Code Generation:
+ *    Copyright (C) 2020 Joao Leal
+ *
+ *  CppADCodeGen is distributed under multiple licenses:
+ *
+ *   - Eclipse Public License Version 1.0 (EPL1), and
+ *   - GNU General Public License Version 3 (GPL3).
+ *
+ *  EPL1 terms and conditions can be found in the file "epl-v10.txt", while
+ *  terms and conditions for the GPL3 can be found in the file "gpl3.txt".
+ * ----------------------------------------------------------------------------
+ * Author: Joao Leal
+ */
+
+namespace CppAD {
+namespace cg {
+
+/**
+ * A string stream which throws an exception when it is not possible to
+ * write to it (e.g., there is not enough memory).
+ * The default behaviour of the streams from the standard library is to
+ * silently ignore everything which is written afterwards.
+ */
+template<class Stream>
+class StrictStream : public Stream {
+public:
+    inline StrictStream() {
+        this->exceptions(std::ios_base::badbit);
+    }
+
+    inline std::string str() const {
+        return Stream::str();
+    }
+
+    /**
+     * Replaces the contents of the stream (previous errors are forgotten)
+     */
+    inline void str(const std::string& s) {
+        this->clear();
+        Stream::str(s);
+    }
+};
+
+using StrictOStringStream = StrictStream<std::ostringstream>;
+using StrictStringStream = StrictStream<std::stringstream>;
+
+} // END cg namespace
+} // END CppAD namespace
+
+#endif
-- 
2.43.0


From d3cce437d8ab609f16cfd7fc78bd00f4cc244759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:51 +0000
Subject: [PATCH 39/45] fix: operation nodes were lost when there was not
 enough memory to register them

---
 include/cppad/cg/code_handler_impl.hpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/cppad/cg/code_handler_impl.hpp b/include/cppad/cg/code_handler_impl.hpp
index 8ae3ec1..5014f8f 100644
--- a/include/cppad/cg/code_handler_impl.hpp
+++ b/include/cppad/cg/code_handler_impl.hpp
@@ -49,8 +49,13 @@ CodeHandler<Base>::CodeHandler(size_t varCount) :
     //_variableOrder.reserve(1 + varCount / 3);
     _scopedVariableOrder[0].reserve(1 + varCount / 3);
 
-    _auxIndexI = makeIndexDclrNode("i");
-    _auxIterationIndexOp = makeIndexNode(*_auxIndexI);
+    try {
+        _auxIndexI = makeIndexDclrNode("i");
+        _auxIterationIndexOp = makeIndexNode(*_auxIndexI);
+    } catch (...) {
+        reset(); // the destructor is not going to be called
+        throw;
+    }
 }
 
 template<class Base>
@@ -708,13 +713,15 @@ inline bool CodeHandler<Base>::manageOperationNodeMemory(Node* code) {
 template<class Base>
 OperationNode<Base>* CodeHandler<Base>::manageOperationNode(Node* code) {
     //CPPADCG_ASSERT_UNKNOWN(std::find(_codeBlocks.begin(), _codeBlocks.end(), code) == _codeBlocks.end()); // <<< too great of an impact in performance
+    std::unique_ptr<Node> owner(code); // this handler is now responsible for deleting the node
+
     if (_codeBlocks.capacity() == _codeBlocks.size()) {
         _codeBlocks.reserve((_codeBlocks.size() * 3) / 2 + 1);
     }
 
     code->setHandlerPosition(_codeBlocks.size());
     _codeBlocks.push_back(code);
-    return code;
+    return owner.release();
 }
 
 template<class Base>
-- 
2.43.0


From 566eada275fe4d926d15acc5436d3e523dc4a456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:30 +0000
Subject: [PATCH 40/45] fix: the sources of models with loops depended on the
 loops detected before by the process

---
 .../cg/patterns/dependent_pattern_matcher.hpp    |  2 +-
 include/cppad/cg/patterns/loop.hpp               | 12 ++++++++----
 include/cppad/cg/patterns/loop_model.hpp         | 16 +++++-----------
 3 files changed, 14 insertions(+), 16 deletions(-)

diff --git a/include/cppad/cg/patterns/dependent_pattern_matcher.hpp b/include/cppad/cg/patterns/dependent_pattern_matcher.hpp
index 6d057c4..bb063bf 100644
--- a/include/cppad/cg/patterns/dependent_pattern_matcher.hpp
+++ b/include/cppad/cg/patterns/dependent_pattern_matcher.hpp
@@ -495,7 +495,7 @@ private:
             Loop<Base>* loop = loops_[l];
 
             //Generate a local model for the loop
-            loop->createLoopModel(dependents_, independents_, dep2Equation_, origTemp2Index_);
+            loop->createLoopModel(dependents_, independents_, dep2Equation_, origTemp2Index_, l + 1);
         }
 
         /**
diff --git a/include/cppad/cg/patterns/loop.hpp b/include/cppad/cg/patterns/loop.hpp
index d8292ba..621a20c 100644
--- a/include/cppad/cg/patterns/loop.hpp
+++ b/include/cppad/cg/patterns/loop.hpp
@@ -281,7 +281,8 @@ public:
     void createLoopModel(const std::vector<CG<Base> >& dependents,
                          const std::vector<CG<Base> >& independents,
                          const std::map<size_t, EquationPattern<Base>*>& dep2Equation,
-                         std::map<OperationNode<Base>*, size_t>& origTemp2Index) {
+                         std::map<OperationNode<Base>*, size_t>& origTemp2Index,
+                         size_t loopId) {
 
         CPPADCG_ASSERT_UNKNOWN(dep2Iteration_.empty())
         for (size_t iter = 0; iter < iterationCount_; iter++) {
@@ -368,7 +369,7 @@ public:
         if(varId_ != nullptr)
             varId_->fill(0);
 
-        createLoopTapeNModel(dependents, independents, dep2Equation, origTemp2Index);
+        createLoopTapeNModel(dependents, independents, dep2Equation, origTemp2Index, loopId);
 
         /**
          * Clean-up
@@ -703,11 +704,13 @@ private:
      * @param independents original model independent variable vector
      * @param dep2Equation maps an equation/dependent index to an equation pattern
      * @param origTemp2Index
+     * @param loopId the identifier of the loop in the model
      */
     void createLoopTapeNModel(const std::vector<CG<Base> >& dependents,
                               const std::vector<CG<Base> >& independents,
                               const std::map<size_t, EquationPattern<Base>*>& dep2Equation,
-                              std::map<OperationNode<Base>*, size_t>& origTemp2Index) {
+                              std::map<OperationNode<Base>*, size_t>& origTemp2Index,
+                              size_t loopId) {
         using CGB = CG<Base>;
         using ADCGB = AD<CGB>;
         CPPADCG_ASSERT_UNKNOWN(independents.size() > 0)
@@ -927,7 +930,8 @@ private:
             nonIndexedIndependents[s] = origJ2CloneIt->first;
         }
 
-        loopModel_ = new LoopModel<Base>(funIndexed.get(),
+        loopModel_ = new LoopModel<Base>(loopId,
+                                         funIndexed.get(),
                                          containsAtoms,
                                          iterationCount_,
                                          dependentOrigIndexes,
diff --git a/include/cppad/cg/patterns/loop_model.hpp b/include/cppad/cg/patterns/loop_model.hpp
index ca8aa60..5a3e4fd 100644
--- a/include/cppad/cg/patterns/loop_model.hpp
+++ b/include/cppad/cg/patterns/loop_model.hpp
@@ -114,6 +114,8 @@ public:
      * Creates a new atomic function that is responsible for defining the
      * dependencies to calls of a user atomic function.
      *
+     * @param loopId The loop identifier which must be unique among the loops
+     *               of the same model (used in the names of functions)
      * @param fun The tape for a single loop iteration (loop model)
      * @param containsAtoms Whether or not fun calls atomic functions
      * @param iterationCount Number of loop iterations
@@ -122,14 +124,15 @@ public:
      * @param nonIndexedIndepOrigIndexes
      * @param temporaryIndependents
      */
-    LoopModel(ADFun<CGB>* fun,
+    LoopModel(size_t loopId,
+              ADFun<CGB>* fun,
               bool containsAtoms,
               size_t iterationCount,
               const std::vector<std::vector<size_t> >& dependentOrigIndexes,
               const std::vector<std::vector<size_t> >& indexedIndepOrigIndexes,
               const std::vector<size_t>& nonIndexedIndepOrigIndexes,
               const std::vector<size_t>& temporaryIndependents) :
-        loopId_(createNewLoopId()),
+        loopId_(loopId),
         fun_(fun),
         containsAtoms_(containsAtoms),
         iterationCount_(iterationCount),
@@ -501,15 +504,6 @@ public:
         }
     }
 
-private:
-
-    static size_t createNewLoopId() {
-        CPPAD_ASSERT_FIRST_CALL_NOT_PARALLEL;
-        static size_t count = 0;
-        count++;
-        return count;
-    }
-
 };
 
 template<class Base>
-- 
2.43.0


From f6ec0377474e8f19eb545a0d63a91510a7abb68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:45 +0000
Subject: [PATCH 41/45] fix: isCreateReverseTwo() returned the setting for the
 first-order reverse mode

---
 include/cppad/cg/model/model_c_source_gen.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cppad/cg/model/model_c_source_gen.hpp b/include/cppad/cg/model/model_c_source_gen.hpp
index f17bc35..f08c45a 100644
--- a/include/cppad/cg/model/model_c_source_gen.hpp
+++ b/include/cppad/cg/model/model_c_source_gen.hpp
@@ -770,7 +770,7 @@ public:
      *         mode is enabled, false otherwise.
      */
     inline bool isCreateReverseTwo() const {
-        return _reverseOne;
+        return _reverseTwo;
     }
 
     /**
-- 
2.43.0


From a5fdbcf2e442b2e92b6b1b780291bb63d7f4a46a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:42 +0000
Subject: [PATCH 42/45] fix: the result of the index reduction depended on the
 memory addresses of equations

---
 .../cppad/cg/dae_index_reduction/dummy_deriv.hpp    | 12 ++++++++----
 .../cppad/cg/dae_index_reduction/soares_secchi.hpp  | 13 ++++++++-----
 2 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/include/cppad/cg/dae_index_reduction/dummy_deriv.hpp b/include/cppad/cg/dae_index_reduction/dummy_deriv.hpp
index 8c651aa..eb280d7 100644
--- a/include/cppad/cg/dae_index_reduction/dummy_deriv.hpp
+++ b/include/cppad/cg/dae_index_reduction/dummy_deriv.hpp
@@ -1038,8 +1038,10 @@ protected:
             }
 
             // redetermine solvability
-            for (Enode<Base>* itAff : affected) {
-                Enode<Base>& a = *itAff;
+            for (Enode<Base>* eq : equations) {
+                if (affected.find(eq) == affected.end())
+                    continue;
+                Enode<Base>& a = *eq;
                 for (const auto& it : tape2FreeVariables) {
                     size_t jj = it.first;
                     if (localJacSparsity[n * a.index() + jj]) {
@@ -1080,8 +1082,10 @@ protected:
             /**
              * Implement changes in graph
              */
-            for (Enode<Base>* itAff : affected) {
-                Enode<Base>& a = *itAff;
+            for (Enode<Base>* eq : equations) {
+                if (affected.find(eq) == affected.end())
+                    continue;
+                Enode<Base>& a = *eq;
                 for (const auto& it : tape2FreeVariables) {
                     size_t v = it.first;
                     if (localJacSparsity[n * a.index() + v]) {
diff --git a/include/cppad/cg/dae_index_reduction/soares_secchi.hpp b/include/cppad/cg/dae_index_reduction/soares_secchi.hpp
index e52846a..97a4d62 100644
--- a/include/cppad/cg/dae_index_reduction/soares_secchi.hpp
+++ b/include/cppad/cg/dae_index_reduction/soares_secchi.hpp
@@ -39,8 +39,9 @@ protected:
     /**
      * the last equations added to graph
      * (equations used to create the ODE or DAE with index 1)
+     * A vector is used instead of a set to ensure reproducibility.
      */
-    std::set<Enode<Base>*> lastAddEq_;
+    std::vector<Enode<Base>*> lastAddEq_;
     // whether or not reduceIndex() has been called
     bool reduced_;
     //
@@ -168,8 +169,9 @@ protected:
         auto& vnodes = graph_.variables();
         auto& enodes = graph_.equations();
 
-        std::set<Enode<Base>*> marked;
-        std::set<Enode<Base>*> lastMarked;
+        // vectors are used instead of sets to ensure reproducibility
+        std::vector<Enode<Base>*> marked;
+        std::vector<Enode<Base>*> lastMarked;
 
         if (this->verbosity_ >= Verbosity::High)
             graph_.printDot(this->log());
@@ -192,7 +194,8 @@ protected:
                     for (Enode<Base>* ii: enodes) {
                         // mark colored equations to be differentiated
                         if (ii->isColored() && ii->derivative() == nullptr) {
-                            marked.insert(ii);
+                            if (std::find(marked.begin(), marked.end(), ii) == marked.end())
+                                marked.push_back(ii);
 
                             // uncolor equations
                             ii->uncolor();
@@ -230,7 +233,7 @@ protected:
 
         lastAddEq_.clear();
         for (const Enode<Base>* i: lastMarked) {
-            lastAddEq_.insert(i->derivative());
+            lastAddEq_.push_back(i->derivative());
         }
 
     }
-- 
2.43.0


From 4a99a398123d365ee77b301f32bbdcef815c2c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:10 +0000
Subject: [PATCH 43/45] fix: index patterns were lost when there was not enough
 memory to register them

---
 include/cppad/cg/code_handler_loops.hpp       |  3 ++
 .../cg/lang/c/language_c_index_patterns.hpp   | 37 +++++++++++--------
 .../cg/lang/latex/language_latex_arrays.hpp   |  8 ++--
 .../cg/lang/mathml/language_mathml_arrays.hpp |  8 ++--
 .../patterns/model_c_source_gen_loops.hpp     |  4 +-
 .../cg/patterns/index/index_pattern_impl.hpp  | 18 ++++-----
 .../patterns/index/plane_2d_index_pattern.hpp | 34 +++++++++--------
 .../index/sectioned_index_pattern.hpp         | 21 +++++++++++
 8 files changed, 81 insertions(+), 52 deletions(-)

diff --git a/include/cppad/cg/code_handler_loops.hpp b/include/cppad/cg/code_handler_loops.hpp
index ce47e5b..28d7ec9 100644
--- a/include/cppad/cg/code_handler_loops.hpp
+++ b/include/cppad/cg/code_handler_loops.hpp
@@ -109,11 +109,14 @@ size_t CodeHandler<Base>::LoopData::addDependentIndexPattern(IndexPattern& patte
 
 template<class Base>
 void CodeHandler<Base>::LoopData::manageDependentIndexPattern(const IndexPattern* pattern) {
+    std::unique_ptr<const IndexPattern> owner(pattern); // this handler is now responsible for deleting the pattern
+
     size_t sizeM = dependentIndexPatternManaged.size();
     if (dependentIndexPatternManaged.capacity() == sizeM) {
         dependentIndexPatternManaged.reserve((sizeM * 3) / 2 + 1);
     }
     dependentIndexPatternManaged.push_back(pattern);
+    owner.release();
 }
 
 template<class Base>
diff --git a/include/cppad/cg/lang/c/language_c_index_patterns.hpp b/include/cppad/cg/lang/c/language_c_index_patterns.hpp
index df4478f..b96a4b8 100644
--- a/include/cppad/cg/lang/c/language_c_index_patterns.hpp
+++ b/include/cppad/cg/lang/c/language_c_index_patterns.hpp
@@ -412,29 +412,34 @@ bool LanguageC<Base>::isOffsetBy(const SectionedIndexPattern& sIp,
 template<class Base>
 Plane2DIndexPattern* LanguageC<Base>::encapsulateIndexPattern(const LinearIndexPattern& refLIp,
                                                               size_t starti) {
-    std::unique_ptr<IndexPattern> ip2;
-
-    auto* lip2 = new LinearIndexPattern(refLIp);
-    ip2.reset(lip2);
-    lip2->setLinearConstantTerm(lip2->getLinearConstantTerm() - starti);
-
-    return new Plane2DIndexPattern(ip2.release(), new LinearIndexPattern(0, 1, 1, 0));
+    std::unique_ptr<LinearIndexPattern> lip1(new LinearIndexPattern(refLIp));
+    lip1->setLinearConstantTerm(lip1->getLinearConstantTerm() - starti);
+    std::unique_ptr<LinearIndexPattern> lip2(new LinearIndexPattern(0, 1, 1, 0));
+
+    auto* plane = new Plane2DIndexPattern(lip1.get(), lip2.get());
+    lip1.release();
+    lip2.release();
+    return plane;
 }
 
 template<class Base>
 Plane2DIndexPattern* LanguageC<Base>::encapsulateIndexPattern(const SectionedIndexPattern& refSecp,
                                                               size_t starti) {
-    std::unique_ptr<IndexPattern> ip2;
-
-    std::map<size_t, IndexPattern*> sections;
+    SmartMapValuePointer<size_t, IndexPattern> sections;
     for (const auto& section : refSecp.getLinearSections()) {
-        auto* lip2 = new LinearIndexPattern(*static_cast<LinearIndexPattern*> (section.second));
-        lip2->setLinearConstantTerm(lip2->getLinearConstantTerm() - starti);
-        sections[section.first] = lip2;
+        IndexPattern*& ip = sections[section.first];
+        auto* lip = new LinearIndexPattern(*static_cast<LinearIndexPattern*> (section.second));
+        ip = lip;
+        lip->setLinearConstantTerm(lip->getLinearConstantTerm() - starti);
     }
-    ip2.reset(new SectionedIndexPattern(sections));
-
-    return new Plane2DIndexPattern(ip2.release(), new LinearIndexPattern(0, 1, 1, 0));
+    std::unique_ptr<IndexPattern> ip1(new SectionedIndexPattern(sections.m));
+    sections.release();
+    std::unique_ptr<IndexPattern> ip2(new LinearIndexPattern(0, 1, 1, 0));
+
+    auto* plane = new Plane2DIndexPattern(ip1.get(), ip2.get());
+    ip1.release();
+    ip2.release();
+    return plane;
 }
 
 } // END cg namespace
diff --git a/include/cppad/cg/lang/latex/language_latex_arrays.hpp b/include/cppad/cg/lang/latex/language_latex_arrays.hpp
index 58f399c..85d1449 100644
--- a/include/cppad/cg/lang/latex/language_latex_arrays.hpp
+++ b/include/cppad/cg/lang/latex/language_latex_arrays.hpp
@@ -221,10 +221,10 @@ inline size_t LanguageLatex<Base>::printArrayCreationUsingLoop(size_t startPos,
             if (i - starti < 3)
                 return starti;
 
-            auto* lip2 = new LinearIndexPattern(*refLIp);
-            lip2->setLinearConstantTerm(lip2->getLinearConstantTerm() - starti);
-            Plane2DIndexPattern p2dip(lip2,
-                                      new LinearIndexPattern(0, 1, 1, 0));
+            std::unique_ptr<LinearIndexPattern> lip1(new LinearIndexPattern(*refLIp));
+            lip1->setLinearConstantTerm(lip1->getLinearConstantTerm() - starti);
+            std::unique_ptr<LinearIndexPattern> lip2(new LinearIndexPattern(0, 1, 1, 0));
+            Plane2DIndexPattern p2dip(lip1.release(), lip2.release());
 
             std::unique_ptr<OperationNode<Base>> op2(OperationNode<Base>::makeTemporaryNode(CGOpCode::LoopIndexedIndep, refOp.getInfo(), refOp.getArguments()));
             op2->getInfo()[1] = (std::numeric_limits<size_t>::max)(); // just to be safe (this would be the index pattern id in the handler)
diff --git a/include/cppad/cg/lang/mathml/language_mathml_arrays.hpp b/include/cppad/cg/lang/mathml/language_mathml_arrays.hpp
index e389f2d..2b8ce1d 100644
--- a/include/cppad/cg/lang/mathml/language_mathml_arrays.hpp
+++ b/include/cppad/cg/lang/mathml/language_mathml_arrays.hpp
@@ -220,10 +220,10 @@ inline size_t LanguageMathML<Base>::printArrayCreationUsingLoop(size_t startPos,
             if (i - starti < 3)
                 return starti;
 
-            LinearIndexPattern* lip2 = new LinearIndexPattern(*refLIp);
-            lip2->setLinearConstantTerm(lip2->getLinearConstantTerm() - starti);
-            Plane2DIndexPattern p2dip(lip2,
-                                      new LinearIndexPattern(0, 1, 1, 0));
+            std::unique_ptr<LinearIndexPattern> lip1(new LinearIndexPattern(*refLIp));
+            lip1->setLinearConstantTerm(lip1->getLinearConstantTerm() - starti);
+            std::unique_ptr<LinearIndexPattern> lip2(new LinearIndexPattern(0, 1, 1, 0));
+            Plane2DIndexPattern p2dip(lip1.release(), lip2.release());
 
             std::unique_ptr<OperationNode<Base>> op2(OperationNode<Base>::makeTemporaryNode(CGOpCode::LoopIndexedIndep, refOp.getInfo(), refOp.getArguments()));
             op2->getInfo()[1] = (std::numeric_limits<size_t>::max)(); // just to be safe (this would be the index pattern id in the handler)
diff --git a/include/cppad/cg/model/patterns/model_c_source_gen_loops.hpp b/include/cppad/cg/model/patterns/model_c_source_gen_loops.hpp
index 25052a6..3f62b1c 100644
--- a/include/cppad/cg/model/patterns/model_c_source_gen_loops.hpp
+++ b/include/cppad/cg/model/patterns/model_c_source_gen_loops.hpp
@@ -867,8 +867,8 @@ inline void determineForRevUsagePatterns(const std::map<LoopModel<Base>*, std::m
                         }
                     }
 
-                    ArrayElementGroup* eg = new ArrayElementGroup(keys, commonElSize);
-                    data->elCount2elements[commonElSize] = eg;
+                    ArrayElementGroup*& eg = data->elCount2elements[commonElSize];
+                    eg = new ArrayElementGroup(keys, commonElSize);
 
                     for (size_t e = 0; e < commonElSize; e++) {
                         eg->elements[e].resultPattern = IndexPattern::detect(resultPos[e]);
diff --git a/include/cppad/cg/patterns/index/index_pattern_impl.hpp b/include/cppad/cg/patterns/index/index_pattern_impl.hpp
index d5a404a..b78582b 100644
--- a/include/cppad/cg/patterns/index/index_pattern_impl.hpp
+++ b/include/cppad/cg/patterns/index/index_pattern_impl.hpp
@@ -23,12 +23,11 @@ IndexPattern* IndexPattern::detect(const VectorSizeT& x2y) {
     CPPADCG_ASSERT_UNKNOWN(x2y.size() > 0)
 
     size_t maxCount = std::min<size_t>(std::max<size_t>(3ul, x2y.size() / 4), 8ul);
-    std::map<size_t, IndexPattern*> linearSections = SectionedIndexPattern::detectLinearSections(x2y, maxCount);
+    SmartMapValuePointer<size_t, IndexPattern> linearSections;
+    linearSections.m = SectionedIndexPattern::detectLinearSections(x2y, maxCount);
 
-    if (linearSections.size() == 1) {
-        return linearSections.begin()->second;
-    } else if (!linearSections.empty()) {
-        return new SectionedIndexPattern(linearSections);
+    if (!linearSections.empty()) {
+        return SectionedIndexPattern::joinLinearSections(linearSections);
     } else {
         return new Random1DIndexPattern(x2y);
     }
@@ -39,12 +38,11 @@ IndexPattern* IndexPattern::detect(const std::map<size_t, size_t>& x2y) {
     CPPADCG_ASSERT_UNKNOWN(!x2y.empty())
 
     size_t maxCount = std::min<size_t>(std::max<size_t>(3ul, x2y.size() / 4), 8ul);
-    std::map<size_t, IndexPattern*> linearSections = SectionedIndexPattern::detectLinearSections(x2y, maxCount);
+    SmartMapValuePointer<size_t, IndexPattern> linearSections;
+    linearSections.m = SectionedIndexPattern::detectLinearSections(x2y, maxCount);
 
-    if (linearSections.size() == 1) {
-        return linearSections.begin()->second;
-    } else if (!linearSections.empty()) {
-        return new SectionedIndexPattern(linearSections);
+    if (!linearSections.empty()) {
+        return SectionedIndexPattern::joinLinearSections(linearSections);
     } else {
         return new Random1DIndexPattern(x2y);
     }
diff --git a/include/cppad/cg/patterns/index/plane_2d_index_pattern.hpp b/include/cppad/cg/patterns/index/plane_2d_index_pattern.hpp
index 37b99db..a66f79a 100644
--- a/include/cppad/cg/patterns/index/plane_2d_index_pattern.hpp
+++ b/include/cppad/cg/patterns/index/plane_2d_index_pattern.hpp
@@ -84,7 +84,10 @@ public:
         if (x2y2z.size() == 1) {
             // only one x -> fit z to y
             const std::map<size_t, size_t>& y2z = x2y2z.begin()->second;
-            return new Plane2DIndexPattern(nullptr, IndexPattern::detect(y2z));
+            std::unique_ptr<IndexPattern> py(IndexPattern::detect(y2z));
+            auto* plane = new Plane2DIndexPattern(nullptr, py.get());
+            py.release();
+            return plane;
         }
 
         // perhaps there is always only one y
@@ -106,7 +109,10 @@ public:
         }
 
         if (!x2z.empty()) {
-            return new Plane2DIndexPattern(IndexPattern::detect(x2z), nullptr);
+            std::unique_ptr<IndexPattern> px(IndexPattern::detect(x2z));
+            auto* plane = new Plane2DIndexPattern(px.get(), nullptr);
+            px.release();
+            return plane;
         }
 
         /**
@@ -142,34 +148,27 @@ public:
          */
         std::unique_ptr<IndexPattern> fx;
 
-        std::map<size_t, IndexPattern*> startSections = SectionedIndexPattern::detectLinearSections(x2zStart, 2);
+        SmartMapValuePointer<size_t, IndexPattern> startSections;
+        startSections.m = SectionedIndexPattern::detectLinearSections(x2zStart, 2);
         if (startSections.empty()) {
             return nullptr; // does not fit the pattern
         }
 
         // detected a pattern for the first z based on x
-        if (startSections.size() == 1) {
-            fx = std::unique_ptr<IndexPattern> (startSections.begin()->second);
-        } else {
-            fx = std::unique_ptr<IndexPattern> (new SectionedIndexPattern(startSections));
-        }
+        fx.reset(SectionedIndexPattern::joinLinearSections(startSections));
 
         /**
          * try to detect a pattern for the following iterations
          * based on the local loop index (local index != model index)
          */
-        std::map<size_t, IndexPattern*> sections = SectionedIndexPattern::detectLinearSections(y2zOffset, 2);
+        SmartMapValuePointer<size_t, IndexPattern> sections;
+        sections.m = SectionedIndexPattern::detectLinearSections(y2zOffset, 2);
         if (sections.empty()) {
             return nullptr; // does not fit the pattern
         }
 
         // detected a pattern for the z offset based on y
-        std::unique_ptr<IndexPattern> fy;
-        if (sections.size() == 1) {
-            fy = std::unique_ptr<IndexPattern> (sections.begin()->second);
-        } else {
-            fy = std::unique_ptr<IndexPattern> (new SectionedIndexPattern(sections));
-        }
+        std::unique_ptr<IndexPattern> fy(SectionedIndexPattern::joinLinearSections(sections));
 
         // simplify when both patterns are constant
         if (fx->getType() == IndexPatternType::Linear && fy->getType() == IndexPatternType::Linear) {
@@ -185,7 +184,10 @@ public:
             }
         }
 
-        return new Plane2DIndexPattern(fx.release(), fy.release());
+        auto* plane = new Plane2DIndexPattern(fx.get(), fy.get());
+        fx.release();
+        fy.release();
+        return plane;
     }
 
 };
diff --git a/include/cppad/cg/patterns/index/sectioned_index_pattern.hpp b/include/cppad/cg/patterns/index/sectioned_index_pattern.hpp
index 658b505..8c9b44f 100644
--- a/include/cppad/cg/patterns/index/sectioned_index_pattern.hpp
+++ b/include/cppad/cg/patterns/index/sectioned_index_pattern.hpp
@@ -207,6 +207,27 @@ public:
         return linearSections.release();
     }
 
+    /**
+     * Creates a single pattern from linear sections.
+     *
+     * @param linearSections the linear sections (at least one) which are
+     *                       released only on success
+     * @return the new pattern (must be deleted by the user)
+     */
+    static inline IndexPattern* joinLinearSections(SmartMapValuePointer<size_t, IndexPattern>& linearSections) {
+        CPPADCG_ASSERT_UNKNOWN(!linearSections.empty());
+
+        IndexPattern* pattern;
+        if (linearSections.size() == 1) {
+            pattern = linearSections.begin()->second;
+        } else {
+            pattern = new SectionedIndexPattern(linearSections.m);
+        }
+        linearSections.release();
+
+        return pattern;
+    }
+
 private:
 
     static inline void deleteIndexPatterns(std::map<size_t, IndexPattern*>& sections) {
-- 
2.43.0


From 8adba76cfbb7bf61fd2ed6250d0a23db67a90027 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:34:20 +0000
Subject: [PATCH 44/45] fix: the sources of models with loops depended on
 memory addresses

Equation patterns, loop models, index patterns, and operation nodes were
iterated in the order of their pointers, so that the order of the
declarations, loops and temporaries in the generated sources (and even their
number) could differ between otherwise identical generations.
---
 include/cppad/cg/code_handler.hpp             |  4 +-
 include/cppad/cg/code_handler_impl.hpp        | 22 +++++---
 include/cppad/cg/cppadcg.hpp                  |  1 +
 include/cppad/cg/lang/c/language_c.hpp        |  4 +-
 .../cg/lang/c/language_c_index_patterns.hpp   | 12 +++-
 include/cppad/cg/lang/dot/language_dot.hpp    |  4 +-
 .../lang/dot/language_dot_index_patterns.hpp  |  4 +-
 include/cppad/cg/lang/language.hpp            |  4 +-
 .../cppad/cg/lang/latex/language_latex.hpp    |  4 +-
 .../latex/language_latex_index_patterns.hpp   |  4 +-
 .../cppad/cg/lang/mathml/language_mathml.hpp  |  4 +-
 .../mathml/language_mathml_index_patterns.hpp |  4 +-
 .../patterns/model_c_source_gen_loops.hpp     | 12 ++--
 .../cppad/cg/patterns/index/index_pattern.hpp |  2 +-
 .../patterns/index/linear_index_pattern.hpp   |  2 +-
 .../patterns/index/plane_2d_index_pattern.hpp |  6 +-
 .../patterns/index/random_index_pattern.hpp   |  2 +-
 .../index/sectioned_index_pattern.hpp         |  4 +-
 include/cppad/cg/patterns/loop.hpp            | 18 +++++-
 include/cppad/cg/patterns/pattern_sorter.hpp  | 56 +++++++++++++++++++
 20 files changed, 131 insertions(+), 42 deletions(-)
 create mode 100644 include/cppad/cg/patterns/pattern_sorter.hpp

diff --git a/include/cppad/cg/code_handler.hpp b/include/cppad/cg/code_handler.hpp
index 2ee2d27..0ac13fc 100644
--- a/include/cppad/cg/code_handler.hpp
+++ b/include/cppad/cg/code_handler.hpp
@@ -558,7 +558,7 @@ public:
      *                           Index patterns
      **********************************************************************/
     static inline void findRandomIndexPatterns(IndexPattern* ip,
-                                               std::set<RandomIndexPattern*>& found);
+                                               std::vector<RandomIndexPattern*>& found);
 
     /**************************************************************************
      *                      Operation graph manipulation
@@ -860,7 +860,7 @@ protected:
         // the used indexes
         std::set<const Node*> indexes;
         // the used random index patterns
-        std::set<RandomIndexPattern*> indexRandomPatterns;
+        std::vector<RandomIndexPattern*> indexRandomPatterns;
         //
         std::vector<IndexPattern*> dependentIndexPatterns;
         std::vector<const IndexPattern*> dependentIndexPatternManaged; // garbage collection
diff --git a/include/cppad/cg/code_handler_impl.hpp b/include/cppad/cg/code_handler_impl.hpp
index 5014f8f..227266b 100644
--- a/include/cppad/cg/code_handler_impl.hpp
+++ b/include/cppad/cg/code_handler_impl.hpp
@@ -681,18 +681,26 @@ CG<Base> CodeHandler<Base>::createCG(const Arg& arg) {
  *****************************************************************************/
 template<class Base>
 inline void CodeHandler<Base>::findRandomIndexPatterns(IndexPattern* ip,
-                                                       std::set<RandomIndexPattern*>& found) {
+                                                       std::vector<RandomIndexPattern*>& found) {
     if (ip == nullptr)
         return;
 
-    if (ip->getType() == IndexPatternType::Random1D || ip->getType() == IndexPatternType::Random2D) {
-        found.insert(static_cast<RandomIndexPattern*> (ip));
-    } else {
-        std::set<IndexPattern*> indexes;
+    // the patterns are kept in the order they are found to ensure reproducibility
+    auto addRandom = [&found](IndexPattern* p) {
+        if (p->getType() == IndexPatternType::Random1D || p->getType() == IndexPatternType::Random2D) {
+            auto* rp = static_cast<RandomIndexPattern*> (p);
+            if (std::find(found.begin(), found.end(), rp) == found.end())
+                found.push_back(rp);
+            return true;
+        }
+        return false;
+    };
+
+    if (!addRandom(ip)) {
+        std::vector<IndexPattern*> indexes;
         ip->getSubIndexes(indexes);
         for (IndexPattern* sip : indexes) {
-            if (sip->getType() == IndexPatternType::Random1D || sip->getType() == IndexPatternType::Random2D)
-                found.insert(static_cast<RandomIndexPattern*> (sip));
+            addRandom(sip);
         }
     }
 }
diff --git a/include/cppad/cg/cppadcg.hpp b/include/cppad/cg/cppadcg.hpp
index 208e9aa..d9750fc 100644
--- a/include/cppad/cg/cppadcg.hpp
+++ b/include/cppad/cg/cppadcg.hpp
@@ -134,6 +134,7 @@ static_assert(false,
 #include <cppad/cg/lang/lang_stream_stack.hpp>
 #include <cppad/cg/scope_path_element.hpp>
 #include <cppad/cg/array_id_compresser.hpp>
+#include <cppad/cg/patterns/pattern_sorter.hpp>
 #include <cppad/cg/patterns/loop_position.hpp>
 #include <cppad/cg/arithmetic.hpp>
 #include <cppad/cg/arithmetic_assign.hpp>
diff --git a/include/cppad/cg/lang/c/language_c.hpp b/include/cppad/cg/lang/c/language_c.hpp
index 6a7c496..d3cc02d 100644
--- a/include/cppad/cg/lang/c/language_c.hpp
+++ b/include/cppad/cg/lang/c/language_c.hpp
@@ -608,11 +608,11 @@ public:
     /***********************************************************************
      * index patterns
      **********************************************************************/
-    static inline void generateNames4RandomIndexPatterns(const std::set<RandomIndexPattern*>& randomPatterns);
+    static inline void generateNames4RandomIndexPatterns(const std::vector<RandomIndexPattern*>& randomPatterns);
 
     static inline void printRandomIndexPatternDeclaration(std::ostringstream& os,
                                                           const std::string& identation,
-                                                          const std::set<RandomIndexPattern*>& randomPatterns);
+                                                          const std::vector<RandomIndexPattern*>& randomPatterns);
 
     static inline std::string indexPattern2String(const IndexPattern& ip,
                                                   const Node& index);
diff --git a/include/cppad/cg/lang/c/language_c_index_patterns.hpp b/include/cppad/cg/lang/c/language_c_index_patterns.hpp
index b96a4b8..9184ce4 100644
--- a/include/cppad/cg/lang/c/language_c_index_patterns.hpp
+++ b/include/cppad/cg/lang/c/language_c_index_patterns.hpp
@@ -20,7 +20,7 @@ namespace CppAD {
 namespace cg {
 
 template<class Base>
-inline void LanguageC<Base>::generateNames4RandomIndexPatterns(const std::set<RandomIndexPattern*>& randomPatterns) {
+inline void LanguageC<Base>::generateNames4RandomIndexPatterns(const std::vector<RandomIndexPattern*>& randomPatterns) {
     StrictOStringStream os;
 
     std::set<std::string> usedNames;
@@ -55,7 +55,7 @@ inline void LanguageC<Base>::generateNames4RandomIndexPatterns(const std::set<Ra
 template<class Base>
 inline void LanguageC<Base>::printRandomIndexPatternDeclaration(std::ostringstream& os,
                                                                 const std::string& indentation,
-                                                                const std::set<RandomIndexPattern*>& randomPatterns) {
+                                                                const std::vector<RandomIndexPattern*>& randomPatterns) {
     for (RandomIndexPattern* ip : randomPatterns) {
         if (ip->getType() == IndexPatternType::Random1D) {
             /**
@@ -96,8 +96,14 @@ inline void LanguageC<Base>::createIndexDeclaration() {
 
     printRandomIndexPatternDeclaration(_ss, _spaces, _info->indexRandomPatterns);
 
+    // to ensure reproducibility, the order cannot depend on the memory addresses
+    std::vector<const OperationNode<Base>*> indexes(_info->indexes.begin(), _info->indexes.end());
+    std::sort(indexes.begin(), indexes.end(), [](const OperationNode<Base>* i1, const OperationNode<Base>* i2) {
+        return i1->getHandlerPosition() < i2->getHandlerPosition();
+    });
+
     _ss << _spaces << U_INDEX_TYPE;
-    for (const OperationNode<Base>* iti : _info->indexes) {
+    for (const OperationNode<Base>* iti : indexes) {
 
         if (funcArgs.find(iti) == funcArgs.end()) {
             if (first) first = false;
diff --git a/include/cppad/cg/lang/dot/language_dot.hpp b/include/cppad/cg/lang/dot/language_dot.hpp
index 243397b..b5e72b0 100644
--- a/include/cppad/cg/lang/dot/language_dot.hpp
+++ b/include/cppad/cg/lang/dot/language_dot.hpp
@@ -213,10 +213,10 @@ public:
     /***************************************************************************
      * index patterns
      **************************************************************************/
-    static inline void generateNames4RandomIndexPatterns(const std::set<RandomIndexPattern*>& randomPatterns);
+    static inline void generateNames4RandomIndexPatterns(const std::vector<RandomIndexPattern*>& randomPatterns);
 
     inline void printRandomIndexPatternDeclaration(std::ostringstream& os,
-                                                   const std::set<RandomIndexPattern*>& randomPatterns);
+                                                   const std::vector<RandomIndexPattern*>& randomPatterns);
 
     static void indexPattern2String(std::ostream& os,
                                     const IndexPattern& ip,
diff --git a/include/cppad/cg/lang/dot/language_dot_index_patterns.hpp b/include/cppad/cg/lang/dot/language_dot_index_patterns.hpp
index 7cfdce8..f149fca 100644
--- a/include/cppad/cg/lang/dot/language_dot_index_patterns.hpp
+++ b/include/cppad/cg/lang/dot/language_dot_index_patterns.hpp
@@ -20,7 +20,7 @@ namespace CppAD {
 namespace cg {
 
 template<class Base>
-inline void LanguageDot<Base>::generateNames4RandomIndexPatterns(const std::set<RandomIndexPattern*>& randomPatterns) {
+inline void LanguageDot<Base>::generateNames4RandomIndexPatterns(const std::vector<RandomIndexPattern*>& randomPatterns) {
     StrictOStringStream os;
 
     std::set<std::string> usedNames;
@@ -54,7 +54,7 @@ inline void LanguageDot<Base>::generateNames4RandomIndexPatterns(const std::set<
 
 template<class Base>
 inline void LanguageDot<Base>::printRandomIndexPatternDeclaration(std::ostringstream& os,
-                                                                  const std::set<RandomIndexPattern*>& randomPatterns) {
+                                                                  const std::vector<RandomIndexPattern*>& randomPatterns) {
     if (randomPatterns.empty())
         return;
 
diff --git a/include/cppad/cg/lang/language.hpp b/include/cppad/cg/lang/language.hpp
index b13ed6a..82180ff 100644
--- a/include/cppad/cg/lang/language.hpp
+++ b/include/cppad/cg/lang/language.hpp
@@ -84,7 +84,7 @@ public:
     //
     const std::set<const Node*>& indexes;
     //
-    const std::set<RandomIndexPattern*>& indexRandomPatterns;
+    const std::vector<RandomIndexPattern*>& indexRandomPatterns;
     //
     const std::vector<IndexPattern*>& loopDependentIndexPatterns;
     //
@@ -121,7 +121,7 @@ public:
                            const std::vector<int>& atomicMaxReverse,
                            const bool ri,
                            const std::set<const Node*>& indexes,
-                           const std::set<RandomIndexPattern*>& idxRandomPatterns,
+                           const std::vector<RandomIndexPattern*>& idxRandomPatterns,
                            const std::vector<IndexPattern*>& dependentIndexPatterns,
                            const std::vector<IndexPattern*>& independentIndexPatterns,
                            const CodeHandlerVector<Base, size_t>& totalUseCount,
diff --git a/include/cppad/cg/lang/latex/language_latex.hpp b/include/cppad/cg/lang/latex/language_latex.hpp
index 3e6193f..1ceb1dd 100644
--- a/include/cppad/cg/lang/latex/language_latex.hpp
+++ b/include/cppad/cg/lang/latex/language_latex.hpp
@@ -660,11 +660,11 @@ public:
     /***************************************************************************
      * index patterns
      **************************************************************************/
-    static inline void generateNames4RandomIndexPatterns(const std::set<RandomIndexPattern*>& randomPatterns);
+    static inline void generateNames4RandomIndexPatterns(const std::vector<RandomIndexPattern*>& randomPatterns);
 
     inline void printRandomIndexPatternDeclaration(std::ostringstream& os,
                                                    const std::string& identation,
-                                                   const std::set<RandomIndexPattern*>& randomPatterns);
+                                                   const std::vector<RandomIndexPattern*>& randomPatterns);
 
     static inline std::string indexPattern2String(const IndexPattern& ip,
                                                   const Node& index);
diff --git a/include/cppad/cg/lang/latex/language_latex_index_patterns.hpp b/include/cppad/cg/lang/latex/language_latex_index_patterns.hpp
index e7eb82f..02fc77d 100644
--- a/include/cppad/cg/lang/latex/language_latex_index_patterns.hpp
+++ b/include/cppad/cg/lang/latex/language_latex_index_patterns.hpp
@@ -20,7 +20,7 @@ namespace CppAD {
 namespace cg {
 
 template<class Base>
-inline void LanguageLatex<Base>::generateNames4RandomIndexPatterns(const std::set<RandomIndexPattern*>& randomPatterns) {
+inline void LanguageLatex<Base>::generateNames4RandomIndexPatterns(const std::vector<RandomIndexPattern*>& randomPatterns) {
     StrictOStringStream os;
 
     std::set<std::string> usedNames;
@@ -55,7 +55,7 @@ inline void LanguageLatex<Base>::generateNames4RandomIndexPatterns(const std::se
 template<class Base>
 inline void LanguageLatex<Base>::printRandomIndexPatternDeclaration(std::ostringstream& os,
                                                                     const std::string& indentation,
-                                                                    const std::set<RandomIndexPattern*>& randomPatterns) {
+                                                                    const std::vector<RandomIndexPattern*>& randomPatterns) {
     for (RandomIndexPattern* ip : randomPatterns) {
         if (ip->getType() == IndexPatternType::Random1D) {
             /**
diff --git a/include/cppad/cg/lang/mathml/language_mathml.hpp b/include/cppad/cg/lang/mathml/language_mathml.hpp
index 71e6dec..c269fe6 100644
--- a/include/cppad/cg/lang/mathml/language_mathml.hpp
+++ b/include/cppad/cg/lang/mathml/language_mathml.hpp
@@ -509,11 +509,11 @@ public:
     /***************************************************************************
      * index patterns
      **************************************************************************/
-    static inline void generateNames4RandomIndexPatterns(const std::set<RandomIndexPattern*>& randomPatterns);
+    static inline void generateNames4RandomIndexPatterns(const std::vector<RandomIndexPattern*>& randomPatterns);
 
     inline void printRandomIndexPatternDeclaration(std::ostringstream& os,
                                                    const std::string& identation,
-                                                   const std::set<RandomIndexPattern*>& randomPatterns);
+                                                   const std::vector<RandomIndexPattern*>& randomPatterns);
 
     static void indexPattern2String(std::ostream& os,
                                     const IndexPattern& ip,
diff --git a/include/cppad/cg/lang/mathml/language_mathml_index_patterns.hpp b/include/cppad/cg/lang/mathml/language_mathml_index_patterns.hpp
index 8cfa374..b805980 100644
--- a/include/cppad/cg/lang/mathml/language_mathml_index_patterns.hpp
+++ b/include/cppad/cg/lang/mathml/language_mathml_index_patterns.hpp
@@ -20,7 +20,7 @@ namespace CppAD {
 namespace cg {
 
 template<class Base>
-inline void LanguageMathML<Base>::generateNames4RandomIndexPatterns(const std::set<RandomIndexPattern*>& randomPatterns) {
+inline void LanguageMathML<Base>::generateNames4RandomIndexPatterns(const std::vector<RandomIndexPattern*>& randomPatterns) {
     StrictOStringStream os;
 
     std::set<std::string> usedNames;
@@ -55,7 +55,7 @@ inline void LanguageMathML<Base>::generateNames4RandomIndexPatterns(const std::s
 template<class Base>
 inline void LanguageMathML<Base>::printRandomIndexPatternDeclaration(std::ostringstream& os,
                                                                      const std::string& indentation,
-                                                                     const std::set<RandomIndexPattern*>& randomPatterns) {
+                                                                     const std::vector<RandomIndexPattern*>& randomPatterns) {
     for (RandomIndexPattern* ip : randomPatterns) {
         if (ip->getType() == IndexPatternType::Random1D) {
             /**
diff --git a/include/cppad/cg/model/patterns/model_c_source_gen_loops.hpp b/include/cppad/cg/model/patterns/model_c_source_gen_loops.hpp
index 3f62b1c..3fccfe5 100644
--- a/include/cppad/cg/model/patterns/model_c_source_gen_loops.hpp
+++ b/include/cppad/cg/model/patterns/model_c_source_gen_loops.hpp
@@ -259,9 +259,13 @@ inline void moveNonIndexedOutsideLoop(CodeHandler<Base>& handler,
 
     size_t sas = startArgs.size();
     startArgs.resize(sas + nonIndexed.size());
-    size_t i = 0;
-    for (auto it = nonIndexed.begin(); it != nonIndexed.end(); ++it, i++) {
-        startArgs[sas + i] = **it;
+    // the creation order is used instead of the memory addresses so that the sources are reproducible
+    std::vector<OperationNode<Base>*> sorted(nonIndexed.begin(), nonIndexed.end());
+    std::sort(sorted.begin(), sorted.end(), [](const OperationNode<Base>* n1, const OperationNode<Base>* n2) {
+        return n1->getHandlerPosition() < n2->getHandlerPosition();
+    });
+    for (size_t i = 0; i < sorted.size(); i++) {
+        startArgs[sas + i] = *sorted[i];
     }
 }
 
@@ -937,7 +941,7 @@ void printForRevUsageFunction(std::ostringstream& out,
     /**
      * Find random index patterns
      */
-    set<RandomIndexPattern*> indexRandomPatterns;
+    std::vector<RandomIndexPattern*> indexRandomPatterns;
 
     for (const auto& itItlg : loopCalls) {
 
diff --git a/include/cppad/cg/patterns/index/index_pattern.hpp b/include/cppad/cg/patterns/index/index_pattern.hpp
index d6c3924..23688dc 100644
--- a/include/cppad/cg/patterns/index/index_pattern.hpp
+++ b/include/cppad/cg/patterns/index/index_pattern.hpp
@@ -26,7 +26,7 @@ public:
 
     virtual IndexPatternType getType() const = 0;
 
-    virtual void getSubIndexes(std::set<IndexPattern*>& indexes) const = 0;
+    virtual void getSubIndexes(std::vector<IndexPattern*>& indexes) const = 0;
 
     inline virtual ~IndexPattern() {
     }
diff --git a/include/cppad/cg/patterns/index/linear_index_pattern.hpp b/include/cppad/cg/patterns/index/linear_index_pattern.hpp
index 91b3565..37dc10e 100644
--- a/include/cppad/cg/patterns/index/linear_index_pattern.hpp
+++ b/include/cppad/cg/patterns/index/linear_index_pattern.hpp
@@ -69,7 +69,7 @@ public:
         return IndexPatternType::Linear;
     }
 
-    inline void getSubIndexes(std::set<IndexPattern*>& indexes) const override {
+    inline void getSubIndexes(std::vector<IndexPattern*>& indexes) const override {
         // nothing to add
     }
 
diff --git a/include/cppad/cg/patterns/index/plane_2d_index_pattern.hpp b/include/cppad/cg/patterns/index/plane_2d_index_pattern.hpp
index a66f79a..1548162 100644
--- a/include/cppad/cg/patterns/index/plane_2d_index_pattern.hpp
+++ b/include/cppad/cg/patterns/index/plane_2d_index_pattern.hpp
@@ -55,13 +55,13 @@ public:
         return IndexPatternType::Plane2D;
     }
 
-    inline void getSubIndexes(std::set<IndexPattern*>& indexes) const override {
+    inline void getSubIndexes(std::vector<IndexPattern*>& indexes) const override {
         if (pattern1_ != nullptr) {
-            indexes.insert(pattern1_);
+            indexes.push_back(pattern1_);
             pattern1_->getSubIndexes(indexes);
         }
         if (pattern2_ != nullptr) {
-            indexes.insert(pattern2_);
+            indexes.push_back(pattern2_);
             pattern2_->getSubIndexes(indexes);
         }
     }
diff --git a/include/cppad/cg/patterns/index/random_index_pattern.hpp b/include/cppad/cg/patterns/index/random_index_pattern.hpp
index d96684b..eab49a8 100644
--- a/include/cppad/cg/patterns/index/random_index_pattern.hpp
+++ b/include/cppad/cg/patterns/index/random_index_pattern.hpp
@@ -27,7 +27,7 @@ protected:
     std::string name_;
 public:
 
-    inline void getSubIndexes(std::set<IndexPattern*>& indexes) const override {
+    inline void getSubIndexes(std::vector<IndexPattern*>& indexes) const override {
         // nothing to add
     }
 
diff --git a/include/cppad/cg/patterns/index/sectioned_index_pattern.hpp b/include/cppad/cg/patterns/index/sectioned_index_pattern.hpp
index 8c9b44f..541b249 100644
--- a/include/cppad/cg/patterns/index/sectioned_index_pattern.hpp
+++ b/include/cppad/cg/patterns/index/sectioned_index_pattern.hpp
@@ -42,9 +42,9 @@ public:
         return IndexPatternType::Sectioned;
     }
 
-    inline void getSubIndexes(std::set<IndexPattern*>& indexes) const override {
+    inline void getSubIndexes(std::vector<IndexPattern*>& indexes) const override {
         for (const auto& it : sections_) {
-            indexes.insert(it.second);
+            indexes.push_back(it.second);
             it.second->getSubIndexes(indexes);
         }
     }
diff --git a/include/cppad/cg/patterns/loop.hpp b/include/cppad/cg/patterns/loop.hpp
index 621a20c..f2aad4c 100644
--- a/include/cppad/cg/patterns/loop.hpp
+++ b/include/cppad/cg/patterns/loop.hpp
@@ -52,6 +52,17 @@ template<class Base>
 class Loop {
 private:
     using IndexValue = std::pair<size_t, CG<Base> >;
+
+    /**
+     * Sorts clones by their creation order (instead of their memory addresses)
+     */
+    struct ClonePositionSorter {
+
+        inline bool operator()(const OperationNode<Base>* node1,
+                               const OperationNode<Base>* node2) const {
+            return node1->getHandlerPosition() < node2->getHandlerPosition();
+        }
+    };
 public:
     /**
      * The equations inside the loop
@@ -120,7 +131,7 @@ private:
     /**
      * independent variables for the loop created from temporary variables (clones)
      */
-    std::map<const OperationNode<Base>*, IndexValue> independentsTemp_;
+    std::map<const OperationNode<Base>*, IndexValue, ClonePositionSorter> independentsTemp_;
     /**
      * id -> clone
      */
@@ -192,6 +203,9 @@ public:
 
         for (std::set<size_t>* it : newLoopRelations)
             eqGroups_[0].linkedDependents.push_back(*it);
+
+        // the order must not depend on memory addresses
+        std::sort(eqGroups_[0].linkedDependents.begin(), eqGroups_[0].linkedDependents.end());
     }
 
     inline void addLinkedEquationsByNonIndexed(EquationPattern<Base>* eq1,
@@ -795,7 +809,7 @@ private:
                 independentsTemp_.size();
         std::vector<ADCGB> loopIndeps(nIndep);
 
-        typename std::map<const OperationNode<Base>*, IndexValue>::const_iterator itt;
+        typename std::map<const OperationNode<Base>*, IndexValue, ClonePositionSorter>::const_iterator itt;
         typename std::map<size_t, const OperationNode<Base>*>::const_iterator origJ2CloneIt;
 
         if (nIndep == 0) {
diff --git a/include/cppad/cg/patterns/pattern_sorter.hpp b/include/cppad/cg/patterns/pattern_sorter.hpp
new file mode 100644
index 0000000..e7112c9
--- /dev/null
+++ b/include/cppad/cg/patterns/pattern_sorter.hpp
@@ -0,0 +1,56 @@
+#ifndef CPPAD_CG_PATTERN_SORTER_INCLUDED
+#define CPPAD_CG_PATTERN_SORTER_INCLUDED
+/* --------------------------------------------------------------------------
+ *  CppADCodeGen: C++ Algorithmic Differentiation with Source Code Generation:
+ *    Copyright (C) 2026 Ciengis
+ *
+ *  CppADCodeGen is distributed under multiple licenses:
+ *
+ *   - Eclipse Public License Version 1.0 (EPL1), and
+ *   - GNU General Public License Version 3 (GPL3).
+ *
+ *  EPL1 terms and conditions can be found in the file "epl-v10.txt", while
+ *  terms and conditions for the GPL3 can be found in the file "gpl3.txt".
+ * ----------------------------------------------------------------------------
+ * Author: Joao Leal
+ */
+
+/**
+ * Equation patterns and loop models are placed in ordered containers using
+ * their pointers. The contents of these containers determine the order of the
+ * elements in the loops and, therefore, the generated source code which must
+ * not depend on the memory addresses of these objects.
+ */
+namespace std {
+
+/**
+ * Sorts equation patterns by the index of their reference dependent
+ */
+template<class Base>
+struct less<CppAD::cg::EquationPattern<Base>*> {
+
+    inline bool operator()(const CppAD::cg::EquationPattern<Base>* eq1,
+                           const CppAD::cg::EquationPattern<Base>* eq2) const {
+        if (eq1 != nullptr && eq2 != nullptr && eq1->depRefIndex != eq2->depRefIndex)
+            return eq1->depRefIndex < eq2->depRefIndex;
+        return less<const CppAD::cg::EquationPattern<Base>*>()(eq1, eq2);
+    }
+};
+
+/**
+ * Sorts loop models by the identifier they have within their model
+ */
+template<class Base>
+struct less<CppAD::cg::LoopModel<Base>*> {
+
+    inline bool operator()(const CppAD::cg::LoopModel<Base>* loop1,
+                           const CppAD::cg::LoopModel<Base>* loop2) const {
+        if (loop1 != nullptr && loop2 != nullptr && loop1->getLoopId() != loop2->getLoopId())
+            return loop1->getLoopId() < loop2->getLoopId();
+        return less<const CppAD::cg::LoopModel<Base>*>()(loop1, loop2);
+    }
+};
+
+}
+
+#endif
-- 
2.43.0


From 82adb1c6a8e240d9071e07a5ec457dfc2b606216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:36 +0000
Subject: [PATCH 45/45] fix: an interrupted index reduction leaked the nodes of
 its graph

The nodes were only deleted by the destructor which does not run when the
constructor fails (e.g., for more than one integrated variable or for a system
which is not well determined).
---
 .../dae_index_reduction/bipartite_graph.hpp   | 32 +++++++++++++++----
 .../cg/dae_index_reduction/dummy_deriv.hpp    |  2 ++
 2 files changed, 27 insertions(+), 7 deletions(-)

diff --git a/include/cppad/cg/dae_index_reduction/bipartite_graph.hpp b/include/cppad/cg/dae_index_reduction/bipartite_graph.hpp
index 7bee35a..1b4b6b9 100644
--- a/include/cppad/cg/dae_index_reduction/bipartite_graph.hpp
+++ b/include/cppad/cg/dae_index_reduction/bipartite_graph.hpp
@@ -31,6 +31,24 @@ class BipartiteGraph {
 protected:
     using CGBase = CppAD::cg::CG<Base>;
     using ADCG = CppAD::AD<CGBase>;
+private:
+
+    /**
+     * Deletes the nodes, even when the graph was not completely created
+     */
+    struct NodeOwner {
+        const std::vector<Vnode<Base>*>& vnodes;
+        const std::vector<Enode<Base>*>& enodes;
+
+        inline ~NodeOwner() {
+            for (Enode<Base>* i : enodes)
+                delete i;
+
+            for (Vnode<Base>* j : vnodes)
+                delete j;
+        }
+    };
+
 protected:
     /**
      * The original model
@@ -47,6 +65,7 @@ protected:
     // Bipartite graph ([equation i][variable j])
     std::vector<Vnode<Base>*> vnodes_;
     std::vector<Enode<Base>*> enodes_;
+    NodeOwner nodeOwner_;
     /**
      * the maximum order of the time derivatives in the original model
      */
@@ -79,6 +98,7 @@ public:
                    SimpleLogger& logger) :
             fun_(&fun),
             varInfo_(varInfo),
+            nodeOwner_{vnodes_, enodes_},
             origMaxTimeDivOrder_(0),
             origTimeDependentCount_(0),
             preserveNames_(false),
@@ -255,13 +275,7 @@ public:
 
     BipartiteGraph& operator=(const BipartiteGraph& p) = delete;
 
-    virtual ~BipartiteGraph() {
-        for (size_t i = 0; i < enodes_.size(); i++)
-            delete enodes_[i];
-
-        for (size_t j = 0; j < vnodes_.size(); j++)
-            delete vnodes_[j];
-    }
+    virtual ~BipartiteGraph() = default;
 
 
     inline std::vector<Vnode<Base>*>& variables() {
@@ -389,6 +403,8 @@ public:
         size_t newVarCount = vnodes_.size() - origTimeDependentCount_;
         size_t tapeIndex = varInfo_.size() + newVarCount;
 
+        if (vnodes_.size() == vnodes_.capacity())
+            vnodes_.reserve(2 * vnodes_.size() + 1); // the node must not be lost
         Vnode<Base>* jDiff = new Vnode<Base> (vnodes_.size(), tapeIndex, &j);
         vnodes_.push_back(jDiff);
 
@@ -403,6 +419,8 @@ public:
         if (i.derivative() != nullptr)
             return i.derivative();
 
+        if (enodes_.size() == enodes_.capacity())
+            enodes_.reserve(2 * enodes_.size() + 1); // the node must not be lost
         Enode<Base>* iDiff = new Enode<Base> (enodes_.size(), &i);
         enodes_.push_back(iDiff);
 
diff --git a/include/cppad/cg/dae_index_reduction/dummy_deriv.hpp b/include/cppad/cg/dae_index_reduction/dummy_deriv.hpp
index eb280d7..47daf79 100644
--- a/include/cppad/cg/dae_index_reduction/dummy_deriv.hpp
+++ b/include/cppad/cg/dae_index_reduction/dummy_deriv.hpp
@@ -753,6 +753,8 @@ protected:
              * Create a new bipartite graph
              */
             // create variable nodes
+            diffVariables.reserve(vnodes.size()); // the nodes must not be lost
+            dummyVariables.reserve(vnodes.size());
             map<Vnode<Base>*, Vnode<Base>*> eliminateOrig2New;
             for (size_t j = 0; j < vnodes.size(); j++) {
                 Vnode<Base>* v = vnodes[j];
-- 
2.43.0

